SPECIFICATION Spec
CONSTANTS
 Threads = {t1, t2, t3}
 Values = {0, 1}
 Steps = 2
 Calls = 4
INVARIANTS Function InputsKept NothingNext
