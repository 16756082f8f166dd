SPECIFICATION Spec
CONSTANTS
 Threads = {t1, t2}
 Values = {0, 1}
 Steps = 2
 Calls = 3
INVARIANTS Function InputsKept NothingNext
