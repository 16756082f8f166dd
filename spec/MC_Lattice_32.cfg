SPECIFICATION Spec
CONSTANTS Degrees = {32}
 Runs = 12
 MaxC = 2
INVARIANT Meaning
CHECK_DEADLOCK FALSE
