SPECIFICATION Spec
CONSTANTS Degrees = {2, 4, 8}
 Runs = 40
 MaxC = 3
INVARIANT Meaning
CHECK_DEADLOCK FALSE
