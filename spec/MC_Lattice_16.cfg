SPECIFICATION Spec
CONSTANTS Degrees = {4, 8, 16}
 Runs = 60
 MaxC = 3
INVARIANT Meaning
CHECK_DEADLOCK FALSE
