SPECIFICATION Spec
CONSTANTS n = 4
 m = 1
 q = 17
INVARIANTS Exact Criterion
CHECK_DEADLOCK FALSE
