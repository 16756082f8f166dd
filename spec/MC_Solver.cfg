SPECIFICATION Spec
CONSTANTS n = 2
 m = 3
 q = 17
INVARIANTS Exact Criterion Shortest
CHECK_DEADLOCK FALSE
