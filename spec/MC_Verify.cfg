SPECIFICATION Spec
CONSTANTS
 q = 3
 m = 3
 bmax = 14
INVARIANTS Solves Shortest Verdict
