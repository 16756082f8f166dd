SPECIFICATION Spec
CONSTANTS
 q = 5
 m = 3
 bmax = 20
INVARIANTS Solves Shortest Verdict
