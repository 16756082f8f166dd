SPECIFICATION Spec
CONSTANTS
 Threads = 3
 Segs = 3
INVARIANT Done
