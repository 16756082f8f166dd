SPECIFICATION Spec
CONSTANTS
 n = 3
 q = 3
 base = 8
 block = 2
 maxw = 5
INVARIANTS InRange IsFold Declarative Partial Unbiased
