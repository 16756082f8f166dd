SPECIFICATION Spec
CONSTANTS
 Callers = {c1, c2}
 MaxGen = 3
 MaxOps = 4
 SaltSize = 2
 MaxTries = 2
INVARIANTS OneUse SeedsDistinct SaltsOnce Consecutive
