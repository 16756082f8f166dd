SPECIFICATION Spec
CONSTANTS q = 13
 m = 3
 maxfg = 3
 maxF = 2
 gsnum = 178
 gsden = 10
INVARIANTS GoodOut FirstGood GUnique
PROPERTY Ends
CHECK_DEADLOCK FALSE
