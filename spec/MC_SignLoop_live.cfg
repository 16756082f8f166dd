SPECIFICATION Spec
CONSTANTS q = 17
 W = 1
 Bits = 8
 Bnd = 60
 M = 5
 Win = {0, 1}
 FG <- One
INVARIANTS Preimage IssuedIsAccepted FirstGood Unique
PROPERTY Ends
CHECK_DEADLOCK FALSE
