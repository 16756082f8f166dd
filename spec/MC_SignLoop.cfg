SPECIFICATION Spec
CONSTANTS q = 17
 W = 1
 Bits = 8
 Bnd = 60
 M = 5
 Win = {0, 1}
 FG <- FGs
INVARIANTS Preimage IssuedIsAccepted FirstGood Unique
CHECK_DEADLOCK FALSE
