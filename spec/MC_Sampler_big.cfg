SPECIFICATION Spec
CONSTANTS Centres = 256
 Deviations = 64
INVARIANTS Law Rate Far
CHECK_DEADLOCK FALSE
