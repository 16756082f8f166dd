SPECIFICATION Spec
CONSTANTS Centres = 32
 Deviations = 10
INVARIANTS Law Rate Far
CHECK_DEADLOCK FALSE
