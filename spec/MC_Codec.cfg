SPECIFICATION Spec
CONSTANTS
  n = 2
  W = 2
  L = 11
  MaxC = 15
INVARIANTS IsRun Sound Complete TcOk FldOk LenOk
PROPERTY BadIsFinal
