SPECIFICATION Spec
CONSTANTS
  n = 3
  W = 1
  L = 11
  MaxC = 5
INVARIANTS IsRun Sound Complete TcOk FldOk LenOk
PROPERTY BadIsFinal
