SPECIFICATION Spec
CONSTANTS
  n = 2
  W = 2
  L = 0
  MaxC = 15
INVARIANTS IsRun Sound Complete TcOk FldOk LenOk
PROPERTY BadIsFinal
