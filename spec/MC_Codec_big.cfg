SPECIFICATION Spec
CONSTANTS
  n = 2
  W = 2
  L = 14
  MaxC = 27
INVARIANTS IsRun Sound Complete TcOk FldOk LenOk
PROPERTY BadIsFinal
