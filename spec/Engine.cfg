SPECIFICATION Spec
CONSTANTS
  Station = {s1, s2}
  Body = {b1, b2}
  Flags = {TRUE, FALSE}
  Nil = Nil
  MaxCalls = 2
  ResetAtStart = TRUE
  ResetAtEnd = TRUE
  ResetEdges = TRUE
  SumApart = TRUE
  NegateTwin = TRUE
INVARIANT ResultsRight
PROPERTY Refines
CHECK_DEADLOCK FALSE
