SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  NTx = 2
  NOps = 2
  Levels = {1}
  OldRead = TRUE
INVARIANTS Agrees Content Heads Chain Latches Clean NoLost SR
CHECK_DEADLOCK FALSE
