SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2}
  NTx = 3
  NOps = 3
  Levels = {1}
  OldRead = FALSE
INVARIANTS Agrees Content Heads Chain Latches Clean NoLost SR
CHECK_DEADLOCK FALSE
