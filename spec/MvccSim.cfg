SPECIFICATION Spec
CONSTANTS
  Keys = {1, 2, 3}
  NTx = 4
  NOps = 5
  Levels = {1, 2, 3}
  OldRead = FALSE
INVARIANTS Agrees Content Heads Chain Latches Clean NoLost SR
CHECK_DEADLOCK FALSE
