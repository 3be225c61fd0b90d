INIT Init
NEXT Next
CONSTANTS
  Seed = 1
  N = 2000
  Pieces = 16
INVARIANTS InvTiles InvComplete InvLossless InvPositions InvMunch InvBigStep Emit
CHECK_DEADLOCK FALSE
