INIT Init
NEXT Next
CONSTANTS
  Alphabet = {9,10,13,32,33,34,36,39,42,45,46,47,49,58,59,60,61,62,64,78,95,96,97,233}
  MaxLen = 3
  MCDialects = {"generic","mysql","postgres"}
INVARIANTS InvTiles InvComplete InvLossless InvPositions InvMunch InvBigStep Emit
CHECK_DEADLOCK FALSE
