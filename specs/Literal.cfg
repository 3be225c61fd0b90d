INIT Init
NEXT Next
CONSTANTS
 MaxDigits = 5
 NumAlphabet = {0, 1, 9, 10}
 MaxString = 4
 StrAlphabet = {39, 97, 10, 13, 92, 45, 59, 233}
INVARIANT InvCanon InvOrder InvDoubled Emit
CHECK_DEADLOCK FALSE
