INIT Init
NEXT Next
CONSTANTS
 Seed = 1
 MaxItems = 6
 Variants = 25
 Fuel = 4
 Edits = 4
INVARIANT InvCount InvYield InvOrder InvRecognised Emit
CHECK_DEADLOCK FALSE
