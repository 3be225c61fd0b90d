INIT Init
NEXT Next
CONSTANTS
 Fuel = 20
 Seed = 8
 Cases = 8000
 Mutants = 12
 StartSyms = "Stmt"
INVARIANT InvYield InvGrouped InvRecognised InvMutants Emit
CHECK_DEADLOCK FALSE
