SPECIFICATION Spec
CONSTANTS
  Sym = {1,2,3}
  M = 3
INVARIANTS Sound ExactWhenDecoded CellsAreResiduals ClosureWhenIdle DecodedExact PendingNonNegative Linear EqualSetsEqualStream
PROPERTIES Monotone Terminates
CHECK_DEADLOCK FALSE
