SPECIFICATION Spec
CONSTANTS
CheckNext = TRUE
CheckCount = TRUE
CheckName = TRUE
Early = FALSE
Steps = 4
INVARIANTS InvAllOrNothing InvKept InvReads Emit
CHECK_DEADLOCK FALSE
