SPECIFICATION Spec
CONSTANTS
CheckNext = TRUE
CheckCount = FALSE
CheckName = FALSE
Early = FALSE
Steps = 3
INVARIANTS InvAllOrNothing InvKept InvReads 
CHECK_DEADLOCK FALSE
