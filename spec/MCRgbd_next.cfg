SPECIFICATION Spec
CONSTANTS
CheckNext = FALSE
CheckCount = FALSE
CheckName = TRUE
Early = FALSE
Steps = 3
INVARIANTS InvAllOrNothing InvKept InvReads 
CHECK_DEADLOCK FALSE
