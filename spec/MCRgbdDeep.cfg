SPECIFICATION Spec
CONSTANTS
CheckNext = TRUE
CheckCount = TRUE
CheckName = TRUE
Early = FALSE
Steps = 5
INVARIANTS InvAllOrNothing InvKept InvReads 
CHECK_DEADLOCK FALSE
