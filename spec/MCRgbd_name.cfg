SPECIFICATION Spec
CONSTANTS
CheckNext = TRUE
CheckCount = TRUE
CheckName = FALSE
Early = FALSE
Steps = 3
INVARIANTS InvAllOrNothing InvKept InvReads 
CHECK_DEADLOCK FALSE
