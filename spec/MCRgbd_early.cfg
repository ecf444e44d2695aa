SPECIFICATION Spec
CONSTANTS
CheckNext = TRUE
CheckCount = TRUE
CheckName = TRUE
Early = TRUE
Steps = 3
INVARIANTS InvAllOrNothing InvKept InvReads 
CHECK_DEADLOCK FALSE
