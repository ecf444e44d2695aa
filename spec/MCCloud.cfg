SPECIFICATION Spec
INVARIANTS InvParallel InvOwnColor InvNotLost Emit
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
Check = TRUE
