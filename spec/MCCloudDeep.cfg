SPECIFICATION Spec
INVARIANTS InvParallel InvOwnColor InvNotLost
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 3
Check = TRUE
