SPECIFICATION Spec
INVARIANTS InvParallel
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
Check = FALSE
