SPECIFICATION Spec
INVARIANTS InvNoForeignMemory
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 1
Trusting = TRUE
