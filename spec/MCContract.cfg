SPECIFICATION Spec
INVARIANTS InvNoForeignMemory Emit
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 1
Trusting = FALSE
