SPECIFICATION Spec
INVARIANTS InvNoForeignMemory Emit
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
Trusting = FALSE
