SPECIFICATION Spec
INVARIANTS InvBases InvForeign InvCells InvOverlap InvVerdicts Emit
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 1
How = "careful"
