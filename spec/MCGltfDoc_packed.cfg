SPECIFICATION Spec
INVARIANTS InvBases InvForeign InvCells InvOverlap InvVerdicts
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 1
How = "packed"
