SPECIFICATION Spec
CONSTANTS
 MaxSide = 12
 ScanSide = 1
 Mirror = FALSE
 Swap = FALSE
 Skip = FALSE
INVARIANTS InvRays InvInverse InvEdges InvNotMirrored InvCount InvOrder InvColour Emit
CHECK_DEADLOCK FALSE
