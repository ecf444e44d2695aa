SPECIFICATION Spec
CONSTANTS
 MaxSide = 3
 ScanSide = 1
 Mirror = FALSE
 Swap = TRUE
 Skip = FALSE
INVARIANTS InvRays InvInverse InvEdges InvNotMirrored InvCount InvOrder InvColour
CHECK_DEADLOCK FALSE
