SPECIFICATION Spec
CONSTANTS Sub = 2
 Max = 2
 MaxOps = 4
 Grow = "all"
 KeepExtents = TRUE
INVARIANTS InvCells 

