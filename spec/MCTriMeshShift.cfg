SPECIFICATION Spec
INVARIANTS InvWell InvTris
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 1
Shift = TRUE
MaxV = 8
