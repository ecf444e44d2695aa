SPECIFICATION Spec
INVARIANTS InvWell InvTris
CONSTRAINT Bounded
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 2
Shift = FALSE
MaxV = 6
