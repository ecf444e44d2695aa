SPECIFICATION Spec
CONSTANTS
Unique = TRUE
PerModel = TRUE
OwnMat = TRUE
Steps = 4
INVARIANTS InvHolds InvNames InvMats InvCount Emit
CHECK_DEADLOCK FALSE
