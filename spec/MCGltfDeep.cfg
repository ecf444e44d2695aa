SPECIFICATION Spec
CONSTANTS
Unique = TRUE
PerModel = TRUE
OwnMat = TRUE
Steps = 6
INVARIANTS InvHolds InvNames InvMats InvCount
CHECK_DEADLOCK FALSE
