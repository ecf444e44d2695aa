SPECIFICATION Spec
CONSTANTS
Unique = TRUE
PerModel = FALSE
OwnMat = TRUE
Steps = 4
INVARIANTS InvHolds InvMats InvCount
CHECK_DEADLOCK FALSE
