SPECIFICATION Spec
CONSTANTS
Unique = FALSE
PerModel = TRUE
OwnMat = TRUE
Steps = 4
INVARIANTS InvHolds InvMats InvCount
CHECK_DEADLOCK FALSE
