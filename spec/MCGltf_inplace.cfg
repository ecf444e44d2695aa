SPECIFICATION Spec
CONSTANTS
Unique = TRUE
PerModel = TRUE
OwnMat = FALSE
Steps = 4
INVARIANTS InvHolds InvMats InvCount
CHECK_DEADLOCK FALSE
