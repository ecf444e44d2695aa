SPECIFICATION Spec
CONSTANTS
Pad = TRUE
OwnBase = TRUE
KeepOff = TRUE
Early = FALSE
BufLens = {1, 4, 5, 7}
ImgLens = {2, 4}
Views = 2
INVARIANTS InvPacked InvNothing
CHECK_DEADLOCK FALSE
