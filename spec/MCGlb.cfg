SPECIFICATION Spec
CONSTANTS
Pad = TRUE
OwnBase = TRUE
KeepOff = TRUE
Early = FALSE
BufLens = {1, 3, 4, 6}
ImgLens = {1, 4, 5}
Views = 1
INVARIANTS InvPacked InvNothing Emit
CHECK_DEADLOCK FALSE
