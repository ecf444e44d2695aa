SPECIFICATION Spec
CONSTANTS
Pad = FALSE
OwnBase = TRUE
KeepOff = TRUE
Early = FALSE
BufLens = {3, 4}
ImgLens = {3}
Views = 1
INVARIANTS InvPacked InvNothing
CHECK_DEADLOCK FALSE
