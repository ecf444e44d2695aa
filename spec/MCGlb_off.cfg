SPECIFICATION Spec
CONSTANTS
Pad = TRUE
OwnBase = TRUE
KeepOff = FALSE
Early = FALSE
BufLens = {3, 6}
ImgLens = {3}
Views = 1
INVARIANTS InvPacked InvNothing
CHECK_DEADLOCK FALSE
