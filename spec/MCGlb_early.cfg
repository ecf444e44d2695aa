SPECIFICATION Spec
CONSTANTS
Pad = TRUE
OwnBase = TRUE
KeepOff = TRUE
Early = TRUE
BufLens = {3, 4}
ImgLens = {3}
Views = 1
INVARIANTS InvPacked InvNothing
CHECK_DEADLOCK FALSE
