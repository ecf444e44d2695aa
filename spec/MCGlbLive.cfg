SPECIFICATION Spec
CONSTANTS
Pad = TRUE
OwnBase = TRUE
KeepOff = TRUE
Early = FALSE
BufLens = {3, 4}
ImgLens = {3}
Views = 1
PROPERTIES Ends
CHECK_DEADLOCK FALSE
