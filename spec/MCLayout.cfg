CONSTANTS
    Ranks = {1, 2}
    Longest = 3
    Reader = "strides"
    Emitting = FALSE
SPECIFICATION Spec
INVARIANTS InvInside InvValue InvCopy InvRows InvReader
CHECK_DEADLOCK FALSE
