CONSTANTS
    Ranks = {1, 2, 3}
    Longest = 3
    Reader = "strides"
    Emitting = TRUE
SPECIFICATION Spec
INVARIANTS InvInside InvValue InvCopy InvRows Emit
CHECK_DEADLOCK FALSE
