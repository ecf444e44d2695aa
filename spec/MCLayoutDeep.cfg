CONSTANTS
    Ranks = {3}
    Longest = 2
    Reader = "strides"
    Emitting = FALSE
SPECIFICATION Spec
INVARIANTS InvInside InvValue InvCopy InvRows InvReader
CHECK_DEADLOCK FALSE
