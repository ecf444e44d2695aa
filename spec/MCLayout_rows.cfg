CONSTANTS
    Ranks = {1, 2}
    Longest = 3
    Reader = "rows"
    Emitting = FALSE
SPECIFICATION Spec
INVARIANTS InvReader
CHECK_DEADLOCK FALSE
