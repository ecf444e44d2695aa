CONSTANTS
    Shares = "argument"
    Values = {1, 2, 3}
SPECIFICATION Spec
INVARIANTS InvObject InvResult
CHECK_DEADLOCK FALSE
