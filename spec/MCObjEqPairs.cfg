SPECIFICATION Spec
INVARIANTS InvEquivalence
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 0
Checked = {"set", "setdefault", "pairs", "mapping", "kwargs", "ior", "construct", "constructkw"}
