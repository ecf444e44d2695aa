SPECIFICATION Spec
INVARIANTS InvObjectsOnly Emit
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 1
Checked = {"set", "setdefault", "pairs", "mapping", "kwargs", "ior", "construct", "constructkw"}
