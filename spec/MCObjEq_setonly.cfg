SPECIFICATION Spec
INVARIANTS InvObjectsOnly
CHECK_DEADLOCK FALSE
CONSTANTS Depth = 1
Checked = {"set"}
