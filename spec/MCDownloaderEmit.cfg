SPECIFICATION Spec
INVARIANTS InvOnce Emit
CHECK_DEADLOCK FALSE
