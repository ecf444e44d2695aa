SPECIFICATION Spec
CONSTANTS A = {a1, a2, a3}
 W = 2
 M = 2
 Design = "part"
 Sick = 1
INVARIANTS InvMarked InvSafe InvBounded InvAfter InvConverges InvWhole
CHECK_DEADLOCK FALSE
