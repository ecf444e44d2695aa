SPECIFICATION Spec
CONSTANTS A = {a1}
 W = 2
 M = 2
 Design = "markfirst"
 Sick = 2
INVARIANTS InvMarked InvSafe InvBounded InvAfter InvConverges InvWhole
CHECK_DEADLOCK FALSE
