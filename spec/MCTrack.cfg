SPECIFICATION Spec
INVARIANTS InvSym InvRange InvSame InvMonotone InvFar InvMove InvBox
