SPECIFICATION Spec
INVARIANTS InvRange InvPerfect
PROPERTIES PropClutter PropIgnored
