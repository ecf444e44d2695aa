SPECIFICATION Spec
CONSTANTS R = {0, 1}
 MaxBoxes = 3
 BadSide = FALSE
INVARIANTS InvBox InvTight InvCenter InvMerge
