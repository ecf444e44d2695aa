SPECIFICATION Spec
CONSTANTS R = {0, 1, 3}
 MaxBoxes = 1
 BadSide = FALSE
INVARIANTS InvBox InvTight InvCorners InvMesh InvCenter InvMerge
