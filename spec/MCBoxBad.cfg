SPECIFICATION Spec
CONSTANTS R = {0, 1}
 MaxBoxes = 1
 BadSide = TRUE
INVARIANTS InvBox InvTight InvCorners InvMesh InvCenter InvMerge
