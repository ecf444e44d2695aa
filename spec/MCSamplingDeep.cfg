SPECIFICATION Spec
CONSTANTS R = 3
 Scale = 1000
INVARIANTS InvSound InvSharp InvPlane InvAttr InvCount
