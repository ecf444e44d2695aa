SPECIFICATION Spec
CONSTANTS R = 2
 Scale = 1000
INVARIANTS InvSound InvSharp InvPlane InvAttr InvCount
