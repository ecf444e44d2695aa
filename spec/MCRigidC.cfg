SPECIFICATION Spec
CONSTANTS Ang = "all"
INVARIANTS InvAxis InvQuat InvProper InvCamera
