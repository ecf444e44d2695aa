SPECIFICATION Spec
CONSTANTS MaxRows = 3
 Names = {"a", "b", "c"}
 Colors = {1, 2}
 MaxQ = 3
INVARIANTS InvCache InvImage InvId InvAgree
