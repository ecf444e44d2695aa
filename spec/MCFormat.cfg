SPECIFICATION Spec
CONSTANTS Texts = {"none", "twoFold", "cylindrical", "round", ""}
  MaxKids = 4
INVARIANTS InvAllowed InvNoPartial InvOrder
