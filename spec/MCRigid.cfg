SPECIFICATION Spec
CONSTANTS Ts = {0, 1}
INVARIANTS InvIdentity InvInverse InvAnti InvAssoc InvAction InvProper
