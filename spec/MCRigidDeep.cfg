SPECIFICATION Spec
CONSTANTS Ts = {0, 1, 2}
INVARIANTS InvIdentity InvInverse InvAnti InvAssoc InvAction InvProper
