SPECIFICATION Spec
CONSTANTS Objs = 4 XmlLast = FALSE
INVARIANTS InvTorn
