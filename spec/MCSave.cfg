SPECIFICATION Spec
CONSTANTS Objs = 4 XmlLast = TRUE
INVARIANTS InvTorn InvXmlLast InvDone
