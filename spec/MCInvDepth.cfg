SPECIFICATION Spec
CONSTANTS Mx = 255
 Nears <- NearSet
 DMax = 400
 M = 8
INVARIANTS InvRange InvIdem InvMono InvNear InvUnknown InvStep InvBijection InvLegacy
