SPECIFICATION Spec
INVARIANTS InvInvariant InvRange InvZero InvMore InvFrame InvSwap
