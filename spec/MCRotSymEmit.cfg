SPECIFICATION EmitSpec
INVARIANTS InvInvariant InvRange Emit
