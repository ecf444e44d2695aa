----------------------------- MODULE MCLayout -----------------------------
(* Every plan for arrays of up to Rank axes; every one is used by the driver. *)
EXTENDS Layout, TLC, Json
CONSTANTS Ranks, Longest, Reader, Emitting
VARIABLES p, shape
Perms(r) == {f \in [1..r -> 1..r] : \A i, j \in 1..r : i # j => f[i] # f[j]}
Steps == {1, 2, 0 - 1}
Plans(r) == {[perm |-> q, step |-> s, pad |-> d] : q \in Perms(r), s \in [1..r -> Steps], d \in [1..r -> 0..1]}
Shapes(r) == IF Emitting THEN {[a \in 1..r |-> 2]} ELSE [1..r -> 0..Longest]
Init == shape = <<>> /\ \E r \in Ranks : p \in Plans(r)
Next == shape = <<>> /\ shape' \in Shapes(Len(p.perm)) /\ UNCHANGED p
Spec == Init /\ [][Next]_<<p, shape>>
Vals == [k \in 1..Prod(shape) |-> k]
V == Lay(p, shape)
B == Fill(p, shape, Vals)
(* distinct elements are distinct cells inside the buffer *)
Laid == shape # <<>>
InvInside == Laid =>
             /\ \A k \in 0..(Size(V) - 1) : Cell(V, k) \in 0..(Length(p, shape) - 1)
             /\ Cardinality({Cell(V, k) : k \in 0..(Size(V) - 1)}) = Size(V)
InvValue == Laid => Read(B, V) = Vals
InvCopy == Laid => ((Copy(B, V) = Vals) <=> Contiguous(V))
InvRows == Laid => ((Rows(B, V) = Vals) <=> RowsContiguous(V))
(* the reader the code uses gives the value of the array *)
InvReader == Laid =>
             CASE Reader = "strides" -> Read(B, V) = Vals
               [] Reader = "copy" -> Copy(B, V) = Vals
               [] Reader = "rows" -> Rows(B, V) = Vals
Emit == (Emitting /\ Laid) => PrintT(<<"OUT", ToJson(p)>>)
=============================================================================
