----------------------------- MODULE MCSampling -----------------------------
(* The oracle of Sampling is sound and sharp on a lattice: every barycentric combination lies on the face
   and carries the combined attribute, points off the plane or beyond an edge do not; counts are
   monotone and never zero. *)
EXTENDS Sampling, TLC
CONSTANTS R, Scale
VARIABLES f, w
G == 0..R
P3 == {<<x, y, z>> : x \in G, y \in G, z \in G}
Init == f \in {<<<<0, 0, 0>>, b, c>> : b \in P3, c \in P3} \cup {<<<<1, 2, 0>>, b, c>> : b \in P3, c \in P3}
        /\ w \in {<<4, 0, 0>>, <<0, 4, 0>>, <<0, 0, 4>>, <<1, 1, 2>>, <<2, 1, 1>>, <<0, 3, 1>>, <<5, -1, 0>>, <<-1, 3, 2>>, <<2, -1, 3>>}
Next == UNCHANGED <<f, w>>
Spec == Init /\ [][Next]_<<f, w>>
X == [a \in 1..3 |-> (Scale * (w[1] * f[1][a] + w[2] * f[2][a] + w[3] * f[3][a])) \div 4]
At == <<10, 200, 90>>
Inside == \A i \in 1..3 : w[i] >= 0
InvSound == Inside => OnFace(f, X, Scale)
InvSharp == ~ Inside /\ ~ Degenerate(f) => ~ OnFace(f, X, Scale)
InvPlane == LET n == Normal(f)
                y == [a \in 1..3 |-> X[a] + (IF n[a] = 0 THEN 0 ELSE 40 * Sgn(n[a]))]
            IN ~ Degenerate(f) => ~ OnFace(f, y, Scale)
InvAttr == Inside /\ ~ Degenerate(f) =>
    LET v == 25 * (w[1] * At[1] + w[2] * At[2] + w[3] * At[3])
    IN AttrOk(f, At, X, v, Scale) /\ ~ AttrOk(f, At, X, v + 900, Scale)
InvCount == /\ Count(f, 1, 1) >= 1 /\ Count(f, 3, 1) >= Count(f, 2, 1) /\ Count(f, 5, 7) <= Count(f, 5, 6)
            /\ Count(<<f[2], f[3], f[1]>>, 3, 2) = Count(f, 3, 2) /\ Count(<<f[1], f[3], f[2]>>, 3, 2) = Count(f, 3, 2)
=============================================================================
