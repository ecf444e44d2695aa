------------------------------ MODULE TriMesh ------------------------------
(* Triangle meshes.  [v, n, uv: sequences of vertex positions, normals and texture coordinates; idx: sequence of
   vertex numbers counted from 0, three per triangle].  Texture coordinates may be missing at the end. *)
EXTENDS Integers, Sequences
(* ------------------------------------------------------------------ what a mesh shows *)
InRange(m) == \A i \in DOMAIN m.idx : m.idx[i] \in 0..(Len(m.v) - 1)
Parallel(m) == Len(m.n) = Len(m.v) /\ Len(m.uv) <= Len(m.v)
WellFormed(m) == InRange(m) /\ Parallel(m) /\ Len(m.idx) % 3 = 0
Uv(m, i) == IF i <= Len(m.uv) THEN m.uv[i] ELSE <<0, 0>>
UvAll(m) == [i \in DOMAIN m.v |-> Uv(m, i)]
Corner(m, i) == <<m.v[i + 1], m.n[i + 1], Uv(m, i + 1)>>
(* the triangles: for each, its three corners with everything attached to them *)
Tris(m) == [t \in 1..(Len(m.idx) \div 3) |-> <<Corner(m, m.idx[3*t - 2]), Corner(m, m.idx[3*t - 1]), Corner(m, m.idx[3*t])>>]
(* ------------------------------------------------------------------ operations *)
From(s, k) == SubSeq(s, k + 1, Len(s))
Pad(m) == [m EXCEPT !.uv = UvAll(m)]
(* the first k vertices of b are the first k of a, the others come after a's *)
Merge(a, b, k) ==
    [v |-> a.v \o From(b.v, k), n |-> a.n \o From(b.n, k), uv |-> UvAll(a) \o From(UvAll(b), k),
     idx |-> a.idx \o [i \in DOMAIN b.idx |-> IF b.idx[i] < k THEN b.idx[i] ELSE b.idx[i] + Len(a.v) - k]]
(* the first Len(list) vertices move to the places in list within a block of num vertices; the others follow the block *)
MovedTo(num, list, i) == IF i < Len(list) THEN list[i + 1] ELSE i + num - Len(list)
Hole == <<>>
Renumber(m, num, list) ==
    LET place(s, hole) == [j \in 1..num |-> IF \E i \in DOMAIN list : list[i] = j - 1
                                            THEN s[CHOOSE i \in DOMAIN list : list[i] = j - 1] ELSE hole] \o From(s, Len(list))
    IN [v |-> place(m.v, Hole), n |-> place(m.n, Hole), uv |-> place(UvAll(m), Hole),
        idx |-> [i \in DOMAIN m.idx |-> MovedTo(num, list, m.idx[i])]]
(* the triangles whose test holds stay, in order *)
RECURSIVE KeepFrom(_, _, _)
KeepFrom(m, Good(_, _, _), t) ==
    IF 3 * t > Len(m.idx) THEN <<>>
    ELSE LET a == m.idx[3*t - 2] b == m.idx[3*t - 1] c == m.idx[3*t] IN
         (IF Good(a, b, c) THEN <<a, b, c>> ELSE <<>>) \o KeepFrom(m, Good, t + 1)
Keep(m, Good(_, _, _)) == [m EXCEPT !.idx = KeepFrom(m, Good, 1)]
(* four quadrants: 2 7 3 / 4 6 8 / 0 5 1, each with its vertices in the order of its own quad *)
QuadVerts == << <<0, 5, 4, 6>>, <<5, 1, 6, 8>>, <<4, 6, 2, 7>>, <<6, 8, 7, 3>> >>
=============================================================================
