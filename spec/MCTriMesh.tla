----------------------------- MODULE MCTriMesh -----------------------------
(* All programs of merges, renumberings, replacements and cleanings over two small meshes.  Every corner carries a
   unique identity, so the triangles a mesh shows tell where they came from; a ghost variable holds the triangles each mesh
   should show.  The variant Shift moves the indices behind a renumbered block by the whole block. *)
EXTENDS TriMesh, FiniteSets, TLC, Json
CONSTANTS Depth, Shift, MaxV
VARIABLES m, want, steps
Mk(base, n, uvs, idx) == [v |-> [i \in 1..n |-> <<base + i>>], n |-> [i \in 1..n |-> <<base + 50 + i>>], uv |-> [i \in 1..uvs |-> <<base, i>>], idx |-> idx]
Idx(n) == IF n = 2 THEN {<<0, 1, 1>>, <<>>} ELSE {<<0, 1, 2>>, <<2, 1, 0, 1, 2, 2>>}
Meshes(base) == {Mk(base, n, u, ix) : n \in {3}, u \in {0, 2, 3}, ix \in Idx(3)} \cup {Mk(base, 2, 2, ix) : ix \in Idx(2)}
Init == /\ m \in [1..2 -> Meshes(100) \cup Meshes(200)] /\ m[1] \in Meshes(100) /\ m[2] \in Meshes(200)
        /\ want = [k \in 1..2 |-> Tris(m[k])] /\ steps = 0
(* b with its first k corners those of a *)
Shared(a, b, k) == [b EXCEPT !.v = SubSeq(a.v, 1, k) \o From(b.v, k), !.n = SubSeq(a.n, 1, k) \o From(b.n, k),
                             !.uv = SubSeq(UvAll(a), 1, k) \o From(UvAll(b), k)]
DoMerge(i, j, k) == /\ k <= Len(m[i].v) /\ k <= Len(m[j].v) /\ Len(m[i].v) + Len(m[j].v) - k <= MaxV
                    /\ m' = [m EXCEPT ![i] = Merge(m[i], m[j], k)]
                    /\ want' = [want EXCEPT ![i] = want[i] \o Tris(Shared(m[i], m[j], k))]
Lists(n, num) == UNION {{l \in [1..r -> 0..(num - 1)] : \A a, b \in 1..r : l[a] = l[b] => a = b} : r \in 1..n}
Apply(x, num, l) == LET r == Renumber(x, num, l) IN
    IF Shift THEN [r EXCEPT !.idx = [i \in DOMAIN x.idx |-> IF x.idx[i] < Len(l) THEN l[x.idx[i] + 1] ELSE x.idx[i] + num]] ELSE r
DoRenumber(i, num, l) == /\ Len(m[i].v) <= 3 /\ Len(l) <= num
                         /\ \A a \in DOMAIN m[i].v : m[i].v[a] # Hole
                         /\ m' = [m EXCEPT ![i] = Apply(m[i], num, l)]
                         /\ want' = want
                         /\ PrintT(<<"OUT", ToJson([n |-> Len(m[i].v), num |-> num, list |-> l])>>)
DoReplace(i, j) == /\ m' = [m EXCEPT ![i] = m[j]] /\ want' = [want EXCEPT ![i] = want[j]]
DoKeep(i, c) == LET G(x, y, z) == x # c /\ y # c /\ z # c IN
                /\ m' = [m EXCEPT ![i] = Keep(m[i], G)]
                /\ want' = [want EXCEPT ![i] = Tris(Keep(m[i], G))]
                /\ \A t \in DOMAIN Tris(m'[i]) : \E s \in DOMAIN want[i] : want[i][s] = Tris(m'[i])[t]
Next == steps < Depth /\ steps' = steps + 1 /\ \E i, j \in 1..2 :
    \/ \E k \in 0..2 : DoMerge(i, j, k)
    \/ i = j /\ \E num \in 1..4 : \E l \in Lists(Len(m[i].v), num) : DoRenumber(i, num, l)
    \/ i # j /\ DoReplace(i, j)
    \/ i = j /\ \E c \in 0..1 : DoKeep(i, c)
Spec == Init /\ [][Next]_<<m, want, steps>>
Bounded == \A k \in 1..2 : Len(m[k].v) <= 2 * MaxV
InvWell == \A k \in 1..2 : WellFormed(m[k])
InvTris == \A k \in 1..2 : InRange(m[k]) => Tris(m[k]) = want[k]
=============================================================================
