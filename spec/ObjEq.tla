------------------------------- MODULE ObjEq -------------------------------
(* Objects as records and collections of objects.
   An object: [type, id, cat, sym, ev, pose, score, mesh] where pose and score name classes of values that agree within
   tolerance and mesh is <<>> (no model) or <<sizes>> with sizes the sequence of <<indices, vertices>> of its primitives.
   A collection: a sequence over a fixed list of keys, 0 for an absent key, else the number of the value stored. *)
EXTENDS Integers, Sequences
Types == {"bounding_box", "voxels", "meshes"}
AlmostEq(a, b) ==
    /\ a.type = b.type /\ a.id = b.id /\ a.cat = b.cat /\ a.sym = b.sym /\ a.ev = b.ev
    /\ a.pose = b.pose /\ a.score = b.score /\ a.mesh = b.mesh
(* which of the given shapes an object of a type keeps: <<bounds, voxels, meshes>> *)
Kept(type, given) == <<given[1], given[2] /\ type = "voxels", given[3] /\ type = "meshes">>
(* collections of almost equal objects: two sequences of [k, o], keys distinct *)
KeysOf(c) == {c[i].k : i \in DOMAIN c}
At(c, k) == c[CHOOSE i \in DOMAIN c : c[i].k = k].o
CollEq(a, b) == KeysOf(a) = KeysOf(b) /\ \A k \in KeysOf(a) : AlmostEq(At(a, k), At(b, k))

(* collection operations; Good is the set of values that are objects *)
Put(c, k, v) == [c EXCEPT ![k] = v]
RECURSIVE PutAll(_, _)
PutAll(c, ps) == IF ps = <<>> THEN c ELSE PutAll(Put(c, ps[1][1], ps[1][2]), Tail(ps))
Last(ps, k) == LET is == {i \in DOMAIN ps : ps[i][1] = k} IN
    IF is = {} THEN 0 ELSE ps[CHOOSE i \in is : \A j \in is : j <= i][2]
AllGood(Good, ps) == \A i \in DOMAIN ps : Last(ps, ps[i][1]) \in Good
Empty(n) == [k \in 1..n |-> 0]
(* what remains after an addition that raised: no key has a value other than its old one or a good one given for it *)
After(Good, c, ps) == {d \in [DOMAIN c -> {c[k] : k \in DOMAIN c} \cup Good] :
    \A k \in DOMAIN c : d[k] = c[k] \/ \E i \in DOMAIN ps : ps[i] = <<k, d[k]>>}
=============================================================================
