------------------------------ MODULE PoseDoc ------------------------------
(* Pose descriptions as trees.  A description is [root, kids]: the root's tag and its children in order; a
   child is [tag, n] with n the number of values it carries (-1: text that is no number, -2: no text at
   all).  The reader walks over the children and ends with the index of the child each part is taken from, or with
   an error.  Values are not modelled: the k-th child's values are told apart by k, so "part p comes from child k" is
   exactly what the real reader's result shows. *)
EXTENDS Integers, Sequences, FiniteSets
PoseParts == {"translation", "rotation"}
RotParts == {"c1", "c2", "c3"}
RootOf(parts) == IF parts = RotParts THEN "rotation" ELSE "pose"
(* a child that carries its part properly *)
Good(k) == k.n = 3
Names(kids, p) == {i \in DOMAIN kids : kids[i].tag = p}
(* ------------------------------------------------------------------ the contract *)
Malformed(parts, d) ==
    \/ d.root # RootOf(parts)
    \/ \E i \in DOMAIN d.kids : d.kids[i].tag \notin parts \/ ~ Good(d.kids[i])
    \/ \E p \in parts : Names(d.kids, p) = {}
Duplicated(parts, d) == \E p \in parts : Cardinality(Names(d.kids, p)) > 1
(* what a reader may return: an error, or one child per part *)
Allowed(parts, d, res) ==
    IF Malformed(parts, d) THEN ~ res.ok
    ELSE \/ res.ok /\ \A p \in parts : res.got[p] \in Names(d.kids, p)
         \/ ~ res.ok /\ Duplicated(parts, d)
(* ------------------------------------------------------------------ a reader *)
Start(parts, d) == [i |-> 1, got |-> [p \in parts |-> 0], st |-> IF d.root = RootOf(parts) THEN "kids" ELSE "error"]
Step(parts, d, s) ==
    IF s.i > Len(d.kids) THEN [s EXCEPT !.st = IF \A p \in parts : s.got[p] # 0 THEN "done" ELSE "error"]
    ELSE LET k == d.kids[s.i] IN
         IF k.tag \notin parts \/ ~ Good(k) THEN [s EXCEPT !.st = "error"]
         ELSE [s EXCEPT !.got[k.tag] = s.i, !.i = s.i + 1]
Result(s) == [ok |-> s.st = "done", got |-> s.got]
(* what the writer produces *)
Written(parts) == [root |-> RootOf(parts),
                   kids |-> IF parts = RotParts THEN <<[tag |-> "c1", n |-> 3], [tag |-> "c2", n |-> 3], [tag |-> "c3", n |-> 3]>>
                            ELSE <<[tag |-> "translation", n |-> 3], [tag |-> "rotation", n |-> 3]>>]
=============================================================================
