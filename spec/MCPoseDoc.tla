----------------------------- MODULE MCPoseDoc -----------------------------
(* Every description of up to three (pose) or four (rotation) children, walked by the reader; each description is
   handed to the real readers. *)
EXTENDS PoseDoc, TLC, Json
CONSTANTS Skip, MaxPose, MaxRot
VARIABLES parts, d, s
Ns == {3, 2, 1, 4, 0, -1, -2}
PoseKids == {[tag |-> "translation", n |-> n] : n \in Ns} \cup {[tag |-> "rotation", n |-> n] : n \in {3, 1}} \cup {[tag |-> "other", n |-> 3]}
RotKids == {[tag |-> t, n |-> 3] : t \in RotParts} \cup {[tag |-> "c2", n |-> n] : n \in {1, 2, -2}} \cup {[tag |-> "c4", n |-> 3]}
Seqs(S, m) == UNION {[1..k -> S] : k \in 0..m}
Docs(p) == IF p = PoseParts THEN {[root |-> r, kids |-> k] : r \in {"pose", "Pose", "rotation"}, k \in Seqs(PoseKids, MaxPose)}
           ELSE {[root |-> r, kids |-> k] : r \in {"rotation", "pose"}, k \in Seqs(RotKids, MaxRot)}
Init == /\ parts \in {PoseParts, RotParts}
        /\ d \in Docs(parts)
        /\ s = Start(parts, d)
        /\ PrintT(<<"OUT", ToJson([kind |-> RootOf(parts), root |-> d.root, kids |-> d.kids])>>)
(* the broken reader accepts what it never saw *)
Lazy(x) == IF x.st = "error" /\ x.i > Len(d.kids) THEN [x EXCEPT !.st = "done"] ELSE x
Next == /\ s.st = "kids"
        /\ s' = IF Skip THEN Lazy(Step(parts, d, s)) ELSE Step(parts, d, s)
        /\ UNCHANGED <<parts, d>>
Spec == Init /\ [][Next]_<<parts, d, s>>
Ended == s.st # "kids"
Sound == Ended => Allowed(parts, d, Result(s))
WrittenIsRead == Ended /\ d = Written(parts) => Result(s).ok /\ \A p \in parts : d.kids[Result(s).got[p]].tag = p
Complete == Ended /\ ~ Malformed(parts, d) => Result(s).ok
=============================================================================
