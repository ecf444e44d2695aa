------------------------------ MODULE TraceBox ------------------------------
(* Judges recorded boxes (driver boxes).  Coordinates of inputs are integers (eighths); results are logged in
   hundredths of a unit so that anything but the exact value is visible. *)
EXTENDS Box, TraceBase
VARIABLES l, bad
K(p, k) == [x \in Ax |-> k * p[x]]
IsB(got, b) == got[1] = K(b[1], 100) /\ got[2] = K(b[2], 100)
Exact(s) == \A i \in DOMAIN s : \A x \in Ax : s[i][x] % 100 = 0
Unk(s) == [i \in DOMAIN s |-> [x \in Ax |-> s[i][x] \div 100]]
MeshFails(b, m, out) ==
    IF ~ m.ok THEN {"mesh-raised"} ELSE
    C("mesh", Exact(m.v) /\ Exact(m.n) /\ MeshOk(b, Unk(m.v), m.i, Unk(m.n), out))
    \cup (IF m.textured THEN C("texture", m.tex = [y \in 1..2 |-> [x \in 1..2 |-> m.color]]
                               /\ Len(m.uv) = 24 /\ \A i \in DOMAIN m.uv : m.uv[i] = <<0, 0>>) ELSE {})
NewFails(e) ==
    IF ~ e.ok THEN {"raised"} ELSE
    LET b == BoxOf(e.c1, e.c2) IN
    C("corners-min-max", IsB(<<e.lo, e.hi>>, b))
    \cup C("corners", [i \in DOMAIN e.corners |-> e.corners[i]] = [i \in 1..8 |-> K(Corners(b)[i], 100)])
    \cup C("volume", e.vol = Vol(b))
    \cup C("center", e.center = K(Center2(b), 100))
    \cup UNION {MeshFails(b, e.meshes[i], e.meshes[i].out) : i \in DOMAIN e.meshes}
    \cup C("inside", \A i \in DOMAIN e.probes : e.inside[i] = Inside(b, e.probes[i]))
    \cup C("operand-changed", e.same)
MergeFails(e) ==
    LET bs == [i \in DOMAIN e.boxes |-> BoxOf(e.boxes[i][1], e.boxes[i][2])] IN
    IF ~ e.ok THEN {"raised"}
    ELSE C("merge", IsB(<<e.lo, e.hi>>, Merge(bs))) \cup C("operand-changed", e.same)
EqFails(e) ==
    LET a == BoxOf(e.a[1], e.a[2])  b == BoxOf(e.b[1], e.b[2]) IN
    C("equal", e.eq = (a = b)) \cup C("almost-equal", e.almost = (a = b)) \cup C("not-equal", e.ne = (a # b))
(* the difference of every coordinate, relative to its size, in 1e-9 *)
XmlFails(e) == IF ~ e.ok THEN {"raised"} ELSE
    C("xml-form", e.form) \cup C("restored", \A i \in DOMAIN e.diff : Abs(e.diff[i]) <= 20) \cup C("operand-changed", e.same)
PointsFails(e) ==
    LET S == UNION {{e.groups[g][i] : i \in DOMAIN e.groups[g]} : g \in DOMAIN e.groups} IN
    IF ~ e.ok THEN {"raised"}
    ELSE C("bounds", S # {} => IsB(<<e.lo, e.hi>>, BoxOfPoints(S))) \cup C("operand-changed", e.same)
Fails(e) == CASE e.op = "new" -> NewFails(e)
              [] e.op = "merge" -> MergeFails(e)
              [] e.op = "eq" -> EqFails(e)
              [] e.op = "xml" -> XmlFails(e)
              [] e.op = "badxml" -> C("not-rejected", ~ e.ok)
              [] e.op = "points" -> PointsFails(e)
              [] OTHER -> {"unknown-event"}
Init == l = 1 /\ bad = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
