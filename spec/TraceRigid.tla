------------------------------ MODULE TraceRigid ------------------------------
(* Judges recorded operations on rotations and poses (driver rigid).  Matrix entries are logged in 1/10000,
   translations and points in 1/1000.  A run keeps the recorded poses of its registers; each operation has to
   follow from the recorded operands. *)
EXTENDS Rigid, TraceBase
VARIABLES l, bad, regs
K == 10000
TR(e) == IF e.exact THEN 1 ELSE 4
TT(e) == IF e.exact THEN 1 ELSE 12
SameP(e, got, want) == C("rotation", NearM(got.r, want.r, TR(e))) \cup C("translation", NearV(got.t, want.t, TT(e)))
ProperC(e, m) == C("improper-rotation", Proper(m, K, 5))
PoseOf(e) == [r |-> e.r, t |-> e.t]
A(e) == regs[e.a]
B(e) == regs[e.b]
ZeroT == <<0, 0, 0>>
OpFails(e) ==
    IF ~ e.ok THEN {"raised"} ELSE
    C("operand-changed", e.same) \cup
    CASE e.op = "pose" -> C("rotation", NearRat(e.r, K, QMat(e.q), 1)) \cup C("translation", e.t = e.want) \cup ProperC(e, e.r)
      [] e.op = "compose" -> SameP(e, PoseOf(e), PCompose(K, A(e), B(e))) \cup ProperC(e, e.r)
      [] e.op = "inverse" -> SameP(e, PoseOf(e), PInverse(K, A(e))) \cup ProperC(e, e.r)
      [] e.op = "from" -> C("points", Len(e.out) = Len(e.p) /\ \A i \in DOMAIN e.p : NearV(e.out[i], PFrom(K, A(e), e.p[i]), TT(e)))
      [] e.op = "to" -> C("points", Len(e.out) = Len(e.p) /\ \A i \in DOMAIN e.p : NearV(e.out[i], PTo(K, A(e), e.p[i]), TT(e)))
      [] e.op = "rcompose" -> C("rotation", NearM(e.r, DivM(MulMM(A(e).r, B(e).r), K), TR(e))) \cup ProperC(e, e.r)
      [] e.op = "rinverse" -> C("rotation", NearM(e.r, Tr(A(e).r), 1))
      [] e.op = "rotate" -> C("points", \A i \in DOMAIN e.p : NearV(e.out[i], DivV(MulMV(A(e).r, e.p[i]), K), TT(e)))
      [] e.op = "unrotate" -> C("points", \A i \in DOMAIN e.p : NearV(e.out[i], DivV(MulMV(Tr(A(e).r), e.p[i]), K), TT(e)))
      [] e.op = "parts" -> C("column", \A j \in A3 : NearV(e.cols[j], Tr(A(e).r)[j], 1))
              \cup C("matrix34", NearM(e.m34r, A(e).r, 1) /\ NearV(e.m34t, A(e).t, 1))
              \cup C("matrix44", NearM(e.m44r, A(e).r, 1) /\ NearV(e.m44t, A(e).t, 1) /\ e.last = <<0, 0, 0, K>>)
              \cup C("rebuilt", NearM(e.backr, A(e).r, 1) /\ NearV(e.backt, A(e).t, 1) /\ NearM(e.colsr, A(e).r, 1) /\ NearM(e.scalr, A(e).r, 1))
      [] e.op = "equal" -> C("almost-equal", e.almost = (NearM(A(e).r, B(e).r, 2) /\ NearV(A(e).t, B(e).t, 2)))
              \cup C("rotation-almost-equal", e.ralmost = NearM(A(e).r, B(e).r, 2) /\ e.rassert = e.ralmost)
              \cup C("assert-equal", e.assertalmost = e.almost)
      [] OTHER -> {"unknown-event"}
Rat(e) == CASE e.kind = "Rx" -> Rx(e.ang[1]) [] e.kind = "Ry" -> Ry(e.ang[1]) [] e.kind = "Rz" -> Rz(e.ang[1])
            [] e.kind = "axis" -> AxisAngle(e.d, e.n, e.ang[1])
            [] e.kind = "enu" -> Camera(EnuR, e.ang[1], e.ang[2], e.ang[3])
            [] e.kind = "maya" -> Camera(MayaR, e.ang[1], e.ang[2], e.ang[3])
            [] e.kind = "euler" -> EulerZYX(e.ang[1], e.ang[2], e.ang[3])
            [] e.kind = "quat" -> QMat(e.q)
CtorFails(e) == IF ~ e.ok THEN {"raised"} ELSE
    C("rotation", NearRat(e.r, K, Rat(e), 2)) \cup ProperC(e, e.r)
    \cup C("translation", e.t = e.want) \cup C("operand-changed", e.same)
(* a quaternion recorded in 1/10000 represents the rotation q (up to sign and length 1) *)
QuatFails(e) == IF ~ e.ok THEN {"raised"} ELSE
    LET r == QMat(e.out)[1] den == QMat(e.out)[2] IN
    C("not-unit", Near(den, K * K, 5 * K))
    \cup C("quaternion", \A i, j \in A3 : Near((r[i][j] \div 100), (QMat(e.q)[1][i][j] * (den \div 100)) \div QMat(e.q)[2], K \div 10))
    \cup C("operand-changed", e.same)
(* Euler angles, recorded as sines and cosines in 1/1000, represent the rotation q; the pitch is within a
   right angle *)
EulerFails(e) == IF ~ e.ok THEN {"raised"} ELSE
    LET m == EulerZYX(<<e.sc[1][1], e.sc[1][2], 1000>>, <<e.sc[2][1], e.sc[2][2], 1000>>, <<e.sc[3][1], e.sc[3][2], 1000>>)
        w == QMat(e.q)
    IN C("euler", \A i, j \in A3 : Near(m[1][i][j] \div 100000, (10000 * w[1][i][j]) \div w[2], 30))
       \cup C("pitch", e.sc[2][2] >= -1) \cup C("operand-changed", e.same)
VecFails(e) == CASE e.kind = "unitize" -> C("unitize", \A i \in DOMAIN e.v : e.n = 0 \/ Near(e.out[i], (K * e.v[i]) \div e.n, 1))
                                          \cup C("zero", e.n = 0 => e.out = [i \in DOMAIN e.v |-> 0])
                 [] e.kind = "left" -> C("on-left", e.out = OnLeft(e.v[1], e.v[2], e.v[3], e.v[4]))
Fails(e) == CASE e.op = "ctor" -> CtorFails(e)
              [] e.op = "toquat" -> QuatFails(e)
              [] e.op = "toeuler" -> EulerFails(e)
              [] e.op = "vec" -> VecFails(e)
              [] OTHER -> OpFails(e)
Regs(e) == IF "new" \in DOMAIN e THEN (IF e.op = "pose" /\ e.ok THEN <<PoseOf(e)>> ELSE <<>>)
           ELSE IF e.op \in {"pose", "compose", "inverse"} /\ e.ok THEN Append(regs, PoseOf(e)) ELSE regs
Init == l = 1 /\ bad = <<>> /\ regs = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
           /\ regs' = Regs(Log[l])
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, regs>>
Spec == Init /\ [][Next]_<<l, bad, regs>>
=============================================================================
