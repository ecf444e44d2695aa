----------------------------- MODULE MCRigidC -----------------------------
(* The constructors agree with each other: elementary turns are turns about an axis and quaternions; every
   constructed matrix is a proper rotation; cameras look where they should. *)
EXTENDS Rigid, TLC
CONSTANTS Ang
VARIABLES x, y, z
Angles == {<<0, 1, 1>>, <<1, 0, 1>>, <<0, -1, 1>>, <<-1, 0, 1>>, <<3, 4, 5>>, <<-4, 3, 5>>, <<5, -12, 13>>, <<-8, -15, 17>>}
AngSet == IF Ang = "all" THEN Angles ELSE {<<0, 1, 1>>, <<3, 4, 5>>, <<-1, 0, 1>>}
Init == x \in AngSet /\ y \in AngSet /\ z \in AngSet
Next == UNCHANGED <<x, y, z>>
Spec == Init /\ [][Next]_<<x, y, z>>
SameR(p, q) == \A i, j \in A3 : p[1][i][j] * q[2] = q[1][i][j] * p[2]
ProperR(p) == MulMM(p[1], Tr(p[1])) = Id(p[2] * p[2]) /\ Det(p[1]) = p[2] * p[2] * p[2]
Half(a) == <<a[3] + a[2], a[1]>>   \* cos a/2 : sin a/2, up to length (not for half turns)
InvAxis == /\ SameR(Rx(x), AxisAngle(<<1, 0, 0>>, 1, x)) /\ SameR(Ry(x), AxisAngle(<<0, 1, 0>>, 1, x))
           /\ SameR(Rz(x), AxisAngle(<<0, 0, 1>>, 1, x))
InvQuat == x[2] # -x[3] => /\ SameR(Rx(x), QMat(<<Half(x)[1], Half(x)[2], 0, 0>>))
                            /\ SameR(Ry(x), QMat(<<Half(x)[1], 0, Half(x)[2], 0>>))
                            /\ SameR(Rz(x), QMat(<<Half(x)[1], 0, 0, Half(x)[2]>>))
                            /\ SameR(AxisAngle(<<1, 2, 2>>, 3, x), QMat(<<3 * Half(x)[1], Half(x)[2], 2 * Half(x)[2], 2 * Half(x)[2]>>))
Small == x[3] * y[3] * z[3] <= 900   \* 32-bit: determinants
InvProper == ProperR(Rx(x)) /\ ProperR(Ry(y)) /\ ProperR(Rz(z)) /\ (Small => ProperR(EulerZYX(z, y, x)))
             /\ ProperR(AxisAngle(<<2, 3, 6>>, 7, <<1, 0, 1>>)) /\ ProperR(EnuR) /\ ProperR(MayaR)
ZAxis == <<0, 0, 1>>
(* heading x: an east-north-up camera looks to (sin, cos, 0); pitch y up: vertical part is sin y *)
InvCamera == LET c == Camera(EnuR, <<0, 1, 1>>, <<0, 1, 1>>, x)  p == Camera(EnuR, z, y, <<0, 1, 1>>) IN
    /\ MulMV(c[1], ZAxis) = <<x[1], x[2], 0>>
    /\ MulMV(p[1], ZAxis) = <<0, y[2] * z[3], y[1] * z[3]>>
    /\ LET m == Camera(MayaR, z, <<0, 1, 1>>, <<0, 1, 1>>) IN MulMV(m[1], ZAxis) = <<0, 0, -z[3]>>
=============================================================================
