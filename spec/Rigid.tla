------------------------------- MODULE Rigid -------------------------------
(* Rotations and rigid poses.  A rotation is given exactly by an integer quaternion <<w, x, y, z>> or by
   matrices of rationals with a common denominator; a pose is [r: matrix, t: vector].  Angles are given by
   <<s, c, h>>: sine s/h, cosine c/h. *)
EXTENDS Num
A3 == 1..3
(* -------------------------------------------------------------- integer matrices and vectors *)
Vec(F(_)) == <<F(1), F(2), F(3)>>
Mat(F(_, _)) == <<<<F(1, 1), F(1, 2), F(1, 3)>>, <<F(2, 1), F(2, 2), F(2, 3)>>, <<F(3, 1), F(3, 2), F(3, 3)>>>>
MulMM(a, b) == LET f(i, j) == a[i][1] * b[1][j] + a[i][2] * b[2][j] + a[i][3] * b[3][j] IN Mat(f)
MulMV(a, v) == LET f(i) == a[i][1] * v[1] + a[i][2] * v[2] + a[i][3] * v[3] IN Vec(f)
Tr(a) == LET f(i, j) == a[j][i] IN Mat(f)
AddV(a, b) == LET f(i) == a[i] + b[i] IN Vec(f)
SubV(a, b) == LET f(i) == a[i] - b[i] IN Vec(f)
NegV(a) == LET f(i) == -a[i] IN Vec(f)
Id(k) == LET f(i, j) == IF i = j THEN k ELSE 0 IN Mat(f)
CrossV(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
DotV(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
Det(a) == DotV(a[1], CrossV(a[2], a[3]))
(* -------------------------------------------------------------- constructors: <<matrix, denominator>> *)
QMat(q) ==
    LET w == q[1] x == q[2] y == q[3] z == q[4] IN
    << <<<<w*w + x*x - y*y - z*z, 2*(x*y - w*z), 2*(x*z + w*y)>>,
         <<2*(x*y + w*z), w*w - x*x + y*y - z*z, 2*(y*z - w*x)>>,
         <<2*(x*z - w*y), 2*(y*z + w*x), w*w - x*x - y*y + z*z>>>>,
       w*w + x*x + y*y + z*z >>
Rx(a) == << <<<<a[3], 0, 0>>, <<0, a[2], -a[1]>>, <<0, a[1], a[2]>>>>, a[3] >>
Ry(a) == << <<<<a[2], 0, a[1]>>, <<0, a[3], 0>>, <<-a[1], 0, a[2]>>>>, a[3] >>
Rz(a) == << <<<<a[2], -a[1], 0>>, <<a[1], a[2], 0>>, <<0, 0, a[3]>>>>, a[3] >>
RMul(a, b) == <<MulMM(a[1], b[1]), a[2] * b[2]>>
RInv(a) == <<Tr(a[1]), a[2]>>
(* turn about the unit axis d/n *)
AxisAngle(d, n, a) ==
    LET sk == <<<<0, -d[3], d[2]>>, <<d[3], 0, -d[1]>>, <<-d[2], d[1], 0>>>>
        f(i, j) == d[i] * d[j] * (a[3] - a[2]) + (IF i = j THEN a[2] * n * n ELSE 0) + a[1] * n * sk[i][j]
    IN <<Mat(f), n * n * a[3]>>
EulerZYX(z, y, x) == RMul(RMul(Rz(z), Ry(y)), Rx(x))
EnuR == << <<<<1, 0, 0>>, <<0, 0, 1>>, <<0, -1, 0>>>>, 1 >>
MayaR == << <<<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, -1>>>>, 1 >>
Camera(base, roll, pitch, yaw) == RMul(RMul(RMul(base, Ry(yaw)), Rx(pitch)), Rz(roll))
(* equality of a fixed-point matrix m (scale k) with a rational one *)
NearRat(m, k, r, tol) == \A i, j \in A3 : Near(m[i][j], (2 * k * r[1][i][j] + r[2]) \div (2 * r[2]), tol)
NearM(a, b, tol) == \A i, j \in A3 : Near(a[i][j], b[i][j], tol)
NearV(a, b, tol) == \A i \in A3 : Near(a[i], b[i], tol)
(* -------------------------------------------------------------- poses in fixed point, scale k *)
Div(x, k) == (2 * x + k) \div (2 * k)
DivM(a, k) == LET f(i, j) == Div(a[i][j], k) IN Mat(f)
DivV(a, k) == LET f(i) == Div(a[i], k) IN Vec(f)
PCompose(k, a, b) == [r |-> DivM(MulMM(a.r, b.r), k), t |-> AddV(DivV(MulMV(a.r, b.t), k), a.t)]
PInverse(k, a) == [r |-> Tr(a.r), t |-> NegV(DivV(MulMV(Tr(a.r), a.t), k))]
PFrom(k, a, p) == AddV(DivV(MulMV(a.r, p), k), a.t)
PTo(k, a, p) == DivV(MulMV(Tr(a.r), SubV(p, a.t)), k)
Proper(m, k, tol) == NearM(DivM(MulMM(m, Tr(m)), k), Id(k), tol) /\ Near(Det(DivM(m, k \div 100)) \div 10, 100000, 4000)
OnLeft(n, p, a, b) == DotV(n, CrossV(SubV(b, a), SubV(p, a))) >= 0
=============================================================================
