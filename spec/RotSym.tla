------------------------------- MODULE RotSym -------------------------------
(* Rotations as integer quaternions <<w, x, y, z>> (any non-zero length; q and -q are the
   same rotation) and rotation error under per-axis symmetry, exactly:
   cos^2(angle / 2) = w^2 / |q|^2 of the relative rotation. *)
EXTENDS Num

QMul(a, b) ==
    << a[1]*b[1] - a[2]*b[2] - a[3]*b[3] - a[4]*b[4],
       a[1]*b[2] + a[2]*b[1] + a[3]*b[4] - a[4]*b[3],
       a[1]*b[3] - a[2]*b[4] + a[3]*b[1] + a[4]*b[2],
       a[1]*b[4] + a[2]*b[3] - a[3]*b[2] + a[4]*b[1] >>
QConj(a) == << a[1], -a[2], -a[3], -a[4] >>
QNorm2(a) == a[1]*a[1] + a[2]*a[2] + a[3]*a[3] + a[4]*a[4]
QId == <<1, 0, 0, 0>>
(* canonical representative: primitive, first non-zero component positive *)
QPrim(a) ==
    LET g == Gcd(Gcd(Abs(a[1]), Abs(a[2])), Gcd(Abs(a[3]), Abs(a[4])))
        s == IF a[1] # 0 THEN Sgn(a[1]) ELSE IF a[2] # 0 THEN Sgn(a[2])
             ELSE IF a[3] # 0 THEN Sgn(a[3]) ELSE Sgn(a[4])
    IN [i \in 1..4 |-> (s * a[i]) \div g]
SameRot(a, b) == QPrim(a) = QPrim(b)

Types == {"none", "twoFold", "fourFold", "cylindrical", "spherical"}
Axes == 1..3
HalfTurn(ax) == [i \in 1..4 |-> IF i = ax + 1 THEN 1 ELSE 0]
QuarterTurn(ax) == [i \in 1..4 |-> IF i = 1 \/ i = ax + 1 THEN 1 ELSE 0]
Gens(sym) == UNION {CASE sym[ax] = "twoFold" -> {HalfTurn(ax)}
                      [] sym[ax] = "fourFold" -> {QuarterTurn(ax)}
                      [] OTHER -> {} : ax \in Axes}
RECURSIVE CloseG(_, _)
CloseG(S, gens) ==
    LET T == S \cup {QPrim(QMul(a, b)) : a \in S, b \in gens}
    IN IF T = S THEN S ELSE CloseG(T, gens)
(* the discrete part of the symmetry group *)
Group(sym) == CloseG({QId}, Gens(sym))

(* The 19 combinations that can occur *)
Valid ==
    LET N == "none"  T == "twoFold"  F == "fourFold"  Cy == "cylindrical"  S == "spherical" IN
    { <<N,N,N>>, <<T,N,N>>, <<N,T,N>>, <<N,N,T>>, <<F,N,N>>, <<N,F,N>>, <<N,N,F>>,
      <<F,T,T>>, <<T,F,T>>, <<T,T,F>>, <<F,F,F>>, <<T,T,T>>,
      <<Cy,N,N>>, <<N,Cy,N>>, <<N,N,Cy>>, <<Cy,T,T>>, <<T,Cy,T>>, <<T,T,Cy>>, <<S,S,S>> }

CylAxes(sym) == {ax \in Axes : sym[ax] = "cylindrical"}
IsSpherical(sym) == \E ax \in Axes : sym[ax] = "spherical"

(* Best relative rotation: <<num, den>> with cos^2(angle/2) = num/den as large as possible.
   A free rotation by phi about axis a turns the relative quaternion r into r * (c, s e_a),
   whose scalar part is r_w c - r_a s: at best r_w^2 + r_a^2. *)
BestNum(r, sym) ==
    LET cyl == CylAxes(sym) IN
    IF cyl = {} THEN r[1] * r[1]
    ELSE LET ax == CHOOSE ax \in cyl : TRUE IN r[1] * r[1] + r[ax + 1] * r[ax + 1]
RelSet(d, g, sym) == {QPrim(QMul(QMul(QConj(d), g), s)) : s \in Group(sym)}
Frac(r, sym) == << BestNum(r, sym), QNorm2(r) >>
GeqFrac(a, b) == a[1] * b[2] >= b[1] * a[2]
BestCos2(d, g, sym) ==
    IF IsSpherical(sym) THEN <<1, 1>>
    ELSE LET F == {Frac(r, sym) : r \in RelSet(d, g, sym)}
         IN CHOOSE f \in F : \A h \in F : GeqFrac(f, h)

(* exact angle where it is a multiple of a right angle or 120 degrees (cube rotations) *)
AngleMilliDeg(d, g, sym) ==
    LET f == BestCos2(d, g, sym) IN
    CASE f[1] = f[2] -> 0
      [] f[1] * 2 = f[2] -> 90000
      [] f[1] * 4 = f[2] -> 120000
      [] f[1] * 4 = f[2] * 3 -> 60000
      [] f[1] = 0 -> 180000
=============================================================================
