------------------------------ MODULE Sampling ------------------------------
(* Sampling a triangle mesh: how many points each face gets, where a point may lie and which attributes
   it carries.  Vertices are integers; points are integers in 1/Scale of a vertex unit. *)
EXTENDS Num
Vec(a, b) == <<b[1] - a[1], b[2] - a[2], b[3] - a[3]>>
Cross(a, b) == <<a[2] * b[3] - a[3] * b[2], a[3] * b[1] - a[1] * b[3], a[1] * b[2] - a[2] * b[1]>>
Dot(a, b) == a[1] * b[1] + a[2] * b[2] + a[3] * b[3]
L1(a) == Abs(a[1]) + Abs(a[2]) + Abs(a[3])
Normal(f) == Cross(Vec(f[1], f[2]), Vec(f[1], f[3]))
(* floor(p/q * |normal|), at least one:  p/q = density / (2 unit^2) *)
Count(f, p, q) == LET n == Normal(f) IN MaxI(1, ISqrt(p * p * Dot(n, n)) \div q)

Off(f, x, scale) == <<x[1] - scale * f[1][1], x[2] - scale * f[1][2], x[3] - scale * f[1][3]>>
Degenerate(f) == Normal(f) = <<0, 0, 0>>
WNumB(f, x, scale) == Dot(Cross(Off(f, x, scale), Vec(f[1], f[3])), Normal(f))
WNumC(f, x, scale) == Dot(Cross(Vec(f[1], f[2]), Off(f, x, scale)), Normal(f))
Slack(f) == 2 * MaxI(L1(Vec(f[1], f[2])), L1(Vec(f[1], f[3]))) * L1(Normal(f))
InBox(f, x, scale) == \A a \in 1..3 : LET c == {f[1][a], f[2][a], f[3][a]} IN
                        x[a] >= MinSet(c) * scale - 2 /\ x[a] <= MaxSet(c) * scale + 2
OnFace(f, x, scale) ==
    IF Degenerate(f)
    THEN /\ InBox(f, x, scale)
         /\ LET e == IF Vec(f[1], f[2]) # <<0, 0, 0>> THEN Vec(f[1], f[2]) ELSE Vec(f[1], f[3])
                c == Cross(e, Off(f, x, scale)) IN \A a \in 1..3 : Abs(c[a]) <= 3 * L1(e)
    ELSE LET n == Normal(f)
             b == WNumB(f, x, scale)  c == WNumC(f, x, scale)  s == Slack(f)
         IN /\ Abs(Dot(Off(f, x, scale), n)) <= 3 * L1(n)
            /\ b >= -s /\ c >= -s /\ b \div 2 + c \div 2 <= (Dot(n, n) * scale) \div 2 + s
(* interpolated attribute (k-th attribute of the three vertices), observed in hundredths *)
AttrOk(f, at, x, obs, scale) ==
    IF Degenerate(f) \/ (at[1] = at[2] /\ at[2] = at[3])
    THEN obs >= 100 * MinSet(Rng(at)) - 2 /\ obs <= 100 * MaxSet(Rng(at)) + 2
    ELSE LET n2 == Dot(Normal(f), Normal(f))
             b == WNumB(f, x, scale) \div n2   c == WNumC(f, x, scale) \div n2
             want == at[1] * (scale - b - c) + at[2] * b + at[3] * c       \* * scale
             spread == MaxSet(Rng(at)) - MinSet(Rng(at))
         IN Abs(want - (obs * (scale \div 100))) <= spread * (4 + (2 * Slack(f)) \div n2) + scale \div 25

(* texel that half-texel coordinate h (odd) names in a texture of n texels, wrapping *)
Texel(h, n) == (h \div 2) % n
Grey == <<128, 128, 128>>
Posed(v, rot, den, t) == <<(rot[1][1] * v[1] + rot[1][2] * v[2] + rot[1][3] * v[3]) \div den + t[1],
                           (rot[2][1] * v[1] + rot[2][2] * v[2] + rot[2][3] * v[3]) \div den + t[2],
                           (rot[3][1] * v[1] + rot[3][2] * v[2] + rot[3][3] * v[3]) \div den + t[3]>>
=============================================================================
