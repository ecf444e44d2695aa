------------------------------ MODULE MCRigid ------------------------------
(* A machine with two pose registers over the 24 rotations of the cube and small translations: the
   operations satisfy the laws of the group of rigid motions, exactly (scale 1). *)
EXTENDS Rigid, TLC
CONSTANTS Ts
VARIABLES a, b, depth
Q24 == {q \in [1..4 -> -1..1] : QMat(q)[2] \in {1, 2, 4}
          /\ \A i, j \in A3 : QMat(q)[1][i][j] % QMat(q)[2] = 0}
CubeRot == {LET f(i, j) == QMat(q)[1][i][j] \div QMat(q)[2] IN Mat(f) : q \in Q24}
T3 == {<<x, y, z>> : x \in Ts, y \in Ts, z \in Ts}
Poses == [r : CubeRot, t : T3]
E == [r |-> Id(1), t |-> <<0, 0, 0>>]
O(x, y) == PCompose(1, x, y)
V(x) == PInverse(1, x)
Init == a \in Poses /\ b \in [r : CubeRot, t : {<<1, 2, 0>>}] /\ depth = 0
Next == depth < 1 /\ depth' = depth + 1
        /\ \/ a' = O(a, b) /\ UNCHANGED b
           \/ b' = O(b, a) /\ UNCHANGED a
           \/ a' = V(a) /\ UNCHANGED b
Spec == Init /\ [][Next]_<<a, b, depth>>
P3 == {<<1, 2, 3>>, <<0, 0, 1>>}
InvIdentity == O(a, E) = a /\ O(E, a) = a
InvInverse == O(a, V(a)) = E /\ O(V(a), a) = E /\ V(V(a)) = a
InvAnti == V(O(a, b)) = O(V(b), V(a))
InvAssoc == \A c \in {[r |-> AxisAngle(<<1, 0, 0>>, 1, <<1, 0, 1>>)[1], t |-> <<0, 0, 1>>],
                      [r |-> AxisAngle(<<0, 1, 0>>, 1, <<-1, 0, 1>>)[1], t |-> <<1, 2, 0>>]} : O(O(a, b), c) = O(a, O(b, c))
InvAction == \A p \in P3 : PFrom(1, O(a, b), p) = PFrom(1, a, PFrom(1, b, p))
                           /\ PTo(1, a, PFrom(1, a, p)) = p /\ PFrom(1, a, PTo(1, a, p)) = p
                           /\ PFrom(1, V(a), p) = PTo(1, a, p)
InvProper == Det(a.r) = 1 /\ MulMM(a.r, Tr(a.r)) = Id(1)
ASSUME Cardinality(CubeRot) = 24
=============================================================================
