------------------------------ MODULE MCTrack ------------------------------
(* Point sets growing one point at a time, and a box moved and resized: laws of the similarity. *)
EXTENDS Track, TLC
VARIABLES S, T, box
vars == <<S, T, box>>
Grid == {<<x, y, 0>> : x \in 0..2, y \in 0..1}
Ref == BoxOf(QId, <<0, 0, 0>>, <<0, 0, 0>>, <<2, 2, 2>>)
Ref2 == [lo |-> <<0, 0, 0>>, hi |-> <<2, 2, 2>>]
Init == S = <<>> /\ T = <<>> /\ box = Ref2
AddS == box = Ref2 /\ \E x \in Grid : Len(S) < 2 /\ S' = Append(S, x) /\ UNCHANGED <<T, box>>
AddT == box = Ref2 /\ \E x \in Grid : Len(T) < 2 /\ T' = Append(T, x) /\ UNCHANGED <<S, box>>
Shift == S = <<>> /\ T = <<>> /\ \E i \in 1..3, s \in {-1, 1} :
            /\ box' = [lo |-> [box.lo EXCEPT ![i] = @ + s], hi |-> [box.hi EXCEPT ![i] = @ + s]]
            /\ box'.lo[i] \in -3..3 /\ UNCHANGED <<S, T>>
Grow == S = <<>> /\ T = <<>> /\ \E i \in 1..3 :
            /\ box' = [box EXCEPT !.hi[i] = @ + 1]
            /\ box'.hi[i] - box'.lo[i] <= 3 /\ UNCHANGED <<S, T>>
Next == AddS \/ AddT \/ Shift \/ Grow
Spec == Init /\ [][Next]_vars
Ths == {0, 1, 2, 3, 5}
InvSym == \A t \in Ths : PointsIoU(S, T, t) = PointsIoU(T, S, t)
InvRange == \A t \in Ths : LET f == PointsIoU(S, T, t) IN 0 <= f[1] /\ f[1] <= f[2]
InvSame == \A t \in Ths : S # <<>> => PointsIoU(S, S, t)[1] = PointsIoU(S, S, t)[2]
InvMonotone == \A t, u \in Ths : t <= u => PointsInter(S, T, t) <= PointsInter(S, T, u)
InvFar == LET far == [i \in DOMAIN T |-> Plus(T[i], <<9, 0, 0>>)] IN PointsInter(S, far, 5) = 0
InvMove == \A q \in {<<1, 1, 0, 0>>, <<1, 1, 1, -1>>} : LET M(P) == [i \in DOMAIN P |-> PosePoint(q, <<2, -1, 3>>, P[i])] IN
    \A t \in Ths : PointsIoU(M(S), M(T), t) = PointsIoU(S, T, t)
InvBox == LET f == BoxIoU(box, Ref)  g == BoxIoU(Ref, box) IN
    /\ f = g /\ 0 <= f[1] /\ f[1] <= f[2]
    /\ (f[1] = f[2] <=> box = Ref)
    /\ ((\E i \in 1..3 : box.lo[i] >= 2 \/ box.hi[i] <= 0) <=> f[1] = 0)
=============================================================================
