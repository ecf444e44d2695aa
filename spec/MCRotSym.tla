------------------------------ MODULE MCRotSym ------------------------------
(* Walking the ground-truth rotation through everything its symmetry declares equivalent:
   the rotation error must not change along the walk. *)
EXTENDS RotSym, TLC, Json
VARIABLES sym, d, g, best, steps
vars == <<sym, d, g, best, steps>>
Quats == {<<1,0,0,0>>, <<0,1,0,0>>, <<1,1,0,0>>, <<1,1,1,1>>, <<1,0,2,0>>, <<2,1,0,-1>>, <<0,1,2,3>>, <<1,-1,0,2>>}
FreeTurn(ax) == [i \in 1..4 |-> IF i = 1 THEN 2 ELSE IF i = ax + 1 THEN 1 ELSE 0]  \* 53.13 degrees
Init == /\ sym \in Valid /\ d \in Quats /\ g \in Quats /\ steps = 0
        /\ best = BestCos2(d, g, sym)
Turn == \E s \in Gens(sym) : g' = QPrim(QMul(g, s))
Spin == \E ax \in CylAxes(sym) : g' = QPrim(QMul(g, FreeTurn(ax)))
Move == (Turn \/ Spin) /\ steps < 3 /\ steps' = steps + 1 /\ UNCHANGED <<sym, d, best>>
Next == Move
Spec == Init /\ [][Next]_vars
(* the pairs visited on walks of one step from the same rotation are replayed in the code *)
EmitInit == /\ sym \in Valid /\ d \in {<<1,0,2,0>>, <<1,-1,0,2>>} /\ g \in {<<1,0,0,0>>, <<2,1,0,-1>>}
            /\ steps = 1 /\ best = BestCos2(d, g, sym)
EmitSpec == EmitInit /\ [][Next]_vars
Emit == PrintT(<<"OUT", ToJson([d |-> d, g |-> g, sym |-> sym])>>)
SameFrac(a, b) == a[1] * b[2] = b[1] * a[2]
InvInvariant == SameFrac(BestCos2(d, g, sym), best)
InvRange == best[1] >= 0 /\ best[1] <= best[2] /\ best[2] > 0
InvZero == (\E s \in Group(sym) : SameRot(QMul(g, s), d)) => best[1] = best[2]
(* more symmetry never increases the error *)
InvMore == GeqFrac(best, BestCos2(d, g, <<"none", "none", "none">>))
(* the error is the same seen from both sides and does not depend on the world frame *)
InvFrame == \A q \in {<<1,1,1,1>>, <<2,0,1,0>>} : SameFrac(BestCos2(QMul(q, d), QMul(q, g), sym), BestCos2(d, g, sym))
InvSwap == SameFrac(BestCos2(g, d, sym), best)
Size == [s \in Valid |-> Cardinality(Group(s))]
ASSUME Size[<<"none","none","none">>] = 1 /\ Size[<<"none","twoFold","none">>] = 2
       /\ Size[<<"none","none","fourFold">>] = 4 /\ Size[<<"twoFold","twoFold","twoFold">>] = 4
       /\ Size[<<"twoFold","fourFold","twoFold">>] = 8 /\ Size[<<"fourFold","fourFold","fourFold">>] = 24
ASSUME Cardinality(Valid) = 19
=============================================================================
