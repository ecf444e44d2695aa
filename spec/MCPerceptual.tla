--------------------------- MODULE MCPerceptual ---------------------------
(* A submission edited one object at a time against a fixed ground truth of a floor, a desk
   and a non-evaluated plant. *)
EXTENDS Perceptual, TLC
VARIABLES sub        \* sequence of [kind |-> 1..3 or 0 for clutter, off |-> displacement in mm, big |-> BOOLEAN]
Gt == << [cat |-> "floor", size |-> <<4, 1, 3>>, ev |-> TRUE, pos |-> <<0, 0, 0>>],
         [cat |-> "desk", size |-> <<1, 1, 2>>, ev |-> TRUE, pos |-> <<1000, 1000, 0>>],
         [cat |-> "plant", size |-> <<1, 2, 1>>, ev |-> FALSE, pos |-> <<-1000, 1000, 500>>] >>
DefaultPerc ==
    [room_scale |-> [w |-> 100, mean |-> 1000, std |-> 150], true_obj_scale |-> [w |-> 5, mean |-> 1000, std |-> 180],
     relative_obj_scale |-> [w |-> 5, mean |-> 1000, std |-> 180], translation |-> [w |-> 5, mean |-> 0, std |-> 500],
     elevation |-> [w |-> 5, mean |-> 0, std |-> 5], missed_weight |-> 25, extra_weight |-> 25]
P == [ sc |-> [i \in DOMAIN sub |-> i], ths |-> <<50>>, gcat |-> [i \in 1..3 |-> Gt[i].cat],
       ev |-> [i \in 1..3 |-> Gt[i].ev], gsize |-> [i \in 1..3 |-> Gt[i].size], gpos |-> [i \in 1..3 |-> Gt[i].pos],
       dcat |-> [i \in DOMAIN sub |-> IF sub[i].kind = 0 THEN "rock" ELSE Gt[sub[i].kind].cat],
       dsize |-> [i \in DOMAIN sub |-> LET s == IF sub[i].kind = 0 THEN <<1, 1, 1>> ELSE Gt[sub[i].kind].size
                                       IN IF sub[i].big THEN <<s[1] + 1, s[2], s[3]>> ELSE s],
       dpos |-> [i \in DOMAIN sub |-> LET s == IF sub[i].kind = 0 THEN <<0, 9000, 0>> ELSE Gt[sub[i].kind].pos
                                      IN <<s[1] + sub[i].off, s[2], s[3]>>],
       sim |-> [i \in DOMAIN sub |-> [g \in 1..3 |-> IF sub[i].kind = g THEN 90 ELSE 10]],
       perc |-> DefaultPerc ]
Add == Len(sub) < 4 /\ \E k \in 0..3, o \in {0, 400}, b \in BOOLEAN : sub' = Append(sub, [kind |-> k, off |-> o, big |-> b])
Init == sub = <<>>
Next == Add
Spec == Init /\ [][Next]_sub
M == CHOOSE m \in AgnosticOutcomes(P, 1) : TRUE
Score == Perc(P, M)
InvRange == 0 <= Score /\ Score <= ExpScale + 1
Exact(k) == [kind |-> k, off |-> 0, big |-> FALSE]
InvPerfect == ({Exact(1), Exact(2)} \subseteq Rng(sub) /\ (\A i \in DOMAIN sub : sub[i].kind # 0 /\ sub[i] = Exact(sub[i].kind))
               /\ \A i, j \in DOMAIN sub : i # j => sub[i].kind # sub[j].kind) => Score = ExpScale
ActClutter == (Len(sub') = Len(sub) + 1 /\ sub'[Len(sub')].kind = 0) =>
              \* clutter only ever costs
              LET m2 == CHOOSE m \in AgnosticOutcomes(P', 1) : TRUE IN Perc(P', m2) <= Score
PropClutter == [][ActClutter]_sub
(* what happens to the non-evaluated object as such is no gain: dropping it costs nothing *)
ActIgnored == (Len(sub') = Len(sub) + 1 /\ sub'[Len(sub')].kind = 3 /\ (\A i \in DOMAIN sub : sub[i].kind # 3))
              => Perc(P', CHOOSE m \in AgnosticOutcomes(P', 1) : TRUE) = Score
PropIgnored == [][ActIgnored]_sub
ASSUME Near(ExpNeg(1, 2), 18196, 12) /\ Near(ExpNeg(7, 3), 2909, 12) /\ ExpNeg(0, 5) = ExpScale
       /\ Near(ExpNeg(19, 10), 4487, 12) /\ Near(ExpBig(81000000, 6480000), 0, 2) /\ Near(ExpBig(3240000, 6480000), 18196, 12)
=============================================================================
