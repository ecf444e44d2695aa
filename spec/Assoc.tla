------------------------------- MODULE Assoc -------------------------------
(* Data association between detections and ground truths at one similarity threshold.

   sc[d]     score of detection d            cat/gcat  categories
   sim[d][g] similarity                      th        threshold
   m[d]      the ground truth matched to d, 0 if none                              *)
EXTENDS Num

Eligible(sim, th, d, free) == {g \in free : sim[d][g] >= th}
Best(sim, d, S) == {g \in S : \A h \in S : sim[d][h] <= sim[d][g]}
Top(sc, D) == {d \in D : \A e \in D : sc[e] <= sc[d]}

(* ---- the association as a state machine: one action per processed detection ---- *)
Match(st, sc, sim, th, d, g) ==      \* st = [todo, free, m]
    [todo |-> st.todo \ {d}, free |-> st.free \ {g}, m |-> [st.m EXCEPT ![d] = g]]
Leave(st, d) == [st EXCEPT !.todo = @ \ {d}]
Succ(st, sc, sim, th) ==
    UNION { LET E == Eligible(sim, th, d, st.free) IN
            IF E = {} THEN {Leave(st, d)}
            ELSE {Match(st, sc, sim, th, d, g) : g \in Best(sim, d, E)}
          : d \in Top(sc, st.todo) }
Start(nd, D, G) == [todo |-> D, free |-> G, m |-> [d \in 1..nd |-> 0]]

(* ---- all results the procedure can reach (ties may be broken either way) ---- *)
RECURSIVE Reach(_, _, _, _)
Reach(st, sc, sim, th) ==
    IF st.todo = {} THEN {st.m}
    ELSE UNION {Reach(t, sc, sim, th) : t \in Succ(st, sc, sim, th)}
Outcomes(sc, sim, th, D, G) == Reach(Start(Len(sc), D, G), sc, sim, th)

(* ---- what every result has to satisfy, independently of the procedure ---- *)
OneToOne(m) == \A d, e \in DOMAIN m : d # e /\ m[d] # 0 => m[d] # m[e]
AboveThreshold(m, sim, th) == \A d \in DOMAIN m : m[d] # 0 => sim[d][m[d]] >= th
Holder(m, g) == {d \in DOMAIN m : m[d] = g}
(* no detection could have had a ground truth it prefers that went to nobody or to a
   lower-scored detection *)
Stable(m, sc, sim, th, D, G) ==
    \A d \in D : \A g \in G :
        (sim[d][g] >= th /\ (m[d] = 0 \/ sim[d][g] > sim[d][m[d]]))
            => \E e \in Holder(m, g) : sc[e] >= sc[d]
=============================================================================
