------------------------------ MODULE MCAssoc ------------------------------
(* The association as a state machine, every tie order explored: all instances with ND
   detections and NG ground truths, similarities and scores from small sets.  Also emits
   the instances (as JSON) that are replayed in the real evaluator. *)
EXTENDS Assoc, TLC, Json
CONSTANTS NDet, NGt, Sims, Scores, Th
VARIABLES sc, sim, st
vars == <<sc, sim, st>>
D == 1..NDet
G == 1..NGt
Init == /\ sc \in [D -> Scores]
        /\ sim \in [D -> [G -> Sims]]
        /\ st = Start(NDet, D, G)
Assign(d, g) == /\ d \in Top(sc, st.todo)
                /\ g \in Best(sim, d, Eligible(sim, Th, d, st.free))
                /\ st' = Match(st, sc, sim, Th, d, g) /\ UNCHANGED <<sc, sim>>
PassOver(d) == /\ d \in Top(sc, st.todo)
               /\ Eligible(sim, Th, d, st.free) = {}
               /\ st' = Leave(st, d) /\ UNCHANGED <<sc, sim>>
Next == \E d \in D : PassOver(d) \/ \E g \in G : Assign(d, g)
Spec == Init /\ [][Next]_vars
Done == st.todo = {}
Emit == st.todo = D => PrintT(<<"OUT", ToJson([sc |-> sc, sim |-> sim, ths |-> <<Th>>])>>)
InvOneToOne == OneToOne(st.m)
InvThreshold == AboveThreshold(st.m, sim, Th)
InvStable == Done => Stable(st.m, sc, sim, Th, D, G)
(* the operator used to judge traces is exactly the set of results of the state machine,
   and without ties there is exactly one stable assignment of eligible pairs *)
InvOperator == Done => st.m \in Outcomes(sc, sim, Th, D, G)
NoTies == /\ Cardinality({sc[d] : d \in D}) = NDet
          /\ \A d \in D : Cardinality({sim[d][g] : g \in G}) = NGt
Assignments == {m \in [D -> {0} \cup G] : OneToOne(m) /\ AboveThreshold(m, sim, Th)
                                          /\ Stable(m, sc, sim, Th, D, G)}
InvUnique == (st.todo = D /\ NoTies) => Assignments = Outcomes(sc, sim, Th, D, G)
=============================================================================
