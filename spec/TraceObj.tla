------------------------------ MODULE TraceObj ------------------------------
(* Judges objects and collections of objects (driver objects). *)
EXTENDS ObjEq, TraceBase, FiniteSets
VARIABLES l, bad, coll
Good == {1, 2, 3, 4}
Truth(b) == IF b THEN 1 ELSE 0
EqFails(e, want) == C("almost-equal", e.ab = Truth(want)) \cup C("asymmetric", e.ba = Truth(want))
    \cup C("not-reflexive", e.aa = 1) \cup C("comparison-changed-something", e.same)
MakeFails(e) == IF e.type \notin Types THEN C("accepted-unknown-type", ~ e.ok) \cup C("not-ValueError", e.ok \/ e.valueerror)
    ELSE IF ~ e.ok THEN {"raised"}
    ELSE C("shape-kept", e.kept = Kept(e.type, e.given)) \cup C("other-shape", e.none = [i \in 1..3 |-> ~ e.kept[i]])
         \cup C("id", e.id) \cup C("type", e.gettype = e.type) \cup C("default-attributes", e.default)
(* an addition with key-distinct semantics: only the last value given for a key counts *)
Reduced(ps) == [i \in DOMAIN ps |-> <<ps[i][1], Last(ps, ps[i][1])>>]
AddFails(e, base, ps) ==
    IF AllGood(Good, ps) THEN C("raised", e.ok) \cup (IF e.ok THEN C("content", e.after = PutAll(base, ps)) ELSE C("changed", e.after = coll))
    (* a value that is overwritten by a later one of the same addition may be refused or ignored *)
    ELSE C("stored-what-is-no-object", ~ e.ok) \cup C("content-after-refusal", e.after \in After(Good, coll, e.ps))
CollFails(e) ==
    LET n == Len(coll) ps == e.ps IN
    C("not-a-collection", e.kind) \cup C("entries-counted", e.n = Cardinality({k \in DOMAIN e.after : e.after[k] # 0}))
    \cup C("no-object-inside", \A k \in DOMAIN e.after : e.after[k] \in {0} \cup Good)
    \cup CASE e.way \in {"set", "pairs", "mapping", "kwargs", "ior"} ->
                (IF (\E i \in DOMAIN ps : ps[i][2] \notin Good) /\ AllGood(Good, ps) /\ ~ e.ok
                 THEN C("content-after-refusal", e.after \in After(Good, coll, ps)) ELSE AddFails(e, coll, ps))
           [] e.way = "merge" -> IF \E i \in DOMAIN ps : ps[i][2] \notin Good
                                 THEN (IF AllGood(Good, ps) /\ e.ok THEN C("content", e.after = PutAll(coll, ps))
                                       ELSE C("stored-what-is-no-object", ~ e.ok) \cup C("changed", e.after = coll))
                                 ELSE AddFails(e, coll, ps)
           [] e.way \in {"construct", "constructkw", "fromkeys"} ->
                IF AllGood(Good, ps) THEN
                   IF e.ok THEN C("content", e.after = PutAll(Empty(n), ps))
                   ELSE C("raised", \E i \in DOMAIN ps : ps[i][2] \notin Good) \cup C("changed", e.after = coll)
                ELSE C("stored-what-is-no-object", ~ e.ok) \cup C("changed", e.after = coll)
           [] e.way = "setdefault" ->
                IF coll[ps[1][1]] # 0 THEN C("raised", e.ok) \cup C("content", e.after = coll) \cup C("returned", ~ e.ok \/ e.ret = coll[ps[1][1]])
                ELSE AddFails(e, coll, ps) \cup C("returned", ~ e.ok \/ e.ret = ps[1][2])
           [] e.way = "del" -> C("deleted-nothing", e.ok = (coll[ps[1][1]] # 0)) \cup C("content", e.after = Put(coll, ps[1][1], 0))
           [] e.way = "pop" -> C("deleted-nothing", e.ok = (coll[ps[1][1]] # 0)) \cup C("content", e.after = Put(coll, ps[1][1], 0))
                               \cup C("returned", ~ e.ok \/ e.ret = coll[ps[1][1]])
           [] e.way = "clear" -> C("raised", e.ok) \cup C("content", e.after = Empty(n))
           [] e.way \in {"copy", "deepcopy", "again"} -> C("raised", e.ok) \cup C("content", e.after = coll) \cup C("copy-differs", e.equal)
           [] OTHER -> {"unknown-way"}
Fails(e) ==
    CASE e.op = "eq" -> EqFails(e, AlmostEq(e.a, e.b))
      [] e.op = "ceq" -> EqFails(e, CollEq(e.a, e.b))
      [] e.op = "make" -> MakeFails(e)
      [] e.op = "readonly" -> C("identity-changed", e.refused /\ e.kept) \cup C("attribute-not-settable", e.settable) \cup C("rest-changed", e.rest)
      [] e.op = "start" -> C("content", e.after = e.want)
      [] e.op = "coll" -> CollFails(e)
      [] OTHER -> {"unknown-event"}
Init == l = 1 /\ bad = <<>> /\ coll = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
           /\ coll' = IF Log[l].op \in {"coll", "start"} THEN Log[l].after ELSE coll
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, coll>>
Spec == Init /\ [][Next]_<<l, bad, coll>>
=============================================================================
