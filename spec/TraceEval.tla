------------------------------ MODULE TraceEval ------------------------------
(* Judges evaluations recorded from the real evaluator (driver eval_toy) against Eval. *)
EXTENDS Perceptual, TraceBase
VARIABLES l, bad

InUnit(x) == 0 <= x /\ x <= 1000000
What == IOEnv.VF_WHAT                    \* which property's clauses to judge

(* -- association (M01) -- *)
AssocFails(e) ==
    LET p == e.p IN
    UNION { LET m == e.agn[k]
                out == AgnosticOutcomes(p, k) IN
            C("agnostic-association", m \in out)
            \cup C("one-to-one", OneToOne(m))
            \cup C("above-threshold", AboveThreshold(m, p.sim, p.ths[k]))
          : k \in DOMAIN e.agn }
    \cup C("agnostic-thresholds", Len(e.agn) = Len(p.ths))
    \cup UNION { LET a == e.catm[j] IN
            C("category-association", a.m \in CategoryOutcomes(p, a.k, a.cat))
          : j \in DOMAIN e.catm }

(* -- scores (M02) -- *)
ScoreFails(e) ==
    LET p == e.p
        nt == Len(p.ths)
        cs == ActiveCats(p) IN
    (IF NEval(p) = 0 THEN {} ELSE
        C("shape-score", \E s \in ShapeSums(p) : Near(e.shape, (s \div nt), 12))
        \cup C("shape-range", -2 <= e.shape /\ e.shape <= AU + 2))
    \cup
    (IF cs = <<>> THEN {} ELSE
        C("semantics-score", \E s \in SemSums(p) : Near(e.sem, (s \div (nt * Len(cs))), 12))
        \cup C("semantics-range", -2 <= e.sem /\ e.sem <= AU + 2))

(* -- pose error (M04), for the association the evaluator used -- *)
Unique(p) == \A k \in DOMAIN p.ths : Cardinality(AgnosticOutcomes(p, k)) = 1
Assocs(e) == IF e.hasassoc THEN e.agn
             ELSE [k \in DOMAIN e.p.ths |-> CHOOSE m \in AgnosticOutcomes(e.p, k) : TRUE]
PoseFails(e) ==
    LET p == e.p IN
    IF ~ e.hasassoc /\ ~ Unique(p) THEN {}
    ELSE IF UsedThs(p, Assocs(e)) = {}
    THEN C("pose-infinite", e.rot = 2000000002 /\ e.trans = 2000000002)
    ELSE C("translation-error", Near(e.trans, PoseTrans(p, Assocs(e)), 4))
         \cup C("rotation-error", Near(e.rot, PoseRot(p, Assocs(e)), 12))

(* -- perceptual score (M06) -- *)
PercFails(e) ==
    C("perceptual-score", \E s \in PercSums(e.p) : Near(e.perc, s \div Len(e.p.ths), 15))
    \cup C("perceptual-range", 0 <= e.perc /\ e.perc <= ExpScale + 1)

Judge(e) ==
    C("raised", e.ok) \cup
    (IF ~ e.ok THEN {} ELSE
     CASE What = "M01" -> IF e.hasassoc THEN AssocFails(e) ELSE ScoreFails(e)
       [] What = "M06" -> PercFails(e)
       [] What = "M02" -> ScoreFails(e)
       [] What = "M04" -> PoseFails(e)
       [] OTHER -> {"unknown"})

(* -- direct calls (M02) -- *)
ApFails(e) ==
    LET ms == e.ms
        n == e.n
        D == DOMAIN e.sc
        values == APs(e.sc, e.ms, D, n)
        ranks == Rankings(e.sc, D)
        ranked(r) == [i \in 1..Len(r) |-> e.ms[r[i]]]
        distinct == Cardinality(Rng(e.sc)) = Len(e.sc) IN
    C("ap", \E v \in values : Near(e.ap, v, 3))
    \cup C("ap-range", 0 <= e.ap /\ (Cardinality({d \in D : e.ms[d] # 0}) <= n => e.ap <= AU + 2))
    \cup (IF ~ distinct THEN {} ELSE
          LET r == ranked(CHOOSE r \in ranks : TRUE) IN
          C("pr-length", Len(e.prec) = Len(r) /\ Len(e.rec) = Len(r))
          \cup (IF Len(e.prec) = Len(r) /\ Len(e.rec) = Len(r)
                THEN C("precision", \A i \in DOMAIN r : Near(e.prec[i], Interp(r, i), 1))
                     \cup C("recall", \A i \in DOMAIN r : Near(e.rec[i], (Tp(r, i) * PU) \div n, 1))
                ELSE {}))
SampFails(e) ==
    LET r == [i \in 1..Len(e.sc) |-> e.ms[(CHOOSE r \in Rankings(e.sc, DOMAIN e.sc) : TRUE)[i]]]
    IN C("sampled-length", Len(e.prec) = Len(e.samples))
       \cup (IF Len(e.prec) # Len(e.samples) THEN {} ELSE
             C("sampled-precision", \A j \in DOMAIN e.samples :
                 Near(e.prec[j], SamplePrec(r, e.n, e.samples[j], 8, e.interp), 1))
             \cup C("sampled-ap", Near(e.ap * Len(e.samples),
                       SumSeq([j \in DOMAIN e.samples |-> SamplePrec(r, e.n, e.samples[j], 8, e.interp)]),
                       Len(e.samples) + 2)))

Fails(e) ==
    CASE e.op = "eval" -> Judge(e)
      [] e.op = "ap" -> C("raised", e.ok) \cup (IF e.ok THEN ApFails(e) ELSE {})
      [] e.op = "sampled" -> C("raised", e.ok) \cup (IF e.ok THEN SampFails(e) ELSE {})
      [] OTHER -> {"unknown-event"}

Init == l = 1 /\ bad = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
