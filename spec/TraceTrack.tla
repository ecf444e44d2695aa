----------------------------- MODULE TraceTrack -----------------------------
(* Judges evaluations by the real bounding-box, voxel and mesh evaluators (driver track). *)
EXTENDS Track, TraceBase
VARIABLES l, bad
What == IOEnv.VF_WHAT
MicroF(f) == ((f[1] * 1000) \div f[2]) * 1000 + (((f[1] * 1000) % f[2]) * 1000) \div f[2]
PINF == 2000000002

SimFails(e) ==
    LET p == e.p IN
    C("similarity", \A d \in Dets(p), g \in Gts(p) : Near(e.sim[d][g], MicroF(Similarity(p, d, g)), 3))
    \cup C("similarity-symmetric", \A d \in Dets(p), g \in Gts(p) : Near(e.simt[g][d], e.sim[d][g], 3))
    \cup C("similarity-range", \A d \in Dets(p), g \in Gts(p) : -1 <= e.sim[d][g] /\ e.sim[d][g] <= 1000001)

Unique(q) == \A k \in DOMAIN q.ths : Cardinality(AgnosticOutcomes(q, k)) = 1
Only(q) == [k \in DOMAIN q.ths |-> CHOOSE m \in AgnosticOutcomes(q, k) : TRUE]

RmsFails(e) ==
    LET p == e.p
        q == Problem(p) IN
    IF (~ p.exact /\ Tied(q)) \/ ~ Unique(q) THEN {}
    ELSE LET ms == Only(q) IN
         IF Corrs(q, ms) = {}
         THEN C("rms-infinite", e.rmsp = PINF /\ e.rmsc = PINF)
         ELSE C("rms-points", Near(e.rmsp, MeanCorr(LAMBDA d, g : PairRms(p, d, g), q, ms), 8))
              \cup (IF p.kind = "voxels" THEN C("rms-colour-none", e.rmsc = 0)
                    ELSE C("rms-colour", LET lo == MeanCorr(LAMBDA d, g : PairColour(p, d, g, LowSum), q, ms)
                                             hi == MeanCorr(LAMBDA d, g : PairColour(p, d, g, HighSum), q, ms)
                                         IN lo - 10 <= e.rmsc /\ e.rmsc <= hi + 10))

(* a submission that repeats the ground truth exactly *)
Perfect(p) == /\ Len(p.sc) = Len(p.gcat) /\ \A g \in Gts(p) : p.ev[g]
              /\ p.dcat = p.gcat /\ p.dq = p.gq /\ p.dposu = p.gposu /\ p.perfect
TrackFails(e) ==
    LET p == e.p
        q == Problem(p) IN
    C("scene-changed", e.unchanged)
    \cup C("not-repeatable", e.again)
    \cup C("evaluate-all-differs", e.allsame)
    \cup (IF Perfect(p)
          THEN C("perfect-shape", NEval(p) = 0 \/ Near(e.shape, AU, 12))
               \cup C("perfect-semantics", ActiveCats(p) = <<>> \/ Near(e.sem, AU, 12))
               \cup C("perfect-pose", Near(e.rot, 0, 5) /\ e.trans = 0)
               \cup C("perfect-rms", p.kind = "bounding_box" \/ p.real \/ (Near(e.rmsp, 0, 1) /\ Near(e.rmsc, 0, 1)))
          ELSE {})
    \cup (IF p.real \/ (~ p.exact /\ Tied(q)) THEN {} ELSE
          (IF NEval(p) = 0 THEN {} ELSE
              C("shape-score", \E s \in ShapeSums(q) : Near(e.shape, s \div Len(q.ths), 14)))
          \cup (IF ActiveCats(p) = <<>> THEN {} ELSE
              C("semantics-score", \E s \in SemSums(q) : Near(e.sem, s \div (Len(q.ths) * Len(ActiveCats(q))), 14)))
          \cup (IF ~ Unique(q) THEN {} ELSE
                LET ms == Only(q) IN
                IF UsedThs(q, ms) = {} THEN C("pose-infinite", e.rot = PINF /\ e.trans = PINF)
                ELSE C("translation-error", Near(e.trans, PoseTrans(q, ms), 4))
                     \cup C("rotation-error", Near(e.rot, PoseRot(q, ms), 12)))
          \cup (IF p.kind = "bounding_box" /\ p.upright
                THEN C("perceptual-score", \E s \in PercSums(q) : Near(e.perc, s \div Len(q.ths), 15))
                ELSE {}))

IouFails(e) ==
    C("points-iou", Near(e.val, MicroF(PointsIoU(e.a, e.b, e.t2)), 2))
NnFails(e) ==
    C("nn-length", IF e.a = <<>> \/ e.b = <<>> THEN e.i12 = <<>> /\ e.i21 = <<>> /\ e.d12 = <<>> /\ e.d21 = <<>>
                   ELSE Len(e.i12) = Len(e.a) /\ Len(e.i21) = Len(e.b) /\ Len(e.d12) = Len(e.a) /\ Len(e.d21) = Len(e.b))
    \cup C("nn-nearest", Len(e.i12) = Len(e.a) /\ Len(e.i21) = Len(e.b) =>
             /\ \A i \in DOMAIN e.i12 : e.i12[i] + 1 \in Nearests(e.a[i], e.b)
             /\ \A i \in DOMAIN e.i21 : e.i21[i] + 1 \in Nearests(e.b[i], e.a))
    \cup C("nn-distance", Len(e.d12) = Len(e.a) /\ Len(e.d21) = Len(e.b) =>
             /\ \A i \in DOMAIN e.d12 : Near(e.d12[i], 1000 * Nearest2(e.a[i], e.b), 1)
             /\ \A i \in DOMAIN e.d21 : Near(e.d21[i], 1000 * Nearest2(e.b[i], e.a), 1))

Fails(e) ==
    CASE e.op = "track" ->
           C("raised", e.ok) \cup
           (IF ~ e.ok THEN {} ELSE
            CASE What = "M05" -> IF e.hassim THEN SimFails(e) ELSE {}
              [] What = "M07" -> RmsFails(e)
              [] What = "M08" -> TrackFails(e)
              [] OTHER -> {"unknown"})
      [] e.op = "iou" -> C("raised", e.ok) \cup (IF e.ok THEN IouFails(e) ELSE {})
      [] e.op = "nn" -> C("raised", e.ok) \cup (IF e.ok THEN NnFails(e) ELSE {})
      \* signed volume of the closed face table, in sixtieths of the box volume
      [] e.op = "boxmesh" -> C("box-mesh-encloses-volume", e.sixtieths = 60)
      \* the command line evaluator
      [] e.op = "cli" -> C("cli-status", e.rc = 0) \cup C("cli-output", e.rc = 0 => e.printed = e.expected)
      [] e.op = "climix" -> C("cli-rejects-mixed-types", e.rc # 0 /\ e.valueerror)
      [] OTHER -> {"unknown-event"}

Init == l = 1 /\ bad = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED bad
Spec == Init /\ [][Next]_<<l, bad>>
=============================================================================
