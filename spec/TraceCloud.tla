------------------------------ MODULE TraceCloud ------------------------------
(* Judges recorded operations on point clouds (driver cloud).  Points are in 1/1000. *)
EXTENDS Cloud, TraceBase, Num
Rg == INSTANCE Rigid
VARIABLES l, bad, regs
Of(r) == [p |-> r.p, c |-> r.c]
NearP(a, b, tol) == Len(a) = Len(b) /\ \A i \in DOMAIN a : \A x \in 1..3 : Near(a[i][x], b[i][x], tol)
Sound(r) == C("not-parallel", Parallel(Of(r)) /\ r.n = Len(r.p) /\ r.colored = (r.c # <<>>))
            \cup C("accessor", \A k \in DOMAIN r.at : r.at[k][2] = r.p[r.at[k][1]] /\ (r.colored => r.at[k][3] = r.c[r.at[k][1]]))
            \cup C("type", r.dt = <<"float64", "uint8">>)
Is(r, want, tol) == C("points", NearP(r.p, want.p, tol)) \cup C("colours", r.c = want.c)
Rnd2(x, d) == (2 * x + d) \div (2 * d)
From(ps, x) == LET m == Rg!QMat(ps[1]) v == Rg!MulMV(m[1], x) IN [i \in 1..3 |-> Rnd2(v[i], m[2]) + ps[2][i]]
To(ps, x) == LET m == Rg!QMat(ps[1]) v == Rg!MulMV(Rg!Tr(m[1]), Rg!SubV(x, ps[2])) IN [i \in 1..3 |-> Rnd2(v[i], m[2])]
MoveFrom(ps, a) == LET F(x) == From(ps, x) IN Map(F, a)
MoveTo(ps, a) == LET F(x) == To(ps, x) IN Map(F, a)
Parts(e) == CASE e.op \in {"append", "merge"} -> <<regs[e.a], regs[e.b]>>
              [] e.op = "sum" -> [i \in DOMAIN e.parts |-> regs[e.parts[i]]]
              [] e.op = "register" -> [i \in DOMAIN e.parts |-> MoveFrom(<<e.parts[i][2], e.parts[i][3]>>, regs[e.parts[i][1]])]
JoinFails(e) == IF AllJoinable(Parts(e))
                THEN IF e.ok THEN Is(e.res, JoinAll(Parts(e)), IF e.op = "register" THEN 3 ELSE 0)
                     ELSE (* an uncoloured cloud without points cannot be told from an empty coloured one *)
                          C("raised", e.op \in {"merge", "sum"} /\ e.valueerror /\ \E i, j \in DOMAIN Parts(e) : Colored(Parts(e)[i]) /\ Parts(e)[j].p = <<>>)
                ELSE C("mixed", ~ e.ok) \cup C("not-ValueError", e.ok \/ e.valueerror)
PlyFails(e) == IF ~ e.ok THEN {"raised"} ELSE C("operand-changed", e.same) \cup
    LET a == regs[e.a] IN C("file-points", e.file.n = Len(a.p) /\ e.file.whole /\ NearP(e.file.p, a.p, 1)) \cup C("file-colours", e.file.c = a.c)
Fails(e) == CASE e.op = "alias" -> C("aliased", e.same)
              [] e.op = "badfile" -> C("accepted-bad-file", e.raised)
              [] e.op = "badshape" -> C("accepted-bad-shape", e.raised)
              [] e.op = "ply" -> PlyFails(e)
              [] e.op = "text" -> IF ~ e.ok THEN {"raised"} ELSE C("text", NearP(e.p, regs[e.a].p, 0) /\ e.c = [i \in DOMAIN e.p |-> e.color])
              [] OTHER ->
    C("operand-changed", e.same) \cup (IF e.ok THEN Sound(e.res) ELSE {}) \cup
    CASE e.op \in {"append", "merge", "sum", "register"} -> JoinFails(e)
      [] e.op = "load" /\ regs[e.a].p = <<>> -> C("loaded-nothing", ~ e.ok \/ e.res.p = <<>>)
      [] e.op = "thin" /\ regs[e.a].p = <<>> -> C("drawn", ~ e.ok \/ e.res.p = <<>>)
      [] OTHER -> IF ~ e.ok THEN {"raised"} ELSE
    CASE e.op \in {"cloud", "read"} -> Is(e.res, e.want, 0)
      [] e.op = "from" -> Is(e.res, MoveFrom(e.pose, regs[e.a]), 3)
      [] e.op = "to" -> Is(e.res, MoveTo(e.pose, regs[e.a]), 3)
      [] e.op = "thin" -> C("drawn", DrawnFrom(Of(e.res), regs[e.a])) \cup C("count", Len(e.res.p) = e.k)
      [] e.op = "load" -> C("points", NearP(e.res.p, regs[e.a].p, 1)) \cup C("colours", e.res.c = <<>> \/ e.res.c = regs[e.a].c)
      [] OTHER -> {"unknown-event"}
Regs(e, old) == IF e.op \in {"alias", "badfile", "badshape", "ply", "text"} \/ ~ e.ok THEN old
                ELSE IF e.dst # 0 THEN [old EXCEPT ![e.dst] = Of(e.res)] ELSE Append(old, Of(e.res))
Init == l = 1 /\ bad = <<>> /\ regs = <<>>
Next == \/ /\ l <= N /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
           /\ regs' = Regs(Log[l], IF "new" \in DOMAIN Log[l] THEN <<>> ELSE regs)
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, regs>>
Spec == Init /\ [][Next]_<<l, bad, regs>>
=============================================================================
