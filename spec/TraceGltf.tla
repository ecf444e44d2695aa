------------------------------ MODULE TraceGltf ------------------------------
(* Judges recorded histories of glTF models (driver gltf): four models, four meshes, any number of saved files. *)
EXTENDS Gltf, TraceBase
VARIABLES l, bad, regs, ms, files
NoMesh == [geo |-> <<0, 0, 0>>, tex |-> FALSE, base |-> 0, mr |-> 0, mat |-> NoLook]
Lit(x) == [geo |-> x.geo, tex |-> x.tex, base |-> x.base, mr |-> x.mr, mat |-> NoLook]
Look(m) == [name |-> m.name, rgb |-> m.rgb, met |-> m.met, rou |-> m.rou]
ModelOf(x) == [prims |-> [i \in DOMAIN x.prims |-> [geo |-> x.prims[i].geo, tex |-> x.prims[i].tex, mat |-> x.prims[i].mat]],
               mats |-> [i \in DOMAIN x.mats |-> [look |-> Look(x.mats[i].look), base |-> x.mats[i].base, mr |-> x.mats[i].mr]],
               nimg |-> x.nimg, nnode |-> x.nnode]
In(m, i) == i <= Len(m.prims)
(* ------------------------------------------------------------------ what the state is after an event *)
NextRegs(e) ==
    CASE e.op = "add" -> [regs EXCEPT ![e.r] = Add(@, ms[e.q])]
      [] e.op = "from" -> [regs EXCEPT ![e.r] = Add(Empty, ms[e.q])]
      [] e.op = "update" -> [regs EXCEPT ![e.r] = UpdateAll(@, IF e.fail = 0 THEN e.us ELSE SubSeq(e.us, 1, e.fail - 1), 1)]
      [] e.op = "colour" -> [regs EXCEPT ![e.r] = Colour(@, Look(e.look))]
      [] e.op = "copy" -> [regs EXCEPT ![e.t] = regs[e.r]]
      [] e.op = "load" -> [regs EXCEPT ![e.t] = files[e.f]]
      [] e.op = "foreign" -> [regs EXCEPT ![e.t] = ModelOf(e.lit)]
      [] OTHER -> regs
NextMs(e) ==
    CASE e.op = "mesh" -> [ms EXCEPT ![e.q] = Lit(e.x)]
      [] e.op = "extract" /\ e.ok /\ In(regs[e.r], e.i) -> [ms EXCEPT ![e.q] = Extract(regs[e.r], e.i)]
      [] e.op = "mutate" -> [ms EXCEPT ![e.q].geo = e.x.geo]
      [] OTHER -> ms
NextFiles(e) == IF e.op = "save" THEN Append(files, regs[e.r]) ELSE files
(* ------------------------------------------------------------------ judging *)
SameMesh(got, want) == got.geo = want.geo /\ got.tex = want.tex /\ got.base = want.base /\ got.mr = want.mr
SameLook(got, want) == (want.name = "*" \/ got.name = want.name) /\ got.rgb = want.rgb /\ got.met = want.met /\ got.rou = want.rou
FileFails(f, m) ==
    IF f.err # "" THEN {"file-unsound"} ELSE
    C("file-primitives", Len(f.prims) = Len(m.prims) /\ \A i \in DOMAIN f.prims : i \in DOMAIN m.prims /\
            LET p == f.prims[i] w == m.prims[i] IN p.geo = w.geo /\ p.tex = w.tex /\ p.mat = w.mat)
    \cup C("file-materials", Len(f.mats) = Len(m.mats) /\ \A i \in DOMAIN f.mats : i \in DOMAIN m.mats /\
            LET t == f.mats[i] w == m.mats[i] IN SameLook(t.look, w.look) /\ t.base = w.base /\ t.mr = w.mr)
    \cup C("file-images", f.nimg = m.nimg)
DumpFails(d, rs) ==
    LET m == rs[d.r] IN
    C("primitives", Len(d.api) = Len(m.prims) /\ \A i \in DOMAIN d.api : i \in DOMAIN m.prims /\ SameMesh(d.api[i], Extract(m, i)))
    \cup C("counts", d.cnt = <<Len(m.prims), m.nnode, m.nimg>>)
    \cup C("image-names", d.urid)
    \cup UNION {FileFails(d.file[i], m) : i \in DOMAIN d.file}
Sizes(m) == [i \in 1..Len(m.prims) |-> <<m.prims[i].geo[2], m.prims[i].geo[3]>>]
Raise(e, fail) == C("raises", e.ok # fail)
OpFails(e) ==
    CASE e.op \in {"mesh", "add", "from", "copy", "load", "mutate"} -> {}
      [] e.op = "extract" ->
            IF ~ In(regs[e.r], e.i) THEN C("raises", e.err = "IndexError")
            ELSE IF e.must /\ ~ regs[e.r].prims[e.i].tex THEN C("raises", e.err = "AssertionError")
            ELSE Raise(e, FALSE) \cup C("extracted", e.ok /\ SameMesh(e.got[1], Extract(regs[e.r], e.i)))
      [] e.op = "update" -> Raise(e, e.fail # 0 /\ In(regs[e.r], e.fail))
      [] e.op = "colour" -> C("index", e.got = Len(regs[e.r].mats))
      [] e.op = "save" -> C("returned-path", e.ret) \cup UNION {FileFails(e.file[i], regs[e.r]) : i \in DOMAIN e.file}
      [] e.op = "foreign" -> IF FileFails(e.own, ModelOf(e.lit)) # {} THEN {"harness-foreign"} ELSE {}
      [] e.op = "same" -> C("same-size", e.got = (Sizes(regs[e.r]) = Sizes(regs[e.t])))
      [] e.op = "bad" -> Raise(e, TRUE) \cup C("exception", e.ok \/
            CASE e.what = "add" -> e.value [] e.what = "save-nodir" -> e.value
              [] e.what = "save-blocked-image" -> TRUE
              [] OTHER -> e.io)
      [] OTHER -> {"unknown-event"}
Fails(e) == OpFails(e) \cup C("leaves-something-behind", e.clean) \cup UNION {DumpFails(e.dumps[i], NextRegs(e)) : i \in DOMAIN e.dumps}
Regs0 == [i \in 1..4 |-> Empty]
Ms0 == [i \in 1..4 |-> NoMesh]
Init == l = 1 /\ bad = <<>> /\ regs = Regs0 /\ ms = Ms0 /\ files = <<>>
Fresh(e) == "new" \in DOMAIN e /\ regs # Regs0
Next == \/ /\ l <= N /\ "new" \in DOMAIN Log[l] /\ (regs # Regs0 \/ ms # Ms0 \/ files # <<>>)
           /\ regs' = Regs0 /\ ms' = Ms0 /\ files' = <<>> /\ UNCHANGED <<l, bad>>
        \/ /\ l <= N /\ ~ ("new" \in DOMAIN Log[l] /\ (regs # Regs0 \/ ms # Ms0 \/ files # <<>>))
           /\ bad' = Note(bad, l, Fails(Log[l])) /\ l' = l + 1
           /\ regs' = NextRegs(Log[l]) /\ ms' = NextMs(Log[l]) /\ files' = NextFiles(Log[l])
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, regs, ms, files>>
Spec == Init /\ [][Next]_<<l, bad, regs, ms, files>>
=============================================================================
