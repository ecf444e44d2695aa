----------------------------- MODULE TraceScene -----------------------------
(* Judges recorded histories of scenes (driver scene): after every operation, every live scene and
   every project on disk is compared with the state the specification reaches. *)
EXTENDS Scene, TraceBase
VARIABLES l, bad, sc, store, disk
vars == <<l, bad, sc, store, disk>>

ObjSet(seq) == [k \in {seq[i].key : i \in DOMAIN seq} |-> (CHOOSE i \in DOMAIN seq : seq[i].key = k)]

(* -- an observed object against the specification's -- *)
SameBounds(a, b) == Len(a) = Len(b) /\ \A i \in DOMAIN a : Near(a[i], b[i], 1)
ObjDiff(o, x) ==
    C("id", x.id = o.id /\ x.key = o.id) \cup C("category", x.cat = o.cat) \cup C("symmetry", x.sym = o.sym)
    \cup C("score", x.score = o.score) \cup C("evaluated", x.ev = o.ev) \cup C("object-type", x.type = o.type)
    \cup C("rotation", LET m == RotCols(o.q) IN \A i, j \in 1..3 : Near(x.rot[i][j], m[i][j], 3))
    \cup C("translation", \A i \in 1..3 : Near(x.t[i], o.t[i], 8))
    \cup C("bounds", SameBounds(x.bounds, o.bounds))
    \cup C("shape", x.shape = o.shape)
SceneDiff(s, settings, x) ==
    C("scene-type", x.type = s.type) \cup C("settings", x.settings = settings)
    \cup C("elements-kind", x.dict)
    \cup (IF {x.objs[i].key : i \in DOMAIN x.objs} # DOMAIN s.objs \/ Len(x.objs) # Cardinality(DOMAIN s.objs)
          THEN {"objects"}
          ELSE UNION {ObjDiff(s.objs[x.objs[i].key], x.objs[i]) : i \in DOMAIN x.objs})

NewObj(e) == [id |-> e.o.id, type |-> e.o.type, cat |-> e.o.cat, q |-> e.o.q, t |-> e.o.t, sym |-> e.o.sym,
              score |-> e.o.score, ev |-> e.o.ev, bounds |-> e.o.bounds, box |-> e.o.box, shape |-> e.o.shape]
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
AppendS(s) == Append(sc, s)
Fresh == Len(store) + 1

(* expected outcome: <<scenes, store, disk, raises, clauses>>;  raises = "" for success *)
Ok(s, st, d) == [sc |-> s, store |-> st, disk |-> d, raises |-> {}, cl |-> {}]
Raise(x) == [sc |-> sc, store |-> store, disk |-> disk, raises |-> x, cl |-> {}]
Expect(e) ==
    CASE e.op = "new" ->
           IF e.type \notin SceneTypes THEN Raise({"ValueError"}) ELSE
           IF e.share > 0 THEN Ok(AppendS([type |-> e.type, sref |-> sc[e.share].sref, objs |-> <<>>]), store, disk)
           ELSE Ok(AppendS([type |-> e.type, sref |-> Fresh, objs |-> <<>>]),
                   Append(store, IF e.own THEN e.settings ELSE DefaultSettings), disk)
      [] e.op = "add" -> Ok([sc EXCEPT ![e.h].objs = Put(@, e.o.id, NewObj(e))], store, disk)
      [] e.op = "remove" -> Ok([sc EXCEPT ![e.h].objs = [k \in DOMAIN @ \ {e.id} |-> @[k]]], store, disk)
      [] e.op = "setting" -> Ok(sc, [store EXCEPT ![sc[e.h].sref] = e.settings], disk)
      [] e.op = "setpose" -> Ok([sc EXCEPT ![e.h].objs[e.id].q = e.q, ![e.h].objs[e.id].t = e.t], store, disk)
      [] e.op = "nudge" -> Ok([sc EXCEPT ![e.h].objs[e.id].t = ScPlus(@, e.t)], store, disk)
      [] e.op = "attr" -> Ok([sc EXCEPT ![e.h].objs[e.id].cat = e.cat, ![e.h].objs[e.id].score = e.score,
                                         ![e.h].objs[e.id].ev = e.ev], store, disk)
      [] e.op = "transform" ->
           Ok(AppendS([type |-> sc[e.h].type, sref |-> Fresh, objs |-> TransformObjs(sc[e.h].objs, [q |-> e.q, t |-> e.t])]),
              Append(store, store[sc[e.h].sref]), disk)
      [] e.op = "convert" ->
           IF <<sc[e.h].type, e.target>> \notin Convertible THEN Raise({"ValueError"})
           ELSE IF e.target = "bounding_box"
           THEN Ok(AppendS([type |-> e.target, sref |-> Fresh, objs |-> [k \in DOMAIN sc[e.h].objs |-> ToBox(sc[e.h].objs[k])]]),
                   Append(store, store[sc[e.h].sref]), disk)
           ELSE LET src == sc[e.h].objs
                    obs == e.obs[Len(e.obs)].objs
                    at == ObjSet(obs)
                    w(k) == IF e.ok /\ Len(e.obs) = Len(sc) + 1 /\ k \in DOMAIN at
                            THEN [box |-> obs[at[k]].bounds, shape |-> obs[at[k]].shape]
                            ELSE [box |-> src[k].box, shape |-> ""]
                IN [Ok(AppendS([type |-> e.target, sref |-> Fresh, objs |-> [k \in DOMAIN src |-> ToVoxels(src[k], w(k))]]),
                       Append(store, store[sc[e.h].sref]), disk)
                    EXCEPT !.cl = C("voxels-enclose", \A k \in DOMAIN src : Len(w(k).box) = 6 /\ VoxelOk(src[k], w(k)))]
      [] e.op = "convertobj" ->
           IF <<sc[e.h].objs[e.id].type, e.target>> \notin Convertible THEN Raise({"ValueError"}) ELSE Ok(sc, store, disk)
      [] e.op = "save" ->
           IF e.name \in DOMAIN disk THEN Raise({"OSError"})
           ELSE Ok(sc, store, Put(disk, e.name, [type |-> sc[e.h].type, settings |-> store[sc[e.h].sref],
                                                 objs |-> Stored(sc[e.h].objs), digest |-> IF e.ok THEN e.digest ELSE ""]))
      [] e.op = "load" ->
           IF e.name \notin DOMAIN disk THEN Raise({"OSError"})
           ELSE Ok(AppendS([type |-> disk[e.name].type, sref |-> Fresh, objs |-> disk[e.name].objs]),
                   Append(store, disk[e.name].settings), disk)
      \* a save of scene h stopped at step k: what is found afterwards
      [] e.op = "stopped" -> Ok(sc, store, disk)
      [] OTHER -> Raise({"unknown-event"})

StoppedFails(e) ==
    LET want == [sc[e.h] EXCEPT !.objs = Stored(@)] IN
    C("torn-load", e.loaded => SceneDiff(want, store[sc[e.h].sref], e.scene) = {})
    \cup C("description-last", e.xml => e.othersdone)
    \cup C("finished-loads", e.finished => e.loaded)
    \cup C("stopped-silently", e.mode = "full" /\ e.returned => e.loaded)

Fails(e, x) ==
    IF e.op = "stopped" THEN StoppedFails(e)
    ELSE C("raised-" \o e.err, x.raises # {} \/ e.ok)
         \cup C("not-raised", x.raises # {} => ~ e.ok)
         \cup C("wrong-exception", x.raises # {} /\ ~ e.ok => \E i \in DOMAIN e.mro : e.mro[i] \in x.raises)
         \cup x.cl
         \cup (IF Len(e.obs) # Len(x.sc) THEN (IF x.raises = {} /\ ~ e.ok THEN {} ELSE {"scene-count"})
               ELSE UNION {SceneDiff(x.sc[h], x.store[x.sc[h].sref], e.obs[h]) : h \in DOMAIN x.sc})
         \cup C("disk-projects", {e.disk[i][1] : i \in DOMAIN e.disk} = DOMAIN x.disk \/ (x.raises = {} /\ ~ e.ok))
         \cup C("disk-changed", \A i \in DOMAIN e.disk : e.disk[i][1] \in DOMAIN x.disk => e.disk[i][2] = x.disk[e.disk[i][1]].digest)

E0 == [k \in {} |-> 0]
Init == l = 1 /\ bad = <<>> /\ sc = <<>> /\ store = <<>> /\ disk = E0
Reset(e) == e.op = "start"
Next == \/ /\ l <= N /\ Reset(Log[l]) /\ l' = l + 1 /\ sc' = <<>> /\ store' = <<>> /\ disk' = E0 /\ UNCHANGED bad
        \/ /\ l <= N /\ ~ Reset(Log[l])
           /\ LET e == Log[l]
                  x == Expect(e)
                  f == Fails(e, x)
              IN bad' = Note(bad, l, f)
                 \* after a failure that leaves the two sides with different scenes, stop judging the run
                 /\ IF f # {} /\ ~ (x.raises # {} /\ e.op # "stopped" /\ Len(e.obs) = Len(x.sc))
                    THEN sc' = <<>> /\ store' = <<>> /\ disk' = E0
                         /\ l' = (IF \E j \in l+1..N : Reset(Log[j])
                                  THEN CHOOSE j \in l+1..N : Reset(Log[j]) /\ \A m \in l+1..j-1 : ~ Reset(Log[m])
                                  ELSE N + 1)
                    ELSE sc' = x.sc /\ store' = x.store /\ disk' = x.disk /\ l' = l + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, sc, store, disk>>
Spec == Init /\ [][Next]_vars
=============================================================================
