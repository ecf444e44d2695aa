---------------------------- MODULE TraceVoxel ----------------------------
(* Judges recorded histories of voxel grids (driver voxel). *)
EXTENDS Voxel, TraceBase
VARIABLES l, bad, g, disk
vars == <<l, bad, g, disk>>
(* g: sequence of [cells, size, corner];  disk: file name -> same or "junk" *)
Put(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Ok(gg, d) == [g |-> gg, disk |-> d, raises |-> {}]
Raise(S) == [g |-> g, disk |-> disk, raises |-> S]
Expect(e) ==
    CASE e.op = "new" ->
           IF e.size <= 0 THEN Raise({"ValueError"})
           ELSE IF ~ Accepts(e.batch) THEN Raise({"ValueError"})
           ELSE Ok(Append(g, [cells |-> CellsOf(e.batch), size |-> e.size, corner |-> e.corner]), disk)
      [] e.op = "add" -> IF Accepts(e.batch) THEN Ok([g EXCEPT ![e.h].cells = Added(@, e.batch)], disk)
                         ELSE Raise({"ValueError"})
      [] e.op = "save" -> IF e.where = "nowhere" THEN Raise({"OSError"}) ELSE Ok(g, Put(disk, e.name, <<g[e.h]>>))
      [] e.op = "junk" -> Ok(g, Put(disk, e.name, <<>>))
      [] e.op = "load" -> IF e.name \notin DOMAIN disk THEN Raise({"OSError"})
                          ELSE IF disk[e.name] = <<>> THEN Raise({"OSError"})
                          ELSE Ok([g EXCEPT ![e.h] = disk[e.name][1]], disk)
      [] e.op = "from_file" -> IF e.name \notin DOMAIN disk THEN Raise({"OSError"})
                               ELSE IF disk[e.name] = <<>> THEN Raise({"OSError"})
                               ELSE Ok(Append(g, disk[e.name][1]), disk)
      [] OTHER -> Raise({"unknown"})
(* an observed grid: cells (list), residuals in 1/1000 cell, bounds in 1/1000 cell relative to the corner *)
GridDiff(w, o) ==
    C("cells", {o.cells[i] : i \in DOMAIN o.cells} = w.cells)
    \cup C("duplicates", Len(o.cells) = Cardinality(w.cells))
    \cup C("centres", o.resid <= 2)
    \cup C("voxel-size", o.size = w.size) \cup C("min-corner", o.corner = w.corner)
    \cup (IF w.cells = {} THEN {} ELSE
          C("bounds", \A a \in 1..3 : /\ o.lo[a] - Lo(w.cells)[a] * 1000 \in -2..2
                                      /\ o.hi[a] - Hi(w.cells)[a] * 1000 \in -2..2))
Fails(e, x) ==
    C("raised-" \o e.err, x.raises # {} \/ e.ok) \cup C("not-raised", x.raises # {} => ~ e.ok)
    \cup C("wrong-exception", x.raises # {} /\ ~ e.ok => \E i \in DOMAIN e.mro : e.mro[i] \in x.raises)
    \cup C("input-changed", e.same)
    \cup (IF Len(e.obs) # Len(x.g) THEN {"grid-count"} ELSE UNION {GridDiff(x.g[h], e.obs[h]) : h \in DOMAIN x.g})
Init == l = 1 /\ bad = <<>> /\ g = <<>> /\ disk = [k \in {} |-> <<>>]
Next == \/ /\ l <= N
           /\ IF Log[l].op = "start" THEN g' = <<>> /\ disk' = [k \in {} |-> <<>>] /\ UNCHANGED bad /\ l' = l + 1
              ELSE LET e == Log[l]  x == Expect(e)  f == Fails(e, x) IN
                   /\ bad' = Note(bad, l, f)
                   /\ IF f = {} THEN g' = x.g /\ disk' = x.disk /\ l' = l + 1
                      ELSE /\ g' = <<>> /\ disk' = [k \in {} |-> <<>>]
                           /\ l' = IF \E j \in l+1..N : Log[j].op = "start"
                                   THEN CHOOSE j \in l+1..N : Log[j].op = "start" /\ \A m \in l+1..j-1 : Log[m].op # "start"
                                   ELSE N + 1
        \/ /\ l = N + 1 /\ Report(bad) /\ l' = N + 2 /\ UNCHANGED <<bad, g, disk>>
Spec == Init /\ [][Next]_vars
=============================================================================
