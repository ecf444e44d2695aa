------------------------------- MODULE MCScene -------------------------------
(* Small scene worlds: two live handles, two project names, two objects. *)
EXTENDS Scene, TLC
VARIABLES live, store, disk, saved, hist
vars == <<live, store, disk, saved, hist>>
(* hist: for every object the list of poses applied since it was made, per handle *)
Hs == 1..2
Names == {"a"}
Poses == { [q |-> <<1, 0, 0, 1>>, t |-> <<100000, 0, 0>>], [q |-> <<1, 1, 0, 0>>, t |-> <<0, 0, 100000>>] }
O(k) == [id |-> k, type |-> "voxels", cat |-> "c", q |-> QId, t |-> <<0, 0, 0>>, sym |-> <<"none", "none", "none">>,
         score |-> "1.0", ev |-> TRUE, bounds |-> <<>>, box |-> <<0, 0, 0, 1, 1, 1>>, shape |-> k]
None == [type |-> "none", sref |-> 0, objs |-> <<>>]
Empty == [k \in {} |-> O("1")]
Init == /\ live = [h \in Hs |-> None] /\ store = [r \in 1..3 |-> DefaultSettings]
        /\ disk = [n \in {} |-> None] /\ saved = [n \in {} |-> None] /\ hist = [h \in Hs |-> <<>>]
FreeRef == CHOOSE r \in 1..3 : \A h \in Hs : live[h].sref # r
New(h) == /\ live[h] = None /\ live' = [live EXCEPT ![h] = [type |-> "voxels", sref |-> FreeRef, objs |-> [k \in {"1"} |-> O(k)]]]
          /\ store' = [store EXCEPT ![FreeRef] = DefaultSettings]
          /\ hist' = [hist EXCEPT ![h] = <<>>] /\ UNCHANGED <<disk, saved>>
Share(h, g) == /\ live[h] = None /\ live[g] # None
               /\ live' = [live EXCEPT ![h] = [type |-> "voxels", sref |-> live[g].sref, objs |-> Empty]]
               /\ hist' = [hist EXCEPT ![h] = <<>>] /\ UNCHANGED <<store, disk, saved>>
Trans(h, g, p) == /\ live[h] = None /\ live[g] # None /\ Len(hist[g]) < 2
                  /\ live' = [live EXCEPT ![h] = [live[g] EXCEPT !.objs = TransformObjs(@, p), !.sref = FreeRef]]
                  /\ store' = [store EXCEPT ![FreeRef] = store[live[g].sref]]
                  /\ hist' = [hist EXCEPT ![h] = Append(hist[g], p)] /\ UNCHANGED <<disk, saved>>
Edit(h) == /\ live[h] # None /\ store' = [store EXCEPT ![live[h].sref].version = "x"]
           /\ UNCHANGED <<live, disk, saved, hist>>
Conv(h, g) == /\ live[h] = None /\ live[g] # None /\ <<live[g].type, "bounding_box">> \in Convertible
              /\ live' = [live EXCEPT ![h] = [live[g] EXCEPT !.type = "bounding_box", !.sref = FreeRef,
                                                              !.objs = [k \in DOMAIN @ |-> ToBox(@[k])]]]
              /\ store' = [store EXCEPT ![FreeRef] = store[live[g].sref]]
              /\ hist' = [hist EXCEPT ![h] = hist[g]] /\ UNCHANGED <<disk, saved>>
Save(h, n) == /\ live[h] # None /\ n \notin DOMAIN disk
              /\ LET s == [type |-> live[h].type, settings |-> store[live[h].sref], objs |-> Stored(live[h].objs), hist |-> hist[h]]
                 IN disk' = [m \in DOMAIN disk \cup {n} |-> IF m = n THEN s ELSE disk[m]]
              /\ saved' = [m \in DOMAIN saved \cup {n} |-> IF m = n THEN live[h].objs ELSE saved[m]]
              /\ UNCHANGED <<live, store, hist>>
Load(h, n) == /\ live[h] = None /\ n \in DOMAIN disk
              /\ live' = [live EXCEPT ![h] = [type |-> disk[n].type, sref |-> FreeRef, objs |-> disk[n].objs]]
              /\ store' = [store EXCEPT ![FreeRef] = disk[n].settings]
              /\ hist' = [hist EXCEPT ![h] = disk[n].hist] /\ UNCHANGED <<disk, saved>>
Drop(h) == /\ live[h] # None /\ live' = [live EXCEPT ![h] = None] /\ UNCHANGED <<store, disk, saved, hist>>
Next == \E h \in Hs : \/ New(h) \/ Edit(h) \/ Drop(h)
                      \/ \E g \in Hs \ {h} : Share(h, g) \/ Conv(h, g) \/ \E p \in Poses : Trans(h, g, p)
                      \/ \E n \in Names : Save(h, n) \/ Load(h, n)
Spec == Init /\ [][Next]_vars
Same(a, b) == [a EXCEPT !.bounds = <<>>, !.type = "", !.shape = ""] = [b EXCEPT !.bounds = <<>>, !.type = "", !.shape = ""]
(* every object is where the poses applied to it say, whatever was saved, loaded or converted in between *)
RECURSIVE Apply(_, _)
Apply(ps, o) == IF ps = <<>> THEN o ELSE Apply(Tail(ps), Repose(Head(ps), o))
InvPose == \A h \in Hs : live[h] # None => \A k \in DOMAIN live[h].objs : Same(live[h].objs[k], Apply(hist[h], O(k)))
InvCompose == \A p, q \in Poses : Repose(q, Repose(p, O("1"))) = Repose(ComposeP(q, p), O("1"))
InvDisk == DOMAIN disk = DOMAIN saved /\ \A n \in DOMAIN disk : \A k \in DOMAIN saved[n] : Same(disk[n].objs[k], saved[n][k])
InvBounds == \A n \in DOMAIN disk : \A k \in DOMAIN disk[n].objs : disk[n].objs[k].bounds = disk[n].objs[k].box
DiskStable == [][\A n \in DOMAIN disk : n \in DOMAIN disk' /\ disk'[n] = disk[n]]_vars
OthersKeep == [][\A h \in Hs : live[h] # None => live'[h] \in {live[h], None}]_vars
=============================================================================
