------------------------------- MODULE MCGltf -------------------------------
(* Histories of one model and its copies on the disk: primitives are added, materials updated, the model is saved and
   loaded back (gltf and glb), or replaced by a foreign model whose images have any names.  The design under test:
   images are files, found by name.  A history variable says what the model should hold. *)
EXTENDS Gltf, TLC, Json, FiniteSets
CONSTANTS Unique,     \* images get unused names (FALSE: the number of images before)
          PerModel,   \* texture indices of an added mesh are those of the model (FALSE: those it was made with)
          OwnMat,     \* an update adds a material (FALSE: changes the material in place, also for others that use it)
          Steps
VARIABLES m,     \* what the model should hold
          ims,   \* the images of the real design: [name, pix]
          mats,  \* its materials: [rgb, tx] (tx: index of an image; 0: none)
          prims, \* its primitives: material index
          n, h
vars == <<m, ims, mats, prims, n, h>>
Names == {0, 1, 2, 7}
RECURSIVE Free(_, _)
Free(used, k) == IF k \in used THEN Free(used, k + 1) ELSE k
Used(s) == {s[i].name : i \in DOMAIN s}
NewName(s) == IF Unique THEN Free(Used(s), Len(s)) ELSE Len(s)
Mesh(pix) == [geo |-> 1, tex |-> pix # 0, base |-> pix, mr |-> 0, mat |-> NoLook]
Init == m = Empty /\ ims = <<>> /\ mats = <<>> /\ prims = <<>> /\ n = 0 /\ h = <<>>
Do(op) == n < Steps /\ n' = n + 1 /\ h' = Append(h, op)
Fresh == n + 1   \* a picture no image has yet
AddT(op, pix) ==
             /\ Do(op) /\ m' = Add(m, Mesh(pix))
             /\ ims' = IF pix = 0 THEN ims ELSE Append(ims, [name |-> NewName(ims), pix |-> pix])
             /\ mats' = Append(mats, [rgb |-> <<>>, tx |-> IF pix = 0 THEN 0 ELSE IF PerModel THEN Len(ims) + 1 ELSE 1])
             /\ prims' = Append(prims, Len(mats) + 1)
Upd(op, i, rgb, pix) ==
    LET tx == IF pix = 0 THEN mats[prims[i]].tx ELSE Len(ims) + 1
        new == [rgb |-> IF rgb = <<>> THEN mats[prims[i]].rgb ELSE rgb, tx |-> tx]
    IN /\ Do(op) /\ i \in DOMAIN prims /\ m' = Update(m, i, rgb, pix)
       /\ ims' = IF pix = 0 THEN ims ELSE Append(ims, [name |-> NewName(ims), pix |-> pix])
       /\ mats' = IF OwnMat THEN Append(mats, new) ELSE [mats EXCEPT ![prims[i]] = new]
       /\ prims' = IF OwnMat THEN [prims EXCEPT ![i] = Len(mats) + 1] ELSE prims
(* images are written one after the other, and read back by name *)
Disk(s, name) == s[CHOOSE i \in DOMAIN s : s[i].name = name /\ \A j \in DOMAIN s : s[j].name = name => j <= i].pix
Back(s) == [i \in DOMAIN s |-> [s[i] EXCEPT !.pix = Disk(s, s[i].name)]]
SaveG == Do("gltf") /\ Len(prims) > 0 /\ ims' = Back(ims) /\ UNCHANGED <<m, mats, prims>>
SaveB == Do("glb") /\ Len(prims) > 0 /\ ims' = [i \in DOMAIN ims |-> [name |-> i - 1, pix |-> Back(ims)[i].pix]] /\ UNCHANGED <<m, mats, prims>>
(* a foreign model: two primitives that share one material, two images *)
Foreign == \E a, b \in Names : a # b /\ n = 0 /\ Do("foreign")
           /\ m' = [prims |-> <<[geo |-> 1, tex |-> TRUE, mat |-> 1], [geo |-> 1, tex |-> TRUE, mat |-> 1]>>,
                    mats |-> <<[look |-> NoLook, base |-> 21, mr |-> 0]>>, nimg |-> 2, nnode |-> 2]
           /\ ims' = <<[name |-> a, pix |-> 22], [name |-> b, pix |-> 21]>>
           /\ mats' = <<[rgb |-> <<>>, tx |-> 2]>> /\ prims' = <<1, 1>>
Next == \/ AddT("addt", Fresh) \/ AddT("addp", 0)
        \/ (\E i \in DOMAIN prims : m.prims[i].tex /\ Upd(IF i = 1 THEN "upt1" ELSE "uptn", i, <<>>, Fresh))
        \/ (\E i \in DOMAIN prims : Upd(IF i = 1 THEN "upc1" ELSE "upcn", i, <<5, 0, 0, 10>>, 0))
        \/ SaveG \/ SaveB \/ Foreign
Spec == Init /\ [][Next]_vars
Real == [i \in DOMAIN prims |-> LET t == mats[prims[i]] IN [rgb |-> t.rgb, pix |-> IF t.tx = 0 THEN 0 ELSE ims[t.tx].pix]]
Want == [i \in DOMAIN m.prims |-> LET x == Meshes(m)[i] IN [rgb |-> x.mat.rgb, pix |-> x.base]]
InvHolds == Real = Want
InvNames == Cardinality(Used(ims)) = Len(ims)
InvMats == \A i \in DOMAIN prims : prims[i] \in DOMAIN mats /\ mats[prims[i]].tx \in 0..Len(ims)
InvCount == m.nimg = Len(ims) /\ Len(prims) = Len(m.prims)
Emit == n = Steps => PrintT(<<"OUT", ToJson(h)>>)
=============================================================================
