-------------------------------- MODULE Gltf --------------------------------
(* Models of primitive meshes.
   A mesh:  [geo, tex, base, mr, mat]: geometry (a token), textured or not, the pictures of its textures (tokens;
            0: none), and the plain values of its material.
   A model: [prims, mats, nimg, nnode]: primitives [geo, tex, mat] in order (mat: index of the material), materials
            [look, base, mr] (plain values and pictures), numbers of images and of nodes. *)
EXTENDS Integers, Sequences
NoLook == [name |-> "", rgb |-> <<>>, met |-> -1, rou |-> -1]
Empty == [prims |-> <<>>, mats |-> <<>>, nimg |-> 0, nnode |-> 0]
One(pix) == IF pix = 0 THEN 0 ELSE 1
Add(m, x) == [prims |-> Append(m.prims, [geo |-> x.geo, tex |-> x.tex, mat |-> Len(m.mats) + 1]),
              mats |-> Append(m.mats, [look |-> x.mat, base |-> x.base, mr |-> x.mr]),
              nimg |-> m.nimg + One(x.base) + One(x.mr), nnode |-> m.nnode + 1]
Extract(m, i) == LET p == m.prims[i] t == m.mats[p.mat] IN
                 [geo |-> p.geo, tex |-> p.tex, base |-> IF p.tex THEN t.base ELSE 0, mr |-> IF p.tex THEN t.mr ELSE 0, mat |-> t.look]
Meshes(m) == [i \in 1..Len(m.prims) |-> Extract(m, i)]
(* one entry of an update: rgb <<>>: keep the colour; pix 0: keep the texture.  A new material is added. *)
Update(m, i, rgb, pix) ==
    LET t == m.mats[m.prims[i].mat]
        new == [look |-> [t.look EXCEPT !.name = "*", !.rgb = IF rgb = <<>> THEN t.look.rgb ELSE rgb],
                base |-> IF pix = 0 THEN t.base ELSE pix, mr |-> t.mr]
    IN [m EXCEPT !.mats = Append(@, new), !.prims[i].mat = Len(m.mats) + 1, !.nimg = @ + One(pix)]
RECURSIVE UpdateAll(_, _, _)
(* a list of updates: entries for primitives that do not exist are ignored *)
UpdateAll(m, us, i) == IF i > Len(us) \/ i > Len(m.prims) THEN m
                       ELSE UpdateAll(IF us[i].skip THEN m ELSE Update(m, i, us[i].rgb, us[i].pix), us, i + 1)
Colour(m, look) == [m EXCEPT !.mats = Append(@, [look |-> look, base |-> 0, mr |-> 0])]
=============================================================================
