-------------------------------- MODULE Scene --------------------------------
(* Project scenes in memory and on disk.

   object o:  [id, type, cat, q (rotation, integer quaternion), t (1e-5 m), sym, score (text), ev,
               bounds (six numbers in 1e-4 m, or <<>> for none), box (of its shape), shape (its content)]
   scene s:   [type, sref (whose settings dictionary it has), objs (id -> object)]
   A store of settings dictionaries: sref -> [version, categories_id, categories_url].
   disk:      project name -> [type, settings, objs]  (what loading it yields)                     *)
EXTENDS RotSym

ScPlus(a, b) == [i \in 1..3 |-> a[i] + b[i]]
(* R(q) v, rounded down: exact when the norm of q divides *)
RotU(q, v) == LET n == QNorm2(q)
                  a == q[1] b == q[2] c == q[3] d == q[4]
                  M == << <<a*a + b*b - c*c - d*d, 2*(b*c - a*d), 2*(b*d + a*c)>>,
                          <<2*(b*c + a*d), a*a - b*b + c*c - d*d, 2*(c*d - a*b)>>,
                          <<2*(b*d - a*c), 2*(c*d + a*b), a*a - b*b - c*c + d*d>> >>
              IN [i \in 1..3 |-> (M[i][1]*v[1] + M[i][2]*v[2] + M[i][3]*v[3]) \div n]
(* columns of the rotation matrix in units of 1e-5 *)
RotCols(q) == << RotU(q, <<100000, 0, 0>>), RotU(q, <<0, 100000, 0>>), RotU(q, <<0, 0, 100000>>) >>

ComposeP(p, o) == [q |-> QPrim(QMul(p.q, o.q)), t |-> ScPlus(RotU(p.q, o.t), p.t)]
Repose(p, o) == LET c == ComposeP(p, o) IN [o EXCEPT !.q = c.q, !.t = c.t]
TransformObjs(objs, p) == [k \in DOMAIN objs |-> Repose(p, objs[k])]

DefaultSettings == [version |-> "2.0", cid |-> "fb_categories_v1_0",
                    url |-> "https://sumochallenge.org/en/categories-1_0.json"]

SceneTypes == {"bounding_box", "voxels", "meshes"}
Convertible == {<<"meshes", "voxels">>, <<"meshes", "bounding_box">>, <<"voxels", "bounding_box">>}
(* what saving keeps of an object: everything; its bounds become those of its shape *)
Stored(objs) == [k \in DOMAIN objs |-> [objs[k] EXCEPT !.bounds = objs[k].box]]
ToBox(o) == [o EXCEPT !.type = "bounding_box", !.bounds = o.box, !.shape = "box"]
(* a voxelisation w (its box and content observed) of o is acceptable if it starts at the box and
   ends within one voxel (0.1 m) beyond it *)
VoxelOk(o, w) == \A i \in 1..3 : Near(w.box[i], o.box[i], 2) /\ o.box[i + 3] - 2 <= w.box[i + 3]
                                 /\ w.box[i + 3] <= o.box[i + 3] + 1002
ToVoxels(o, w) == [o EXCEPT !.type = "voxels", !.bounds = w.box, !.box = w.box, !.shape = w.shape]
=============================================================================
