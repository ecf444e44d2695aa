------------------------------ MODULE Contract ------------------------------
(* What the compiled bindings demand of their arguments, and what the native code behind them touches.
   A call is [api, args]; an argument is a record with the fields
     k      kind: arr, nums (list of integers), int, huge (an integer beyond any size), float, list, text, none,
            mesh, tmesh, cloud, model, pose
     dt     element type of an array: f4 f8 u1 u2 u4 i8 ob
     shape  sizes of an array, length of a list of integers
     v      the largest value inside (indices, colours); the value of an int; the largest vertex index of a mesh
     n      vertices of a mesh, points of a cloud, textured parts of a model
     w      for a mesh: number of vertex indices; for a cloud: 1 when coloured
   Verdict(c): "ok" the call has to succeed, "refuse" it has to raise, "any" it may do either. *)
EXTENDS Integers, Sequences
Rec(k) == [k |-> k, dt |-> "", shape |-> <<>>, v |-> 0, n |-> 0, w |-> 0]
Arr(dt, shape, v) == [Rec("arr") EXCEPT !.dt = dt, !.shape = shape, !.v = v]
Num(v) == [Rec("int") EXCEPT !.v = v]
Nums(len, v) == [Rec("nums") EXCEPT !.shape = <<len>>, !.v = v]
MeshOf(n, v) == [Rec("mesh") EXCEPT !.n = n, !.v = v, !.w = 6]
TMeshOf(n, v) == [Rec("tmesh") EXCEPT !.n = n, !.v = v, !.w = 6]
CloudOf(n, w) == [Rec("cloud") EXCEPT !.n = n, !.w = w]
ModelOf(n) == [Rec("model") EXCEPT !.n = n]

IsArr(x, dt, rank) == x.k = "arr" /\ x.dt = dt /\ Len(x.shape) = rank
Rows(x, dt, rows) == IsArr(x, dt, 2) /\ x.shape[1] = rows
IsMesh(x) == x.k \in {"mesh", "tmesh"}
(* a fraction may be taken for the integer part of it (0 here) or refused *)
Natural(x) == x.k \in {"int", "float"} /\ x.v >= 0
Frac(c) == \E i \in DOMAIN c.args : c.args[i].k = "float"
Whole == {"mesh.merge", "tmesh.merge", "tmesh.renumber", "cloud.point", "cloud.color", "cloud.thin", "model.image_size", "model.image_uri",
    "model.extract_primitive_mesh", "model.extract_textured_primitive_mesh"}
Numeric(x) == x.k = "arr" /\ x.dt # "ob"
Texture(x) == IsArr(x, "u1", 3) /\ x.shape[3] = 3
Below(x, n) == Natural(x) /\ x.v < n
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Empty(x) == Prod(x.shape) = 0
(* fit: must hold for the call to be accepted; loose: of the calls that fit, those that may be refused as well *)
V(fit, loose) == IF ~ fit THEN "refuse" ELSE IF loose THEN "any" ELSE "ok"

MeshArgs(a, i, v, n) == IsArr(a[i], "u4", 1) /\ Rows(a[v], "f4", 3) /\ Rows(a[n], "f4", 3) /\ a[v].shape[2] = a[n].shape[2]
(* a mesh may be refused from the start when its indices mean nothing *)
OddIndices(x, n) == x.shape[1] % 3 # 0 \/ (x.shape[1] > 0 /\ x.v >= n)
(* the largest index is the last one: it belongs to a triangle when the triangles are complete *)
Complete(x) == x.shape[1] >= 3 /\ x.shape[1] % 3 = 0
NormalArgs(a) == IsArr(a[1], "u4", 1) /\ Rows(a[2], "f4", 3) /\ (Complete(a[1]) => a[1].v < a[2].shape[2])
(* an empty array of objects holds nothing unsuitable: it may be taken or refused *)
Points(x) == x.k = "arr" /\ (x.dt # "ob" \/ Empty(x)) /\ Len(x.shape) = 2 /\ x.shape[1] = 3
(* no points at all, with any number of coordinates *)
Hollow(x) == x.k = "arr" /\ Len(x.shape) = 2 /\ x.shape[2] = 0
Columns(x) == Points(x) \/ Hollow(x)
Colors(x) == Points(x) /\ (Empty(x) \/ x.v \in 0..255)
Image(x, dt) == IsArr(x, dt, 2)

Demand(c) == LET a == c.args IN
    CASE c.api = "Mesh" -> V(MeshArgs(a, 1, 2, 3), OddIndices(a[1], a[2].shape[2]))
      [] c.api = "TexturedMesh" ->
           V(/\ MeshArgs(a, 1, 2, 3) /\ Rows(a[4], "f4", 2) /\ a[4].shape[2] <= a[2].shape[2] /\ Texture(a[5]) /\ Texture(a[6]),
             OddIndices(a[1], a[2].shape[2]) \/ Empty(a[5]) \/ Empty(a[6]))
      [] c.api = "TexturedMesh.cube" -> V(/\ Texture(a[1]) /\ Texture(a[2]) /\ a[1].shape[2] = 6 * a[1].shape[1], Empty(a[1]) \/ Empty(a[2]))
      [] c.api \in {"estimate_normals", "calculate_face_normals"} -> V(NormalArgs(a), a[1].shape[1] % 3 # 0)
      [] c.api = "mesh.merge" -> V(IsMesh(a[1]) /\ IsMesh(a[2]) /\ Natural(a[3]) /\ a[3].v <= a[1].n, a[3].v > a[2].n)
      [] c.api = "tmesh.merge" -> V(a[1].k = "tmesh" /\ a[2].k = "tmesh" /\ Natural(a[3]) /\ a[3].v <= a[1].n, a[3].v > a[2].n)
      [] c.api = "mesh.replace_geometry" -> V(IsMesh(a[1]) /\ IsMesh(a[2]), FALSE)
      [] c.api = "tmesh.replace_geometry" -> V(a[1].k = "tmesh" /\ a[2].k = "tmesh", FALSE)
      [] c.api = "mesh.has_same_material" -> V(IsMesh(a[1]) /\ IsMesh(a[2]), FALSE)
      [] c.api = "tmesh.renumber" ->
           V(/\ a[1].k = "tmesh" /\ Natural(a[2]) /\ a[3].k \in {"nums", "list"} /\ (a[3].k = "nums" => a[3].shape[1] <= a[1].n)
             /\ (a[3].k = "nums" /\ a[3].shape[1] > 0 => a[3].v \in 0..(a[2].v - 1)), a[3].k = "list")
      [] c.api \in {"mesh.cleanup_long_edges", "mesh.cleanup_edges_to_origin"} ->
           V(IsMesh(a[1]) /\ (a[1].w >= 3 => a[1].v < a[1].n) /\ (Len(a) > 1 => a[2].k \in {"float", "int", "huge"}), Len(a) > 1 /\ a[2].k = "huge")
      [] c.api = "PointCloud" -> V((a[1].k = "none" /\ a[2].k = "none") \/ (Points(a[1]) /\ (a[2].k = "none" \/ (Colors(a[2]) /\ a[2].shape = a[1].shape))),
                                   (a[1].k = "arr" /\ a[1].dt # "f8") \/ (a[2].k = "arr" /\ a[2].dt # "u1"))
      [] c.api = "cloud.point" -> V(Below(a[2], a[1].n), FALSE)
      [] c.api = "cloud.color" -> V(Below(a[2], a[1].n) /\ a[1].w = 1, FALSE)
      [] c.api = "cloud.append" -> V(a[2].k = "cloud" /\ (a[1].n > 0 /\ a[2].n > 0 => a[1].w = a[2].w), FALSE)
      [] c.api = "PointCloud.merge" -> V(a[1].k = "cloud" /\ a[2].k = "cloud" /\ (a[1].n > 0 /\ a[2].n > 0 => a[1].w = a[2].w), a[1].n = 0 \/ a[2].n = 0)
      [] c.api = "PointCloud.register" -> V(a[1].k = "cloud" /\ a[2].k = "cloud" /\ (a[1].n > 0 /\ a[2].n > 0 => a[1].w = a[2].w), FALSE)
      [] c.api = "cloud.thin" -> V(Natural(a[2]) /\ (a[2].v > 0 => a[1].n > 0), a[1].n = 0)
      [] c.api \in {"model.add_textured_primitive_mesh", "GltfModel.from_textured_mesh"} -> V(a[Len(a)].k = "tmesh", a[Len(a)].v >= a[Len(a)].n)
      [] c.api \in {"model.add_primitive_mesh", "model.add_mesh"} -> V(IsMesh(a[2]), a[2].v >= a[2].n)
      [] c.api \in {"model.image_size", "model.image_uri"} -> V(Below(a[2], 2 * a[1].n), FALSE)
      [] c.api \in {"model.extract_primitive_mesh", "model.extract_textured_primitive_mesh"} -> V(Below(a[2], a[1].n), FALSE)
      [] c.api = "model.add_colored_material" ->
           V(a[2].k = "text" /\ Numeric(a[3]) /\ Len(a[3].shape) >= 1 /\ a[3].shape[1] >= 3 /\ (\A i \in 2..Len(a[3].shape) : a[3].shape[i] = 1) /\ a[4].k \in {"float", "int", "huge"},
             a[3].dt # "f8" \/ a[3].shape # <<3>> \/ a[4].k = "huge")
      [] c.api = "model.update_materials" ->
           V(a[2].k \in {"list", "nums"} /\ (a[2].k = "nums" /\ a[1].n > 0 => a[2].shape[1] = 0), a[2].k = "nums" /\ a[2].shape[1] > 0)
      [] c.api \in {"uint8_inverse_depth_map_of_depth_image", "inverse_depth_map_of_depth_image"} -> V(Image(a[1], "f4") /\ a[2].k \in {"float", "int", "huge"}, a[2].k # "float")
      [] c.api = "depth_image_of_inverse_depth_map" -> V(Image(a[1], "u2") /\ a[2].k \in {"float", "int", "huge"}, a[2].k # "float")
      [] c.api \in {"depth_image_of_uint8_inverse_depth_map", "uint16_of_uint8_inverse_depth_map"} ->
           V(Image(a[1], "u1"), a[2].k # "float")
      [] c.api = "Rgbdci360" -> V(/\ Texture(a[1]) /\ Image(a[2], "f4") /\ Image(a[3], "u2") /\ Image(a[4], "u2"), TRUE)
      [] c.api = "Rgbdci360.create_point_cloud" ->
           V(/\ Texture(a[1]) /\ Image(a[2], "f4") /\ a[2].shape = SubSeq(a[1].shape, 1, 2) /\ Image(a[3], "u2") /\ Image(a[4], "u2"),
             Empty(a[1]) \/ a[3].shape # a[2].shape \/ a[4].shape # a[2].shape)
      [] c.api \in {"Pose3.transform_all_from", "Pose3.transform_all_to"} -> V(Points(a[1]) \/ (Numeric(a[1]) /\ (a[1].shape = <<3>> \/ Len(a[1].shape) > 2)), a[1].dt # "f8" \/ Len(a[1].shape) # 2)
      [] c.api = "Quaternion" ->
           V(Numeric(a[1]) /\ (a[1].shape = <<3, 3>> \/ (Len(a[1].shape) > 0 /\ a[1].shape[1] = 4 /\ Prod(a[1].shape) = 4)),
             a[1].dt # "f8" \/ (Len(a[1].shape) > 1 /\ a[1].shape[1] = 4))
      [] c.api = "write_points" -> V(Columns(a[1]) /\ a[2].k = "text", a[1].dt # "f8" \/ Empty(a[1]))
      [] c.api = "write_points_and_colors" ->
           V(Columns(a[1]) /\ (Colors(a[2]) \/ Hollow(a[2])) /\ a[1].shape[2] = a[2].shape[2] /\ a[3].k = "text", a[1].dt # "f8" \/ a[2].dt # "u1" \/ Empty(a[1]))
      [] OTHER -> "any"

Verdict(c) == IF c.api \in Whole /\ Frac(c) /\ Demand(c) = "ok" THEN "any" ELSE Demand(c)

(* The cells native code touches when it trusts its arguments: pairs <<index, size>> of highest index and number of cells.
   Only what a call of the right types reaches is listed; a call of other types is listed as touching cell 1 of 0. *)
Wild == {<<1, 0>>}
Typed(ok, cells) == IF ok THEN cells ELSE Wild
Touched(c) == LET a == c.args IN
    CASE c.api = "Mesh" -> Typed(\A i \in 1..3 : a[i].k = "arr", {})
      [] c.api \in {"TexturedMesh"} ->
           Typed((\A i \in 1..6 : a[i].k = "arr") /\ Len(a[5].shape) = 3 /\ Len(a[6].shape) = 3,
                 {<<a[i].shape[1] * a[i].shape[2] * 3 - 1, Prod(a[i].shape)>> : i \in {5, 6}})
      [] c.api \in {"estimate_normals", "calculate_face_normals"} ->
           Typed(a[1].k = "arr" /\ a[2].k = "arr" /\ Len(a[1].shape) = 1 /\ Len(a[2].shape) = 2,
                 IF Complete(a[1]) THEN {<<a[1].v, a[2].shape[2]>>} ELSE {})
      [] c.api \in {"mesh.merge", "tmesh.merge"} -> Typed(IsMesh(a[2]) /\ Natural(a[3]), {<<a[3].v - 1, a[1].n>>})
      [] c.api \in {"mesh.replace_geometry", "tmesh.replace_geometry", "mesh.has_same_material"} -> Typed(IsMesh(a[2]), {})
      [] c.api = "tmesh.renumber" -> IF a[3].k = "list" THEN {} ELSE
           Typed(a[3].k = "nums" /\ Natural(a[2]),
                 {<<a[3].shape[1] - 1, a[1].n>>} \cup IF a[3].shape[1] > 0 THEN {<<a[3].v, a[2].v>>} ELSE {})
      [] c.api \in {"mesh.cleanup_long_edges", "mesh.cleanup_edges_to_origin"} -> IF a[1].w >= 3 THEN {<<a[1].v, a[1].n>>} ELSE {}
      [] c.api = "cloud.point" -> Typed(Natural(a[2]), {<<a[2].v, a[1].n>>})
      [] c.api = "cloud.color" -> Typed(Natural(a[2]), {<<a[2].v, IF a[1].w = 1 THEN a[1].n ELSE 0>>})
      [] c.api = "cloud.append" -> Typed(a[2].k = "cloud", {})
      [] c.api \in {"model.image_size", "model.image_uri"} -> Typed(Natural(a[2]), {<<a[2].v, 2 * a[1].n>>})
      [] c.api \in {"model.add_textured_primitive_mesh", "GltfModel.from_textured_mesh"} -> Typed(a[Len(a)].k = "tmesh", {})
      [] c.api = "model.add_colored_material" -> Typed(a[3].k = "arr", {})
      [] c.api \in {"Pose3.transform_all_from", "Pose3.transform_all_to"} -> Typed(a[1].k # "arr" \/ Len(a[1].shape) > 0, {})
      [] c.api = "Quaternion" -> Typed(a[1].k = "arr" /\ Len(a[1].shape) > 0,
                 IF a[1].shape[1] = 3 THEN {<<8, Prod(a[1].shape)>>} ELSE {<<3, Prod(a[1].shape)>>})
      [] c.api = "write_points" -> Typed(a[1].k = "arr" /\ Len(a[1].shape) = 2, {})
      [] c.api = "write_points_and_colors" ->
           Typed(a[1].k = "arr" /\ a[2].k = "arr" /\ Len(a[1].shape) = 2 /\ Len(a[2].shape) = 2, {<<3 * a[1].shape[2] - 1, 3 * a[2].shape[2]>>})
      [] c.api = "Rgbdci360.create_point_cloud" ->
           Typed(a[1].k = "arr" /\ a[2].k = "arr" /\ Len(a[1].shape) = 3,
                 {<<a[1].shape[1] * a[1].shape[2] * 3 - 1, Prod(a[1].shape)>>, <<a[1].shape[1] * a[1].shape[2] - 1, Prod(a[2].shape)>>})
      [] OTHER -> {}
Safe(c) == \A t \in Touched(c) : t[1] < t[2]
=============================================================================
