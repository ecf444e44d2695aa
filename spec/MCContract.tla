----------------------------- MODULE MCContract -----------------------------
(* Every call of the bindings that is one (or Depth) changes of an argument away from a call that is fine.
   Trusting = FALSE: native code is entered only for calls that are not to be refused.  Trusting = TRUE: it is always entered. *)
EXTENDS Contract, FiniteSets, TLC, Json
CONSTANTS Depth, Trusting
VARIABLES c, steps
F(s) == Arr("f4", s, 0)
Tex == Arr("u1", <<2, 2, 3>>, 0)
Ind(k, v) == Arr("u4", <<k>>, v)
Near == [Rec("float") EXCEPT !.n = 1]
Txt == Rec("text")
Call(api, args) == [api |-> api, args |-> args]
Meshes == {MeshOf(0, 0), MeshOf(4, 3)}
TMeshes == {TMeshOf(0, 0), TMeshOf(4, 3)}
(* an empty mesh has no indices *)
Fix(x) == IF IsMesh(x) /\ x.n = 0 THEN [x EXCEPT !.w = 0, !.v = 0 - 1] ELSE x
Base ==
    {Call("Mesh", <<Ind(6, 3), F(<<3, 4>>), F(<<3, 4>>)>>), Call("Mesh", <<Ind(0, 0), F(<<3, 0>>), F(<<3, 0>>)>>),
     Call("TexturedMesh", <<Ind(6, 3), F(<<3, 4>>), F(<<3, 4>>), F(<<2, 4>>), Tex, Arr("u1", <<1, 3, 3>>, 0)>>),
     Call("TexturedMesh", <<Ind(3, 2), F(<<3, 4>>), F(<<3, 4>>), F(<<2, 2>>), Tex, Tex>>),
     Call("TexturedMesh.cube", <<Arr("u1", <<2, 12, 3>>, 0), Tex>>),
     Call("Rgbdci360", <<Arr("u1", <<2, 12, 3>>, 0), F(<<2, 12>>), Arr("u2", <<2, 12>>, 0), Arr("u2", <<2, 12>>, 0)>>),
     Call("Rgbdci360.create_point_cloud", <<Arr("u1", <<2, 12, 3>>, 0), F(<<2, 12>>), Arr("u2", <<2, 12>>, 0), Arr("u2", <<2, 12>>, 0)>>),
     Call("Pose3.transform_all_from", <<Arr("f8", <<3, 2>>, 0)>>), Call("Pose3.transform_all_to", <<Arr("f8", <<3, 2>>, 0)>>),
     Call("Quaternion", <<Arr("f8", <<4>>, 0)>>), Call("Quaternion", <<Arr("f8", <<3, 3>>, 0)>>),
     Call("write_points", <<Arr("f8", <<3, 2>>, 0), Txt>>),
     Call("write_points_and_colors", <<Arr("f8", <<3, 2>>, 0), Arr("u1", <<3, 2>>, 200), Txt>>),
     Call("PointCloud", <<Arr("f8", <<3, 2>>, 0), Arr("u1", <<3, 2>>, 200)>>), Call("PointCloud", <<Arr("f8", <<3, 2>>, 0), Rec("none")>>),
     Call("depth_image_of_inverse_depth_map", <<Arr("u2", <<2, 3>>, 7), Near>>),
     Call("depth_image_of_uint8_inverse_depth_map", <<Arr("u1", <<2, 3>>, 7), Near>>),
     Call("uint16_of_uint8_inverse_depth_map", <<Arr("u1", <<2, 3>>, 7), Near>>)}
    \cup {Call(api, <<F(<<2, 3>>), Near>>) : api \in {"uint8_inverse_depth_map_of_depth_image", "inverse_depth_map_of_depth_image"}}
    \cup {Call(api, <<Ind(6, 3), F(<<3, 4>>)>>) : api \in {"estimate_normals", "calculate_face_normals"}}
    \cup {Call("mesh.merge", <<m, x, Num(0)>>) : m \in Meshes, x \in Meshes \cup {TMeshOf(4, 3)}}
    \cup {Call("tmesh.merge", <<m, x, Num(0)>>) : m \in TMeshes, x \in TMeshes}
    \cup {Call(api, <<m, x>>) : api \in {"mesh.replace_geometry", "mesh.has_same_material"}, m \in Meshes, x \in Meshes \cup {TMeshOf(4, 3)}}
    \cup {Call("tmesh.replace_geometry", <<m, x>>) : m \in TMeshes, x \in TMeshes}
    \cup {Call("tmesh.renumber", <<TMeshOf(4, 3), Num(4), Nums(4, 3)>>), Call("tmesh.renumber", <<TMeshOf(4, 3), Num(6), Nums(3, 5)>>)}
    \cup {Call("mesh.cleanup_long_edges", <<m, Near>>) : m \in Meshes \cup TMeshes}
    \cup {Call("mesh.cleanup_edges_to_origin", <<m>>) : m \in Meshes \cup TMeshes}
    \cup {Call("cloud.point", <<CloudOf(n, w), Num(0)>>) : n \in 0..2, w \in 0..1}
    \cup {Call("cloud.color", <<CloudOf(n, w), Num(0)>>) : n \in 0..2, w \in 0..1}
    \cup {Call(api, <<CloudOf(n, w), CloudOf(k, u)>>) : api \in {"cloud.append", "PointCloud.merge", "PointCloud.register"}, n \in 0..1, w \in 0..1, k \in 0..1, u \in 0..1}
    \cup {Call("cloud.thin", <<CloudOf(n, w), Num(k)>>) : n \in 0..2, w \in 0..1, k \in 0..3}
    \cup {Call(api, <<ModelOf(n), TMeshOf(4, 3)>>) : api \in {"model.add_textured_primitive_mesh", "model.add_primitive_mesh", "model.add_mesh"}, n \in 0..1}
    \cup {Call(api, <<ModelOf(n), MeshOf(4, 3)>>) : api \in {"model.add_primitive_mesh", "model.add_mesh"}, n \in 0..1}
    \cup {Call("GltfModel.from_textured_mesh", <<TMeshOf(4, 3)>>)}
    \cup {Call(api, <<ModelOf(n), Num(0)>>) : n \in 0..2,
            api \in {"model.image_size", "model.image_uri", "model.extract_primitive_mesh", "model.extract_textured_primitive_mesh"}}
    \cup {Call("model.add_colored_material", <<ModelOf(n), Txt, Arr("f8", <<3>>, 0), Near>>) : n \in 0..1}
    \cup {Call("model.update_materials", <<ModelOf(n), Nums(0, 0)>>) : n \in 0..1}
Bases == {[b EXCEPT !.args = [i \in DOMAIN b.args |-> Fix(b.args[i])]] : b \in Base}

(* changes of one argument *)
Foreign == {Rec("none"), Rec("text"), Rec("list"), Num(1), MeshOf(4, 3), CloudOf(1, 0)}
Resized(x) == {[x EXCEPT !.shape = [@ EXCEPT ![i] = k]] : i \in DOMAIN x.shape, k \in 0..5} \cup {[x EXCEPT !.shape = [@ EXCEPT ![i] = @ + 1]] : i \in DOMAIN x.shape}
Reranked(x) == {[x EXCEPT !.shape = <<>>]} \cup {[x EXCEPT !.shape = Append(x.shape, k)] : k \in {1, 3}} \cup (IF Len(x.shape) > 1 THEN {[x EXCEPT !.shape = Tail(x.shape)], [x EXCEPT !.shape = SubSeq(x.shape, 1, Len(x.shape) - 1)]} ELSE {})
Typing(x) == {[x EXCEPT !.dt = d] : d \in {"f4", "f8", "u1", "u2", "u4", "i8", "ob"}}
(* other contents: vertex indices, colours *)
Valued(x) == IF x.dt = "u4" THEN {[x EXCEPT !.v = v] : v \in {0, 2, 3, 4, 5, 9, 2000000000}}
             ELSE IF x.v > 0 /\ x.dt \in {"u1", "i8"} THEN {[x EXCEPT !.dt = "i8", !.v = v] : v \in {0 - 1, 255, 256, 300}} ELSE {}
Sound(x) == (x.dt = "u1" => x.v \in 0..255) /\ (x.dt \in {"u1", "u2", "u4"} => x.v >= 0) /\ (x.dt = "u2" => x.v <= 65535)
Changed(x) == {y \in
    CASE x.k = "arr" -> Resized(x) \cup Reranked(x) \cup Typing(x) \cup Valued(x) \cup Foreign
      [] x.k = "int" -> {Num(v) : v \in (0 - 1)..6 \cup {1000000}} \cup {Rec("huge"), Rec("float")} \cup Foreign
      [] x.k = "nums" -> {Nums(k, v) : k \in 0..6, v \in 0..6} \cup Foreign
      [] IsMesh(x) -> {[Rec(k) EXCEPT !.n = n, !.v = v, !.w = 6] : k \in {"mesh", "tmesh"}, n \in {3, 4}, v \in {2, 3, 4, 9}} \cup Foreign \cup {ModelOf(1)}
      [] x.k = "float" -> Foreign \cup {Rec("huge")}
      [] OTHER -> Foreign : y # x /\ Sound(y)}
(* the object a method is called on is never replaced by something else, a mesh it is called on may be unsound *)
Receiver(b, i) == i = 1 /\ b.api \in {"mesh.merge", "tmesh.merge", "mesh.replace_geometry", "tmesh.replace_geometry", "mesh.has_same_material",
    "tmesh.renumber", "mesh.cleanup_long_edges", "mesh.cleanup_edges_to_origin", "cloud.point", "cloud.color", "cloud.append", "cloud.thin",
    "model.add_textured_primitive_mesh", "model.add_primitive_mesh", "model.add_mesh", "model.image_size", "model.image_uri",
    "model.extract_primitive_mesh", "model.extract_textured_primitive_mesh", "model.add_colored_material", "model.update_materials"}
Turned(b, i) == IF ~ Receiver(b, i) THEN Changed(b.args[i])
                ELSE IF b.api \in {"mesh.cleanup_long_edges", "mesh.cleanup_edges_to_origin"} THEN {y \in Changed(b.args[i]) : IsMesh(y)} ELSE {}
Init == c \in Bases /\ steps = 0
Next == /\ steps < Depth /\ steps' = steps + 1
        /\ \E i \in DOMAIN c.args : \E x \in Turned(c, i) : c' = [c EXCEPT !.args = [@ EXCEPT ![i] = x]]
Spec == Init /\ [][Next]_<<c, steps>>
Enters == Trusting \/ Verdict(c) # "refuse"
InvNoForeignMemory == Enters => Safe(c)
Emit == PrintT(<<"OUT", ToJson(c)>>)
=============================================================================
