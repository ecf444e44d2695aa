# ---------------------------------------------------------------- metrics
prop("M01", "Data association is the greedy one-to-one matching at every threshold",
 "For every similarity threshold, detections taken in decreasing score order are each matched to the most similar still-unmatched ground-truth object whose similarity is at least that threshold (or to none if there is none); no ground-truth object is matched twice. The category-aware association used for the semantics score is the same procedure restricted to the detections and ground truths of one evaluated category. The result at one threshold does not depend on the other thresholds requested.",
 ["inputs", "configurations"], "every submission / ground-truth pair, score assignment, similarity matrix, category assignment and threshold list",
 "The metrics tests evaluate a handful of fixed scenes (and are not part of the runnable suite here); the matching has factorially many score/similarity orders and each threshold removes different pairs.",
 [M+"evaluator.py"], ["_compute_agnostic_data_assoc: threshold filter, sort by score, pick last after sorting by similarity, assigned set", "_compute_category_data_assoc: per-category sub-dictionaries and caches", "_make_similarity_cache"],
 [("agnostic/category association", "threshold -> detection -> correspondence", "Evaluator")], ["evaluate_all(), shape_score(), semantics_score(), pose_error()"])
prop("M02", "Average precision, shape score and semantics score equal the PR-curve area",
 "Average precision is the area under the interpolated (monotone) precision/recall curve of the detections ranked by score, with recall measured against the number of evaluated ground-truth objects; the shape score is its mean over thresholds and the semantics score its mean over thresholds and over the evaluated categories present in the ground truth. A detection matched to a ground truth that is not evaluated is ignored, an unmatched one is a false positive. All these values lie in [0,1], and only the ranking of the scores matters, not their values.",
 ["inputs", "configurations"], "every list of (score, matched/unmatched) detections, every number of ground truths, every scene pair",
 "The suite has one precision/recall example; interpolation, ties at equal recall, ignored detections and empty lists interact.",
 [M+"evaluator.py", M+"utils.py"], ["compute_auc_ap/compute_pr/compute_ap", "shape_score and semantics_score build det_matches/det_scores"], None, ["compute_ap(), shape_score(), semantics_score()"])
prop("M03", "Rotation error is the smallest geodesic angle over the declared symmetry",
 "The rotation error of a matched pair is the smallest geodesic angle between the detected rotation and any rotation equivalent to the ground-truth rotation under the ground truth's declared symmetry: its own rotation only for none, half turns for twoFold, quarter turns for fourFold, every turn about the axis for cylindrical, and 0 for spherical, closed under combination of the three axes. It is invariant when the ground truth is replaced by any equivalent rotation.",
 ["inputs"], "every pair of rotations and each of the 19 valid symmetry combinations",
 "The suite checks a few hand-picked rotations; the three per-axis loops compose and cylindrical symmetry must hold for every orientation of the axis.",
 [M+"evaluator.py", M+"utils.py"], ["rotation_error_1, symmetric_rot, cylindrical_symmetric_rot", "matrix/quaternion/Euler conversions"], None, ["Evaluator.rotation_error_1(), pose_error()"])
prop("M04", "Pose error averages per threshold, then over thresholds with a match",
 "The pose error is, for rotation and for translation, the mean over the thresholds that have at least one match to an evaluated ground truth of the mean error over those matches, where translation error is the Euclidean distance of the two positions; matches to non-evaluated ground truths contribute nothing. When no threshold has such a match both values are infinite.",
 ["inputs", "configurations"], "every scene pair, evaluated-flag assignment and threshold list",
 "Sample-scene tests use one scene with everything evaluated; the two-level mean and the empty cases are not reached.",
 [M+"evaluator.py"], ["pose_error loops over thresholds and correspondences"], None, ["pose_error(), evaluate_all()"])
prop("M05", "Shape similarity of boxes and point sets is the defined IoU",
 "Bounding-box similarity is intersection volume over union volume of the two posed boxes; point-set similarity (voxel and mesh tracks) is the number of points of both sets whose nearest neighbour in the other set is within the overlap threshold, divided by the total number of points. Both are symmetric, lie in [0,1], are 1 for identical non-degenerate shapes and 0 for disjoint ones, and the bounding-box quick rejection never changes the value.",
 ["inputs"], "every pair of posed boxes / point sets and every threshold",
 "Tests compare a few configurations; the early-out, distance ties at exactly the threshold, empty sets and oriented boxes need enumeration.",
 [M+"bb_evaluator.py", M+"voxel_evaluator.py", M+"mesh_evaluator.py", M+"utils.py"], ["_shape_similarity of each evaluator", "points_iou, nearest_neighbors", "_bbox2pymesh, posed_bbox"], None, ["utils.points_iou(), utils.nearest_neighbors(), evaluators' scores"])
prop("M06", "Perceptual score is the normalised weighted sum with miss and extra penalties",
 "At each threshold the perceptual score is the room-scale Gaussian term plus, for every matched evaluated ground truth, the true-scale, relative-scale, horizontal-translation and elevation Gaussian terms, minus the volume-weighted penalties of every unmatched evaluated ground truth and every unmatched detection, clamped below at 0 and divided by the maximum attainable sum; the reported value is the mean over thresholds and lies in [0,1]. Room scale is the ratio of total submitted floor area to total evaluated ground-truth floor area, or 0 without ground-truth floor.",
 ["inputs", "configurations"], "every scene pair and perceptual settings",
 "One sample-scene value is tested; each term has its own guard (evaluated, zero volume, floor) and missed/extra sets vary with the threshold.",
 [M+"evaluator.py"], ["perceptual_score, _perceptual_score_1, _room_scale, _gaussian_function"], None, ["perceptual_score()"])
prop("M07", "RMS surface and colour errors are the symmetric nearest-neighbour RMS",
 "The RMS points (colour) error is the mean, over every correspondence of every threshold, of the root mean square of the distances (colour differences) from each point of either object to its nearest neighbour in the other; it is infinite exactly when there are no correspondences, and 0 when corresponding objects have identical points.",
 ["inputs", "configurations"], "every scene pair, point sets and threshold list",
 "Sample-scene tests check one number; the cache keyed by (detection, ground truth), both directions and the empty cases are not separated.",
 [M+"utils.py", M+"voxel_evaluator.py", M+"mesh_evaluator.py"], ["points_rmsssd, color_rmsssd and their caches", "nearest_neighbors"], None, ["rms_points_error(), rms_color_error()"])
prop("M08", "Every track scores the submission against the ground truth, without side effects",
 "In all three tracks, with given or default settings, the first scene passed is treated as the submission (its scores rank, its unmatched objects are false positives) and the second as the ground truth (its symmetry, evaluated flags and counts apply); a perfect submission scores shape 1, semantics 1 and errors 0. Evaluation is repeatable and changes neither scene's objects, poses, categories nor shapes; the command-line evaluator applies the track of the ground truth and rejects scenes of different types.",
 ["inputs", "configurations"], "every scene pair in each of the three tracks, with and without explicit settings",
 "Tests mostly evaluate a scene against itself, which cannot tell the two roles apart.",
 [M+"bb_evaluator.py", M+"voxel_evaluator.py", M+"mesh_evaluator.py", M+"evaluator.py", "tools/evaluate-one.py"], ["constructors' super().__init__ call", "settings default", "evaluator_lut in evaluate-one"], None, ["BBEvaluator/VoxelEvaluator/MeshEvaluator, tools/evaluate-one.py"])
# ---------------------------------------------------------------- semantic
prop("S01", "Saved scenes load back the same, and saving never overwrites or tears",
 "For every scene of any track, loading what was saved gives the same project type, settings and objects (ids, categories, poses, symmetry, score, evaluated flag, bounds, voxels or mesh sizes); saving onto an existing project raises and leaves the existing files unchanged. If saving stops at any point, the project either does not load at all or loads completely; the scene description is the last file written.",
 ["inputs", "histories", "crash_points"], "every scene content, every sequence of create / transform / save / load / failed save, and every stopping point inside a save",
 "Round-trip tests use one example object per type and never interrupt a save or save over an existing project with a different content.",
 [S+"project_scene.py", S+"project_object_dict.py", S+"project_object.py"], ["os.makedirs refuses an existing directory", "element files written before the xml", "to_xml / _parse_xml per attribute"],
 [("project directory", "<name>.xml plus <id>.glb/.h5 per element", "ProjectScene.save")], ["ProjectScene.save/load, files on disk"])
prop("S02", "Scene files that break the format are rejected with the documented errors",
 "Loading raises ValueError when the root is not a scene, the project type is missing or unknown, an element has a wrong tag or lacks its id; a symmetry block that is mis-tagged, incomplete, unknown or not a valid combination raises RuntimeError, and a symmetry given as strings that are not exactly three known names raises ValueError. Unknown tags are ignored and optional attributes take their documented defaults; no malformed description ever yields a partly initialised object.",
 ["inputs"], "every scene/element/symmetry description over the tags of the format, including missing, duplicated, unknown and mis-typed ones",
 "Tests exercise well-formed files and one or two bad ones; the optional/mandatory tag combinations are 2^n.",
 [S+"project_scene.py", S+"project_object.py", S+"object_symmetry.py", S+"project_object_dict.py"], ["tag loops in load/_parse_xml/from_xml and the checks after them"], None, ["ProjectScene.load, ProjectObject.load, ObjectSymmetry.from_xml/from_strings"])
prop("S03", "Only the 19 documented symmetry combinations exist, compared by value",
 "An object symmetry can be constructed exactly for the 19 documented combinations of per-axis types (every other combination raises ValueError); equality and inequality are complementary and compare the three axes; text, xml and string forms convert back to an equal symmetry with each axis in its place.",
 ["inputs"], "all 125 combinations of the five symmetry types and all pairs of valid symmetries",
 "Tests construct a few combinations and never compare symmetries with !=.",
 [S+"object_symmetry.py"], ["_valid_symmetries table, __eq__/__ne__, to_xml/from_xml/from_strings tables"], None, ["ObjectSymmetry API"])
prop("S04", "Conversion between tracks keeps identity and never changes the source",
 "Converting a scene succeeds exactly for meshes to voxels, meshes to bounding boxes and voxels to bounding boxes (anything else raises ValueError); the result has the target type, the same object ids, categories, poses, symmetries, scores, evaluated flags and settings, bounds that enclose the source shape, and is independent of the source, which is left unchanged.",
 ["inputs", "histories"], "every scene of every type and target type, including subsequent modification of either scene",
 "Tests convert the one example scene per pair and compare sizes.",
 [S+"project_converter.py", T+"voxelizer.pyx", T+"compute_bbox.pyx"], ["convert_element copies attributes with deepcopy", "allowed_conversions"], None, ["ProjectConverter.run/convert_element"])
prop("S05", "Re-posing a scene composes poses and preserves everything else",
 "Transforming a scene by a pose yields a new scene of the same type and settings in which every object keeps its id, shape, category, symmetry, score and evaluated flag and its pose is the given pose composed with the old one; the original scene is unchanged, the new scene can be saved, loaded and transformed again, and transforming by p then by q equals transforming by q composed with p. Scenes do not share mutable settings unless the caller passed the same settings.",
 ["inputs", "histories"], "every scene, every sequence of transforms, saves, loads and settings edits over several live scenes",
 "Tests transform the example once and compare one pose.",
 [S+"project_scene.py", S+"project_object.py", G+"pose3.pyx"], ["transform_pose builds new objects", "settings default"], None, ["ProjectScene.transform_pose, settings"])
prop("S06", "Objects keep their identity, collections hold only objects, comparison compares",
 "An object's id and project type are fixed at construction (an unknown type raises ValueError), it holds only the shape of its own track, and its default attributes are its own: changing one object, also in place, changes no other. A collection (ProjectObjectDict) can only ever hold ProjectObjects whichever way entries are added (assignment, update, setdefault, |=, construction, fromkeys): adding anything else raises and stores nothing that is not an object. Two objects are almost equal exactly when track, id, category, symmetry and evaluated flag are the same, pose and score agree within numerical tolerance, and, in the mesh track, both have models of the same sizes or both have none; two collections are when they have the same keys with almost equal objects. Comparing is reflexive and symmetric, never raises and changes nothing. (Bounds and voxels take no part in the comparison.)",
 ["inputs", "histories"], "all pairs of objects of all tracks (differing in any one field, or numerically close), all histories of additions to and removals from a collection with objects and other values",
 "Tests compare one example object with itself and with one of another id, and add three objects to one collection by assignment only.",
 [S+"project_object.py", S+"project_object_dict.py"], ["ProjectObject.__init__/almost_equal", "ProjectObjectDict storing methods, almost_equal"],
 [("collection", "keys and the objects stored under them", "ProjectObjectDict")], ["ProjectObject(), almost_equal(), ProjectObjectDict storing methods"])
# ---------------------------------------------------------------- voxels and sampling
prop("V01", "A voxel grid is exactly the set of cells of the points added, in any order",
 "After any sequence of insertions the occupied voxels are exactly the set of cells floor((p - min corner)/voxel size) of all points accepted so far, without duplicates and independent of order and batching; an insertion containing a point below the minimum corner raises ValueError and changes nothing, as does constructing with a non-positive voxel size. Voxel centres are the cell centres, bounds are the tight box of the occupied cells, and saving then loading (also followed by further insertions) preserves all of this.",
 ["histories", "inputs"], "every history of add (any batch, including empty and rejected ones), save, load and further adds",
 "Tests add a batch or two of points growing in all directions at once; the 1-D packing depends on the history of grid extents.",
 [T+"voxel_grid.py"], ["add_points: linearise, union1d, vectorise with size_x/size_y", "save/load attrs"],
 [("occupied voxels", "set of (i,j,k)", "VoxelGrid"), ("extent", "largest index per axis used for packing", "VoxelGrid")], ["voxel_centers(), bounds(), save(), load()"])
prop("V02", "Surface sampling covers every face at the requested density, on the surface",
 "Sampling a mesh at density d yields for every face max(1, floor(d*area)) points in face order (the model sampler: at least one, on every primitive), each inside its triangle in room coordinates with interpolated attributes, coloured from the texture at the face's coordinates or grey when untextured; the voxelised model's cells contain every sampled surface point and its bounds enclose the mesh to within one voxel.",
 ["inputs"], "every mesh (number, size and orientation of faces, degenerate faces, textured or not), pose and density",
 "Tests sample a cube or a bed at one density and check the count or the bounding box.",
 [M+"mesh_evaluator.py", T+"model_sampler.pyx", T+"voxelizer.pyx"], ["sample_mesh, sample_element, ModelSampler.run, Voxelizer.run"], None, ["sample_mesh(), sample_element(), ModelSampler.run(), Voxelizer.run()"])
# ---------------------------------------------------------------- geometry
prop("G01", "A box is its per-axis minimum and maximum, whichever corners define it",
 "A box built from any two opposite corners has the per-axis minimum and maximum as corners; its eight corners are the distinct combinations in the documented order, its volume the product of extents (never negative), its centre and transforms agree with its corners, merging boxes gives the smallest enclosing box, and its mesh form is closed with outward faces enclosing exactly its volume. Text and xml forms restore an equal box; malformed xml raises.",
 ["inputs"], "every pair of corners (any ordering per axis, degenerate extents), every list of boxes, every rigid transform",
 "Tests construct boxes with already ordered corners.",
 [T+"box_3d.pyx"], ["constructor orders corners", "corners(), merge(), to_mesh(), to_xml/from_xml"], None, ["Box3d API"])
prop("G02", "Computed bounding boxes are tight over every vertex, and merge correctly",
 "The bounding box of a point cloud, mesh, list of meshes, glTF model or list of boxes contains every point and touches one on each of its six sides; order, grouping and duplication of the inputs do not change it, and empty primitives do not either.",
 ["inputs"], "every non-empty collection of points/meshes, any ordering, negative and large coordinates, any member meshes empty",
 "Tests take one mesh around the origin, where an uninitialised or zero-initialised extremum is invisible.",
 [T+"compute_bbox.pyx", T+"box_3d.pyx"], ["ComputeBbox.from_*"], None, ["ComputeBbox API"])
prop("G03", "Rotations and poses form the rigid-motion group with consistent operators",
 "Composition, inverse and identity of rotations and of poses satisfy the group laws; transforming a point to and from a pose are inverse, batch transforms agree with single ones, the * operator on a pose composes with a pose and transforms points from it, and the elementary, axis-angle, Euler and quaternion constructors agree with each other and always produce proper rotations. Operations never modify their operands.",
 ["inputs"], "all pairs and triples of rotations and translations",
 "Tests check single rotations about one axis, for which order of composition and sign errors cancel.",
 [G+"pose3.pyx", G+"rot3.pyx", G+"quaternion.pyx", M+"utils.py"], ["Pose3.compose/inverse/transform_*", "Rot3.Rx/Ry/Rz/AxisAngle/ENU_camera", "Quaternion.rot3", "utils conversions"], None, ["Pose3, Rot3, Quaternion, metrics.utils conversions"])
prop("G04", "Pose serialisations restore the pose and reject malformed input",
 "Writing a pose to xml, json-style records or text and reading it back gives an equal pose (rotation and translation, each component in its place), the alternative coordinate-frame forms are mutual inverses of their readers, and malformed xml (wrong tag, missing part, wrong number of values) raises instead of giving a default pose.",
 ["inputs"], "every rigid pose, every malformed variant over the tags",
 "Tests round trip one pose whose matrix is nearly symmetric under the mistakes that matter.",
 [G+"pose3.pyx", B+"vector.pyx"], ["Pose3.to_xml/from_xml/to_json/from_json, vector/matrix text helpers"], None, ["Pose3 serialisation API"])
prop("G05", "Inverse-depth coding is a monotone bijection between codes and ranges",
 "For every near/far setting allowed, code 0 means no measurement, decoding then encoding any code returns it, encoding is monotone (farther never gets a larger inverse-depth code), saturates at the ends of the range rather than wrapping, and decoding an encoded range is within one quantisation step; scalar, array and image entry points agree, and 8-bit legacy data decode by the documented rule.",
 ["inputs"], "all 65536 (256) codes, all ranges in and outside the representable interval, near-plane settings",
 "Tests sample a handful of values.",
 [G+"inverse_depth.pyx", I+"rgbd_tiff.pyx", I+"RgbdTiff.cpp"], ["InverseDepth.from_depth_image/to_depth_image"], None, ["InverseDepth API"])
# ---------------------------------------------------------------- images
prop("I01", "Multi-page RGB-D TIFF files restore exactly what was written",
 "Writing an RGB-D image (colour, range, category and instance pages) and reading it back restores every page's pixels, type, order and the near-plane parameter exactly (range to within quantisation); pages of the wrong element type or size, or absent files, raise and do not disturb an existing file's content unless documented.",
 ["inputs", "histories"], "every image size and content (including width not divisible by 6 pages, extreme values), every page subset, overwriting",
 "Tests round trip one example.",
 [I+"rgbd_tiff.pyx", I+"multi_image_tiff.pyx", I+"RgbdTiff.cpp", I+"rgbdci_360.pyx", I+"Rgbdci360.cpp"], ["multi-page write/read, page type checks, metadata in page description"], None, ["RgbdTiff / Rgbdci360 / MultiImageTiff save/load"])
prop("I02", "Cube-map unprojection puts every pixel on its ray at its range",
 "The point cloud of a cube-map RGB-D image has exactly one point per valid pixel (or per pixel when all points are requested, invalid ones at the origin), in raster order with that pixel's colour, at distance equal to its range, in the direction of its pixel in the face it belongs to; the six faces cover all directions without overlap.",
 ["inputs"], "every cube-map size, every range image including invalid pixels, every pixel",
 "Tests check the number of points for one image.",
 [I+"rgbd_360.pyx", I+"CubeMap.h", I+"Rgbdci360.cpp", I+"rgbdci_360.pyx"], ["face rotations and per-face ray table", "validity filter"], None, ["create_point_cloud(), unproject"])
# ---------------------------------------------------------------- meshes, clouds, glTF
prop("T01", "Point clouds keep colours parallel to points under every operation",
 "Through any sequence of construct, append, merge, transform, register, downsample and file save/load, a cloud has the points expected from the operation sequence in order with each point's colour attached to it, or no colours at all; operations that cannot preserve this raise. Transforms apply the pose to every point and leave operands unchanged.",
 ["histories", "inputs"], "every history of operations over coloured and uncoloured, empty and non-empty clouds",
 "Tests merge two clouds of the same kind.",
 [T+"point_cloud.pyx", T+"PointCloud.h", T+"point_cloud_ply.pyx", T+"point_cloud_ply_c.cpp"], ["PointCloud merge/append/register/transform, PLY read/write"], None, ["PointCloud API, PLY files"])
prop("T02", "Mesh merge, renumber, replace and transform preserve the set of triangles",
 "Every mesh operation (merge, estimate/replace geometry, renumber/cleanup, transform, copy) keeps every index within range and every per-vertex array the same length as the vertices; merging gives exactly the triangles, normals, colours and texture coordinates of both parts, removing unused vertices keeps every triangle's geometry, and transforms rotate normals and move vertices by the pose, leaving the operands unchanged.",
 ["histories", "inputs"], "every history of operations over small meshes, textured and not",
 "C++ tests merge or clean one specific mesh; index arithmetic fails only for particular vertex/index layouts.",
 [T+"Mesh.cpp", T+"Mesh.h", T+"TexturedMesh.cpp", T+"TexturedMesh.h", T+"mesh.pyx", T+"textured_mesh.pyx"], ["index offset on merge", "renumber map", "transform of normals"], None, ["Mesh/TexturedMesh API"])
prop("T03", "A glTF model holds exactly the primitives added to it",
 "Primitives added to a model are returned by extraction in order with the same vertices, normals, indices, texture coordinates and images; copies are independent, size comparison is an equivalence that distinguishes different primitives, and saving to gltf or glb at any absolute or relative path and loading back preserves all of it, including material colour updates.",
 ["histories", "inputs"], "every history of adding primitives, updating materials, copying, saving and loading over several models",
 "Tests use one example model per call.",
 [T+"gltf_model.pyx", T+"GltfModel.cpp", T+"GltfModel.h", T+"gltf.pyx"], ["addPrimitiveMesh/extractPrimitiveMesh buffer and accessor bookkeeping", "save_as_gltf / save_as_glb"], None, ["GltfModel API"])
prop("T04", "glTF to GLB packing keeps every buffer view's bytes at aligned offsets",
 "The packed file has a valid header with the true total length, a JSON chunk and a binary chunk both padded to 4 bytes, and every buffer view and image of the source (external files or embedded data, one or several buffers, with or without explicit offsets) refers after packing to the same bytes as before, without overlap; a missing referenced file raises and produces no output.",
 ["inputs"], "every combination of buffers, buffer views (with/without byteOffset), images (file, data URI, bufferView) and lengths not divisible by 4",
 "Tests convert single-buffer models whose lengths are already aligned.",
 [T+"glb_converter.pyx"], ["gltf2glb: buffer map, padding, body update"], None, ["gltf2glb(), GLBConverter"])
prop("B01", "Category ids, names and colours are one consistent table",
 "Every category has a unique id; looking up colours by id, ids by colour or names and images of ids convert elementwise by the same table; any id or colour outside the table raises the documented error rather than returning another category's entry.",
 ["inputs"], "all ids in and around the table, all colours of the table and neighbours, all image contents",
 "Tests convert one or two ids.",
 [B+"colored_category.pyx"], ["colour LUT loaded from the category file; bounds check"], None, ["ColoredCategory API"])
# ---------------------------------------------------------------- across all compiled bindings
prop("X01", "Arrays are exchanged with the bindings by value",
 "How an array lies in memory - the order of its axes, steps and gaps between elements, reversed axes, padding, read-only, byte order, alignment - never changes the result of a call of the bindings: it is the result for the plain array of the same value, or the call is refused; plain arrays are accepted. The arrays given to a call are left as they were, and meshes, clouds, models and results of the bindings hold values of their own: overwriting the arrays they were made from or arrays taken from them changes nothing, and arrays taken from an object outlive it.",
 ["inputs", "histories"], "every order, step (1, 2, -1) and padding of the axes of arrays of up to three axes, one argument or all of them, for every binding that takes arrays; histories make, overwrite, take, overwrite, drop",
 "Tests pass freshly made contiguous arrays and do not use them again.",
 [T+"mesh.pyx", T+"textured_mesh.pyx", T+"point_cloud.pyx", T+"point_cloud_ply.pyx", T+"gltf_model.pyx", T+"voxel_grid.py", "sumo-api/sumo/geometry/inverse_depth.pyx", "sumo-api/sumo/geometry/pose3.pyx", "sumo-api/sumo/geometry/rot3.pyx", "sumo-api/sumo/geometry/quaternion.pyx", "sumo-api/sumo/images/rgbdci_360.pyx", "sumo-api/sumo/images/rgbd_tiff.pyx", "sumo-api/sumo/opencv/wrap.pyx", "sumo-api/sumo/base/vector.pyx"],
 ["elementwise conversions in vector.pyx", "mode='c' buffers and strides in wrap.pyx", "array_from_* copies", "asfortranarray before memcpy"], None, ["every binding that takes arrays: results, arguments afterwards"])
prop("X02", "No call of the compiled bindings ends the process or touches foreign memory",
 "Calling the compiled bindings (geometry, meshes, textured meshes, clouds, ply files, glTF models, inverse depth and RGB-D images) with unsuitable arguments - None, another type, arrays of another element type, rank or size, empty ones, indices beyond the end, vertex indices that name no vertex, meshes whose indices are out of range, colours outside 0..255 - raises a Python exception. The process is never ended, no memory beyond an array, mesh or cloud is read or written, a refused call changes nothing, and every call whose arguments are suitable is accepted.",
 ["inputs"], "all calls that are one or two changes of an argument (its type, element type, rank, sizes, contents) away from a suitable one, for every binding and several sizes of the objects involved",
 "Tests call the bindings with suitable arguments only; one bad call ends the test process.",
 [T+"mesh.pyx", T+"Mesh.cpp", T+"textured_mesh.pyx", T+"TexturedMesh.cpp", T+"point_cloud.pyx", T+"PointCloud.h", T+"point_cloud_ply.pyx", T+"gltf_model.pyx", T+"GltfModel.cpp", "sumo-api/sumo/geometry/inverse_depth.pyx", "sumo-api/sumo/geometry/pose3.pyx", "sumo-api/sumo/geometry/quaternion.pyx", "sumo-api/sumo/images/rgbdci_360.pyx", "sumo-api/sumo/opencv/wrap.pyx", "sumo-api/sumo/base/vector.pyx"],
 ["not None, except *, except +", "bounds checks (.at) in Mesh.cpp, TexturedMesh.cpp, PointCloud.cpp, GltfModel.h"], None, ["every binding: result, exception, exit of the process"])
prop("X03", "A glTF document gives exactly what it says, or is refused",
 "Loading a glTF or glb document and taking its meshes gives, for every primitive, exactly the indices (8, 16 or 32 bits), positions, normals, texture coordinates and images its accessors and textures stand for, wherever they lie in its buffers, packed or interleaved with a byte stride, shared or not, in the file, a data URI or a file of its own; the model saved as gltf or glb and loaded again, and its copy, give the same. A document whose references lead nowhere, whose elements do not lie inside their buffer, whose buffers have another length than stated or whose elements are of a kind that a mesh does not have is refused, when loaded or when the mesh is taken: no other bytes are ever handed out and the process is never ended.",
 ["inputs"], "every document one number (or any two) away from a complete one, for three layouts of buffers, views and accessors with three primitives, as gltf and glb",
 "Tests load two small files with packed, separate buffer views.",
 [T+"GltfModel.h", T+"GltfModel.cpp", T+"tiny_gltf/tiny_gltf.h", T+"gltf_model.pyx"], ["GltfAccessor: range and stride of the elements", "extractPrimitiveMesh, extractTexturedPrimitiveMesh, extractTexture", "TinyGLTF::LoadFromString: buffers, images in buffer views"], None, ["GltfModel.load_from_gltf, load_from_glb, primitive_meshes, extract_*, save_as_*"])
# ---------------------------------------------------------------- tools
prop("D01", "An archive is deleted or marked complete only after it was fully extracted",
 "At every moment, and whatever download fails, is truncated, retried or killed, a dataset archive marked complete has had all its members extracted, an archive is deleted only after successful extraction (or if its download failed), and a completed archive is never downloaded or extracted again.",
 ["schedules", "crash_points", "fault_sequences"], "every interleaving of the worker processes, every fault per request/extraction, every kill point and restart",
 "There are no tests of the downloader at all.",
 ["tools/download_sumo_datasets.py"], ["marker written after extractall and remove", "remaining list excludes existing and marked archives"],
 [("per archive", "absent / partial / zip / extracted / marked", "destination directory")], ["files in the destination directory, requests made"])
prop("D02", "Restarting the downloader always converges, with bounded retries",
 "Each run tries each missing archive at most the documented number of times and then stops; after any sequence of failures, truncations and kills, re-running against a healthy server ends with every listed archive extracted, marked and removed, and only the listed archives requested.",
 ["fault_sequences", "crash_points", "histories"], "every finite sequence of faults and kills followed by a fault-free run",
 "There are no tests of the downloader at all.",
 ["tools/download_sumo_datasets.py"], ["retry loops; removal of failed downloads"], None, ["exit of the tool, final directory state, requests made"])
# ---------------------------------------------------------------- statements made precise while the specification grew
# (what a user can rely on, and where the guarantee ends; each limit is explained in DESIGN.md)
def state(id, text, **kw):
    p = next(p for p in P if p["id"] == id)
    p["statement"] = text
    p["quantifier"]["text"] = kw.get("q", p["quantifier"]["text"])
    p["title"] = kw.get("title", p["title"])
state("S01",
 "For every scene of any track whose objects are stored under their ids, loading what was saved gives the same project type, settings and objects: ids, categories, poses, symmetry, detection score and evaluated flag (numbers to at least 7 significant digits), box bounds, voxel centres and size, and the mesh's primitives; the bounds of a voxel or mesh object are the bounds of its shape. Saving onto an existing project raises and leaves its files unchanged, and saving never changes the scene. If saving stops at any point, the project either does not load at all or loads completely; the scene description is the last file written.")
state("S02",
 "Loading a scene raises ValueError when the file is not a scene, the project type is missing or unknown, or an element lacks its id, and IOError when the project, its description or the file of an element's shape is missing; loading one element from xml with another tag than 'element' raises ValueError. A symmetry block that is mis-tagged, incomplete, unknown or not a valid combination raises RuntimeError, and a symmetry given as strings that are not exactly three known names raises ValueError. Unknown tags are ignored, optional attributes take their documented defaults, and malformed numbers raise; no malformed description ever yields a partly initialised object.")
state("S04",
 "Converting a scene succeeds exactly for meshes to voxels, meshes to bounding boxes and voxels to bounding boxes (anything else raises ValueError); the result has the target type, the same object ids, categories, poses, symmetries, scores, evaluated flags and settings, and is independent of the source, which is left unchanged. A box made from voxels or a mesh is exactly the tight box of that shape; voxels made from a mesh start at the mesh's box and end within one voxel of it.")
state("V02",
 "Sampling a mesh at density d yields for every face max(1, floor(d*area)) points in face order (the model sampler: at least one, on every primitive of a model with faces), each inside its triangle in room coordinates, spread uniformly over the face, with interpolated attributes, coloured from the texture at the face's coordinates or grey when untextured; the voxelised model's cells contain every sampled surface point and its bounds enclose the sampled points and exceed them by less than one voxel.")
state("B01",
 "Every category has a unique id; a category's colour is the same whether it is looked up by id, by name (exact spelling) or for every pixel of an image of ids; any id outside the table, and any name that is not in it, raises the documented error rather than returning another category's entry.")
state("G01",
 "A box built from any two opposite corners has the per-axis minimum and maximum as corners; its eight corners are the distinct combinations in the documented order, its volume is the product of extents (never negative), its centre agrees with its corners, merging one or more boxes gives the smallest enclosing box, and its mesh form is closed with outward faces enclosing exactly its volume. The xml form restores the box to at least 7 significant digits per corner; malformed xml raises. Boxes are equal exactly when their corners are.")
state("G03",
 "Composition, inverse and identity of rotations and of poses satisfy the group laws; transforming a point to and from a pose are inverse, batch transforms agree with single ones, the * operator on a pose composes with a pose and transforms points from it, and the elementary, axis-angle, Euler and quaternion constructors agree with each other, for every angle including gimbal lock, and always produce proper rotations. Unrotating is the inverse of rotating. Operations never modify their operands.")
state("G04",
 "Writing a pose to xml, json or the camera-frame form and reading it back gives an equal pose: rotation and translation, each component in its place, exactly for json and to at least 4 significant digits of every component for xml; the alternative coordinate-frame forms are mutual inverses of their readers, and malformed input (wrong tag, missing part, wrong number of values, not a number) raises, ValueError for json, instead of giving a default pose.")
state("G05",
 "For every near-plane setting, code 0 means no measurement and is what a range of zero or infinity gets, decoding then encoding any code returns it, encoding is monotone (farther never gets a larger inverse-depth code), saturates at the ends of the range rather than wrapping, and decoding an encoded range is within one quantisation step; image entry points agree with the rule pixel by pixel, and 8-bit legacy data decode by the documented rule.",
 q="all 65536 (256) codes, all non-negative ranges in and outside the representable interval including zero and infinity, near-plane settings")
state("T01",
 "Through any sequence of construct, append, merge, sum, transform, register, thin and file save/load, a cloud has the points expected from the operation sequence, in order, each with its own colour, or no colours at all; operations that cannot preserve this (joining coloured and uncoloured clouds) raise. Thinning draws points of the cloud with their colours. Transforms apply the pose to every point; operands are left unchanged. PLY files hold every point and colour (single precision); reading one gives its points without colours, and unreadable, truncated or unsupported files raise.")
state("T02",
 "Every mesh operation (construct, merge with any number of common leading vertices, replace geometry, renumber into a longer block, merge quadrants, rotate, transform, clean up) keeps every index within range and every per-vertex array as long as the vertices, with texture coordinates 0 for vertices that have none. Merging gives exactly the triangles and vertex attributes of both parts in order; cleaning removes exactly the triangles with an edge longer than the threshold, or with a vertex at the origin (within 1e-10), and nothing else; face normals are unit vectors at any scale of the mesh, 0 for degenerate faces; transforms move vertices and rotate normals by the pose. Materials follow the mesh that is changed; other operands are left unchanged.")
state("T03",
 "Primitives (with at least one vertex) added to a model are returned by extraction in order with the same vertices, normals, indices, texture coordinates and images of any size and shape, in models written by this code and in valid glTF models of other tools (several buffers, shared images and materials, 16- and 32-bit indices, alpha channels ignored). Copies are independent, also of the meshes they were made from; two models have the same size exactly if their primitives have the same numbers of vertices and indices; updating materials changes exactly the primitives named; saving as gltf or glb at any absolute or relative path and loading back preserves all of it. Operations that fail raise.")
state("T04",
 "The packed file has a valid header with the true total length, a JSON chunk and a binary chunk both padded to 4 bytes, and every buffer view and image of a source whose buffers and images are files (one or several buffers, with or without explicit offsets, any lengths) refers after packing to the same bytes as before, with the same alignment to 4 bytes and without overlapping another file's; the rest of the description is unchanged. A missing referenced file, or input that is not a gltf file, fails and leaves existing output files as they were.")
state("I01",
 "Writing an RGB-D image (colour, range, category and instance pages, at least one pixel) or a multi-page image and reading it back restores every page's pixels, type, order and the near-plane parameter exactly (range to within quantisation). Images of the wrong element type raise, as do absent, damaged or truncated files; saving that fails raises. A file whose writing was interrupted is refused or holds a complete image. Older files (pages without names, 8-bit depth, no metadata) are read by the documented defaults.",
 q="every image size and content (including width not divisible by 6 pages, extreme values), every page subset, overwriting, cut or damaged files")
state("I02",
 "The point cloud of a cube-map RGB-D image has exactly one point per valid pixel, whose range is positive and finite (or per pixel when all points are requested, invalid ones black at the origin), in raster order with that pixel's colour, at distance equal to its range, in the direction of its pixel in the face it belongs to; the six faces cover all directions without overlap. The image is left unchanged; colour and range images of different sizes raise ValueError and images wider than six faces raise.")
state("D01",
 "At every moment, and whatever download fails, is truncated, retried or killed, a dataset archive marked complete has had all its members extracted, an archive is deleted only after successful extraction (or if it is damaged), and a completed archive is never downloaded or extracted again.")
state("D02",
 "Each run asks for each missing archive at most the documented number of times and then stops; after any sequence of failures, truncations and kills of the whole tool, re-running against a healthy server ends, after at most two runs (one to discard a damaged archive, one to fetch it), with every listed archive extracted, marked and removed, and only the listed archives requested, each by its exact name.")
