From 49fb8a9cc84d4853ec1a4461b40c01029dd52542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 01/64] fix: the voxel evaluator passes submission and ground
 truth in the base class's order

They were swapped, so the ground truth was ranked by its scores and counted as the
submission (false positives, evaluated flags, symmetry and n_gt of the wrong scene).
---
 sumo-api/sumo/metrics/voxel_evaluator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/voxel_evaluator.py b/sumo-api/sumo/metrics/voxel_evaluator.py
index f8dca81..ac5cedb 100644
--- a/sumo-api/sumo/metrics/voxel_evaluator.py
+++ b/sumo-api/sumo/metrics/voxel_evaluator.py
@@ -48,7 +48,7 @@ class VoxelEvaluator(Evaluator):
             posed_corners = e.pose.transform_all_from(bbox_corners)
             e.posed_bbox = ComputeBbox().from_point_cloud(posed_corners)
 
-        super(VoxelEvaluator, self).__init__(ground_truth, submission, settings)
+        super(VoxelEvaluator, self).__init__(submission, ground_truth, settings)
 
     def evaluate_all(self):
         """
-- 
2.43.0


From d80b65f34c82e3bb76ceea0d24e050b11b30eae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:35 +0000
Subject: [PATCH 02/64] fix: the mesh evaluator works with default settings

Constructing it without settings raised TypeError (None has no item "density").
---
 sumo-api/sumo/metrics/mesh_evaluator.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 93bdca7..85fe606 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -137,6 +137,9 @@ class MeshEvaluator(Evaluator):
         Evaluator.py for recognized keys and values.
         """
 
+        if settings is None:
+            settings = self.default_settings()
+
         # sample submission and GT and store in points field
         # also compute bounding box of each posed object
         for e in submission.elements.values():
-- 
2.43.0


From 35509c532f1c18b1e940a9895f00d241a8d7e92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:20 +0000
Subject: [PATCH 03/64] fix: cylindrical symmetry gives the smallest rotation
 error for every orientation

Copying one ZYX Euler angle from the detection to the ground truth only aligns the
rotation about the symmetry axis in special positions (elsewhere it can even increase the
error), and after a two-fold axis the alignment of the flipped rotation was not redone.
Use the closed form for the rotation about the ground truth's own axis instead.
---
 sumo-api/sumo/metrics/evaluator.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/sumo-api/sumo/metrics/evaluator.py b/sumo-api/sumo/metrics/evaluator.py
index c562832..e84a47c 100644
--- a/sumo-api/sumo/metrics/evaluator.py
+++ b/sumo-api/sumo/metrics/evaluator.py
@@ -380,7 +380,10 @@ class Evaluator():
 
         # collect a list of equvalent rots for the target object in rots_to_check
         rots_to_check = [gt_element.pose.R]
-        for (axis, sym) in enumerate(sym_list):
+        # Note: A cylindrical axis is handled last, so that each rotation that is
+        # equivalent under the other axes gets its own alignment.
+        for (axis, sym) in sorted(enumerate(sym_list),
+                                  key=lambda x: x[1] == SymmetryType.cylindrical):
             if sym == SymmetryType.spherical:
                 # spherical means 0 error
                 return 0
@@ -431,18 +434,17 @@ class Evaluator():
         axis (int) - cylindrical rotation axis (0=x, 1=y, 2=z)
 
         Return:
-        Rot3 - new rotation matrix with gt set to det rotation on target axis
+        Rot3 - the rotation closest to <det_rot> among all rotations of <gt_rot>
+          about its own axis <axis>
 
         Algorithm:
-        1. convert to zyx Euler angles
-        2. set gt to detection value for target axis
-        3. convert back to matrix rep
-        """
-        det_euler = utils.matrix_to_euler(det_rot.R)
-        gt_euler = utils.matrix_to_euler(gt_rot.R)
-        # note e[0] is z
-        gt_euler[2 - axis] = det_euler[2 - axis]
-        return Rot3(utils.euler_to_matrix(gt_euler))
+        The angle between det and gt * R_axis(angle) is smallest when
+        trace(det^T * gt * R_axis(angle)) is largest.
+        """
+        M = np.matmul(det_rot.R.T, gt_rot.R)
+        j, k = (axis + 1) % 3, (axis + 2) % 3
+        angle = math.atan2(M[j, k] - M[k, j], M[j, j] + M[k, k])
+        return self.symmetric_rot(gt_rot, axis, angle)
 
     def rms_points_error(self):
         """
-- 
2.43.0


From 7ecaead178f472694206cedc303ededf055f2f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 04/64] fix: comparing symmetries with != terminates

---
 sumo-api/sumo/semantic/object_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 814dff4..689d73c 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -93,7 +93,7 @@ class ObjectSymmetry(object):
         )
 
     def __ne__(self, other):
-        return self != other
+        return not (self == other)
 
     @property
     def x_symmetry(self):
-- 
2.43.0


From 7bc9e438e0f53e6d32caf954a9bdfe5f38cf2192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 05/64] fix: an invalid symmetry element raises instead of
 yielding None

---
 sumo-api/sumo/semantic/object_symmetry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/object_symmetry.py b/sumo-api/sumo/semantic/object_symmetry.py
index 689d73c..6ed6bb5 100644
--- a/sumo-api/sumo/semantic/object_symmetry.py
+++ b/sumo-api/sumo/semantic/object_symmetry.py
@@ -190,7 +190,7 @@ class ObjectSymmetry(object):
             return objectSymmetry
 
         except ValueError:
-            RuntimeError("Could not parse symmetry element.")
+            raise RuntimeError("Could not parse symmetry element.")
 
     def to_xml(self):
         """
-- 
2.43.0


From 7c4c5ba5d26bbe996550eca6428319c286ffbb16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 06/64] fix: an element without id raises ValueError, one
 without bounds loads

---
 sumo-api/sumo/semantic/project_object.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 45f7743..16ab2bf 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -339,6 +339,8 @@ class ProjectObject(object):
             raise ValueError('Expected tag to be "element"')
 
         # defaults
+        id = None
+        bounds = None
         proxy = ProjectObject(1)
         category = proxy.category
         pose = proxy.pose
-- 
2.43.0


From af7ffd2af3ada1965943f081764c76b7288cb7e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 07/64] fix: a scene file without elements raises ValueError

---
 sumo-api/sumo/semantic/project_scene.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index c78616e..aecedf4 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -159,10 +159,14 @@ class ProjectScene(object):
             raise ValueError("xml is missing project_type tag")
 
         # extract elements
+        elements = None
         for element in root:
             if element.tag == "elements":
                 elements = ProjectObjectDict.load(
                     project_type=project_type, base_elem=element, path=project_dir)
             # header and any other tags are silently ignored
 
+        if elements is None:
+            raise ValueError("xml is missing elements tag")
+
         return cls(project_type, elements, settings)
-- 
2.43.0


From 9c50991a91bbf3fbe58c760556ebc649a0cbf777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 08/64] fix: a scene file that is not xml raises the documented
 ValueError

---
 sumo-api/sumo/semantic/project_scene.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index aecedf4..bd19d3c 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -132,7 +132,10 @@ class ProjectScene(object):
         project_dir = os.path.join(path, project_name)
 
         # Read xml from file
-        xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        try:
+            xml_tree = ET.parse(os.path.join(project_dir, project_name + ".xml"))
+        except ET.ParseError as e:
+            raise ValueError("Could not parse scene xml: " + str(e))
 
         # parse xml tree
         root = xml_tree.getroot()
-- 
2.43.0


From 02652ca8ba8fdde617bce70f95e8139f35b62a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 09/64] fix: a re-posed scene can be saved and keeps its
 settings

---
 sumo-api/sumo/semantic/project_scene.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index bd19d3c..5b4def1 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -57,8 +57,11 @@ class ProjectScene(object):
         Output: new_project_scene - new ProjectScene instance with
             transformed pose.
         """
-        new_elements = {k: PO.transform_pose(nTo) for (k, PO) in self.elements.items()}
-        return ProjectScene(project_type=self.project_type, elements=new_elements)
+        new_elements = ProjectObjectDict()
+        for (k, PO) in self.elements.items():
+            new_elements[k] = PO.transform_pose(nTo)
+        return ProjectScene(project_type=self.project_type, elements=new_elements,
+            settings=dict(self.settings))
 
     def save(self, path, project_name):
         """
-- 
2.43.0


From ca73fa7ca67d1580ea60fe715fff9b6172b233eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 10/64] fix: scenes do not share the default settings
 dictionary

---
 sumo-api/sumo/semantic/project_scene.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_scene.py b/sumo-api/sumo/semantic/project_scene.py
index 5b4def1..fc6664c 100644
--- a/sumo-api/sumo/semantic/project_scene.py
+++ b/sumo-api/sumo/semantic/project_scene.py
@@ -45,7 +45,7 @@ class ProjectScene(object):
             raise ValueError("Project type ({}) must be one of 'bounding_box', \
 'voxels', or 'mesh'".format(project_type))
         self.project_type = project_type
-        self.settings = settings if settings is not None else DEFAULT_SETTINGS
+        self.settings = settings if settings is not None else dict(DEFAULT_SETTINGS)
         self.elements = elements if elements is not None else ProjectObjectDict()
 
     def transform_pose(self, nTo):
-- 
2.43.0


From d30635dfd216ffb3623a23d97b68cb801d50200b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 11/64] fix: voxels stay in place when later points extend only
 one dimension

---
 sumo-api/sumo/threedee/voxel_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 9d580c3..26a2b44 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -126,8 +126,8 @@ class VoxelGrid(object):
 
         # Check if voxel space dimensions have increased
         (new_size_x, new_size_y, _) = np.amax(new_voxels_3d, 0) + 1
-        if (new_size_x > self._size_x) or (new_size_y > self._size_y):
-            self._size_x, self._size_y = new_size_x, new_size_y
+        self._size_x = max(self._size_x, new_size_x)
+        self._size_y = max(self._size_y, new_size_y)
 
         # convert the voxel_index to 1D and merge
         old_voxels_1d = _linearize_voxels(self._voxels_3d, self._size_x, self._size_y)
-- 
2.43.0


From 66febef77021438058a195c1007916cc69d9e6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 12/64] fix: voxel files that cannot be opened raise IOError

---
 sumo-api/sumo/threedee/voxel_grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index 26a2b44..ac6ba72 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -175,7 +175,7 @@ class VoxelGrid(object):
         try:  # note: h5py does not document excption hanlding.  TODO: Verify this
             f = h5py.File(filename, "w")
         except Exception as e:
-            IOError("voxel file write failed. Err: " + str(e))
+            raise IOError("voxel file write failed. Err: " + str(e))
         f.create_dataset("voxels_3d", shape=self._voxels_3d.shape, data=self._voxels_3d, dtype='int32')
         f.attrs["scale"] = self._scale
         f.attrs["min_corner"] = self._min_corner
@@ -196,7 +196,7 @@ class VoxelGrid(object):
         try:
             f = h5py.File(filename, "r")
         except Exception as e:
-            IOError("voxel file read failed. Err: " + str(e))
+            raise IOError("voxel file read failed. Err: " + str(e))
         self._voxels_3d = np.array(f["voxels_3d"], np.int32)
         self._scale = f.attrs["scale"]
         self._min_corner = np.array(f.attrs["min_corner"])
-- 
2.43.0


From cbc9d6503d7975baf8a82954e51897729c26b873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:47 +0000
Subject: [PATCH 13/64] fix: adding no points to a voxel grid is allowed

---
 sumo-api/sumo/threedee/voxel_grid.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index ac6ba72..def0fa8 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -119,6 +119,8 @@ class VoxelGrid(object):
         # convert points to voxel coordinates
         # voxel_index = floor((point - min_corner) * scale)
         n_points = points.shape[0]
+        if n_points == 0:
+            return
         min_corner = np.tile(self._min_corner, (n_points, 1))
         new_voxels_3d = np.floor((points - min_corner) * self._scale).astype('int32')  # Nx3
         if (np.amin(new_voxels_3d) < 0):
-- 
2.43.0


From f5c1c1046273672e1891b1e210ac5b30d3ad7b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 14/64] fix: saving a glb file to a relative path does not lose
 it

---
 sumo-api/sumo/threedee/gltf_model.pyx | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index 4f5e2fe..498f021 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -255,6 +255,7 @@ cdef class GltfModel:
               IOError - if intermediate gltf file cannot be written
               RunTimeError - if saveImages fails when writing gltf files
         """
+        path = os.path.abspath(path)  # the current directory changes below
         base_name = os.path.basename(path)
         temp = tempfile.mkdtemp()
         temp_folder = temp.decode('UTF-8') if hasattr(temp, 'decode') else temp
-- 
2.43.0


From 00a11ed9ec5cb065849ef26c32d6363604929703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:43 +0000
Subject: [PATCH 15/64] fix: buffer views without byteOffset keep pointing into
 their own buffer

---
 sumo-api/sumo/threedee/glb_converter.pyx | 459 +++++++++++------------
 1 file changed, 228 insertions(+), 231 deletions(-)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 48cf4a5..401fbb5 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -1,231 +1,228 @@
-"""
-Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
-
-This source code is licensed under the MIT license found in the
-LICENSE file in the root directory of this source tree.
-
-GlTF to GLB converter.
-"""
-
-from __future__ import absolute_import
-from __future__ import division
-from __future__ import print_function
-from __future__ import unicode_literals
-
-import json
-import mimetypes
-import os
-import struct
-import sys
-
-
-class BodyEncoder:
-    """
-    Encode the binary chunks of the GLB's body
-    Use body_length and body_parts for tracking aligned binary data
-    """
-    def __init__(self, containing_dir):
-        """
-        Constructor
-
-        Input:
-        containing_dir (string) - Path for gltf file
-        """
-        self.containing_dir = containing_dir
-        self.body_length = 0
-        self.body_parts = []
-
-    def add_to_body(self, uri, length):
-        """
-        Adds an immediate or external data uri to the GLB's body
-
-        Inputs:
-        uri (string) - String of characters used to identify a resource
-        length (int) - Placeholder to store buffer length
-
-        Outputs:
-        offset (int) - Overall offset to current uri
-        length (int) - Length for current aligned uri buffer
-        """
-        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
-            buf = bytearray(f.read())
-
-        # 4-byte-aligned
-        length = (len(buf) + 3) & ~3
-        for _i in range(length - len(buf)):
-            buf.extend(b' ')
-
-        # Handle the buffer
-        offset = self.body_length
-        self.body_parts.append(offset)
-        self.body_parts.append(buf)
-        length = len(buf)
-        self.body_length += length
-        return (offset, length)
-
-
-class GlbEncoder:
-    """
-    Combine JSON header and binary body into a GLB with a proper header
-    """
-    def __init__(self, header, body):
-        """
-        Constructor
-
-        Inputs:
-        header - Packed gltf json in binary data
-        body (BodyEncoder) - Packed gltf resource in binary data
-        """
-        self.header = header
-        self.body = body
-
-    def export(self, filename):
-        """
-        Export the GLB file
-
-        Inputs:
-        filename (string) - Path for exported file path
-        """
-        with open(filename, 'wb') as f:
-            f.write(self.export_string())
-            f.close()
-
-    def export_string(self):
-        """ Export the GLB data"""
-
-        # Padded scene length to a multiple of 4 for 4-byte-aligned
-        l_aligned_len = (len(self.header) + 3) & ~3
-
-        for _i in range(l_aligned_len - len(self.header)):
-            self.header.extend(b' ')
-
-        glb_out = bytearray()
-        # 12 (file header): magic + version + length
-        # 8 (json chunk header): json length + type
-        # len(self.header): aligned json header length
-        # 8 (bin chunk header): chunk length + type
-        # self.body.body_length: aligned binary length
-        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
-
-        # Write the header
-        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
-        glb_out.extend(struct.pack('<I', 2))
-        glb_out.extend(struct.pack('<I', file_len))
-        glb_out.extend(struct.pack('<I', len(self.header)))
-
-        # Write binary json
-        glb_out.extend(struct.pack('<I', 0x4E4F534A))
-        glb_out += self.header
-        glb_out.extend(struct.pack('<I', self.body.body_length))
-        glb_out.extend(struct.pack('<I', 0x004E4942))
-
-        # Write the body
-        for i in range(0, len(self.body.body_parts), 2):
-            contents = self.body.body_parts[i + 1]
-            glb_out += contents
-
-        return glb_out
-
-
-def gltf2glb(input_glTF, output_glb=None):
-    """
-    Convert glTF2 files into a single glb file
-
-    Inputs:
-    input_glTF (string) - Path for input gltf file path
-    output_glb (string) - Path for output glb file path
-    """
-    # Check if input file is with gltf extension
-    if not input_glTF.endswith('.gltf'):
-        print("Failed to create binary GLTF file: input is not *.gltf")
-        sys.exit(-1)
-
-    # Save default glb file name and location using input gltf file name
-    ext = 'glb'
-    fname_out \
-        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
-
-    if output_glb is not None:
-        fname_out = output_glb
-    else:
-        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
-
-    with open(input_glTF, 'rb') as f:
-        gltf = f.read()
-
-    gltf = gltf.decode('utf-8')
-    gltf_json = json.loads(gltf)
-
-    # Set up body_encoder
-    body_encoder \
-        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
-
-    buffer_map = {}
-    buffer_offset = 0
-    buffer_length = 0
-    buffer_index = 0
-
-    for i, _val in enumerate(gltf_json["buffers"]):
-        try:
-            length = gltf_json["buffers"][i]["byteLength"]
-        except KeyError:
-            length = None
-
-        offset, length \
-            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
-
-        del gltf_json["buffers"][i]["uri"]
-        gltf_json["buffers"][i]["byteLength"] = length
-
-        buffer_index = i
-        buffer_map[buffer_index] = buffer_offset
-        buffer_offset += length
-
-    # Iterate over the bufferViews to
-    # move buffers into the single GLB buffer body
-    for bufview in gltf_json["bufferViews"]:
-        try:
-            bufview["byteOffset"] \
-                = bufview["byteOffset"] + buffer_map[bufview["buffer"]]
-        except KeyError:
-            bufview["byteOffset"] = 0
-
-        bufview["buffer"] = 0
-
-    # Iterate over images
-    if 'images' in gltf_json:
-        for i, image in enumerate(gltf_json["images"]):
-            uri = image["uri"]
-            if not uri:
-                raise ValueError("GLTF image has empty URI.")
-            buffer_map[buffer_index] = buffer_offset
-            offset, length = body_encoder.add_to_body(uri, None)
-
-            buffer_view = {
-                "buffer": 0,
-                "byteOffset": offset,
-                "byteLength": length
-            }
-
-            # Update buffer_offset after add data into binary
-            buffer_index += 1
-            buffer_offset = offset
-            buffer_length = length
-            buffer_view_index = len(gltf_json["bufferViews"])
-            gltf_json["bufferViews"].append(buffer_view)
-            image["bufferView"] = buffer_view_index
-
-            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
-            image["mimeType"] = fileType
-            del image["uri"]
-
-    #TODO: In our model pool, they doesn't contain shader resource.
-    #if 'shaders' in gltf_json:
-
-    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
-    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
-    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-
-    # Pack both binary json and data into single glb file
-    encoder = GlbEncoder(gltf_str, body_encoder)
-    encoder.export(fname_out)
+"""
+Copyright (c) Facebook, Inc. and its affiliates. All Rights Reserved
+
+This source code is licensed under the MIT license found in the
+LICENSE file in the root directory of this source tree.
+
+GlTF to GLB converter.
+"""
+
+from __future__ import absolute_import
+from __future__ import division
+from __future__ import print_function
+from __future__ import unicode_literals
+
+import json
+import mimetypes
+import os
+import struct
+import sys
+
+
+class BodyEncoder:
+    """
+    Encode the binary chunks of the GLB's body
+    Use body_length and body_parts for tracking aligned binary data
+    """
+    def __init__(self, containing_dir):
+        """
+        Constructor
+
+        Input:
+        containing_dir (string) - Path for gltf file
+        """
+        self.containing_dir = containing_dir
+        self.body_length = 0
+        self.body_parts = []
+
+    def add_to_body(self, uri, length):
+        """
+        Adds an immediate or external data uri to the GLB's body
+
+        Inputs:
+        uri (string) - String of characters used to identify a resource
+        length (int) - Placeholder to store buffer length
+
+        Outputs:
+        offset (int) - Overall offset to current uri
+        length (int) - Length for current aligned uri buffer
+        """
+        with open(os.path.join(self.containing_dir, uri), 'rb') as f:
+            buf = bytearray(f.read())
+
+        # 4-byte-aligned
+        length = (len(buf) + 3) & ~3
+        for _i in range(length - len(buf)):
+            buf.extend(b' ')
+
+        # Handle the buffer
+        offset = self.body_length
+        self.body_parts.append(offset)
+        self.body_parts.append(buf)
+        length = len(buf)
+        self.body_length += length
+        return (offset, length)
+
+
+class GlbEncoder:
+    """
+    Combine JSON header and binary body into a GLB with a proper header
+    """
+    def __init__(self, header, body):
+        """
+        Constructor
+
+        Inputs:
+        header - Packed gltf json in binary data
+        body (BodyEncoder) - Packed gltf resource in binary data
+        """
+        self.header = header
+        self.body = body
+
+    def export(self, filename):
+        """
+        Export the GLB file
+
+        Inputs:
+        filename (string) - Path for exported file path
+        """
+        with open(filename, 'wb') as f:
+            f.write(self.export_string())
+            f.close()
+
+    def export_string(self):
+        """ Export the GLB data"""
+
+        # Padded scene length to a multiple of 4 for 4-byte-aligned
+        l_aligned_len = (len(self.header) + 3) & ~3
+
+        for _i in range(l_aligned_len - len(self.header)):
+            self.header.extend(b' ')
+
+        glb_out = bytearray()
+        # 12 (file header): magic + version + length
+        # 8 (json chunk header): json length + type
+        # len(self.header): aligned json header length
+        # 8 (bin chunk header): chunk length + type
+        # self.body.body_length: aligned binary length
+        file_len = 12 + 8 + len(self.header) + 8 + self.body.body_length
+
+        # Write the header
+        glb_out.extend(struct.pack('<I', 0x46546C67))   # magic number: "glTF"
+        glb_out.extend(struct.pack('<I', 2))
+        glb_out.extend(struct.pack('<I', file_len))
+        glb_out.extend(struct.pack('<I', len(self.header)))
+
+        # Write binary json
+        glb_out.extend(struct.pack('<I', 0x4E4F534A))
+        glb_out += self.header
+        glb_out.extend(struct.pack('<I', self.body.body_length))
+        glb_out.extend(struct.pack('<I', 0x004E4942))
+
+        # Write the body
+        for i in range(0, len(self.body.body_parts), 2):
+            contents = self.body.body_parts[i + 1]
+            glb_out += contents
+
+        return glb_out
+
+
+def gltf2glb(input_glTF, output_glb=None):
+    """
+    Convert glTF2 files into a single glb file
+
+    Inputs:
+    input_glTF (string) - Path for input gltf file path
+    output_glb (string) - Path for output glb file path
+    """
+    # Check if input file is with gltf extension
+    if not input_glTF.endswith('.gltf'):
+        print("Failed to create binary GLTF file: input is not *.gltf")
+        sys.exit(-1)
+
+    # Save default glb file name and location using input gltf file name
+    ext = 'glb'
+    fname_out \
+        = os.path.splitext(os.path.basename(input_glTF))[0] + '.' + ext
+
+    if output_glb is not None:
+        fname_out = output_glb
+    else:
+        fname_out = os.path.join(os.path.dirname(input_glTF), fname_out)
+
+    with open(input_glTF, 'rb') as f:
+        gltf = f.read()
+
+    gltf = gltf.decode('utf-8')
+    gltf_json = json.loads(gltf)
+
+    # Set up body_encoder
+    body_encoder \
+        = BodyEncoder(containing_dir=os.path.dirname(input_glTF))
+
+    buffer_map = {}
+    buffer_offset = 0
+    buffer_length = 0
+    buffer_index = 0
+
+    for i, _val in enumerate(gltf_json["buffers"]):
+        try:
+            length = gltf_json["buffers"][i]["byteLength"]
+        except KeyError:
+            length = None
+
+        offset, length \
+            = body_encoder.add_to_body(gltf_json["buffers"][i]["uri"], length)
+
+        del gltf_json["buffers"][i]["uri"]
+        gltf_json["buffers"][i]["byteLength"] = length
+
+        buffer_index = i
+        buffer_map[buffer_index] = buffer_offset
+        buffer_offset += length
+
+    # Iterate over the bufferViews to
+    # move buffers into the single GLB buffer body
+    for bufview in gltf_json["bufferViews"]:
+        bufview["byteOffset"] \
+            = bufview.get("byteOffset", 0) + buffer_map[bufview["buffer"]]
+
+        bufview["buffer"] = 0
+
+    # Iterate over images
+    if 'images' in gltf_json:
+        for i, image in enumerate(gltf_json["images"]):
+            uri = image["uri"]
+            if not uri:
+                raise ValueError("GLTF image has empty URI.")
+            buffer_map[buffer_index] = buffer_offset
+            offset, length = body_encoder.add_to_body(uri, None)
+
+            buffer_view = {
+                "buffer": 0,
+                "byteOffset": offset,
+                "byteLength": length
+            }
+
+            # Update buffer_offset after add data into binary
+            buffer_index += 1
+            buffer_offset = offset
+            buffer_length = length
+            buffer_view_index = len(gltf_json["bufferViews"])
+            gltf_json["bufferViews"].append(buffer_view)
+            image["bufferView"] = buffer_view_index
+
+            fileType, fileEncoding = mimetypes.guess_type(image["uri"])
+            image["mimeType"] = fileType
+            del image["uri"]
+
+    #TODO: In our model pool, they doesn't contain shader resource.
+    #if 'shaders' in gltf_json:
+
+    gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
+    lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
+    gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
+
+    # Pack both binary json and data into single glb file
+    encoder = GlbEncoder(gltf_str, body_encoder)
+    encoder.export(fname_out)
-- 
2.43.0


From 0a0f2e5da6972444b50590cc4038c6fbe14efee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:00 +0000
Subject: [PATCH 16/64] fix: a mesh without material values can be loaded back
 from glTF

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 9094ef6..5b4496b 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -4570,7 +4570,7 @@ bool TinyGLTF::WriteGltfSceneToFile(
   if (model->materials.size()) {
     json materials;
     for (unsigned int i = 0; i < model->materials.size(); ++i) {
-      json material;
+      json material = json::object(); // never null, even if it has no values
       SerializeGltfMaterial(model->materials[i], material);
       materials.push_back(material);
     }
-- 
2.43.0


From 119b34890b9ea2a8a30bb16e89a431dd7841d836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 17/64] fix: voxels of large grids keep their positions

---
 sumo-api/sumo/threedee/voxel_grid.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sumo-api/sumo/threedee/voxel_grid.py b/sumo-api/sumo/threedee/voxel_grid.py
index def0fa8..d1f453b 100644
--- a/sumo-api/sumo/threedee/voxel_grid.py
+++ b/sumo-api/sumo/threedee/voxel_grid.py
@@ -225,6 +225,7 @@ def _linearize_voxels(voxels_3d, size_x, size_y):
     Formula is: i = z * size_y * size_x + y * size_x + x
     This does the reverse of _vectorize_voxels
     """
+    size_x, size_y = int(size_x), int(size_y)  # size_x * size_y may exceed 32 bits
     linearizer = np.array([[1], [size_x], [size_x * size_y]])  # 3x1
     return np.matmul(voxels_3d, linearizer).squeeze()  # Nx3 * 3x1 => Nx1
 
-- 
2.43.0


From 5b8442023c67d1e60486d3c8d338ec7d1b04e038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:07 +0000
Subject: [PATCH 18/64] fix: sampled colours use u along the width and v along
 the height of the texture

---
 sumo-api/sumo/metrics/mesh_evaluator.py  | 4 ++--
 sumo-api/sumo/threedee/model_sampler.pyx | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/metrics/mesh_evaluator.py b/sumo-api/sumo/metrics/mesh_evaluator.py
index 85fe606..b9bacd4 100644
--- a/sumo-api/sumo/metrics/mesh_evaluator.py
+++ b/sumo-api/sumo/metrics/mesh_evaluator.py
@@ -61,8 +61,8 @@ def sample_element(element, density=625):
         else:
             uv_coords = posed_mesh.uv_coords()  # 2 x N_verts
             temp2 = uv_coords[:, posed_mesh.indices()]  # 2 x N_indices
-            r = np.mod(np.floor(temp2[0, :] * h).astype(int), h)  # 1 x n_vertices
-            c = np.mod(np.floor(temp2[1, :] * w).astype(int), w)  # "
+            r = np.mod(np.floor(temp2[1, :] * h).astype(int), h)  # 1 x n_vertices
+            c = np.mod(np.floor(temp2[0, :] * w).astype(int), w)  # "
             colors = posed_mesh.base_color()[r, c, :]
 
         faces[start:start + counts[i], 3:6] = colors
diff --git a/sumo-api/sumo/threedee/model_sampler.pyx b/sumo-api/sumo/threedee/model_sampler.pyx
index 6db6298..6452c51 100644
--- a/sumo-api/sumo/threedee/model_sampler.pyx
+++ b/sumo-api/sumo/threedee/model_sampler.pyx
@@ -54,8 +54,8 @@ class ModelSampler(object):
             else:
                 uv_coords = mesh.uv_coords()  # 2 x N_verts
                 temp2 = uv_coords[:, mesh.indices()]  # 2 x N_indices
-                r = np.mod(np.floor(temp2[0,:] * h).astype(int), h)  # 1 x n_vertices
-                c = np.mod(np.floor(temp2[1,:] * w).astype(int), w)  # "
+                r = np.mod(np.floor(temp2[1,:] * h).astype(int), h)  # 1 x n_vertices
+                c = np.mod(np.floor(temp2[0,:] * w).astype(int), w)  # "
                 colors = mesh.base_color()[r, c, :]
 
             faces[start:start+counts[i], 3:6] = colors
-- 
2.43.0


From 917c568796ea7b303065b545d5f5e37c6d59a166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:32 +0000
Subject: [PATCH 19/64] fix: a rotation column with one value is rejected
 instead of being repeated

---
 sumo-api/sumo/geometry/rot3.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index e2176ff..43334a7 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -172,7 +172,7 @@ class Rot3:
         R = np.zeros((3,3))
         for elem in base_elem:
             try:
-                R[:,col_lookup[elem.tag]] = np.fromstring(elem.text, sep=',')
+                R[:,col_lookup[elem.tag]] = np.fromstring(elem.text, sep=',').reshape(3)
                 found[elem.tag] = True
             except:
                 raise ValueError("Expected c1, c2, or c3, but got {}".format(elem.tag))
-- 
2.43.0


From d4a565499d92cca85a6b2e1317033dd2ead75ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:32 +0000
Subject: [PATCH 20/64] fix: the first category id beyond the table raises
 KeyError

---
 sumo-api/sumo/base/colored_category.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/base/colored_category.pyx b/sumo-api/sumo/base/colored_category.pyx
index 20b7d15..e60efd8 100644
--- a/sumo-api/sumo/base/colored_category.pyx
+++ b/sumo-api/sumo/base/colored_category.pyx
@@ -112,7 +112,7 @@ class ColoredCategory(object):
         Exceptions:
         KeyError - if category_id does not exist in the dataset config.
         """
-        if category_id > len(self._data) or category_id < 0:
+        if category_id >= len(self._data) or category_id < 0:
             raise KeyError("Category id {} does not exist.".format(category_id))
         return self._data[category_id]["color"]
 
-- 
2.43.0


From 3ff831d12a5ef93f4172dbf1591e3a5d87386a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:32 +0000
Subject: [PATCH 21/64] fix: meshes without vertices do not pull the bounding
 box to the origin

---
 sumo-api/sumo/threedee/compute_bbox.pyx | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/compute_bbox.pyx b/sumo-api/sumo/threedee/compute_bbox.pyx
index fc837db..d81f76c 100644
--- a/sumo-api/sumo/threedee/compute_bbox.pyx
+++ b/sumo-api/sumo/threedee/compute_bbox.pyx
@@ -56,7 +56,8 @@ class ComputeBbox(object):
 
             Return: Box3d object
         """
-        boxes = [self.from_point_cloud(mesh.vertices()) for mesh in meshes]
+        boxes = [self.from_point_cloud(mesh.vertices()) for mesh in meshes
+                 if mesh.num_vertices() > 0]
         return Box3d.merge(boxes)
 
     def from_gltf_object(self, gltf_model):
-- 
2.43.0


From 37fd5c25d92b1b73a08a571665e5350bd7009a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:32 +0000
Subject: [PATCH 22/64] fix: Euler angles of a rotation at gimbal lock give the
 rotation back

---
 sumo-api/sumo/metrics/utils.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/metrics/utils.py b/sumo-api/sumo/metrics/utils.py
index 4bc0528..862efd9 100644
--- a/sumo-api/sumo/metrics/utils.py
+++ b/sumo-api/sumo/metrics/utils.py
@@ -143,9 +143,16 @@ def quat_to_euler(q):
     atan2( 2*(qy.*qz+qw.*qx), qw.^2 - qx.^2 - qy.^2 + qz.^2 )];
 
     """
+    sin_y = -2 * (q[1] * q[3] - q[0] * q[2])
+    if abs(sin_y) > 1 - 1e-12:
+        # Gimbal lock: only z - x (or z + x) is determined, so choose x = 0.
+        return np.array([-math.copysign(2, sin_y) * math.atan2(q[1], q[0]),
+                         math.copysign(math.pi / 2, sin_y),
+                         0.0])
+
     return np.array([math.atan2(2 * (q[1] * q[2] + q[0] * q[3]),
                                 q[0] * q[0] + q[1] * q[1] - q[2] * q[2] - q[3] * q[3]),
-                     math.asin(-2 * (q[1] * q[3] - q[0] * q[2])),
+                     math.asin(sin_y),
                      math.atan2(2 * (q[2] * q[3] + q[0] * q[1]),
                                 q[0] * q[0] - q[1] * q[1] - q[2] * q[2] + q[3] * q[3])])
 
-- 
2.43.0


From 306ac07b65986990f051507ece72b68157ae9a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:15 +0000
Subject: [PATCH 23/64] fix: json poses that break the format raise the
 documented ValueError

---
 sumo-api/sumo/geometry/pose3.pyx | 8 ++++++--
 sumo-api/sumo/geometry/rot3.pyx  | 7 ++++++-
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 11c8db9..4ec257a 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -231,8 +231,12 @@ class Pose3:
             Exceptions:
               ValueError - if json dictionary is not in expected format
         """
-        return cls(R=Rot3.from_json(json_dict['Rotation']),
-                   t=Vector3(*json_dict['Translation']))
+        try:
+            rotation = json_dict['Rotation']
+            translation = Vector3(*json_dict['Translation'])
+        except (KeyError, TypeError) as e:
+            raise ValueError("Expected Rotation and a Translation with 3 numbers: {}".format(e))
+        return cls(R=Rot3.from_json(rotation), t=translation)
 
     def to_json(self):
         """ Convert Pose3 to json.  See above for format.
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index 43334a7..be03838 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -212,7 +212,12 @@ class Rot3:
             Exceptions:
               ValueError - if json dictionary is not in expected format
         """
-        return cls.FromColumns(json_dict['X'],json_dict['Y'],json_dict['Z'])
+        try:
+            columns = [np.array(json_dict[field], dtype=float).reshape(3)
+                       for field in ('X', 'Y', 'Z')]
+        except (KeyError, TypeError, ValueError) as e:
+            raise ValueError("Expected columns X, Y, and Z with 3 numbers each: {}".format(e))
+        return cls.FromColumns(*columns)
 
     def to_json(self):
         """ Convert Rot3 to json.  See above for format.
-- 
2.43.0


From e5ea3c4f3733d3cb0af9e30a8900d72540cb85cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 24/64] fix: ply files that cannot be read or written raise
 instead of ending the process

---
 sumo-api/sumo/threedee/point_cloud_ply.pxd | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply.pxd b/sumo-api/sumo/threedee/point_cloud_ply.pxd
index a7d2759..1284ba0 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply.pxd
+++ b/sumo-api/sumo/threedee/point_cloud_ply.pxd
@@ -10,15 +10,15 @@ from libcpp.vector cimport vector
 cdef extern from "sumo/threedee/point_cloud_ply_c.h" namespace "sumo":
 
   # This is a wrapper for the function readPoints
-  cdef vector[float] readPoints(const char* filename)
+  cdef vector[float] readPoints(const char* filename) except +
 
   # This is a wrapper for the function writePoints
   cdef void writePoints(
     vector[float]& vertex_points,
-    const char* filename)
+    const char* filename) except +
 
   # This is a wrapper for the function writePointsAndColor
   cdef void writePointsAndColors(
     vector[float]& vertex_points,
     vector[unsigned char]& vertex_colors,
-    const char* filename)
+    const char* filename) except +
-- 
2.43.0


From 586fc1be72531f1532e918e4381629a87c4a4ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:45:36 +0000
Subject: [PATCH 25/64] fix: points of ply files in double precision, of
 another type, or cut off are not read as garbage

---
 sumo-api/sumo/threedee/point_cloud_ply_c.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
index 2456c73..46d2e71 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
+++ b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
@@ -8,6 +8,7 @@ LICENSE file in the root directory of this source tree.
 #include "point_cloud_ply_c.h"
 #include "tinyply/tinyply.h"
 
+#include <algorithm>
 #include <cstring>
 #include <fstream>
 #include <iostream>
@@ -43,9 +44,24 @@ vector<float> readPoints(const string& filename) {
 
   file.read(ss);
 
+  if (ss.fail()) {
+    throw runtime_error("readPoints error: incomplete file " + filename);
+  }
+
   const size_t numVerticesBytes = vertexData->buffer.size_bytes();
   vector<float> vertices(3 * vertexData->count);
-  memcpy(vertices.data(), vertexData->buffer.get(), numVerticesBytes);
+  if (vertexData->t == Type::FLOAT32 &&
+      numVerticesBytes == vertices.size() * sizeof(float)) {
+    memcpy(vertices.data(), vertexData->buffer.get(), numVerticesBytes);
+  } else if (
+      vertexData->t == Type::FLOAT64 &&
+      numVerticesBytes == vertices.size() * sizeof(double)) {
+    const double* values =
+        reinterpret_cast<const double*>(vertexData->buffer.get());
+    copy(values, values + vertices.size(), vertices.begin());
+  } else {
+    throw runtime_error("readPoints error: unsupported type in " + filename);
+  }
 
   return vertices;
 }
-- 
2.43.0


From 71a13b2b50d8999c2fae67c9f60da0fe4872cef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:09 +0000
Subject: [PATCH 26/64] fix: coloured and uncoloured point clouds are not mixed

---
 sumo-api/sumo/threedee/point_cloud.pyx | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 10c79f7..490074f 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -95,7 +95,12 @@ cdef class PointCloud:
       cdef const CPointCloud* cloud_ptr
       cdef vector[const CPointCloud*] clouds
       point_clouds = [] # to keep python objects from being garbage-collected
+      colored = None
       for wTc, c_point_cloud in iterator:
+          if c_point_cloud.num_points() > 0:
+              if colored is not None and c_point_cloud.colored() != colored:
+                  raise ValueError("Can't merge colored point cloud with non-colored point cloud.")
+              colored = c_point_cloud.colored()
           w_point_cloud = c_point_cloud.transform_from(wTc)
           cloud_ptr = w_point_cloud._c_ptr
           clouds.push_back(cloud_ptr)
@@ -119,6 +124,9 @@ cdef class PointCloud:
 
   def append(self, PointCloud other):
       """ Append the points (and colors) of the other instance. Imperative."""
+      if (self.num_points() > 0 and other.num_points() > 0 and
+              self.colored() != other.colored()):
+          raise ValueError("Can't merge colored point cloud with non-colored point cloud.")
       self._c_ptr.append(other._c_ptr[0])
 
   def point(self, size_t i):
-- 
2.43.0


From 4fd857fbc6288cfeeb3f897c2836f754f575c561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:43 +0000
Subject: [PATCH 27/64] fix: a mesh can be merged with itself

---
 sumo-api/sumo/threedee/Mesh.cpp         | 9 +++++++++
 sumo-api/sumo/threedee/TexturedMesh.cpp | 9 +++++++++
 2 files changed, 18 insertions(+)

diff --git a/sumo-api/sumo/threedee/Mesh.cpp b/sumo-api/sumo/threedee/Mesh.cpp
index deaeb98..8fee777 100644
--- a/sumo-api/sumo/threedee/Mesh.cpp
+++ b/sumo-api/sumo/threedee/Mesh.cpp
@@ -148,6 +148,12 @@ Mesh Mesh::Example(
 }
 
 void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
+  if (&mesh2 == this) {
+    // merging with itself: do not read from what is being extended
+    merge(Mesh(mesh2), numCommonVertices);
+    return;
+  }
+
   // Merge the indices.
   const size_t offset = numVertices() - numCommonVertices;
   for (const size_t& index2 : mesh2.indices()) {
@@ -165,6 +171,9 @@ void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
 }
 
 void Mesh::replaceGeometry(const Mesh& mesh2) {
+  if (&mesh2 == this) {
+    return;
+  }
   //Replace the geometry of the mesh.
   indices_.clear();
   vertices_.clear();
diff --git a/sumo-api/sumo/threedee/TexturedMesh.cpp b/sumo-api/sumo/threedee/TexturedMesh.cpp
index 95fe44a..dfccd54 100644
--- a/sumo-api/sumo/threedee/TexturedMesh.cpp
+++ b/sumo-api/sumo/threedee/TexturedMesh.cpp
@@ -76,6 +76,12 @@ void TexturedMesh::renumber(
 }
 
 void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
+  if (&mesh2 == this) {
+    // merging with itself: do not read from what is being extended
+    merge(TexturedMesh(mesh2), numCommonVertices);
+    return;
+  }
+
   // Call base class method
   Mesh::merge(mesh2, numCommonVertices);
 
@@ -89,6 +95,9 @@ void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
 }
 
 void TexturedMesh::replaceGeometry(const TexturedMesh& mesh2) {
+  if (&mesh2 == this) {
+    return;
+  }
   indices_.clear();
   vertices_.clear();
   normals_.clear();
-- 
2.43.0


From 319ac49cbfd6dcb29a01476091730a01f968bfe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:43 +0000
Subject: [PATCH 28/64] fix: copies of a mesh keep its material

---
 sumo-api/sumo/threedee/Mesh.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/Mesh.h b/sumo-api/sumo/threedee/Mesh.h
index e7d2e1a..bbdcc67 100644
--- a/sumo-api/sumo/threedee/Mesh.h
+++ b/sumo-api/sumo/threedee/Mesh.h
@@ -102,7 +102,8 @@ class Mesh {
   Mesh(const Mesh& other)
       : indices_(other.indices()),
         vertices_(other.vertices()),
-        normals_(other.normals()) {}
+        normals_(other.normals()),
+        material_(other.material_) {}
 
   virtual ~Mesh() {}
 
-- 
2.43.0


From 9681cd6e9ef844054e1a4463577cba678555f2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:43 +0000
Subject: [PATCH 29/64] fix: Mesh.cube has its triangles

---
 sumo-api/sumo/threedee/mesh.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/threedee/mesh.pyx b/sumo-api/sumo/threedee/mesh.pyx
index 609d92e..420e680 100644
--- a/sumo-api/sumo/threedee/mesh.pyx
+++ b/sumo-api/sumo/threedee/mesh.pyx
@@ -122,6 +122,8 @@ cdef class Mesh:
       # Create 2D mesh
       cdef size_t j = 0
       indices = np.empty((36,), dtype=np.uint32)
+      for j in range(6): # BACK, LEFT, FRONT, RIGHT, UP, DOWN
+        indices[j*6:j*6+6] = [4*j+0, 4*j+1, 4*j+2,  4*j+1, 4*j+3, 4*j+2]
 
       # Create 3D mesh in OpenGL frame, Y is up, positive Z is back
       # Face order is BACK, LEFT, FRONT, RIGHT, UP, DOWN
-- 
2.43.0


From 5402dbff968118207bec9ffee7f6bb683bd2c6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:43 +0000
Subject: [PATCH 30/64] fix: texture coordinates stay with their vertices when
 some vertices have none

---
 sumo-api/sumo/threedee/TexturedMesh.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/TexturedMesh.cpp b/sumo-api/sumo/threedee/TexturedMesh.cpp
index dfccd54..ed70d4c 100644
--- a/sumo-api/sumo/threedee/TexturedMesh.cpp
+++ b/sumo-api/sumo/threedee/TexturedMesh.cpp
@@ -44,6 +44,9 @@ TexturedMesh::TexturedMesh(
 void TexturedMesh::renumber(
     size_t numNewVertices,
     vector<Index> vertexRenumbering) {
+  // Not all vertices necessarily have texture coordinates
+  uvCoords_.resize(vertices_.size(), UVCoord::Zero());
+
   // renumber indices
   vector<Index> newIndices;
   newIndices.reserve(indices_.size());
@@ -82,11 +85,16 @@ void TexturedMesh::merge(const TexturedMesh& mesh2, size_t numCommonVertices) {
     return;
   }
 
+  // Not all vertices necessarily have texture coordinates: those of mesh2 have
+  // to come after all of our vertices.
+  const size_t numVertices1 = numVertices();
+
   // Call base class method
   Mesh::merge(mesh2, numCommonVertices);
 
   // Treat the case when mesh2 defines new vertices.
-  if (mesh2.numVertices() > numCommonVertices) {
+  if (mesh2.uvCoords().size() > numCommonVertices) {
+    uvCoords_.resize(numVertices1, UVCoord::Zero());
     const auto append = [numCommonVertices](auto& a, const auto& b) {
       a.insert(a.end(), b.begin() + numCommonVertices, b.end());
     };
-- 
2.43.0


From c1a9f679acc49649e1824a2079c7575b3129f2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:41 +0000
Subject: [PATCH 31/64] fix: a partly downloaded dataset archive is never taken
 as downloaded

Downloads went straight to the final name: when the tool was killed, the
partial zip file was taken as downloaded in every later run. Archives cut
short by the server were kept as well, and a response without
content-length could not be downloaded at all.
---
 tools/download_sumo_datasets.py | 46 +++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 20 deletions(-)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index b168617..566dc03 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -74,6 +74,8 @@ def read_config(args):
 
 def download_one(args, zip_filename):
     """Downloads one zip file in a single process."""
+    zip_path = os.path.join(args.destination_dir, zip_filename)
+    part_path = zip_path + ".part"
     try:
         logging.info("Downloading {}.".format(zip_filename))
         server_url = "{}/training/{}".format(args.server_name, zip_filename)
@@ -82,32 +84,36 @@ def download_one(args, zip_filename):
             raise RuntimeError(
                 "Cannot read zip file {} from the server".format(zip_filename)
             )
-        total_length = int(response.headers.get("content-length"))
-        with open(os.path.join(args.destination_dir, zip_filename), "wb") as f:
-            if total_length == 0:
-                f.write(response.content)
-            else:
-                for idx, chunk in enumerate(
-                        response.iter_content(chunk_size=CHUNK_SIZE)
-                ):
-                    logging.debug(
-                        " -- {} {:.0%}".format(
-                            zip_filename, (idx + 1) * CHUNK_SIZE / total_length
-                        )
-                    )
-                    if chunk:
-                        f.write(chunk)
-                        f.flush()
+        # the size is not known if the server does not tell it, or if it is
+        # the size of an encoded transfer
+        total_length = None
+        if not response.headers.get("content-encoding"):
+            total_length = response.headers.get("content-length")
+        size = 0
+        # download under another name, so that only a complete download is
+        # ever taken as the zip file (even if this process is killed)
+        with open(part_path, "wb") as f:
+            for chunk in response.iter_content(chunk_size=CHUNK_SIZE):
+                if chunk:
+                    f.write(chunk)
+                    f.flush()
+                    size += len(chunk)
+                    logging.debug(" -- {} {} bytes".format(zip_filename, size))
+        if total_length is not None and size != int(total_length):
+            raise RuntimeError(
+                "Zip file {} was not completely downloaded".format(zip_filename)
+            )
+        os.replace(part_path, zip_path)
 
     except KeyboardInterrupt:
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_path):
+            os.remove(part_path)
         raise
 
     except Exception as e:
         logging.error(e)
-        if os.path.exists(os.path.join(args.destination_dir, zip_filename)):
-            os.remove(os.path.join(args.destination_dir, zip_filename))
+        if os.path.exists(part_path):
+            os.remove(part_path)
 
 
 def unzip_one(args, file):
-- 
2.43.0


From b007fb2db98ebe447c9a26519408ba37a345d448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:41 +0000
Subject: [PATCH 32/64] fix: a damaged dataset archive is removed, so that it
 is downloaded again

It stayed in the destination directory and failed to extract in every run.
---
 tools/download_sumo_datasets.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/download_sumo_datasets.py b/tools/download_sumo_datasets.py
index 566dc03..9535bb7 100644
--- a/tools/download_sumo_datasets.py
+++ b/tools/download_sumo_datasets.py
@@ -29,6 +29,7 @@ import logging
 import os
 import shutil
 import zipfile
+import zlib
 from functools import partial
 from multiprocessing import Pool
 
@@ -135,6 +136,11 @@ def unzip_one(args, file):
     except KeyboardInterrupt:
         raise
 
+    except (zipfile.BadZipFile, zlib.error, EOFError) as e:
+        # the file is damaged: remove it, so that it is downloaded again
+        logging.error(e)
+        os.remove(zip_file_path)
+
     except Exception as e:
         logging.error(e)
 
-- 
2.43.0


From ab5ffa4ef25fe188bcb1a25f157e60086e9c7ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 33/64] fix: glTF file names are not expanded as shell words

Files next to a glTF file were looked up through wordexp(): a directory or
file name with a space or $ could be saved, but not loaded back (and names
in a glTF file could run commands).
---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 24 ++------------------
 1 file changed, 2 insertions(+), 22 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 5b4496b..a96c3b7 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -1591,28 +1591,8 @@ std::string ExpandFilePath(const std::string& filepath, void*) {
   // no expansion
   std::string s = filepath;
 #else
-  std::string s;
-  wordexp_t p;
-
-  if (filepath.empty()) {
-    return "";
-  }
-
-  // char** w;
-  int ret = wordexp(filepath.c_str(), &p, 0);
-  if (ret) {
-    // err
-    s = filepath;
-    return s;
-  }
-
-  // Use first element only.
-  if (p.we_wordv) {
-    s = std::string(p.we_wordv[0]);
-    wordfree(&p);
-  } else {
-    s = filepath;
-  }
+  // no expansion: names of files may have spaces, quotes, $, ...
+  std::string s = filepath;
 
 #endif
 
-- 
2.43.0


From 8396ea7b0510e2ecfe6fae785e884f97ac32dff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 34/64] fix: a truncated glb file is not read beyond its end

The sizes in the header were not compared with the size of the file: the
missing part of the buffer was read from whatever follows in memory.
---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index a96c3b7..043bf9c 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -3797,7 +3797,7 @@ bool TinyGLTF::LoadBinaryFromMemory(
   // In case the Bin buffer is not present, the size is exactly 20 + size of
   // JSON contents,
   // so use "greater than" operator.
-  if ((20 + model_length > size) || (model_length < 1) ||
+  if ((model_length > size - 20) || (model_length < 1) ||
       (model_format != 0x4E4F534A)) { // 0x4E4F534A = JSON format.
     if (err) {
       (*err) = "Invalid glTF binary.";
@@ -3812,7 +3812,8 @@ bool TinyGLTF::LoadBinaryFromMemory(
   is_binary_ = true;
   bin_data_ = bytes + 20 + model_length +
       8; // 4 bytes (buffer_length) + 4 bytes(buffer_format)
-  bin_size_ = length - (20 + model_length); // extract header + JSON scene data.
+  // The rest of the file, without JSON scene data and header of the chunk.
+  bin_size_ = size > 28 + model_length ? size - (28 + model_length) : 0;
 
   bool ret = LoadFromString(
       model,
-- 
2.43.0


From e8ea6c4ab7b0f658c0736aef60eacb84449c781f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:57 +0000
Subject: [PATCH 35/64] fix: every buffer of a glTF model is saved to its own
 file

All buffers were written to the same file, so that only the last one of
them was kept.
---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 043bf9c..44c585d 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -4493,15 +4493,20 @@ bool TinyGLTF::WriteGltfSceneToFile(
 
   std::string binSaveFilePath = JoinPath(baseDir, binFilename);
 
-  // BUFFERS (We expect only one buffer here)
+  // BUFFERS (usually only one)
   json buffers;
   for (unsigned int i = 0; i < model->buffers.size(); ++i) {
     json buffer;
     if (embedBuffers) {
       SerializeGltfBuffer(model->buffers[i], buffer);
     } else {
+      // The first one is named like the file, the others are numbered
+      std::string number = i > 0 ? "." + std::to_string(i) : "";
       SerializeGltfBuffer(
-          model->buffers[i], buffer, binSaveFilePath, binFilename);
+          model->buffers[i],
+          buffer,
+          binSaveFilePath + number,
+          binFilename + number);
     }
     buffers.push_back(buffer);
   }
-- 
2.43.0


From 0f7e97706fc2f2a162be83dab9fa01fdaaa2ccb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 36/64] fix: the metallic and roughness factors of a coloured
 material are saved

They were saved as booleans (whatever was in memory), and the roughness
under a name that is not part of glTF.
---
 sumo-api/sumo/threedee/GltfModel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index dd4fdc6..9ffceeb 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -636,12 +636,14 @@ size_t GltfModel::addColoredMaterial(
   tinygltf::Parameter metallicFactor, roughNessFactor;
   baseColorFactor.number_array = {color[0], color[1], color[2], 1};
   metallicFactor.number_value = metallic;
+  metallicFactor.has_number_value = true;
   roughNessFactor.number_value = roughness;
+  roughNessFactor.has_number_value = true;
   tinygltf::Material material;
   material.name = name;
   material.values["baseColorFactor"] = baseColorFactor;
   material.values["metallicFactor"] = metallicFactor;
-  material.values["roughNessFactor"] = roughNessFactor;
+  material.values["roughnessFactor"] = roughNessFactor;
 
   this->materials.push_back(material);
   // Return material id
-- 
2.43.0


From cfaa5082e3f42bc339c71afbf625ff4294cfaf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 37/64] fix: a material is updated with colours that have a
 zero component

Only [0, 0, 0] stands for no colour: pure red, green or blue were ignored.
---
 sumo-api/sumo/threedee/GltfModel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 9ffceeb..b6c8d13 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -561,7 +561,7 @@ void GltfModel::updateMaterial(
 
   // color == [0, 0, 0] implies no color, uri.size() == 0,
   // implies no texture
-  if (color[0] != 0 && color[1] != 0 && color[2] != 0) {
+  if (color[0] != 0 || color[1] != 0 || color[2] != 0) {
     // Update the color
     tinygltf::Parameter baseColorFactor;
     baseColorFactor.number_array = {color[0], color[1], color[2], 1};
-- 
2.43.0


From a4bee1ba69fec2dbceba1a1a7e01eb8b949b4570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:17 +0000
Subject: [PATCH 38/64] fix: C++ errors of GltfModel are raised as Python
 exceptions

Updating a material with a texture that cannot be read, for example, ended
the process.
---
 sumo-api/sumo/threedee/gltf.pxd       | 6 +++---
 sumo-api/sumo/threedee/gltf_model.pxd | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/threedee/gltf.pxd b/sumo-api/sumo/threedee/gltf.pxd
index 259fa33..745d136 100644
--- a/sumo-api/sumo/threedee/gltf.pxd
+++ b/sumo-api/sumo/threedee/gltf.pxd
@@ -43,13 +43,13 @@ cdef extern from "sumo/threedee/tiny_gltf/tiny_gltf.h" namespace "tinygltf":
   cdef cppclass CTinyGLTF "tinygltf::TinyGLTF":
     CTinyGLTF() except +
     bool LoadASCIIFromFile(CGltfModel* model, string* err,
-                           const string& filename)
-    bool WriteGltfSceneToFile(CGltfModel* model, const string& filename)
+                           const string& filename) except +
+    bool WriteGltfSceneToFile(CGltfModel* model, const string& filename) except +
 
     bool LoadBinaryFromFile(
       CGltfModel* model,
       string* err,
-      const string& filename)
+      const string& filename) except +
 
 
 # Python wrapper classes:
diff --git a/sumo-api/sumo/threedee/gltf_model.pxd b/sumo-api/sumo/threedee/gltf_model.pxd
index a228110..b73a101 100644
--- a/sumo-api/sumo/threedee/gltf_model.pxd
+++ b/sumo-api/sumo/threedee/gltf_model.pxd
@@ -29,11 +29,11 @@ cdef extern from "sumo/threedee/GltfModel.h" namespace "sumo":
     vector[CImage] images
     vector[CMesh*] getPolymorphicPrimitiveMeshes() except +
     CGltfModel() except +
-    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh)
-    void addPrimitiveMesh(const CMesh& mesh)
+    void addTexturedPrimitiveMesh(const CTexturedMesh& mesh) except +
+    void addPrimitiveMesh(const CMesh& mesh) except +
     void updateMaterial(size_t meshIndex, CVector3& color, string& uri,
-                        string& baseDir)
-    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness)
+                        string& baseDir) except +
+    size_t addColoredMaterial(string& name, CVector3& color, double metallic, double roughness) except +
     void setURIs(const string& extension) except +
     void saveImages(const string& folder) except +
 
-- 
2.43.0


From b5095d22e0fe129cfce6c5b8765774416af59974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:40 +0000
Subject: [PATCH 39/64] fix: an image added to a glTF model gets an unused file
 name

Images are numbered. When a model was loaded that has an image "1.png", and
a textured mesh was added to it, both images were saved to the same file.
---
 sumo-api/sumo/threedee/GltfModel.cpp | 17 +++++++++++++++--
 sumo-api/sumo/threedee/GltfModel.h   |  3 +++
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index b6c8d13..53c4087 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -188,10 +188,23 @@ int GltfModel::pushData(int target, const vector<T>& values) {
   return addAccessor<T>(values, bufferViewIndex);
 }
 
+string GltfModel::newImageUri() const {
+  const auto isUsed = [this](const string& uri) {
+    return any_of(images.begin(), images.end(), [&uri](const auto& image) {
+      return image.uri == uri;
+    });
+  };
+  size_t i = images.size();
+  while (isUsed(to_string(i) + ".png")) {
+    i++;
+  }
+  return to_string(i) + ".png";
+}
+
 int GltfModel::addTexture(const cv::Mat3b& cvImage) {
   // Add image
   tinygltf::Image image;
-  image.uri = to_string(images.size()) + ".png"; // Matches saveImages
+  image.uri = newImageUri();
   image.width = cvImage.cols;
   image.height = cvImage.rows;
   image.component = 3;
@@ -614,7 +627,7 @@ size_t GltfModel::loadTexture(
   if (start != string::npos && end != string::npos) {
     image.name = uri.substr(start, end-start);
   }
-  image.uri = to_string(images.size()) + ".png"; // Matches saveImages
+  image.uri = newImageUri();
   this->images.push_back(image);
 
   // Add texture
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 9756763..93fabae 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -176,6 +176,9 @@ class GltfModel : public tinygltf::Model {
   template <class T>
   int addBufferView(size_t numBytes, int target, size_t byteOffset);
 
+  // Return a numbered image name that no other image of the model has.
+  std::string newImageUri() const;
+
   // Add an image and texture based on given a URI, returns texture id.
   // Textures have sequential ids starting at 0.
   int addTexture(const cv::Mat3b& cvImage);
-- 
2.43.0


From a59d51d8d9e5f3601f4e9b157aaa52415a56887b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:40 +0000
Subject: [PATCH 40/64] fix: saving a glTF model fails if an image cannot be
 written

OpenCV reports most failures as a return value, which was ignored.
---
 sumo-api/sumo/threedee/GltfModel.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 53c4087..b917583 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -527,7 +527,10 @@ void GltfModel::saveImages(const string& folder) const {
       throw invalid_argument("GltfModel::saveImages: found empty image URI");
     }
     try {
-      cv::imwrite(folder + "/" + image.uri, bgr);
+      if (!cv::imwrite(folder + "/" + image.uri, bgr)) {
+        throw runtime_error(
+            "GltfModel::saveImages: could not write " + image.uri);
+      }
     } catch (cv::Exception& e) {
       throw runtime_error(
           "GltfModel::saveImages: OpenCV could not write " + image.uri +
-- 
2.43.0


From 2825f00ce9e8045398bbf64aca8eba0d66d1979d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:40 +0000
Subject: [PATCH 41/64] fix: saving a glTF model fails if one of its files
 cannot be written

Errors when writing the buffers or the gltf file were ignored.
---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 44c585d..6a959fc 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -3992,6 +3992,9 @@ static void SerializeGltfBufferData(
   output.write(
       reinterpret_cast<const char*>(&data[0]), std::streamsize(data.size()));
   output.close();
+  if (!output) {
+    throw std::ios_base::failure("Could not write " + binFilename);
+  }
 }
 
 static void SerializeParameterMap(ParameterMap& param, json& o) {
@@ -4440,6 +4443,10 @@ static void WriteGltfFile(
     const std::string& content) {
   std::ofstream gltfFile(output.c_str());
   gltfFile << content << std::endl;
+  gltfFile.close();
+  if (!gltfFile) {
+    throw std::ios_base::failure("Could not write " + output);
+  }
 }
 
 bool TinyGLTF::WriteGltfSceneToFile(
-- 
2.43.0


From 7b07adf2d67a6582fd24b446cac9247a1a2a0e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:02 +0000
Subject: [PATCH 42/64] fix: a texture loaded into a model without samplers has
 a sampler

The texture referred to a sampler that the model did not have.
---
 sumo-api/sumo/threedee/GltfModel.cpp | 6 +++++-
 sumo-api/sumo/threedee/GltfModel.h   | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index b917583..7b06d37 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -360,6 +360,10 @@ void GltfModel::addTexturedPrimitiveMesh(const TexturedMesh& mesh) {
   this->materials.pop_back();
   this->materials.push_back(material);
 
+  addDefaultSampler();
+}
+
+void GltfModel::addDefaultSampler() {
   // Add default sampler
   //TODO: Read sampler from input glTF file and write back the same sampler.
   if (this->samplers.size() == 0) {
@@ -370,7 +374,6 @@ void GltfModel::addTexturedPrimitiveMesh(const TexturedMesh& mesh) {
     sampler.wrapT = TINYGLTF_TEXTURE_WRAP_REPEAT;
     this->samplers.push_back(sampler);
   }
-
 }
 
 size_t GltfModel::numPrimitiveMeshes() const {
@@ -638,6 +641,7 @@ size_t GltfModel::loadTexture(
   texture.source = this->images.size() - 1;
   texture.sampler = 0;  // Default sampler.
   this->textures.push_back(texture);
+  addDefaultSampler();
 
   // Return texture id
   return this->textures.size() - 1;
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 93fabae..f6c241e 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -183,6 +183,9 @@ class GltfModel : public tinygltf::Model {
   // Textures have sequential ids starting at 0.
   int addTexture(const cv::Mat3b& cvImage);
 
+  // Add the default sampler, if the model has no sampler yet.
+  void addDefaultSampler();
+
   // Add texture from file to the model
   // uri is file location relative to baseDir. Returns id of the
   // new texture.
-- 
2.43.0


From ed80e6cbd5ba9bdc4e7fb8b609c6c9e67f542798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:34 +0000
Subject: [PATCH 43/64] fix: a glTF model with several buffers is packed into
 one glb buffer

The views were moved into the first buffer, but the other buffers stayed in
the header, without data: such a glb file could not be loaded.
---
 sumo-api/sumo/threedee/glb_converter.pyx | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sumo-api/sumo/threedee/glb_converter.pyx b/sumo-api/sumo/threedee/glb_converter.pyx
index 401fbb5..7669e6e 100644
--- a/sumo-api/sumo/threedee/glb_converter.pyx
+++ b/sumo-api/sumo/threedee/glb_converter.pyx
@@ -219,6 +219,8 @@ def gltf2glb(input_glTF, output_glb=None):
     #TODO: In our model pool, they doesn't contain shader resource.
     #if 'shaders' in gltf_json:
 
+    # The body is one buffer (all views refer to it)
+    del gltf_json["buffers"][1:]
     gltf_json["buffers"][0]["byteLength"] = body_encoder.body_length
     lJSONStr = json.dumps(gltf_json, sort_keys=True, separators=(',', ':'))
     gltf_str = bytearray(lJSONStr.encode(encoding='UTF-8'))
-- 
2.43.0


From 6bb91bcbcfc7ad052d88a20deb97079c474241b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:33 +0000
Subject: [PATCH 44/64] fix: bounds of coordinates beyond the range of int in
 saved glTF files

They were limited to INT_MIN and INT_MAX.
---
 sumo-api/sumo/threedee/GltfModel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 7b06d37..fa6f2ab 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -100,7 +100,8 @@ void completeAccessor(
   accessor->componentType = ComponentType<float>();
   accessor->type = TINYGLTF_TYPE_VEC3;
   for (size_t c = 0; c < 3; c++) {
-    float minValue = INT_MAX, maxValue = INT_MIN;
+    float minValue = numeric_limits<float>::max();
+    float maxValue = numeric_limits<float>::lowest();
     for (size_t i = 0; i < accessor->count; i++) {
       minValue = min(minValue, values[i][c]);
       maxValue = max(maxValue, values[i][c]);
@@ -118,7 +119,8 @@ void completeAccessor(
   accessor->componentType = ComponentType<float>();
   accessor->type = TINYGLTF_TYPE_VEC2;
   for (size_t c = 0; c < 2; c++) {
-    float minValue = INT_MAX, maxValue = INT_MIN;
+    float minValue = numeric_limits<float>::max();
+    float maxValue = numeric_limits<float>::lowest();
     for (size_t i = 0; i < accessor->count; i++) {
       minValue = min(minValue, values[i][c]);
       maxValue = max(maxValue, values[i][c]);
-- 
2.43.0


From 0891bfa3da6b4fc0c6063d0ae87262774b4b353f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 45/64] fix: images of wrong type or layout raise instead of
 crashing

The conversions to OpenCV images are Cython functions: their Python exceptions
were ignored and a null pointer was used.
---
 sumo-api/sumo/opencv/wrap.pxd | 10 +++++-----
 sumo-api/sumo/opencv/wrap.pyx | 10 +++++-----
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/sumo-api/sumo/opencv/wrap.pxd b/sumo-api/sumo/opencv/wrap.pxd
index d87aa94..4a3c9c4 100644
--- a/sumo-api/sumo/opencv/wrap.pxd
+++ b/sumo-api/sumo/opencv/wrap.pxd
@@ -70,11 +70,11 @@ cdef extern from "<opencv2/core/core.hpp>" namespace "cv":
 
 # Convert from numpy to opencv
 # NOTE: these do not copy memory, but provide "views" onto the numpy data.
-cdef Mat* mat_from_array(np.ndarray array) except +
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except +
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except +
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except +
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except +
+cdef Mat* mat_from_array(np.ndarray array) except NULL
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL
 
 # Convert from opencv to numpy
 # NOTE: these *do* copy data, i.e., they assume OpenCV owns the memory buffer.
diff --git a/sumo-api/sumo/opencv/wrap.pyx b/sumo-api/sumo/opencv/wrap.pyx
index f3a735b..f2e79e5 100644
--- a/sumo-api/sumo/opencv/wrap.pyx
+++ b/sumo-api/sumo/opencv/wrap.pyx
@@ -12,7 +12,7 @@ from libc.string cimport memcpy
 from libc.stdint cimport uint16_t
 
 
-cdef Mat* mat_from_array(np.ndarray array):
+cdef Mat* mat_from_array(np.ndarray array) except NULL:
   """ Convert numpy array to generic OpenCV Mat.
       Keyword arguments:
           array -- numpy array, 3-channel uint8 or 1-channel uint8 or float32
@@ -40,7 +40,7 @@ cdef Mat* mat_from_array(np.ndarray array):
       raise ValueError('mat_from_array failed')
   return mat
 
-cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
+cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1b* mat = new Mat1b(
       array.shape[0], array.shape[1], <unsigned char*>array.data, array.strides[0])
@@ -48,12 +48,12 @@ cdef Mat1b* mat1b_from_array(np.ndarray[np.uint8_t, ndim=2, mode='c'] array):
       raise ValueError('mat1b_from_array failed')
   return mat
 
-cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array):
+cdef Mat1w* mat1w_from_array(np.ndarray[np.uint16_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned short*>array.data != <unsigned short*>0
   return new Mat1w(
       array.shape[0], array.shape[1], <unsigned short*>array.data, array.strides[0])
 
-cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
+cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) except NULL:
   assert <unsigned char*>array.data != <unsigned char*>0
   cdef Mat1f* mat = new Mat1f(
       array.shape[0], array.shape[1], <np.float32_t*>array.data, array.strides[0])
@@ -61,7 +61,7 @@ cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array):
       raise ValueError('mat1f_from_array failed')
   return mat
 
-cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array):
+cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL:
   assert <Vec3b*>array.data != <Vec3b*>0
   cdef Mat3b* mat = new Mat3b(
       array.shape[0], array.shape[1], <Vec3b*>array.data, array.strides[0])
-- 
2.43.0


From 73f38e358db17add40acc66a67aae3065279df71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 46/64] fix: C++ errors of createPointCloud are raised as
 Python exceptions

An image wider than the six faces of a cube map ended the process.
---
 sumo-api/sumo/images/rgbdci_360.pxd | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sumo-api/sumo/images/rgbdci_360.pxd b/sumo-api/sumo/images/rgbdci_360.pxd
index 41c53dc..8812ab6 100644
--- a/sumo-api/sumo/images/rgbdci_360.pxd
+++ b/sumo-api/sumo/images/rgbdci_360.pxd
@@ -16,4 +16,4 @@ from sumo.opencv.wrap cimport Mat3b, Mat1f
 cdef extern from "sumo/images/Rgbdci360.h" namespace "sumo":
   cdef CPointCloud* createPointCloud(const Mat3b& rgb,
                                      const Mat1f& range,
-                                     bool all_points);
+                                     bool all_points) except +
-- 
2.43.0


From 7f95c8cfe17210ef8cc3fe48892ce33aee6cd6a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 47/64] fix: an RGB-D file that lost its last pages is not
 loaded without them

---
 sumo-api/sumo/images/RgbdTiff.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 8ecd17d..dc1b00b 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -193,7 +193,12 @@ void readRgbdTiff(
   // Metadata is always written to first page
   readMetadata(tiff, meta);
   // Keep reading images until there are none left
-  while(readImage(tiff, pageMap) && TIFFReadDirectory(tiff));
+  while (readImage(tiff, pageMap) && !TIFFLastDirectory(tiff)) {
+    if (!TIFFReadDirectory(tiff)) {
+      TIFFClose(tiff);
+      throw runtime_error("readRgbdTiff: error reading page in " + path);
+    }
+  }
   TIFFClose(tiff);
 }
 
-- 
2.43.0


From 1b9ed701c1b60e3cc36d9366bfcc3bafb3f31ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:06 +0000
Subject: [PATCH 48/64] fix: saving an RGB-D file fails if it cannot be written

---
 sumo-api/sumo/images/RgbdTiff.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index dc1b00b..856b22f 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -228,10 +228,14 @@ void writeImage(
   // TODO: is stride always correct for every Mat image?
   size_t stride = img.channels() * img.cols * (bitsPerSample / 8);
   for (int y = 0; y < img.rows; ++y) {
-    TIFFWriteScanline(tiff, (void*)(img.data + y * stride), y, 0);
+    if (TIFFWriteScanline(tiff, (void*)(img.data + y * stride), y, 0) == -1) {
+      throw runtime_error("writeImage: error writing scanline");
+    }
   }
 
-  TIFFWriteDirectory(tiff);
+  if (!TIFFWriteDirectory(tiff)) {
+    throw runtime_error("writeImage: error writing page");
+  }
 }
 
 // Write a multi-image TIFF to the path specified
@@ -266,8 +270,14 @@ void writeRgbdTiff(
       continue;
     }
     const cv::Mat* image = pageMap.at(pageType);
-    writeImage(
-        tiff, *image, pageType, pageIndex, static_cast<uint16>(pageMap.size()));
+    try {
+      writeImage(
+          tiff, *image, pageType, pageIndex,
+          static_cast<uint16>(pageMap.size()));
+    } catch (const runtime_error&) {
+      TIFFClose(tiff);
+      throw;
+    }
     pageIndex++;
   }
   TIFFClose(tiff);
-- 
2.43.0


From 796c8c9d0e5363e66c0deca563e05dbe6ff0a2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:24 +0000
Subject: [PATCH 49/64] fix: RGB-D file pages of an unexpected pixel format
 raise

A colour page with 16 bits per channel was read beyond the image's memory, and
a category page with three channels ended the process.
---
 sumo-api/sumo/images/RgbdTiff.cpp  | 4 ++++
 sumo-api/sumo/images/rgbd_tiff.pyx | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 856b22f..1e43058 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -168,6 +168,10 @@ bool readImage(TIFF* tiff, TiffPageMap* const pageMap) {
 
   // TODO: is stride always channels*width for new Mat image?
   size_t stride = samplesPerPixel * width * (bitsPerSample / 8);
+  if (static_cast<size_t>(TIFFScanlineSize(tiff)) != img->step[0] ||
+      stride != img->step[0]) {
+    throw runtime_error("readImage: unexpected pixel format");
+  }
   for (unsigned int y = 0; y < height; ++y) {
     status = TIFFReadScanline(tiff, (void*)(img->data + y * stride), y, 0);
     if (status == -1) {
diff --git a/sumo-api/sumo/images/rgbd_tiff.pyx b/sumo-api/sumo/images/rgbd_tiff.pyx
index d500cc6..eb49dc0 100644
--- a/sumo-api/sumo/images/rgbd_tiff.pyx
+++ b/sumo-api/sumo/images/rgbd_tiff.pyx
@@ -98,6 +98,8 @@ def load(unicode path):
       else:
         page_map[MultiImagePageType.Depth] = array_from_mat1w(<Mat1w>it.second[0])
     elif it.first == TiffPageType.Category or it.first == TiffPageType.Instance:
+      if it.second[0].channels() != 1:
+        raise ValueError("rgbd_tiff.load Category or instance does not have 1 channel")
       page_map[kTiffToMultiImagePageType[it.first]] = array_from_mat1w(<Mat1w>it.second[0])
     del it.second
 
-- 
2.43.0


From 3295d1652d594307c9aeb2d97f68fa3c7a506d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:30 +0000
Subject: [PATCH 50/64] fix: an RGB-D file that lost links to pages or names of
 pages is not loaded

A link that was cut off ended the file, and an instance page without its name
was taken as the depth page.
---
 sumo-api/sumo/images/RgbdTiff.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sumo-api/sumo/images/RgbdTiff.cpp b/sumo-api/sumo/images/RgbdTiff.cpp
index 1e43058..f290122 100644
--- a/sumo-api/sumo/images/RgbdTiff.cpp
+++ b/sumo-api/sumo/images/RgbdTiff.cpp
@@ -53,6 +53,11 @@ TiffPageType readTiffPageType(TIFF* tiff, uint16 channels) {
     // Tag not found. This only happens for previous tiff formats with only
     // RGB & Depth images.  In this case, we default to setting the page type
     // by the number of channels for backwards compatibility
+    uint16 page, totalPages;
+    if (TIFFGetField(tiff, TIFFTAG_PAGENUMBER, &page, &totalPages) == 1 &&
+        totalPages > 2) {
+      throw runtime_error("readTiffPageType: page name not found");
+    }
     pageType = channels == 3 ? TiffPageType::RGB : TiffPageType::InverseDepth;
   }
   else {
@@ -196,14 +201,21 @@ void readRgbdTiff(
   }
   // Metadata is always written to first page
   readMetadata(tiff, meta);
+  uint16 page, totalPages, pagesRead = 1;
+  const bool counted =
+      TIFFGetField(tiff, TIFFTAG_PAGENUMBER, &page, &totalPages) == 1;
   // Keep reading images until there are none left
   while (readImage(tiff, pageMap) && !TIFFLastDirectory(tiff)) {
     if (!TIFFReadDirectory(tiff)) {
       TIFFClose(tiff);
       throw runtime_error("readRgbdTiff: error reading page in " + path);
     }
+    pagesRead++;
   }
   TIFFClose(tiff);
+  if (counted && pagesRead < totalPages) {
+    throw runtime_error("readRgbdTiff: pages missing in " + path);
+  }
 }
 
 // Writes a single image to the given TIFF object
-- 
2.43.0


From 956b62f3d9fbfca12e19fc7f55bd9a754096c46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:25 +0000
Subject: [PATCH 51/64] fix: comparing a mesh object with one without model
 raised or depended on the order

---
 sumo-api/sumo/semantic/project_object.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sumo-api/sumo/semantic/project_object.py b/sumo-api/sumo/semantic/project_object.py
index 16ab2bf..9322e15 100644
--- a/sumo-api/sumo/semantic/project_object.py
+++ b/sumo-api/sumo/semantic/project_object.py
@@ -168,11 +168,14 @@ class ProjectObject(object):
         """ Check that two instances are almost equal.
             Note: just checks object's size.
         """
+        if (self.meshes is None) != (other.meshes is None):
+            return False
         if (self.meshes is not None) and (not self.meshes.same_size(other.meshes)):
             return False
 
         return (
-            self.id == other.id
+            self.project_type == other.project_type
+            and self.id == other.id
             and self.pose.almost_equal(other.pose)
             and self.category == other.category
             and self.symmetry == other.symmetry
-- 
2.43.0


From 82876f8976d57ac3208c548d6c167fd83e80a53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:25 +0000
Subject: [PATCH 52/64] fix: update, setdefault and the constructor of
 ProjectObjectDict stored values that are not objects

---
 sumo-api/sumo/semantic/project_object_dict.py | 28 +++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/sumo-api/sumo/semantic/project_object_dict.py b/sumo-api/sumo/semantic/project_object_dict.py
index 093217d..eea61ce 100644
--- a/sumo-api/sumo/semantic/project_object_dict.py
+++ b/sumo-api/sumo/semantic/project_object_dict.py
@@ -26,6 +26,11 @@ class ProjectObjectDict(dict):
     to and from xml.
     """
 
+    def __init__(self, *args, **kwargs):
+        """Constructor.  Takes the same arguments as dict."""
+        dict.__init__(self)
+        self.update(*args, **kwargs)
+
     def __getitem__(self, key):
         """Lookup <key> in the dictionary and return the associated value."""
         return dict.__getitem__(self, key)
@@ -36,6 +41,29 @@ class ProjectObjectDict(dict):
         assert isinstance(value, ProjectObject)
         dict.__setitem__(self, key, value)
 
+    # The methods of dict that store values do not use __setitem__, so they are
+    # redirected to it here.
+
+    def setdefault(self, key, default=None):
+        """Insert <key>/<default> pair if <key> is not in the dictionary, and
+            return the value associated with <key>."""
+        if key not in self:
+            self[key] = default
+        return self[key]
+
+    def update(self, *args, **kwargs):
+        """Insert all given key/value pairs (see dict.update), none of them if
+            any value is not of type ProjectObject."""
+        pairs = dict(*args, **kwargs)
+        assert all(isinstance(value, ProjectObject) for value in pairs.values())
+        for key, value in pairs.items():
+            self[key] = value
+
+    def __ior__(self, other):
+        """Insert all key/value pairs of <other>."""
+        self.update(other)
+        return self
+
     def almost_equal(self, other):
         """Check that two dicts are almost equal."""
         if len(self) != len(other):
-- 
2.43.0


From dfd705b8293c3a6d592260d7137118cc723d2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:25 +0000
Subject: [PATCH 53/64] fix: all poses and rotations made without arguments
 shared their arrays

---
 sumo-api/sumo/geometry/pose3.pyx | 7 +++----
 sumo-api/sumo/geometry/rot3.pyx  | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 4ec257a..787fcf2 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -22,14 +22,13 @@ from sumo.geometry.rot3 import Rot3
 class Pose3:
     # TODO: (dellaert) T21391110 cdef np.ndarray R_, t_
 
-    def __init__(self, R=np.identity(3, dtype=float),
-                       np.ndarray t=Vector3(0, 0, 0)):
-        """Create a Pose3 instance."""
+    def __init__(self, R=None, np.ndarray t=None):
+        """Create a Pose3 instance (default is the identity)."""
         if isinstance(R, Rot3):
             self.R = R
         else:
             self.R = Rot3(R)
-        self.t = t
+        self.t = t if t is not None else Vector3(0, 0, 0)
 
     def __str__(self):
         return "Pose3: t={}; R=\n{}".format(str(self.t), str(self.R))
diff --git a/sumo-api/sumo/geometry/rot3.pyx b/sumo-api/sumo/geometry/rot3.pyx
index be03838..b4c55c9 100644
--- a/sumo-api/sumo/geometry/rot3.pyx
+++ b/sumo-api/sumo/geometry/rot3.pyx
@@ -27,9 +27,9 @@ MAYA_R_CAMERA = np.transpose(
 
 
 class Rot3:
-    def __init__(self, np.ndarray R=np.identity(3, dtype=float)):
-        """Create a Rot3 instance."""
-        self.R = R
+    def __init__(self, np.ndarray R=None):
+        """Create a Rot3 instance (default is the identity)."""
+        self.R = R if R is not None else np.identity(3, dtype=float)
 
     def matrix(self):
         """Return 3*3 matrix."""
-- 
2.43.0


From 29914c9559afdca318e75c4f3cb734b23d9f9dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:46 +0000
Subject: [PATCH 54/64] fix: arrays of the wrong shape and colours out of range
 ended the process or were replaced by zeros

---
 sumo-api/sumo/base/vector.pxd          | 18 +++++++++---------
 sumo-api/sumo/base/vector.pyx          | 18 +++++++++---------
 sumo-api/sumo/threedee/mesh.pxd        |  2 +-
 sumo-api/sumo/threedee/mesh.pyx        |  2 +-
 sumo-api/sumo/threedee/point_cloud.pyx |  4 ++--
 5 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/sumo-api/sumo/base/vector.pxd b/sumo-api/sumo/base/vector.pxd
index 7d8d49d..5bc233e 100644
--- a/sumo-api/sumo/base/vector.pxd
+++ b/sumo-api/sumo/base/vector.pxd
@@ -69,34 +69,34 @@ cdef extern from "sumo/base/Vector.h" namespace "sumo":
 # declare conversions to and from numpy (defined in pyx):
 
 cdef array_from_matrix3(CMatrix3 mat)
-cdef CMatrix3 matrix3_of_array(np.ndarray input_a)
+cdef CMatrix3 matrix3_of_array(np.ndarray input_a) except *
 
 # Vector2
 
-cdef CVector2 vector2(np.ndarray[np.float32_t, ndim=2])
+cdef CVector2 vector2(np.ndarray[np.float32_t, ndim=2]) except *
 cdef np.ndarray[np.float32_t, ndim=2] array2(CVector2)
 
 # Vector2f
 
-cdef CVector2f vector2f(np.ndarray[np.float32_t, ndim=1] a)
+cdef CVector2f vector2f(np.ndarray[np.float32_t, ndim=1] a) except *
 cdef np.ndarray[np.float32_t, ndim=1] array2f(CVector2f v)
-cdef vector[CVector2f] vector2fs_of_array(np.ndarray[np.float32_t, ndim=2] points)
+cdef vector[CVector2f] vector2fs_of_array(np.ndarray[np.float32_t, ndim=2] points) except *
 cdef np.ndarray[np.float32_t, ndim=2] array_of_vector2fs(vector[CVector2f] points)
 
 # Vector3
 
-cdef CVector3 vector3(np.ndarray)
+cdef CVector3 vector3(np.ndarray) except *
 cdef np.ndarray array3(CVector3)
-cdef vector[CVector3] vector3s_of_array(np.ndarray)
+cdef vector[CVector3] vector3s_of_array(np.ndarray) except *
 cdef np.ndarray array_of_vector3s(vector[CVector3])
 
 # Vector3f
 
-cdef CVector3f vector3f(np.ndarray[np.float32_t, ndim=1] a)
+cdef CVector3f vector3f(np.ndarray[np.float32_t, ndim=1] a) except *
 cdef np.ndarray[np.float32_t, ndim=1] array3f(CVector3f v)
-cdef vector[CVector3f] vector3fs_of_array(np.ndarray[np.float32_t, ndim=2] points)
+cdef vector[CVector3f] vector3fs_of_array(np.ndarray[np.float32_t, ndim=2] points) except *
 cdef np.ndarray[np.float32_t, ndim=2] array_of_vector3fs(vector[CVector3f] points)
 
 # Vector4
-cdef CVector4 vector4(np.ndarray)
+cdef CVector4 vector4(np.ndarray) except *
 cdef np.ndarray array4(CVector4)
diff --git a/sumo-api/sumo/base/vector.pyx b/sumo-api/sumo/base/vector.pyx
index e5b7206..bce20ae 100644
--- a/sumo-api/sumo/base/vector.pyx
+++ b/sumo-api/sumo/base/vector.pyx
@@ -43,7 +43,7 @@ cpdef np.ndarray Matrix3(x, y, z):
 
 # Vector2 conversions
 
-cdef CVector2 vector2(np.ndarray a):
+cdef CVector2 vector2(np.ndarray a) except *:
   return CVector2(a[0],a[1])
 
 cdef np.ndarray array2(CVector2 v):
@@ -51,13 +51,13 @@ cdef np.ndarray array2(CVector2 v):
 
 # Vector2f conversions
 
-cdef CVector2f vector2f(np.ndarray a):
+cdef CVector2f vector2f(np.ndarray a) except *:
   return CVector2f(a[0],a[1])
 
 cdef np.ndarray array2f(CVector2f v):
   return np.array([v.x(), v.y()], dtype=np.float32)
 
-cdef vector[CVector2f] vector2fs_of_array(np.ndarray points):
+cdef vector[CVector2f] vector2fs_of_array(np.ndarray points) except *:
   assert points.shape[0] == 2
   cdef vector[CVector2f] cpp_points
   cdef CVector2f cpp_point
@@ -75,13 +75,13 @@ cdef np.ndarray array_of_vector2fs(vector[CVector2f] cpp_points):
 
 # Vector3 conversions
 
-cdef CVector3 vector3(np.ndarray a):
+cdef CVector3 vector3(np.ndarray a) except *:
   return CVector3(a[0],a[1],a[2])
 
 cdef np.ndarray array3(CVector3 v):
   return np.array([v.x(), v.y(), v.z()], dtype=np.float64)
 
-cdef vector[CVector3] vector3s_of_array(np.ndarray points):
+cdef vector[CVector3] vector3s_of_array(np.ndarray points) except *:
   assert points.shape[0] == 3
   cdef vector[CVector3] cpp_points
   cdef CVector3 cpp_point
@@ -99,13 +99,13 @@ cdef np.ndarray array_of_vector3s(vector[CVector3] cpp_points):
 
 # Vector3f conversions
 
-cdef CVector3f vector3f(np.ndarray a):
+cdef CVector3f vector3f(np.ndarray a) except *:
   return CVector3f(a[0],a[1],a[2])
 
 cdef np.ndarray array3f(CVector3f v):
   return np.array([v.x(), v.y(), v.z()], dtype=np.float32)
 
-cdef vector[CVector3f] vector3fs_of_array(np.ndarray points):
+cdef vector[CVector3f] vector3fs_of_array(np.ndarray points) except *:
   assert points.shape[0] == 3
   cdef vector[CVector3f] cpp_points
   cdef CVector3f cpp_point
@@ -123,7 +123,7 @@ cdef np.ndarray array_of_vector3fs(vector[CVector3f] cpp_points):
 
 # Vector4 conversions
 
-cdef CVector4 vector4(np.ndarray a):
+cdef CVector4 vector4(np.ndarray a) except *:
   return CVector4(a[0],a[1],a[2],a[3])
 
 cdef np.ndarray array4(CVector4 v):
@@ -162,7 +162,7 @@ cdef array_from_matrix3(CMatrix3 mat):
     memcpy(a.data, mat.data(), 9 * sizeof(np.double_t))
     return a
 
-cdef CMatrix3 matrix3_of_array(np.ndarray a):
+cdef CMatrix3 matrix3_of_array(np.ndarray a) except *:
     cdef CMatrix3 mat
     cdef np.ndarray[np.double_t, ndim=2] f = np.asfortranarray(a)
     memcpy(mat.data(), f.data, 9 * sizeof(np.double_t))
diff --git a/sumo-api/sumo/threedee/mesh.pxd b/sumo-api/sumo/threedee/mesh.pxd
index d21ef81..7005834 100644
--- a/sumo-api/sumo/threedee/mesh.pxd
+++ b/sumo-api/sumo/threedee/mesh.pxd
@@ -45,7 +45,7 @@ cdef class Mesh:
   cdef CMesh* _mesh
 
 # Utility functions. TODO: move to base?
-cdef vector[unsigned int] uint32s_of_array(np.ndarray indices)
+cdef vector[unsigned int] uint32s_of_array(np.ndarray indices) except *
 cdef np.ndarray array_of_uint32s(vector[unsigned int] indices)
 
 cdef Mesh_usurp(CMesh* mesh)
diff --git a/sumo-api/sumo/threedee/mesh.pyx b/sumo-api/sumo/threedee/mesh.pyx
index 420e680..b345557 100644
--- a/sumo-api/sumo/threedee/mesh.pyx
+++ b/sumo-api/sumo/threedee/mesh.pyx
@@ -14,7 +14,7 @@ from sumo.opencv.wrap cimport (
     Mat3b, Mat1f, array_from_mat3b, mat3b_from_array, array_from_mat1f
 )
 
-cdef vector[unsigned int] uint32s_of_array(np.ndarray indices):
+cdef vector[unsigned int] uint32s_of_array(np.ndarray indices) except *:
   cdef vector[unsigned int] cpp_indices
   for i in range(indices.shape[0]):
     cpp_indices.push_back(<unsigned int>indices[i])
diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 490074f..bd89c9c 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -23,7 +23,7 @@ cdef np.ndarray numpy_of_color(CColor color):
   return np.array([color.r, color.g, color.b], dtype=np.uint8)
 
 # Convert single color from Python to C++
-cdef CColor color_of_numpy(np.ndarray color):
+cdef CColor color_of_numpy(np.ndarray color) except *:
   cdef CColor c
   c.r = color[0]
   c.g = color[1]
@@ -39,7 +39,7 @@ cdef np.ndarray array_of_colors(vector[CColor] colors):
   return result
 
 # Convert colors from Python to C++
-cdef vector[CColor] colors_of_array(np.ndarray colors):
+cdef vector[CColor] colors_of_array(np.ndarray colors) except *:
   cdef vector[CColor] cpp_colors
   cdef CColor cpp_color
   for i in range(colors.shape[1]):
-- 
2.43.0


From 5a0e7a382fa2116206321b58c36ea4e854ec7702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:46 +0000
Subject: [PATCH 55/64] fix: textures without three channels and clouds with
 fewer colours than points were read beyond their end

---
 sumo-api/sumo/opencv/wrap.pyx                | 1 +
 sumo-api/sumo/threedee/point_cloud_ply_c.cpp | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/sumo-api/sumo/opencv/wrap.pyx b/sumo-api/sumo/opencv/wrap.pyx
index f2e79e5..50555d8 100644
--- a/sumo-api/sumo/opencv/wrap.pyx
+++ b/sumo-api/sumo/opencv/wrap.pyx
@@ -62,6 +62,7 @@ cdef Mat1f* mat1f_from_array(np.ndarray[np.float32_t, ndim=2, mode='c'] array) e
   return mat
 
 cdef Mat3b* mat3b_from_array(np.ndarray[np.uint8_t, ndim=3, mode='c'] array) except NULL:
+  assert array.shape[2] == 3, 'mat3b_from_array needs 3 channels.'
   assert <Vec3b*>array.data != <Vec3b*>0
   cdef Mat3b* mat = new Mat3b(
       array.shape[0], array.shape[1], <Vec3b*>array.data, array.strides[0])
diff --git a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
index 46d2e71..afe4f63 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
+++ b/sumo-api/sumo/threedee/point_cloud_ply_c.cpp
@@ -93,6 +93,11 @@ void writePointsAndColors(
     vector<float>& vertex_points,
     vector<unsigned char>& vertex_colors,
     const string& filename) {
+  if (vertex_colors.size() != vertex_points.size()) {
+    throw invalid_argument(
+        "writePointsAndColors: numbers of points and colors differ");
+  }
+
   // Tinyply does not perform any file i/o internally
   filebuf fb;
   fb.open(filename, ios::out | ios::binary);
-- 
2.43.0


From ecb33f1c480dbd88c4121f74856f6bcace8b06c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:46 +0000
Subject: [PATCH 56/64] fix: None passed for an array, mesh, cloud or model
 ended the process

---
 sumo-api/sumo/geometry/inverse_depth.pyx   | 20 ++++++++++----------
 sumo-api/sumo/geometry/pose3.pyx           |  4 ++--
 sumo-api/sumo/geometry/quaternion.pyx      |  2 +-
 sumo-api/sumo/threedee/gltf.pyx            |  2 +-
 sumo-api/sumo/threedee/gltf_model.pyx      | 10 +++++-----
 sumo-api/sumo/threedee/mesh.pyx            | 16 ++++++++--------
 sumo-api/sumo/threedee/point_cloud.pyx     |  2 +-
 sumo-api/sumo/threedee/point_cloud_ply.pyx |  4 ++--
 sumo-api/sumo/threedee/textured_mesh.pyx   | 22 +++++++++++-----------
 9 files changed, 41 insertions(+), 41 deletions(-)

diff --git a/sumo-api/sumo/geometry/inverse_depth.pyx b/sumo-api/sumo/geometry/inverse_depth.pyx
index fa7654d..3c10da4 100644
--- a/sumo-api/sumo/geometry/inverse_depth.pyx
+++ b/sumo-api/sumo/geometry/inverse_depth.pyx
@@ -33,7 +33,7 @@ from numpy.math cimport INFINITY
 
 # Converting single inverse depth value to float depth, 8 and 16 bit versions
 
-cpdef Float32 depth_of_uint8_inverse_depth(Uint8 inverse_depth, near=DEFAULT_NEAR):
+cpdef Float32 depth_of_uint8_inverse_depth(Uint8 inverse_depth, near=DEFAULT_NEAR) except? -1:
     """Convert 8-bit inverse depth to float32 depth
        Kept for backwards compatibility
     """
@@ -43,7 +43,7 @@ cpdef Float32 depth_of_uint8_inverse_depth(Uint8 inverse_depth, near=DEFAULT_NEA
         return near * 255. / <Float32>inverse_depth
 
 cpdef Float32 depth_of_inverse_depth(Uint16 inverse_depth,
-        Float32 near=DEFAULT_NEAR):
+        Float32 near=DEFAULT_NEAR) except? -1:
     """Calculate 32-bit float depth from int 16-bit int inverse depth.
        0 becomes infinity.
     """
@@ -54,7 +54,7 @@ cpdef Float32 depth_of_inverse_depth(Uint16 inverse_depth,
 
 # Converting single float depth value to inverse depth, 8 and 16 bit versions
 
-cpdef Uint8 uint8_inverse_depth_of_depth(Float32 depth, Float32 near=DEFAULT_NEAR):
+cpdef Uint8 uint8_inverse_depth_of_depth(Float32 depth, Float32 near=DEFAULT_NEAR) except? 0:
     """Calculate 8-bit int inverse depth from 32-bit float depth.
        Does not check for 0!
     """
@@ -66,7 +66,7 @@ cpdef Uint8 uint8_inverse_depth_of_depth(Float32 depth, Float32 near=DEFAULT_NEA
     else:
         return <Uint8>(0.5 + near * 255 / depth)
 
-cpdef Uint16 inverse_depth_of_depth(Float32 depth, Float32 near=DEFAULT_NEAR):
+cpdef Uint16 inverse_depth_of_depth(Float32 depth, Float32 near=DEFAULT_NEAR) except? 0:
     """Calculate 16-bit int inverse depth from 32-bit float depth.
        Does not check for 0!
     """
@@ -80,7 +80,7 @@ cpdef Uint16 inverse_depth_of_depth(Float32 depth, Float32 near=DEFAULT_NEAR):
 
 # whole image conversions
 
-def uint8_inverse_depth_map_of_depth_image(Depth32 depth_image,
+def uint8_inverse_depth_map_of_depth_image(Depth32 depth_image not None,
         Float32 near=DEFAULT_NEAR):
     """ Calculate 8-bit int inverse depth map from 32-bit float depth image.
         Keyword arguments:
@@ -98,7 +98,7 @@ def uint8_inverse_depth_map_of_depth_image(Depth32 depth_image,
                 depth_image[v,u], near)
     return inverse_depth_map
 
-def inverse_depth_map_of_depth_image(Depth32 depth_image,
+def inverse_depth_map_of_depth_image(Depth32 depth_image not None,
         Float32 near=DEFAULT_NEAR):
     """ Calculate 16-bit int inverse depth map from 32-bit float depth image.
         Keyword arguments:
@@ -116,7 +116,7 @@ def inverse_depth_map_of_depth_image(Depth32 depth_image,
                 depth_image[v,u], near)
     return inverse_depth_map
 
-def depth_image_of_inverse_depth_map(InvDepth16 inverse_depth_map,
+def depth_image_of_inverse_depth_map(InvDepth16 inverse_depth_map not None,
         Float32 near=DEFAULT_NEAR):
     """ Calculate 32-bit float depth image from int 16-bit uint inverse depth map
         Keyword arguments:
@@ -134,7 +134,7 @@ def depth_image_of_inverse_depth_map(InvDepth16 inverse_depth_map,
                 inverse_depth_map[v,u], near)
     return depth_image
 
-def depth_image_of_uint8_inverse_depth_map(InvDepth8 inverse_depth_map,
+def depth_image_of_uint8_inverse_depth_map(InvDepth8 inverse_depth_map not None,
         Float32 near=DEFAULT_NEAR):
     """ Calculate 32-bit float depth image from int 8-bit uint inverse depth map
         Keyword arguments:
@@ -154,14 +154,14 @@ def depth_image_of_uint8_inverse_depth_map(InvDepth8 inverse_depth_map,
 
 # Single helper function for backwards compatibility
 
-cpdef Uint16 inverse_depth_from_uint8(Uint8 inverse_depth, near=DEFAULT_NEAR):
+cpdef Uint16 inverse_depth_from_uint8(Uint8 inverse_depth, near=DEFAULT_NEAR) except? 0:
     """Convert 8-bit inverse depth to to current default inverse depth
        Used for backwards compatibility
     """
     return inverse_depth_of_depth(
         depth_of_uint8_inverse_depth(inverse_depth, near))
 
-def uint16_of_uint8_inverse_depth_map(InvDepth8 inverse_depth_map, near=DEFAULT_NEAR):
+def uint16_of_uint8_inverse_depth_map(InvDepth8 inverse_depth_map not None, near=DEFAULT_NEAR):
     """Converts inverse depth image from 8-bit representation to 16-bit
        inverse_depth_map: 8-bit inverse depth image
        near: the near plane to be used for the inverse depth encoding in the
diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 787fcf2..5f62f14 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -50,7 +50,7 @@ class Pose3:
         """Transform point from coordinate frame."""
         return self.R * p + self.t
 
-    def transform_all_from(self, np.ndarray p):
+    def transform_all_from(self, np.ndarray p not None):
         """Version of transform_to that supports 2-D arrays."""
         assert p.shape[0] == 3
         return np.transpose(np.transpose(self.R * p) + self.t)
@@ -71,7 +71,7 @@ class Pose3:
         """Transform point to coordinate frame."""
         return self.R.unrotate(q - self.t)
 
-    def transform_all_to(self, np.ndarray q):
+    def transform_all_to(self, np.ndarray q not None):
         """Version of transform_to that supports 2-D arrays."""
         assert q.shape[0] == 3
         return self.R.unrotate(np.transpose(np.transpose(q) - self.t))
diff --git a/sumo-api/sumo/geometry/quaternion.pyx b/sumo-api/sumo/geometry/quaternion.pyx
index c36c524..9c0df44 100644
--- a/sumo-api/sumo/geometry/quaternion.pyx
+++ b/sumo-api/sumo/geometry/quaternion.pyx
@@ -29,7 +29,7 @@ cdef class Quaternion:
 
   cdef Quaterniond* c_ptr_
 
-  def __cinit__(self, np.ndarray val=np.array([1., 0., 0., 0.])):
+  def __cinit__(self, np.ndarray val not None=np.array([1., 0., 0., 0.])):
     """Constructor, <val> is [1, 0, 0, 0] (w, x, y, z) by default."""
     if val.shape[0]==3:
       assert val.shape[1] == 3, "Quaternion takes 4-vector or 3*3 matrix"
diff --git a/sumo-api/sumo/threedee/gltf.pyx b/sumo-api/sumo/threedee/gltf.pyx
index b13faee..6ff869f 100644
--- a/sumo-api/sumo/threedee/gltf.pyx
+++ b/sumo-api/sumo/threedee/gltf.pyx
@@ -76,7 +76,7 @@ cdef class TinyGLTF:
           raise IOError("Failed to parse glb file {}.  Error = {}".format(path, err))
       return model
 
-  def write_gltf_scene_to_file(self, GltfModel model, unicode path):
+  def write_gltf_scene_to_file(self, GltfModel model not None, unicode path):
       """Write given GltfModel instance to gltf file at given <path>."""
       cdef CGltfModel* c_model = model.c_ptr
       py_byte_string = path.encode('UTF-8')
diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index 498f021..ec374f6 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -86,7 +86,7 @@ cdef class GltfModel:
         return TinyGLTF().load_binary_from_file(path)
 
     @classmethod
-    def from_textured_mesh(cls, TexturedMesh mesh):
+    def from_textured_mesh(cls, TexturedMesh mesh not None):
         """ Create from single TexturedMesh.
             Keyword arguments:
                 mesh (TexturedMesh) - source mesh
@@ -102,13 +102,13 @@ cdef class GltfModel:
         mesh = TexturedMesh.example()
         return cls.from_textured_mesh(mesh)
 
-    def add_colored_material(self, unicode name, np.ndarray color, double metallic, double roughness):
+    def add_colored_material(self, unicode name, np.ndarray color not None, double metallic, double roughness):
         """ Add a colored material to the model
         """
         return self.c_ptr.addColoredMaterial(name.encode('UTF-8'), vector3(color), metallic, roughness)
 
 
-    def update_materials(self, unicode base_dir, list materials):
+    def update_materials(self, unicode base_dir, list materials not None):
         """ Update materials in Primitive meshes
             materials is a map describing a the new colored material, or
             None if the Primitive mesh material should not be changed
@@ -172,7 +172,7 @@ cdef class GltfModel:
                 return False
         return True
 
-    def add_textured_primitive_mesh(self, TexturedMesh mesh):
+    def add_textured_primitive_mesh(self, TexturedMesh mesh not None):
         """ Add TexturedMesh to object instance.
             Keyword arguments:
                 mesh (TexturedMesh) - source mesh
@@ -180,7 +180,7 @@ cdef class GltfModel:
         """
         self.c_ptr.addTexturedPrimitiveMesh(mesh._textured_mesh[0])
 
-    def add_primitive_mesh(self, Mesh mesh):
+    def add_primitive_mesh(self, Mesh mesh not None):
         """ Add Mesh to object instance.
             Keyword arguments:
                 mesh (Mesh) - source mesh
diff --git a/sumo-api/sumo/threedee/mesh.pyx b/sumo-api/sumo/threedee/mesh.pyx
index b345557..59d8cb2 100644
--- a/sumo-api/sumo/threedee/mesh.pyx
+++ b/sumo-api/sumo/threedee/mesh.pyx
@@ -30,9 +30,9 @@ cdef np.ndarray array_of_uint32s(vector[unsigned int] indices):
 # This is the python wrapper class which dispatches to the C++ class
 cdef class Mesh:
   """A simple mesh class."""
-  def __init__(self, np.ndarray[np.uint32_t, ndim=1] indices = np.ndarray(shape=(0), dtype=np.uint32),
-               np.ndarray[np.float32_t, ndim=2] vertices = np.ndarray(shape=(3,0), dtype=np.float32),
-               np.ndarray[np.float32_t, ndim=2] normals = np.ndarray(shape=(3,0), dtype=np.float32)):
+  def __init__(self, np.ndarray[np.uint32_t, ndim=1] indices not None = np.ndarray(shape=(0), dtype=np.uint32),
+               np.ndarray[np.float32_t, ndim=2] vertices not None = np.ndarray(shape=(3,0), dtype=np.float32),
+               np.ndarray[np.float32_t, ndim=2] normals not None = np.ndarray(shape=(3,0), dtype=np.float32)):
     assert vertices.shape[1] == normals.shape[1]
     cdef vector[unsigned int] cpp_indices = uint32s_of_array(indices)
     cdef vector[CVector3f] cpp_vertices = vector3fs_of_array(vertices)
@@ -91,7 +91,7 @@ cdef class Mesh:
                   (T.R * self.normals()).astype(np.float32))
 
   @staticmethod
-  def calculate_face_normals(np.ndarray[np.uint32_t, ndim=1] indices, np.ndarray[np.float32_t, ndim=2] vertices):
+  def calculate_face_normals(np.ndarray[np.uint32_t, ndim=1] indices not None, np.ndarray[np.float32_t, ndim=2] vertices not None):
     cdef vector[unsigned int] cpp_indices = uint32s_of_array(indices)
     cdef vector[CVector3f] cpp_vertices = vector3fs_of_array(vertices)
     return array_of_vector3fs(CMesh.CalculateFaceNormals(cpp_indices, cpp_vertices))
@@ -143,7 +143,7 @@ cdef class Mesh:
       return cls(indices, vertices, normals)
 
   @staticmethod
-  def estimate_normals(np.ndarray[np.uint32_t, ndim=1] indices, np.ndarray[np.float32_t, ndim=2] vertices):
+  def estimate_normals(np.ndarray[np.uint32_t, ndim=1] indices not None, np.ndarray[np.float32_t, ndim=2] vertices not None):
     cdef vector[unsigned int] cpp_indices = uint32s_of_array(indices)
     cdef vector[CVector3f] cpp_vertices = vector3fs_of_array(vertices)
     return array_of_vector3fs(CMesh.EstimateNormals(cpp_indices, cpp_vertices))
@@ -154,15 +154,15 @@ cdef class Mesh:
   def cleanup_edges_to_origin(self):
     self._mesh.cleanupEdgesToOrigin()
 
-  def merge(self, Mesh mesh2, size_t num_common_vertices=0):
+  def merge(self, Mesh mesh2 not None, size_t num_common_vertices=0):
       """Wrapper around CMesh::merge."""
       self._mesh.merge(mesh2._mesh[0],num_common_vertices)
 
-  def replace_geometry(self, Mesh mesh2):
+  def replace_geometry(self, Mesh mesh2 not None):
       """Wrapper around CMesh::replaceGeometry."""
       self._mesh.replaceGeometry(mesh2._mesh[0])
 
-  def has_same_material(self, Mesh other):
+  def has_same_material(self, Mesh other not None):
       """Check whether material properties are equal."""
       return self._mesh.hasSameMaterial(other._mesh[0])
 
diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index bd89c9c..910b739 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -122,7 +122,7 @@ cdef class PointCloud:
       # to make 'sum' work, see https://stackoverflow.com/questions/1218710
       return self.__add__(other)
 
-  def append(self, PointCloud other):
+  def append(self, PointCloud other not None):
       """ Append the points (and colors) of the other instance. Imperative."""
       if (self.num_points() > 0 and other.num_points() > 0 and
               self.colored() != other.colored()):
diff --git a/sumo-api/sumo/threedee/point_cloud_ply.pyx b/sumo-api/sumo/threedee/point_cloud_ply.pyx
index 7fc55d3..7109fde 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply.pyx
+++ b/sumo-api/sumo/threedee/point_cloud_ply.pyx
@@ -34,7 +34,7 @@ def read_points(str filename):
   return numpy_from_unraveled_points(unraveled_points), num_of_points
 
 # This is the python wrapper for writePoints
-def write_points(np.ndarray vertex_points, str filename):
+def write_points(np.ndarray vertex_points not None, str filename):
   cdef np.ndarray unraveled_points = np.reshape(
                                                 vertex_points,
                                                 3*vertex_points.shape[1],
@@ -45,7 +45,7 @@ def write_points(np.ndarray vertex_points, str filename):
   writePoints(unraveled_points, c_string)
 
 # This is the python wrapper for writePointsAndColors
-def write_points_and_colors(np.ndarray vertex_points, np.ndarray vertex_colors, str filename):
+def write_points_and_colors(np.ndarray vertex_points not None, np.ndarray vertex_colors not None, str filename):
   cdef np.ndarray unraveled_points = np.reshape(
                                                 vertex_points,
                                                 3*vertex_points.shape[1],
diff --git a/sumo-api/sumo/threedee/textured_mesh.pyx b/sumo-api/sumo/threedee/textured_mesh.pyx
index ead5cdc..9ae7526 100644
--- a/sumo-api/sumo/threedee/textured_mesh.pyx
+++ b/sumo-api/sumo/threedee/textured_mesh.pyx
@@ -21,12 +21,12 @@ cdef class TexturedMesh:
       TexturedMesh class: adds base color and metallic roughness textures to a
       regular mesh (in the Mesh class). Adds texture coordinates for mapping.
     """
-    def __init__(self, np.ndarray[np.uint32_t, ndim=1] indices = np.ndarray(shape=(0), dtype=np.uint32),
-               np.ndarray[np.float32_t, ndim=2] vertices = np.ndarray(shape=(3,0), dtype=np.float32),
-               np.ndarray[np.float32_t, ndim=2] normals = np.ndarray(shape=(3,0), dtype=np.float32),
-               np.ndarray[np.float32_t, ndim=2] uv_coords = np.ndarray(shape=(2,0), dtype=np.float32),
-               np.ndarray[np.uint8_t, ndim=3, mode='c'] base_color_texture = np.zeros([3, 4, 3], dtype=np.uint8),
-               np.ndarray[np.uint8_t, ndim=3, mode='c'] metallic_roughness_texture = np.zeros([3, 4, 3], dtype=np.uint8)):
+    def __init__(self, np.ndarray[np.uint32_t, ndim=1] indices not None = np.ndarray(shape=(0), dtype=np.uint32),
+               np.ndarray[np.float32_t, ndim=2] vertices not None = np.ndarray(shape=(3,0), dtype=np.float32),
+               np.ndarray[np.float32_t, ndim=2] normals not None = np.ndarray(shape=(3,0), dtype=np.float32),
+               np.ndarray[np.float32_t, ndim=2] uv_coords not None = np.ndarray(shape=(2,0), dtype=np.float32),
+               np.ndarray[np.uint8_t, ndim=3, mode='c'] base_color_texture not None = np.zeros([3, 4, 3], dtype=np.uint8),
+               np.ndarray[np.uint8_t, ndim=3, mode='c'] metallic_roughness_texture not None = np.zeros([3, 4, 3], dtype=np.uint8)):
 
         assert vertices.shape[1] == normals.shape[1]
         # Not all vertices necessarily have uv_coords
@@ -71,8 +71,8 @@ cdef class TexturedMesh:
 
     @classmethod
     def cube(cls,
-             np.ndarray[np.uint8_t, ndim=3, mode='c'] base_color_texture,
-             np.ndarray[np.uint8_t, ndim=3, mode='c'] metallic_roughness_texture):
+             np.ndarray[np.uint8_t, ndim=3, mode='c'] base_color_texture not None,
+             np.ndarray[np.uint8_t, ndim=3, mode='c'] metallic_roughness_texture not None):
         """ Create a 3D mesh of 12 triangles.
             The textures is assumed to be laid out in cube-map format, i.e.,
             a 1:6 aspect ratio with BACK, LEFT, FRONT, RIGHT, UP, DOWN order.
@@ -155,16 +155,16 @@ cdef class TexturedMesh:
                                 self.base_color(),
                                 self.metallic_roughness())
 
-    def renumber(self, size_t num_new_vertices, list vertex_renumbering):
+    def renumber(self, size_t num_new_vertices, list vertex_renumbering not None):
         """Wrapper around CTexturedMesh::renumber."""
         # vertex_renumbering is automatically converted to vector[unsigned int]
         self._textured_mesh.renumber(num_new_vertices,vertex_renumbering)
 
-    def merge(self, TexturedMesh mesh2, size_t num_common_vertices=0):
+    def merge(self, TexturedMesh mesh2 not None, size_t num_common_vertices=0):
         """Wrapper around CTexturedMesh::merge."""
         self._textured_mesh.merge(mesh2._textured_mesh[0],num_common_vertices)
 
-    def replace_geometry(self, TexturedMesh mesh2):
+    def replace_geometry(self, TexturedMesh mesh2 not None):
       """Wrapper around CTexturedMesh::replaceGeometry."""
       self._textured_mesh.replaceGeometry(mesh2._textured_mesh[0])
 
-- 
2.43.0


From 9239fb3eb7273d86d50846381e965af8645e1e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:46 +0000
Subject: [PATCH 57/64] fix: the index of a point, colour or image beyond the
 end read foreign memory

---
 sumo-api/sumo/threedee/gltf_model.pyx  | 4 ++--
 sumo-api/sumo/threedee/point_cloud.pyx | 4 ++++
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/gltf_model.pyx b/sumo-api/sumo/threedee/gltf_model.pyx
index ec374f6..1b1a395 100644
--- a/sumo-api/sumo/threedee/gltf_model.pyx
+++ b/sumo-api/sumo/threedee/gltf_model.pyx
@@ -154,11 +154,11 @@ cdef class GltfModel:
 
     def image_size(self, size_t i):
         """Return size of image with index <i>."""
-        return self.c_ptr.images[i].image.size()
+        return self.c_ptr.images.at(i).image.size()
 
     def image_uri(self, size_t i):
         """Return URI of image with index <i>."""
-        bytes = self.c_ptr.images[i].uri
+        bytes = self.c_ptr.images.at(i).uri
         return bytes.decode('UTF-8')
 
     def same_size(self, other):
diff --git a/sumo-api/sumo/threedee/point_cloud.pyx b/sumo-api/sumo/threedee/point_cloud.pyx
index 910b739..2b3dd95 100644
--- a/sumo-api/sumo/threedee/point_cloud.pyx
+++ b/sumo-api/sumo/threedee/point_cloud.pyx
@@ -130,12 +130,16 @@ cdef class PointCloud:
       self._c_ptr.append(other._c_ptr[0])
 
   def point(self, size_t i):
+    if i >= self._c_ptr.numPoints():
+        raise IndexError("PointCloud.point: index out of range")
     return array3(self._c_ptr.point(i))
 
   def points(self):
       return array_of_vector3s(self._c_ptr.points())
 
   def color(self, size_t i):
+    if i >= self._c_ptr.colors().size():
+        raise IndexError("PointCloud.color: index out of range")
     return numpy_of_color(self._c_ptr.color(i))
 
   def colors(self):
-- 
2.43.0


From c93a38d2cd33a5434be0895ec32c9110cb3d8ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:46 +0000
Subject: [PATCH 58/64] fix: vertex indices out of range in mesh operations
 read or wrote foreign memory

---
 sumo-api/sumo/threedee/Mesh.cpp          |  8 ++++++--
 sumo-api/sumo/threedee/Mesh.h            |  6 +++---
 sumo-api/sumo/threedee/TexturedMesh.cpp  |  9 +++++++++
 sumo-api/sumo/threedee/mesh.pxd          | 12 ++++++------
 sumo-api/sumo/threedee/textured_mesh.pxd |  6 +++---
 5 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/sumo-api/sumo/threedee/Mesh.cpp b/sumo-api/sumo/threedee/Mesh.cpp
index 8fee777..3516596 100644
--- a/sumo-api/sumo/threedee/Mesh.cpp
+++ b/sumo-api/sumo/threedee/Mesh.cpp
@@ -39,8 +39,8 @@ vector<Mesh::Normal> Mesh::CalculateFaceNormals(
     // get three triangle vertex indices
     const size_t j = i * 3;
     const Index i0 = indices[j], i1 = indices[j + 1], i2 = indices[j + 2];
-    Vertex a = vertices[i1] - vertices[i0];
-    Vertex b = vertices[i2] - vertices[i0];
+    Vertex a = vertices.at(i1) - vertices.at(i0);
+    Vertex b = vertices.at(i2) - vertices.at(i0);
 
     Normal n = a.cross(b).normalized();
     faceNormals.push_back(n);
@@ -154,6 +154,10 @@ void Mesh::merge(const Mesh& mesh2, size_t numCommonVertices) {
     return;
   }
 
+  if (numCommonVertices > numVertices()) {
+    throw invalid_argument("Mesh::merge: more common vertices than vertices.");
+  }
+
   // Merge the indices.
   const size_t offset = numVertices() - numCommonVertices;
   for (const size_t& index2 : mesh2.indices()) {
diff --git a/sumo-api/sumo/threedee/Mesh.h b/sumo-api/sumo/threedee/Mesh.h
index bbdcc67..29609df 100644
--- a/sumo-api/sumo/threedee/Mesh.h
+++ b/sumo-api/sumo/threedee/Mesh.h
@@ -35,9 +35,9 @@ class Mesh {
         : i(i),
           j(j),
           k(k),
-          a(mesh.vertices()[i]),
-          b(mesh.vertices()[j]),
-          c(mesh.vertices()[k]) {}
+          a(mesh.vertices().at(i)),
+          b(mesh.vertices().at(j)),
+          c(mesh.vertices().at(k)) {}
     const Index i, j, k;
     const Vertex &a, &b, &c;
   };
diff --git a/sumo-api/sumo/threedee/TexturedMesh.cpp b/sumo-api/sumo/threedee/TexturedMesh.cpp
index ed70d4c..2733d7f 100644
--- a/sumo-api/sumo/threedee/TexturedMesh.cpp
+++ b/sumo-api/sumo/threedee/TexturedMesh.cpp
@@ -44,6 +44,15 @@ TexturedMesh::TexturedMesh(
 void TexturedMesh::renumber(
     size_t numNewVertices,
     vector<Index> vertexRenumbering) {
+  if (vertexRenumbering.size() > vertices_.size()) {
+    throw invalid_argument("TexturedMesh::renumber: more entries than vertices.");
+  }
+  for (const Index index : vertexRenumbering) {
+    if (index >= numNewVertices) {
+      throw invalid_argument("TexturedMesh::renumber: entry out of range.");
+    }
+  }
+
   // Not all vertices necessarily have texture coordinates
   uvCoords_.resize(vertices_.size(), UVCoord::Zero());
 
diff --git a/sumo-api/sumo/threedee/mesh.pxd b/sumo-api/sumo/threedee/mesh.pxd
index 7005834..2c1a13e 100644
--- a/sumo-api/sumo/threedee/mesh.pxd
+++ b/sumo-api/sumo/threedee/mesh.pxd
@@ -29,15 +29,15 @@ cdef extern from "sumo/threedee/Mesh.h" namespace "sumo":
     const vector[CVector3f]& vertices() const
     const vector[CVector3f]& normals() const
     @staticmethod
-    vector[CVector3f] CalculateFaceNormals(const vector[unsigned int]&, const vector[CVector3f]&)
+    vector[CVector3f] CalculateFaceNormals(const vector[unsigned int]&, const vector[CVector3f]&) except +
     @staticmethod
-    vector[CVector3f] EstimateNormals(const vector[unsigned int]&, const vector[CVector3f]&)
+    vector[CVector3f] EstimateNormals(const vector[unsigned int]&, const vector[CVector3f]&) except +
     @staticmethod
     CMesh Example(double, bool)
-    void cleanupLongEdges(float threshold)
-    void cleanupEdgesToOrigin()
-    void merge(const CMesh&, size_t)
-    void replaceGeometry(const CMesh&)
+    void cleanupLongEdges(float threshold) except +
+    void cleanupEdgesToOrigin() except +
+    void merge(const CMesh&, size_t) except +
+    void replaceGeometry(const CMesh&) except +
     bool hasSameMaterial(const CMesh&) const
 
 # Python wrapper class storing a pointer:
diff --git a/sumo-api/sumo/threedee/textured_mesh.pxd b/sumo-api/sumo/threedee/textured_mesh.pxd
index 2b57385..9c75f42 100644
--- a/sumo-api/sumo/threedee/textured_mesh.pxd
+++ b/sumo-api/sumo/threedee/textured_mesh.pxd
@@ -25,9 +25,9 @@ cdef extern from "sumo/threedee/TexturedMesh.h" namespace "sumo":
     const vector[CVector2f]& uvCoords() const
     const Mat3b& baseColorTexture() const
     const Mat3b& metallicRoughnessTexture() const
-    void renumber(size_t, vector[unsigned int])
-    void merge(const CTexturedMesh&, size_t)
-    void replaceGeometry(const CTexturedMesh&)
+    void renumber(size_t, vector[unsigned int]) except +
+    void merge(const CTexturedMesh&, size_t) except +
+    void replaceGeometry(const CTexturedMesh&) except +
     bool hasDualTextureMaterial() const
 
 # Python wrapper class storing a pointer:
-- 
2.43.0


From f1fad8c63a8e1ff45e3f071f7fc3ce334f9c91d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:53 +0000
Subject: [PATCH 59/64] fix: arrays without dimensions ended the process,
 vectors were taken for clouds by their strides

The dimensions of an array were read without looking at how many it has:
PLY writing, Pose3.transform_all_* and Quaternion.
---
 sumo-api/sumo/geometry/pose3.pyx           |  4 ++--
 sumo-api/sumo/geometry/quaternion.pyx      |  3 ++-
 sumo-api/sumo/threedee/point_cloud_ply.pyx | 24 ++++++++--------------
 3 files changed, 13 insertions(+), 18 deletions(-)

diff --git a/sumo-api/sumo/geometry/pose3.pyx b/sumo-api/sumo/geometry/pose3.pyx
index 5f62f14..912b01b 100644
--- a/sumo-api/sumo/geometry/pose3.pyx
+++ b/sumo-api/sumo/geometry/pose3.pyx
@@ -52,7 +52,7 @@ class Pose3:
 
     def transform_all_from(self, np.ndarray p not None):
         """Version of transform_to that supports 2-D arrays."""
-        assert p.shape[0] == 3
+        assert p.ndim > 0 and p.shape[0] == 3
         return np.transpose(np.transpose(self.R * p) + self.t)
 
     def __mul__(self, other):
@@ -73,7 +73,7 @@ class Pose3:
 
     def transform_all_to(self, np.ndarray q not None):
         """Version of transform_to that supports 2-D arrays."""
-        assert q.shape[0] == 3
+        assert q.ndim > 0 and q.shape[0] == 3
         return self.R.unrotate(np.transpose(np.transpose(q) - self.t))
 
     def matrix34(self):
diff --git a/sumo-api/sumo/geometry/quaternion.pyx b/sumo-api/sumo/geometry/quaternion.pyx
index 9c0df44..23aaf5a 100644
--- a/sumo-api/sumo/geometry/quaternion.pyx
+++ b/sumo-api/sumo/geometry/quaternion.pyx
@@ -31,8 +31,9 @@ cdef class Quaternion:
 
   def __cinit__(self, np.ndarray val not None=np.array([1., 0., 0., 0.])):
     """Constructor, <val> is [1, 0, 0, 0] (w, x, y, z) by default."""
+    assert val.ndim > 0, "Quaternion takes 4-vector or 3*3 matrix"
     if val.shape[0]==3:
-      assert val.shape[1] == 3, "Quaternion takes 4-vector or 3*3 matrix"
+      assert val.ndim == 2 and val.shape[1] == 3, "Quaternion takes 4-vector or 3*3 matrix"
       self.c_ptr_ = new Quaterniond(matrix3_of_array(val))
     else:
       assert val.shape[0] == 4, "Quaternion takes 4-vector or 3*3 matrix"
diff --git a/sumo-api/sumo/threedee/point_cloud_ply.pyx b/sumo-api/sumo/threedee/point_cloud_ply.pyx
index 7109fde..c4b9cdb 100644
--- a/sumo-api/sumo/threedee/point_cloud_ply.pyx
+++ b/sumo-api/sumo/threedee/point_cloud_ply.pyx
@@ -33,29 +33,23 @@ def read_points(str filename):
   num_of_points = unraveled_points.size() / 3
   return numpy_from_unraveled_points(unraveled_points), num_of_points
 
+# <points> is a 3*N array, its dimensions are read without further checks
+cdef np.ndarray unraveled(np.ndarray points):
+  if points.ndim != 2:
+    raise ValueError("Expected a 3*N array")
+  return np.reshape(points, 3*points.shape[1], order='F')
+
 # This is the python wrapper for writePoints
 def write_points(np.ndarray vertex_points not None, str filename):
-  cdef np.ndarray unraveled_points = np.reshape(
-                                                vertex_points,
-                                                3*vertex_points.shape[1],
-                                                order='F'
-                                                )
+  cdef np.ndarray unraveled_points = unraveled(vertex_points)
   py_byte_string = filename.encode('UTF-8')
   cdef char* c_string = py_byte_string
   writePoints(unraveled_points, c_string)
 
 # This is the python wrapper for writePointsAndColors
 def write_points_and_colors(np.ndarray vertex_points not None, np.ndarray vertex_colors not None, str filename):
-  cdef np.ndarray unraveled_points = np.reshape(
-                                                vertex_points,
-                                                3*vertex_points.shape[1],
-                                                order='F'
-                                                )
-  cdef np.ndarray unraveled_colors = np.reshape(
-                                                vertex_colors,
-                                                3*vertex_colors.shape[1],
-                                                order='F'
-                                                )
+  cdef np.ndarray unraveled_points = unraveled(vertex_points)
+  cdef np.ndarray unraveled_colors = unraveled(vertex_colors)
   py_byte_string = filename.encode('UTF-8')
   cdef char* c_string = py_byte_string
   writePointsAndColors(unraveled_points, unraveled_colors, c_string)
-- 
2.43.0


From dfaf28d69574dce33ff8effe2a4c921876e45a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:30 +0000
Subject: [PATCH 60/64] fix: references and elements of a glTF document beyond
 its buffers read foreign memory

---
 sumo-api/sumo/threedee/GltfModel.cpp         |  3 ++-
 sumo-api/sumo/threedee/GltfModel.h           | 17 ++++++++++++++---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 15 +++++++++++++++
 3 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index fa6f2ab..f2d89db 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -265,7 +265,8 @@ cv::Mat3b GltfModel::extractTexture(int textureId) const {
   const tinygltf::Texture& texture = this->textures[textureId];
 
   // Get image
-  if (texture.source >= static_cast<int>(this->images.size())) {
+  if (texture.source < 0 ||
+      texture.source >= static_cast<int>(this->images.size())) {
     throw runtime_error("GltfModel::extractTexture: invalid texture found.");
   }
   const tinygltf::Image& image = this->images[texture.source];
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index f6c241e..e75ee84 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -257,17 +257,28 @@ class GltfAccessor {
  private:
   // Calculate pointer_, assumes tinyAccessor_ is initialized correctly
   void calculatePointer(const GltfModel& object) {
-    if (tinyAccessor_.bufferView >=
-        static_cast<int>(object.bufferViews.size())) {
+    if (tinyAccessor_.bufferView < 0 ||
+        tinyAccessor_.bufferView >=
+            static_cast<int>(object.bufferViews.size())) {
       throw std::invalid_argument("GltfAccessor: invalid bufferView index");
     }
     const tinygltf::BufferView& view =
         object.bufferViews[tinyAccessor_.bufferView];
 
-    if (view.buffer >= static_cast<int>(object.buffers.size())) {
+    if (view.buffer < 0 ||
+        view.buffer >= static_cast<int>(object.buffers.size())) {
       throw std::invalid_argument("GltfAccessor: invalid buffer index");
     }
     const tinygltf::Buffer& buffer = object.buffers[view.buffer];
+
+    // All elements have to lie inside the buffer
+    const size_t size = buffer.data.size();
+    if (view.byteOffset > size ||
+        tinyAccessor_.byteOffset > size - view.byteOffset ||
+        tinyAccessor_.count >
+            (size - view.byteOffset - tinyAccessor_.byteOffset) / sizeof(T)) {
+      throw std::invalid_argument("GltfAccessor: elements beyond the buffer");
+    }
     pointer_ = reinterpret_cast<const T*>(
         buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset);
   }
diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 6a959fc..538ffc4 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -3494,6 +3494,21 @@ bool TinyGLTF::LoadFromString(
 
           const BufferView& bufferView =
               model->bufferViews[size_t(image.bufferView)];
+          if (size_t(bufferView.buffer) >= model->buffers.size() ||
+              bufferView.byteLength == 0 ||
+              bufferView.byteOffset >=
+                  model->buffers[size_t(bufferView.buffer)].data.size() ||
+              bufferView.byteLength >
+                  model->buffers[size_t(bufferView.buffer)].data.size() -
+                      bufferView.byteOffset) {
+            if (err) {
+              std::stringstream ss;
+              ss << "bufferView \"" << image.bufferView
+                 << "\" is not inside a buffer of the scene." << std::endl;
+              (*err) += ss.str();
+            }
+            return false;
+          }
           const Buffer& buffer = model->buffers[size_t(bufferView.buffer)];
 
           if (*LoadImageData == nullptr) {
-- 
2.43.0


From c4c942d393ad6cc9d058ae1a086a0ffc86b11f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:30 +0000
Subject: [PATCH 61/64] fix: interleaved elements of a glTF buffer view were
 read as if they followed each other

---
 sumo-api/sumo/threedee/GltfModel.h | 32 +++++++++++++++++++++---------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index e75ee84..73b46eb 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -200,8 +200,7 @@ class GltfModel : public tinygltf::Model {
 
 /**
  * Class for getting elements from buffers associated with an object.
- * Accesses scalar values only, and does no bounds checking on access.
- * TODO: fix that, and make working with strides.
+ * Accesses scalar values only.
  */
 template <class T>
 class GltfAccessor {
@@ -237,7 +236,7 @@ class GltfAccessor {
     if (j >= tinyAccessor_.count) {
       throw std::invalid_argument("GltfAccessor[]: invalid element index");
     }
-    return pointer_[j];
+    return *reinterpret_cast<const T*>(pointer_ + j * stride_);
   }
 
   // Return all elements in an STL vector
@@ -271,20 +270,35 @@ class GltfAccessor {
     }
     const tinygltf::Buffer& buffer = object.buffers[view.buffer];
 
+    // Elements follow each other, unless they are interleaved with other data
+    tinygltf::BufferView packed;
+    packed.byteStride = 0;
+    const int elementSize = tinyAccessor_.ByteStride(packed);
+    stride_ = elementSize > 0 &&
+            view.byteStride > static_cast<size_t>(elementSize)
+        ? view.byteStride
+        : sizeof(T);
+
     // All elements have to lie inside the buffer
     const size_t size = buffer.data.size();
+    const size_t count = tinyAccessor_.count;
     if (view.byteOffset > size ||
-        tinyAccessor_.byteOffset > size - view.byteOffset ||
-        tinyAccessor_.count >
-            (size - view.byteOffset - tinyAccessor_.byteOffset) / sizeof(T)) {
+        tinyAccessor_.byteOffset > size - view.byteOffset) {
+      throw std::invalid_argument("GltfAccessor: elements beyond the buffer");
+    }
+    const size_t available = size - view.byteOffset - tinyAccessor_.byteOffset;
+    if (count > 0 &&
+        (available < sizeof(T) ||
+         count - 1 > (available - sizeof(T)) / stride_)) {
       throw std::invalid_argument("GltfAccessor: elements beyond the buffer");
     }
-    pointer_ = reinterpret_cast<const T*>(
-        buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset);
+    pointer_ =
+        buffer.data.data() + view.byteOffset + tinyAccessor_.byteOffset;
   }
 
   tinygltf::Accessor tinyAccessor_; // underlying tinygltf::Accessor
-  const T* pointer_; // pointer to associated memory
+  const unsigned char* pointer_; // pointer to associated memory
+  size_t stride_; // distance between elements, in bytes
 };
 
 /**
-- 
2.43.0


From 18af1b1ac5006c7cd5375352a2901df482fefc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:30 +0000
Subject: [PATCH 62/64] fix: glTF elements of other types were read as 32-bit
 indices or float vectors

---
 sumo-api/sumo/threedee/GltfModel.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index f2d89db..9664f31 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -405,6 +405,15 @@ const tinygltf::Primitive& GltfModel::getPrimitiveMesh(
   throw runtime_error("GltfModel::getPrimitiveMesh: meshIndex out of bounds.");
 }
 
+// Check that elements of accessor <i> are float vectors of the given type
+static void checkFloatVectors(const GltfModel& object, size_t i, int type) {
+  if (getAccessorType(object, i) != TINYGLTF_COMPONENT_TYPE_FLOAT ||
+      object.accessors[i].type != type) {
+    throw runtime_error(
+        "GltfModel::extractPrimitiveMesh: unsupported vertex attribute type.");
+  }
+}
+
 void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
   const tinygltf::Primitive& primitive = this->getPrimitiveMesh(meshIndex);
 
@@ -420,16 +429,26 @@ void GltfModel::extractPrimitiveMesh(const size_t meshIndex, Mesh* mesh) const {
     vector<Mesh::Index> mesh_indices(
         short_indices.begin(), short_indices.end());
     mesh->indices_ = mesh_indices;
+  } else if (component_type == TINYGLTF_COMPONENT_TYPE_UNSIGNED_BYTE) {
+    auto indexAccessor =
+        getAccessor<unsigned char>(*this, indicesAccessorIndex);
+    vector<unsigned char> byte_indices = indexAccessor.asVector();
+    mesh->indices_.assign(byte_indices.begin(), byte_indices.end());
+  } else if (component_type != TINYGLTF_COMPONENT_TYPE_UNSIGNED_INT) {
+    throw runtime_error(
+        "GltfModel::extractPrimitiveMesh: unsupported index type.");
   } else {
     auto indexAccessor = getAccessor<unsigned int>(*this, indicesAccessorIndex);
     mesh->indices_ = indexAccessor.asVector();
   }
   // Get vertices
   int vertexAccessorIndex = primitive.attributes.at("POSITION");
+  checkFloatVectors(*this, vertexAccessorIndex, TINYGLTF_TYPE_VEC3);
   auto vertexAccessor = getAccessor<Mesh::Vertex>(*this, vertexAccessorIndex);
   mesh->vertices_ = vertexAccessor.asVector();
   // Get normals
   int normalAccessorIndex = primitive.attributes.at("NORMAL");
+  checkFloatVectors(*this, normalAccessorIndex, TINYGLTF_TYPE_VEC3);
   auto normalAccessor = getAccessor<Mesh::Vertex>(*this, normalAccessorIndex);
   mesh->normals_ = normalAccessor.asVector();
 
@@ -459,6 +478,7 @@ void GltfModel::extractTexturedPrimitiveMesh(
         "GltfModel::extractTexturedMesh: Texture coordinates not found.");
   }
   int uvCoordAccessorIndex = primitive.attributes.at("TEXCOORD_0");
+  checkFloatVectors(*this, uvCoordAccessorIndex, TINYGLTF_TYPE_VEC2);
   auto uvCoordAccessor =
       getAccessor<TexturedMesh::UVCoord>(*this, uvCoordAccessorIndex);
   mesh->uvCoords_ = uvCoordAccessor.asVector();
-- 
2.43.0


From 573aabbe9c7b5df25d2e563f6ed96c33c9d7258a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:31 +0000
Subject: [PATCH 63/64] fix: a glb whose external buffer cannot be loaded was
 accepted without it, saving it read foreign memory

---
 sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
index 538ffc4..b9f3262 100644
--- a/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
+++ b/sumo-api/sumo/threedee/tiny_gltf/tiny_gltf.h
@@ -2409,8 +2409,10 @@ static bool ParseBuffer(
         }
       } else {
         // External .bin file.
-        LoadExternalFile(
-            &buffer->data, err, buffer->uri, basedir, bytes, true, fs);
+        if (!LoadExternalFile(
+                &buffer->data, err, buffer->uri, basedir, bytes, true, fs)) {
+          return false;
+        }
       }
     } else {
       // load data from (embedded) binary data
-- 
2.43.0


From e1c61a8120418c8ada15c3ed7a1f7b2c87b87fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:15 +0000
Subject: [PATCH 64/64] fix: models with embedded images could not be saved,
 glb files with images of their own files not loaded

---
 sumo-api/sumo/threedee/GltfModel.cpp | 11 +++++++----
 sumo-api/sumo/threedee/GltfModel.h   |  4 ++--
 sumo-api/sumo/threedee/gltf.pyx      |  6 ++++--
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/sumo-api/sumo/threedee/GltfModel.cpp b/sumo-api/sumo/threedee/GltfModel.cpp
index 9664f31..22fef7c 100644
--- a/sumo-api/sumo/threedee/GltfModel.cpp
+++ b/sumo-api/sumo/threedee/GltfModel.cpp
@@ -531,11 +531,14 @@ void GltfModel::setURIs(const string& extension) {
   for (size_t i = 0; i < this->images.size(); i++) {
     auto& image = this->images[i];
     if (!image.uri.empty()) {
-      throw invalid_argument(
-          "GltfModel::setURIs: expected empty URI, but got ''" + image.uri +
-          "'.");
+      continue;
     }
-    image.uri = to_string(i) + extension;
+    string uri = to_string(i) + extension;
+    const auto hasUri = [&uri](const auto& other) { return other.uri == uri; };
+    while (any_of(images.begin(), images.end(), hasUri)) {
+      uri = "_" + uri;
+    }
+    image.uri = uri;
   }
 }
 
diff --git a/sumo-api/sumo/threedee/GltfModel.h b/sumo-api/sumo/threedee/GltfModel.h
index 73b46eb..8bda076 100644
--- a/sumo-api/sumo/threedee/GltfModel.h
+++ b/sumo-api/sumo/threedee/GltfModel.h
@@ -131,8 +131,8 @@ class GltfModel : public tinygltf::Model {
   std::vector<Mesh*> getPolymorphicPrimitiveMeshes() const;
 
   /**
-   * Set URI to sequentially numbered relative image names with given extension.
-   * Assumes uris are empty, will throw invalid_argument exception if not.
+   * Set URI to sequentially numbered relative image names with given extension,
+   * of the images that have none.
    */
   void setURIs(const std::string& extension = ".png");
 
diff --git a/sumo-api/sumo/threedee/gltf.pyx b/sumo-api/sumo/threedee/gltf.pyx
index 6ff869f..d038826 100644
--- a/sumo-api/sumo/threedee/gltf.pyx
+++ b/sumo-api/sumo/threedee/gltf.pyx
@@ -50,6 +50,8 @@ cdef class TinyGLTF:
       cdef bool ret = self.c_ptr.LoadASCIIFromFile(c_model, &err, py_byte_string)
       if not ret:
           raise IOError("Failed to parse gltf file {}.  Error = {}".format(path, err))
+      # set the URI for the images that the file contains
+      c_model.setURIs(b".png")
       return model
 
   def load_binary_from_file(self, unicode path):
@@ -70,10 +72,10 @@ cdef class TinyGLTF:
       cdef CGltfModel* c_model = model.c_ptr
       py_byte_string = path.encode('UTF-8')
       cdef bool ret = self.c_ptr.LoadBinaryFromFile(c_model, &err, py_byte_string)
-      # set the URI for the images
-      c_model.setURIs(b".png")
       if not ret:
           raise IOError("Failed to parse glb file {}.  Error = {}".format(path, err))
+      # set the URI for the images
+      c_model.setURIs(b".png")
       return model
 
   def write_gltf_scene_to_file(self, GltfModel model not None, unicode path):
-- 
2.43.0

