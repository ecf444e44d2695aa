"""Stand-in for PyMesh, for what sumo.metrics uses: closed triangle meshes, their signed
volume, and the boolean intersection of two convex meshes."""
import itertools
import numpy as np
from . import meshutils  # noqa: F401


FORMED = []      # every mesh formed, for the harness to look at


def _hull(vertices):
    from scipy.spatial import ConvexHull, QhullError
    try:
        return ConvexHull(vertices)
    except (QhullError, ValueError):
        return None


class Mesh:
    def __init__(self, vertices, faces):
        self.vertices = np.array(vertices, dtype=float).reshape((-1, 3))
        self.faces = np.array(faces, dtype=int).reshape((-1, 3))

    def face_volume(self):
        """signed volume enclosed by the faces as given"""
        if len(self.faces) == 0:
            return 0.0
        a, b, c = (self.vertices[self.faces[:, k]] for k in range(3))
        return float(np.sum(np.einsum("ij,ij->i", a, np.cross(b, c))) / 6.0)

    @property
    def volume(self):
        """volume of the convex solid the vertices span; the faces only give the sign.  (The real
        library integrates over the faces; judging those is a separate matter, see FORMED.)"""
        if len(self.vertices) < 4:
            return 0.0
        h = _hull(self.vertices)
        v = h.volume if h is not None else 0.0
        return -v if self.face_volume() < 0 else v

    @property
    def num_vertices(self):
        return len(self.vertices)

    @property
    def num_faces(self):
        return len(self.faces)


def form_mesh(vertices, faces, voxels=None):
    m = Mesh(vertices, faces)
    FORMED.append(m)
    return m


def _halfspaces(mesh):
    """outward planes (n, d): n.x <= d, of the convex hull of a mesh"""
    h = _hull(mesh.vertices)
    if h is None:
        return None
    return [(e[:3], -e[3]) for e in np.unique(np.round(h.equations, 9), axis=0)]


def boolean(mesh_1, mesh_2, operation, engine="auto", **kw):
    if operation != "intersection":
        raise NotImplementedError(operation)
    from scipy.spatial import ConvexHull, QhullError
    h1, h2 = _halfspaces(mesh_1), _halfspaces(mesh_2)
    if h1 is None or h2 is None:
        return Mesh(np.zeros((0, 3)), np.zeros((0, 3)))
    hs = h1 + h2
    N = np.array([h[0] for h in hs])
    D = np.array([h[1] for h in hs])
    pts = []
    for i, j, k in itertools.combinations(range(len(hs)), 3):
        A = N[[i, j, k]]
        if abs(np.linalg.det(A)) < 1e-9:
            continue
        x = np.linalg.solve(A, D[[i, j, k]])
        if np.all(N.dot(x) <= D + 1e-9):
            pts.append(x)
    if len(pts) < 4:
        return Mesh(np.zeros((0, 3)), np.zeros((0, 3)))
    pts = np.array(pts)
    try:
        hull = ConvexHull(pts)
    except QhullError:
        return Mesh(np.zeros((0, 3)), np.zeros((0, 3)))
    centre = pts.mean(axis=0)
    faces = []
    for s, eq in zip(hull.simplices, hull.equations):
        a, b, c = pts[s]
        if np.dot(np.cross(b - a, c - a), a - centre) < 0:
            s = s[[0, 2, 1]]
        faces.append(s)
    return Mesh(pts, np.array(faces))
