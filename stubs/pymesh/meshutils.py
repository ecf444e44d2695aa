import numpy as np


def remove_duplicated_vertices_raw(vertices, faces, tol=1e-12, importance=None):
    vertices = np.array(vertices, dtype=float).reshape((-1, 3))
    faces = np.array(faces, dtype=int).reshape((-1, 3))
    return vertices, faces, {"num_vertex_merged": 0, "index_map": np.arange(len(vertices))}
