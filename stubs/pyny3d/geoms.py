"""Stand-in for pyny3d (visualisation only)."""


class Polygon:
    def __init__(self, points):
        self.points = points


class Surface:
    def __init__(self, polygons):
        self.polygons = polygons

    def plot(self, *a, **k):
        pass
