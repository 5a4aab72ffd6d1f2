import numpy as np


class Path(object):
    def __init__(self, vertices, codes=None, *args, **kwargs):
        if codes is not None:
            raise NotImplementedError('ShimMissing: Path codes')
        self.vertices = np.asarray(vertices, dtype=np.float64)
        if self.vertices.ndim != 2 or self.vertices.shape[1] != 2:
            raise ValueError("'vertices' must be a 2D array with shape (N, 2)")

    def contains_points(self, points, transform=None, radius=0.0):
        if transform is not None:
            raise NotImplementedError('ShimMissing: contains_points options')
        points = np.asarray(points)
        if points.dtype.fields:
            raise ValueError('Expected 2-dimensional array of numbers, got a '
                             'structured array')
        points = np.asarray(points, dtype=np.float64)
        if points.ndim != 2 or points.shape[1] != 2:
            raise ValueError('points should have shape (N, 2)')
        x, y = points[:, 0], points[:, 1]
        inside = np.zeros(len(points), dtype=np.bool_)
        v = self.vertices
        for i in range(len(v)):
            x0, y0 = v[i - 1]
            x1, y1 = v[i]
            span = (y0 > y) != (y1 > y)
            cross = (x1 - x0) * (y - y0) - (y1 - y0) * (x - x0)
            inside ^= span & ((cross > 0) if y1 > y0 else (cross < 0))
        if radius:
            # the path is drawn with a line of this width
            near = np.zeros(len(points), dtype=np.bool_)
            for i in range(len(v)):
                d = v[i] - v[i - 1]
                w = points - v[i - 1]
                t = np.clip((w * d).sum(axis=1) / ((d * d).sum() or 1.0), 0, 1)
                near |= np.hypot(*(w - t[:, None] * d).T) <= abs(radius) / 2
            inside = inside | near if radius > 0 else inside & ~near
        return inside

    def contains_point(self, point, transform=None, radius=0.0):
        return bool(self.contains_points([point], transform, radius)[0])
