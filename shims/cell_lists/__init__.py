"""Stand-in for the third-party ``cell_lists`` package.

Points are binned to square cells of side ``cell_size`` (floor division);
``iter_nearest_neighbors`` yields every unordered pair of distinct points that
lie in the same or in adjacent (also diagonally) cells exactly once.
"""
import numpy as np


def add_to_cells(points, cell_size):
    points = np.asarray(points, dtype=np.float64)
    if points.ndim != 2:
        raise ValueError('points should have shape (n, d)')
    if not cell_size > 0:
        raise ValueError('cell_size should be positive')
    n, dim = points.shape
    if n == 0:
        shape = np.full(dim, 3, dtype=np.int64)
        size = int(np.prod(shape))
        return (np.zeros(0, np.int64), np.zeros(size, np.int64),
                np.zeros(size, np.int64), shape)
    cells = np.floor(points / cell_size).astype(np.int64)
    cells -= cells.min(axis=0)
    cells += 1  # padding of one empty cell on every side
    shape = cells.max(axis=0) + 2
    if np.prod(shape.astype(np.float64)) > 5e6:
        raise MemoryError('grid too large for the stand-in')
    flat = np.zeros(n, dtype=np.int64)
    for k in range(dim):
        flat = flat * shape[k] + cells[:, k]
    size = int(np.prod(shape))
    cells_count = np.bincount(flat, minlength=size).astype(np.int64)
    cells_offset = np.concatenate(
        (np.zeros(1, np.int64), np.cumsum(cells_count)[:-1])).astype(np.int64)
    points_indices = np.argsort(flat, kind='stable').astype(np.int64)
    return points_indices, cells_count, cells_offset, shape


def neighboring_cells(grid_shape):
    """Flattened offsets to the forward half of the adjacent cells."""
    shape = [int(s) for s in grid_shape]
    offsets = [()]
    for _ in shape:
        offsets = [o + (d,) for o in offsets for d in (-1, 0, 1)]
    half = [o for o in offsets if o > (0,) * len(shape)]
    out = []
    for o in half:
        flat = 0
        for s, d in zip(shape, o):
            flat = flat * s + d
        out.append(flat)
    return np.array(out, dtype=np.int64)


def iter_nearest_neighbors(cell_indices, neigh_cells, points_indices,
                           cells_count, cells_offset):
    pi = [int(i) for i in points_indices]
    count = [int(i) for i in cells_count]
    offset = [int(i) for i in cells_offset]
    neigh = [int(i) for i in neigh_cells]
    for c in cell_indices:
        c = int(c)
        if count[c] == 0:
            continue
        own = pi[offset[c]:offset[c] + count[c]]
        for k in range(len(own)):
            for l in range(k + 1, len(own)):
                yield own[k], own[l]
        for d in neigh:
            m = c + d
            if 0 <= m < len(count) and count[m]:
                for i in own:
                    for j in pi[offset[m]:offset[m] + count[m]]:
                        yield i, j


def iter_nearest_neighbors_par(*args):
    return iter_nearest_neighbors(*args)
