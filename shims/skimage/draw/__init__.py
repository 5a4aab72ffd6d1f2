import math

import numpy as np


def line(r0, c0, r1, c1):
    """Bresenham line, same stepping as scikit-image."""
    r0, c0, r1, c1 = (_int(v) for v in (r0, c0, r1, c1))
    r, c = r0, c0
    dr, dc = abs(r1 - r0), abs(c1 - c0)
    sc = 1 if (c1 - c) > 0 else -1
    sr = 1 if (r1 - r) > 0 else -1
    steep = dr > dc
    if steep:
        c, r = r, c
        dc, dr = dr, dc
        sc, sr = sr, sc
    d = 2 * dr - dc
    rr, cc = [], []
    for _ in range(dc):
        if steep:
            rr.append(c)
            cc.append(r)
        else:
            rr.append(r)
            cc.append(c)
        while d >= 0:
            r += sr
            d -= 2 * dc
        c += sc
        d += 2 * dr
    rr.append(r1)
    cc.append(c1)
    return np.array(rr, dtype=np.int64), np.array(cc, dtype=np.int64)


def _int(v):
    i = int(v)
    if i != v:
        raise TypeError('integer expected')
    return i


def polygon(r, c, shape=None):
    """Pixels inside or on the boundary of a polygon."""
    r = np.asarray(r, dtype=np.float64)
    c = np.asarray(c, dtype=np.float64)
    minr, maxr = int(max(0, r.min())), int(math.ceil(r.max()))
    minc, maxc = int(max(0, c.min())), int(math.ceil(c.max()))
    if shape is not None:
        maxr = min(shape[0] - 1, maxr)
        maxc = min(shape[1] - 1, maxc)
    if maxr < minr or maxc < minc:
        return np.zeros(0, np.int64), np.zeros(0, np.int64)
    rows = np.arange(minr, maxr + 1)[:, None]
    cols = np.arange(minc, maxc + 1)[None, :]
    inside = np.zeros((maxr - minr + 1, maxc - minc + 1), dtype=np.bool_)
    edge = np.zeros_like(inside)
    n = len(r)
    for i in range(n):
        r0, c0 = r[i - 1], c[i - 1]
        r1, c1 = r[i], c[i]
        cross = (r1 - r0) * (cols - c0) - (c1 - c0) * (rows - r0)
        on = (cross == 0) & (rows >= min(r0, r1)) & (rows <= max(r0, r1)) & \
             (cols >= min(c0, c1)) & (cols <= max(c0, c1))
        edge |= on
        if r0 != r1:
            span = (rows >= min(r0, r1)) & (rows < max(r0, r1))
            hit = (cross < 0) if r1 > r0 else (cross > 0)
            inside ^= span & hit
    ii, jj = np.nonzero(inside | edge)
    return ii + minr, jj + minc


def polygon_perimeter(r, c, shape=None, clip=False):
    if clip:
        raise NotImplementedError('ShimMissing: clip')
    r = np.round(np.asarray(r)).astype(np.int64)
    c = np.round(np.asarray(c)).astype(np.int64)
    rr, cc = [], []
    for i in range(len(r) - 1):
        lr, lc = line(r[i], c[i], r[i + 1], c[i + 1])
        rr.append(lr)
        cc.append(lc)
    rr, cc = np.concatenate(rr), np.concatenate(cc)
    if shape is not None:
        m = (rr >= 0) & (rr < shape[0]) & (cc >= 0) & (cc < shape[1])
        rr, cc = rr[m], cc[m]
    return rr, cc


def set_color(img, coords, color):
    img[coords] = color


def polygon2mask(image_shape, polygon_):
    polygon_ = np.asarray(polygon_)
    mask = np.zeros(image_shape, dtype=bool)
    mask[polygon(polygon_[:, 0], polygon_[:, 1], image_shape)] = True
    return mask
