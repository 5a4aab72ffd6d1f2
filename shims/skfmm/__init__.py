"""Stand-in for scikit-fmm's ``distance``: signed distance to the zero contour
by the fast marching method (second order), not crossing masked cells."""
import heapq
import math
import sys

import numpy as np

__version__ = '0.0-standin'


def distance(phi, dx=1.0, self_test=False, order=2, narrow=0.0,
             periodic=False):
    if periodic or narrow:
        raise NotImplementedError('ShimMissing: skfmm options')
    if np.iterable(dx):
        if len(set(float(d) for d in dx)) != 1:
            raise NotImplementedError('ShimMissing: anisotropic dx')
        dx = list(dx)[0]
    dx = float(dx)
    if not dx > 0:
        raise ValueError('dx must be positive')
    if isinstance(phi, np.ma.MaskedArray):
        mask = np.array(np.ma.getmaskarray(phi))
        data = np.array(phi.data, dtype=np.float64)
    else:
        data = np.array(phi, dtype=np.float64)
        mask = np.zeros(data.shape, dtype=np.bool_)
    if data.ndim != 2:
        raise NotImplementedError('ShimMissing: skfmm in other dimensions')
    n, m = data.shape
    W = m + 4
    size = (n + 4) * W
    P = [0.0] * size
    MASK, FAR, FROZEN = 2, 0, 1
    flag = [MASK] * size
    rows, mrows = data.tolist(), mask.tolist()
    for i in range(n):
        base = (i + 2) * W + 2
        for j in range(m):
            P[base + j] = rows[i][j]
            if not mrows[i][j]:
                flag[base + j] = FAR
    BIG = sys.float_info.max
    D = [BIG] * size
    init = []
    for k in range(size):
        if flag[k] == MASK:
            continue
        p = P[k]
        if p == 0.0:
            init.append((k, 0.0))
            continue
        s = 0.0
        for step in (1, W):
            best = BIG
            for q in (k - step, k + step):
                if flag[q] != MASK and P[q] * p < 0:
                    d = dx * p / (p - P[q])
                    if d < best:
                        best = d
            if best < BIG:
                s += 1.0 / (best * best)
        if s > 0:
            init.append((k, math.sqrt(1.0 / s)))
    if not init:
        raise ValueError('the array phi contains no zero contour (no zero '
                         'level set)')
    for k, d in init:
        D[k] = d
        flag[k] = FROZEN

    def update(k):
        # absolute distances are marched; the sign is restored at the end
        for o in ((2, 1) if order == 2 else (1,)):
            a = b = c = 0.0
            for step in (1, W):
                v1 = v2 = BIG
                for sgn in (-step, step):
                    q = k + sgn
                    if flag[q] == FROZEN and P[q] * P[k] >= 0 and D[q] < v1:
                        v1 = D[q]
                        q2 = q + sgn
                        v2 = D[q2] if (flag[q2] == FROZEN and
                                       P[q2] * P[k] >= 0 and
                                       D[q2] <= v1) else BIG
                if v1 < BIG:
                    if o == 2 and v2 < BIG:
                        tp = (4.0 * v1 - v2) / 3.0
                        w = 9.0 / 4.0
                        a += w
                        b -= 2.0 * w * tp
                        c += w * tp * tp
                    else:
                        a += 1.0
                        b -= 2.0 * v1
                        c += v1 * v1
            if a == 0.0:
                return BIG
            c -= dx * dx
            det = b * b - 4.0 * a * c
            if det >= 0.0:
                return (-b + math.sqrt(det)) / (2.0 * a)
        # two sided update impossible: one sided from the closest neighbour
        best = BIG
        for q in (k - 1, k + 1, k - W, k + W):
            if flag[q] == FROZEN and P[q] * P[k] >= 0 and D[q] < best:
                best = D[q]
        return best + dx

    heap = []
    for k, _ in init:
        for q in (k - 1, k + 1, k - W, k + W):
            if flag[q] == FAR:
                d = update(q)
                if d < D[q]:
                    D[q] = d
                    heapq.heappush(heap, (d, q))
    while heap:
        d, k = heapq.heappop(heap)
        if flag[k] != FAR or d > D[k]:
            continue
        flag[k] = FROZEN
        for q in (k - 1, k + 1, k - W, k + W):
            if flag[q] == FAR:
                d = update(q)
                if d < D[q]:
                    D[q] = d
                    heapq.heappush(heap, (d, q))
    out = np.array(D).reshape(n + 4, W)[2:-2, 2:-2].copy()
    unreached = mask | (out == BIG)
    out[(data < 0) & ~unreached] *= -1.0
    if unreached.any():
        out[unreached] = BIG
        return np.ma.MaskedArray(out, unreached)
    return out


def travel_time(*args, **kwargs):
    raise NotImplementedError('ShimMissing: skfmm.travel_time')


def extension_velocities(*args, **kwargs):
    raise NotImplementedError('ShimMissing: skfmm.extension_velocities')
