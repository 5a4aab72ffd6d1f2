import math

import numpy as np


def _rng(random_state):
    if random_state is None:
        return np.random.mtrand._rand
    if isinstance(random_state, (int, np.integer)):
        return np.random.RandomState(random_state)
    return random_state


def _cdf(x):
    return 0.5 * math.erfc(-x / math.sqrt(2.0))


class _TruncNorm(object):
    def rvs(self, a, b, loc=0.0, scale=1.0, size=1, random_state=None):
        a = np.asarray(a, dtype=np.float64)
        b = np.asarray(b, dtype=np.float64)
        if a.ndim or b.ndim:
            raise NotImplementedError('ShimMissing: array bounds')
        a, b = float(a), float(b)
        if not a < b:
            raise ValueError('Domain error in arguments.')
        sc = np.asarray(scale, dtype=np.float64)
        lo = np.asarray(loc, dtype=np.float64)
        if not np.all(sc >= 0):
            raise ValueError('Domain error in arguments.')
        rng = _rng(random_state)
        if size is None:
            size = np.broadcast(sc, lo).shape
        shape = tuple(size) if np.iterable(size) else (int(size),)
        full = np.broadcast_shapes(sc.shape, lo.shape) \
            if hasattr(np, 'broadcast_shapes') else np.broadcast(sc, lo).shape
        # scipy: requested size must be compatible with the parameters
        np.broadcast_shapes(shape, full)
        if np.broadcast_shapes(shape, full) != shape:
            raise ValueError('size does not match the broadcast shape of the '
                             'parameters.')
        n = int(np.prod(shape)) if shape else 1
        z = self._standard(a, b, n, rng).reshape(shape)
        out = z * sc + lo
        return out

    @staticmethod
    def _standard(a, b, n, rng):
        pa, pb = _cdf(a), _cdf(b)
        if pb - pa < 1e-3:
            # far tail: bisection on the survival function
            if a >= 0:
                fa, fb = 0.5 * math.erfc(a / 2 ** .5), \
                    0.5 * math.erfc(b / 2 ** .5)
                u = rng.uniform(size=n)
                return np.array([_isf(fa + (fb - fa) * x, a, b) for x in u])
            if b <= 0:
                return -_TruncNorm._standard(-b, -a, n, rng)
            u = rng.uniform(size=n)
            return a + (b - a) * u
        out = np.empty(n)
        k = 0
        while k < n:
            x = rng.normal(size=max(16, int(1.3 * (n - k) / (pb - pa)) + 4))
            x = x[(x >= a) & (x <= b)][:n - k]
            out[k:k + len(x)] = x
            k += len(x)
        return out

    def cdf(self, x, a, b, loc=0.0, scale=1.0):
        x = (np.asarray(x, dtype=np.float64) - loc) / scale
        pa, pb = _cdf(a), _cdf(b)
        f = np.vectorize(lambda v: min(1.0, max(
            0.0, (_cdf(min(max(v, a), b)) - pa) / (pb - pa))))
        return f(x)

    def __call__(self, a, b, loc=0.0, scale=1.0):
        return _Frozen(self, a, b, loc, scale)


class _Frozen(object):
    def __init__(self, dist, a, b, loc, scale):
        self.dist, self.args = dist, (a, b, loc, scale)

    def rvs(self, size=1, random_state=None):
        a, b, loc, scale = self.args
        return self.dist.rvs(a, b, loc, scale, size, random_state)

    def cdf(self, x):
        return self.dist.cdf(x, *self.args)


def _isf(p, a, b):
    lo, hi = a, b
    for _ in range(80):
        mid = 0.5 * (lo + hi)
        if 0.5 * math.erfc(mid / 2 ** .5) > p:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


truncnorm = _TruncNorm()


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise NotImplementedError('ShimMissing: scipy.stats.' + name)
