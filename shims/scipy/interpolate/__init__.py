import numpy as np


class NearestNDInterpolator(object):
    def __init__(self, x, y, rescale=False, tree_options=None):
        if rescale:
            raise NotImplementedError('ShimMissing: rescale')
        self.points = np.asarray(x, dtype=np.float64)
        self.values = np.asarray(y)
        if self.points.ndim != 2:
            raise ValueError('invalid shape for input data points')
        if self.points.shape[0] != self.values.shape[0]:
            raise ValueError('different number of values and points')

    def __call__(self, *args):
        if len(args) == 1 and not isinstance(args[0], tuple):
            xi = np.asarray(args[0], dtype=np.float64)
        else:
            cols = args[0] if len(args) == 1 else args
            xi = np.stack(np.broadcast_arrays(*[np.asarray(c, dtype=np.float64)
                                                for c in cols]), axis=-1)
        shape = xi.shape[:-1]
        xi = xi.reshape(-1, self.points.shape[1])
        if len(xi) == 0:
            return np.zeros(shape, dtype=self.values.dtype)
        if len(self.points) == 0:
            raise ValueError('no points')
        out = np.empty(len(xi), dtype=np.int64)
        step = max(1, int(2e6 // max(1, len(self.points))))
        for s in range(0, len(xi), step):
            d = np.zeros((len(xi[s:s + step]), len(self.points)))
            for k in range(self.points.shape[1]):
                d += (xi[s:s + step, k][:, None] -
                      self.points[:, k][None, :]) ** 2
            out[s:s + step] = np.argmin(d, axis=1)
        return self.values[out].reshape(shape)


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise NotImplementedError('ShimMissing: scipy.interpolate.' + name)
