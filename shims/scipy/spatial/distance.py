import numpy as np


def cdist(a, b, metric='euclidean'):
    if metric != 'euclidean':
        raise NotImplementedError('ShimMissing: metric')
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return np.sqrt(((a[:, None, :] - b[None, :, :]) ** 2).sum(axis=2))


def pdist(a, metric='euclidean'):
    d = cdist(a, a, metric)
    return d[np.triu_indices(len(d), 1)]


def squareform(d):
    n = int(round((1 + (1 + 8 * len(d)) ** 0.5) / 2))
    out = np.zeros((n, n))
    out[np.triu_indices(n, 1)] = d
    return out + out.T
