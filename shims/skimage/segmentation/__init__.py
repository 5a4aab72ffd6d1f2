import numpy as np


def find_boundaries(label_img, connectivity=1, mode='thick', background=0):
    mask = np.asarray(label_img)
    if mask.dtype != np.bool_ or mask.ndim != 2 or connectivity != 1:
        raise NotImplementedError('ShimMissing: find_boundaries of labels')

    def dilate(m):
        out = m.copy()
        out[1:] |= m[:-1]
        out[:-1] |= m[1:]
        out[:, 1:] |= m[:, :-1]
        out[:, :-1] |= m[:, 1:]
        return out

    if mode == 'outer':
        return dilate(mask) & ~mask
    if mode == 'inner':
        return dilate(~mask) & mask
    if mode == 'thick':
        return dilate(mask) & dilate(~mask)
    raise NotImplementedError('ShimMissing: mode ' + mode)
