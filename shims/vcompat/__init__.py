"""Names numpy dropped after the pinned commit was written, put back with their
old documented meaning so that the (unpinned) numpy installed here can run it."""
import numpy as np


def _asscalar(a):
    return np.asarray(a).item()


def install():
    if 'asscalar' not in np.__dict__:
        np.asscalar = _asscalar
    # removed from ruamel.yaml after loggingtools (pinned) was written
    try:
        import ruamel.yaml as ry

        def safe_load(stream):
            return ry.YAML(typ='safe', pure=True).load(stream)
        ry.safe_load = safe_load
    except ImportError:
        pass
