"""Minimal stand-in: traittypes only needs these names to exist."""
__version__ = '0.0-shim'


class DataFrame(object):
    pass


class Series(object):
    pass


def set_option(*a, **k):
    return None
