"""Interpreted stand-in for numba.

The kernels of crowddynamics are plain Python functions decorated with
``numba.jit``; running them interpreted executes the very same statements, with
two differences that only make monitoring stricter: out-of-range indices raise
IndexError instead of reading foreign memory, and floating point errors can be
trapped through numpy's error state.

Arguments that are ``numpy.ma.MaskedArray`` are handed to a kernel as their
data, as numba does (it does not know about masks).
"""
import functools
import inspect as _inspect

import numpy as _np
from numpy.ma import MaskedArray as _MaskedArray

from . import types
from .types import (Float, Integer, Boolean, Array, Tuple, UniTuple, optional,
                    void, boolean, bool_, none)

__version__ = '0.0-interpreted'

for _n in types.SCALARS:
    globals()[_n] = getattr(types, _n)

typeof = types.typeof


class _Dispatcher(object):
    pass


def _strip(a):
    if isinstance(a, _MaskedArray):
        return a.data
    if type(a) is tuple:
        for x in a:
            if isinstance(x, _MaskedArray):
                return tuple(x.data if isinstance(x, _MaskedArray) else x
                             for x in a)
    return a


def _needs(a):
    return isinstance(a, _MaskedArray) or type(a) is tuple


#: Names of executed kernels, filled in when tracing is switched on.
TRACE = None


def _wrap(func):
    @functools.wraps(func)
    def kernel(*args, **kwargs):
        if TRACE is not None:
            TRACE[func.__name__] = TRACE.get(func.__name__, 0) + 1
        for a in args:
            if isinstance(a, _MaskedArray) or type(a) is tuple:
                args = tuple(map(_strip, args))
                break
        if kwargs:
            kwargs = {k: _strip(v) for k, v in kwargs.items()}
        return func(*args, **kwargs)

    kernel.py_func = func
    kernel.signatures = []
    kernel.nopython_signatures = []
    kernel.recompile = lambda: None
    kernel.inspect_types = lambda *a, **k: None
    return kernel


def jit(signature_or_function=None, *args, **kwargs):
    if callable(signature_or_function) and not isinstance(
            signature_or_function, types.Type):
        return _wrap(signature_or_function)
    return _wrap


def njit(signature_or_function=None, *args, **kwargs):
    return jit(signature_or_function, *args, **kwargs)


def _otypes(signatures):
    if signatures is None:
        return None
    if isinstance(signatures, (list, tuple)):
        signatures = signatures[0] if len(signatures) else None
    ret = getattr(signatures, 'return_type', None)
    if ret is None:
        return None
    return getattr(ret, 'np_dtype', None)


def vectorize(ftylist_or_function=None, *args, **kwargs):
    def decorate(func, otype=None):
        vec = None

        @functools.wraps(func)
        def ufunc(*a, **k):
            if all(not isinstance(x, _np.ndarray) and
                   not isinstance(x, (list, tuple)) for x in a):
                # numpy ufuncs return numpy scalars
                r = func(*(float(x) if isinstance(x, (int, float)) and
                           not isinstance(x, bool) else x for x in a))
                return _np.float64(r) if isinstance(r, float) else r
            arrs = _np.broadcast_arrays(*[_np.asarray(x) for x in a])
            res = _np.empty(arrs[0].shape, dtype=otype or _np.float64)
            flat = res.reshape(-1)
            for i, row in enumerate(zip(*[x.reshape(-1) for x in arrs])):
                flat[i] = func(*row)
            out = k.get('out')
            if out is not None:
                out[...] = res
                return out
            return res if res.ndim else res[()]

        ufunc.py_func = func
        return ufunc

    if callable(ftylist_or_function) and not isinstance(
            ftylist_or_function, types.Type):
        return decorate(ftylist_or_function)
    ot = _otypes(ftylist_or_function)
    return lambda f: decorate(f, ot)


def generated_jit(function=None, *args, **kwargs):
    def decorate(func):
        cache = {}

        @functools.wraps(func)
        def dispatcher(*a, **k):
            a = tuple(map(_strip, a))
            tys = tuple(typeof(x) for x in a)
            key = tuple(t.key for t in tys)
            impl = cache.get(key)
            if impl is None:
                impl = cache[key] = func(*tys)
                if impl is None:
                    raise TypeError('no implementation for {}'.format(tys))
            return impl(*a, **k)

        dispatcher.py_func = func
        return dispatcher

    if function is not None:
        return decorate(function)
    return decorate


def guvectorize(*args, **kwargs):
    raise types.ShimMissing('numba.guvectorize')


def jitclass(*args, **kwargs):
    return lambda cls: cls


def prange(*args):
    return range(*args)


def literally(x):
    return x


def literal_unroll(x):
    return x


class _Config(object):
    DISABLE_JIT = True
    NUMBA_NUM_THREADS = 1


config = _Config()


def stencil(*args, **kwargs):
    raise types.ShimMissing('numba.stencil')


def __getattr__(name):
    if name.startswith('__'):
        raise AttributeError(name)
    if hasattr(types, name):
        return getattr(types, name)
    raise AttributeError(name)
