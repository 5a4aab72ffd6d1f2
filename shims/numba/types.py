"""Just enough of numba's type objects for decorators to evaluate."""
import numpy as _np


class ShimMissing(NotImplementedError):
    """A third-party feature the stand-in does not provide."""


class Type(object):
    name = 'type'
    np_dtype = None

    @property
    def key(self):
        return (type(self).__name__, self.name)

    def __getitem__(self, item):
        ndim = len(item) if isinstance(item, tuple) else 1
        return Array(self, ndim, 'A')

    def __call__(self, *args):
        # Either a cast, ``f8(1)``, or a signature, ``f8(f8, f8)``
        if args and all(isinstance(a, Type) or a is None for a in args):
            return Signature(self, args)
        if not args:
            return Signature(self, args)
        if self.np_dtype is not None and len(args) == 1:
            return self.np_dtype(args[0])
        return Signature(self, args)

    def __repr__(self):
        return self.name

    def __eq__(self, other):
        return isinstance(other, Type) and self.key == other.key

    def __hash__(self):
        return hash(self.key)


class Signature(Type):
    def __init__(self, return_type, args):
        self.return_type = return_type
        self.args = args
        self.name = '{}{}'.format(return_type, tuple(args))


class Number(Type):
    def __init__(self, name='number', np_dtype=None, bitwidth=64):
        self.name = name
        self.np_dtype = np_dtype
        self.bitwidth = bitwidth


class Integer(Number):
    pass


class Float(Number):
    pass


class Complex(Number):
    pass


class Boolean(Number):
    pass


class Opaque(Type):
    def __init__(self, name):
        self.name = name


class NoneType(Opaque):
    pass


class Record(Type):
    def __init__(self, dtype):
        self.dtype = dtype
        self.name = 'Record({})'.format(dtype)


class Array(Type):
    def __init__(self, dtype=None, ndim=1, layout='C', readonly=False,
                 name=None, aligned=True):
        self.dtype = dtype
        self.ndim = ndim
        self.layout = layout
        self.name = 'array({}, {}d, {})'.format(dtype, ndim, layout)


Buffer = Array


class BaseTuple(Type):
    pass


class Tuple(BaseTuple):
    def __init__(self, types=()):
        self.types = tuple(types)
        self.name = 'Tuple{}'.format(self.types)


class UniTuple(BaseTuple):
    def __init__(self, dtype, count):
        self.dtype = dtype
        self.count = count
        self.types = (dtype,) * count
        self.name = 'UniTuple({} x {})'.format(dtype, count)


class Optional(Type):
    def __init__(self, type_):
        self.type = type_
        self.name = 'optional({})'.format(type_)


class Omitted(Type):
    def __init__(self, value=None):
        self.value = value
        self.name = 'omitted({})'.format(value)


class List(Type):
    def __init__(self, dtype=None, reflected=False):
        self.dtype = dtype
        self.name = 'list({})'.format(dtype)


class UnicodeType(Opaque):
    pass


def optional(t):
    return Optional(t)


SCALARS = []


def _mk(cls, np_dtype, *names):
    t = cls(names[0], np_dtype, _np.dtype(np_dtype).itemsize * 8)
    for n in names:
        globals()[n] = t
        SCALARS.append(n)
    return t


_mk(Float, _np.float64, 'float64', 'f8', 'double', 'float_')
_mk(Float, _np.float32, 'float32', 'f4')
_mk(Integer, _np.int64, 'int64', 'i8', 'int_', 'intp', 'long_', 'longlong')
_mk(Integer, _np.int32, 'int32', 'i4', 'intc')
_mk(Integer, _np.int16, 'int16', 'i2')
_mk(Integer, _np.int8, 'int8', 'i1')
_mk(Integer, _np.uint64, 'uint64', 'u8', 'uintp')
_mk(Integer, _np.uint32, 'uint32', 'u4')
_mk(Integer, _np.uint16, 'uint16', 'u2')
_mk(Integer, _np.uint8, 'uint8', 'u1')
_mk(Complex, _np.complex128, 'complex128', 'c16')
_mk(Complex, _np.complex64, 'complex64', 'c8')
boolean = bool_ = b1 = Boolean('bool', _np.bool_, 8)
SCALARS.extend(['boolean', 'bool_', 'b1'])
void = none = NoneType('none')
unicode_type = string = UnicodeType('unicode')
pyobject = Opaque('pyobject')

_BY_DTYPE = {_np.dtype(_np.float64): float64, _np.dtype(_np.float32): float32,
             _np.dtype(_np.int64): int64, _np.dtype(_np.int32): int32,
             _np.dtype(_np.bool_): boolean, _np.dtype(_np.uint64): uint64,
             _np.dtype(_np.int16): int16, _np.dtype(_np.int8): int8,
             _np.dtype(_np.uint8): uint8,
             _np.dtype(_np.complex128): complex128}


def from_dtype(dtype):
    dtype = _np.dtype(dtype)
    return _BY_DTYPE.get(dtype) or Record(dtype)


def typeof(value, purpose=None):
    if isinstance(value, _np.dtype):
        return from_dtype(value)
    if isinstance(value, _np.ndarray):
        return Array(from_dtype(value.dtype), value.ndim, 'A')
    if isinstance(value, (bool, _np.bool_)):
        return boolean
    if isinstance(value, _np.generic):
        return from_dtype(value.dtype)
    if isinstance(value, int):
        return int64
    if isinstance(value, float):
        return float64
    if isinstance(value, complex):
        return complex128
    if value is None:
        return none
    if isinstance(value, tuple):
        return Tuple(tuple(map(typeof, value)))
    if isinstance(value, list):
        return List(typeof(value[0]) if value else None)
    if isinstance(value, str):
        return unicode_type
    return pyobject
