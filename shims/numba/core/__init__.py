from .. import types
