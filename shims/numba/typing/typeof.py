from ..types import typeof, Type
