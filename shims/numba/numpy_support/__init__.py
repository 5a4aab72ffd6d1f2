from ..types import from_dtype
