from .typeof import typeof
