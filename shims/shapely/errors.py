class ShapelyError(Exception):
    pass


class TopologicalError(ShapelyError):
    pass


class PredicateError(ShapelyError):
    pass
