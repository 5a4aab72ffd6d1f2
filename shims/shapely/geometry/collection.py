from .._geom import GeometryCollection
