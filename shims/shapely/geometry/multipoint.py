from .._geom import MultiPoint
