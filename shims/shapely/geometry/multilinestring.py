from .._geom import MultiLineString
