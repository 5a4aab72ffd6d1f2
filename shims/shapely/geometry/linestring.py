from .._geom import LineString
