from .._geom import MultiPolygon
