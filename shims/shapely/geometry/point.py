from .._geom import Point
