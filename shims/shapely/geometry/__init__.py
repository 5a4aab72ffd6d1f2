from .._geom import (BaseGeometry, Point, LineString, LinearRing, Polygon,
                     MultiPoint, MultiLineString, MultiPolygon,
                     GeometryCollection, mapping, shape, box, asShape)
from . import base, point, linestring, polygon, multipoint, multipolygon, \
    multilinestring, collection
