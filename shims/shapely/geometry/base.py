from .._geom import BaseGeometry, BaseMultipartGeometry, GeometryCollection as _GC
EmptyGeometry = BaseGeometry

