def interior_point(poly):
    x0, y0, x1, y1 = poly.bounds
    from ._geom import Point
    n = 7
    while n < 2000:
        for i in range(1, n):
            for j in range(1, n):
                p = (x0 + (x1 - x0) * i / n, y0 + (y1 - y0) * j / n)
                if poly.contains(Point(p)):
                    return p
        n = 2 * n + 1
    raise NotImplementedError('interior point')
