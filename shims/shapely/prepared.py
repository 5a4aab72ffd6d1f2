class PreparedGeometry(object):
    def __init__(self, context):
        self.context = context

    def contains(self, other):
        return self.context.contains(other)

    def covers(self, other):
        return self.context.covers(other)

    def intersects(self, other):
        return self.context.intersects(other)

    def disjoint(self, other):
        return self.context.disjoint(other)

    def crosses(self, other):
        return self.context.crosses(other)

    def overlaps(self, other):
        return self.context.overlaps(other)

    def touches(self, other):
        return self.context.touches(other)

    def within(self, other):
        return self.context.within(other)


def prep(ob):
    return PreparedGeometry(ob)
