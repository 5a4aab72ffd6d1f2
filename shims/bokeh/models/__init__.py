class Range1d(object):
    def __init__(self, start=0, end=1, **kwargs):
        self.start = start
        self.end = end
