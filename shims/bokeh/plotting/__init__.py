from ..io import output_file, save, show


class _Anything(object):
    pass


class _Range(object):
    start = end = None


class Figure(object):
    def __init__(self, plot_width=600, plot_height=600, **kwargs):
        self.plot_width = plot_width
        self.plot_height = plot_height
        self.kwargs = kwargs
        self.glyphs = []
        self.grid = _Anything()
        self.legend = _Anything()
        # bokeh: DataRange1d, without start and end until rendering
        self.x_range = _Range()
        self.y_range = _Range()
        self.title = _Anything()

    def _glyph(self, name):
        def add(*args, **kwargs):
            self.glyphs.append((name, args, kwargs))
        return add

    def __getattr__(self, name):
        if name in ('circle', 'line', 'patch', 'segment', 'triangle', 'image'):
            return self._glyph(name)
        if name.startswith('_'):
            raise AttributeError(name)
        raise NotImplementedError('ShimMissing: bokeh Figure.' + name)


def figure(**kwargs):
    return Figure(**kwargs)
