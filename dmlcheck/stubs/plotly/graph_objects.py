"""What the analysed code can observe of plotly figures: the traces and their arguments."""


class _Trace:
    def __init__(self, **kwargs):
        self.kwargs = kwargs


class Contour(_Trace):
    pass


class Scatter(_Trace):
    pass


class Figure:
    def __init__(self, data=None, layout=None):
        self.data = [] if data is None else list(data)
        self.layout = [] if layout is None else [layout]

    def add_trace(self, trace):
        self.data.append(trace)
        return self

    def add_contour(self, **kwargs):
        return self.add_trace(Contour(**kwargs))

    def add_scatter(self, **kwargs):
        return self.add_trace(Scatter(**kwargs))

    def update_layout(self, **kwargs):
        self.layout.append(kwargs)
        return self

    def update_xaxes(self, **kwargs):
        self.layout.append({"x": kwargs})
        return self

    def update_yaxes(self, **kwargs):
        self.layout.append({"y": kwargs})
        return self
