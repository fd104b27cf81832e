"""Stand-in for the part of matplotlib the plotting modules are built on.

An assumed contract on the dependency: an Axes keeps the arrays plot() is
given and draws one line per column of y over x (a single x for all columns,
or a column of x each); formatters, patches and figures only keep what they
are given.  Cross-checked by the concrete leg, which runs the same contracts
on the real matplotlib.
"""
import sys
import types
from engine.core import Unsupported


class Formatter(object):
    def __init__(self, *k, **kw):
        self.given = k, kw
        self.locs = []


class FormatStrFormatter(Formatter):
    def __init__(self, fmt):
        Formatter.__init__(self)
        self.fmt = fmt

    def __call__(self, x, pos=None):
        raise Unsupported("text of a tick")


class EngFormatter(Formatter):
    pass


class XYAxis(object):
    def __init__(self):
        self.formatter = Formatter()

    def set_major_formatter(self, f):
        self.formatter = f

    def get_major_formatter(self):
        return self.formatter

    def set_ticks(self, *k, **kw):
        pass


class Lines(list):
    """What was drawn: one entry for each call of plot."""


class Axes(object):
    name = "rectilinear"

    def __init__(self, *k, **kw):
        self.axes = self
        self.xaxis = XYAxis()
        self.yaxis = XYAxis()
        self.patches = []
        self.labels = {}

    def plot(self, *args, **kwargs):
        data = [a for a in args if not isinstance(a, str)]
        if len(data) == 1:
            data = [None] + data
        if len(data) != 2:
            raise Unsupported("several curves in one call")
        out = Lines()
        out.x, out.y = data
        if out.y.ndim > 2 or (out.x is not None and out.x.ndim > 2):
            raise ValueError("x and y can be no greater than 2D")
        out.args = [a for a in args if isinstance(a, str)]
        out.kwargs = kwargs
        return out

    def set_xlabel(self, label, *k, **kw):
        self.labels["x"] = label

    def set_ylabel(self, label, *k, **kw):
        self.labels["y"] = label

    def add_patch(self, p):
        self.patches.append(p)
        return p

    def set_frame_on(self, b):
        pass

    def axis(self, *k, **kw):
        pass


class PolarAxes(Axes):
    name = "polar"


class Patch(object):
    def __init__(self, *k, **kw):
        self.given = k, kw


class Circle(Patch):
    pass


class Polygon(Patch):
    pass


class Arc(Patch):
    def __init__(self, xy, width, height, *, angle=0.0, theta1=0.0,
                 theta2=360.0, **kw):
        self.xy, self.width, self.height = xy, width, height
        self.angle, self.theta1, self.theta2 = angle, theta1, theta2


PROJECTIONS = {}


def register_projection(cls):
    PROJECTIONS[cls.name] = cls


def install(Stub):
    def mod(name, **kw):
        m = Stub(name)
        m.__path__ = []
        for k, v in kw.items():
            setattr(m, k, v)
        sys.modules[name] = m
        return m
    tick = mod("matplotlib.ticker", FormatStrFormatter=FormatStrFormatter,
               EngFormatter=EngFormatter)
    axes = mod("matplotlib.axes", Axes=Axes)
    polar = mod("matplotlib.projections.polar", PolarAxes=PolarAxes)
    proj = mod("matplotlib.projections", polar=polar,
               register_projection=register_projection)
    pat = mod("matplotlib.patches", Arc=Arc, Circle=Circle, Polygon=Polygon)
    plt = mod("matplotlib.pyplot", Circle=Circle, Polygon=Polygon)
    mod("pylab")
    hp = mod("matplotlib._pylab_helpers")
    pdf = mod("matplotlib.backends.backend_pdf")
    back = mod("matplotlib.backends", backend_pdf=pdf)
    mod("matplotlib", ticker=tick, axes=axes, projections=proj, patches=pat,
        pyplot=plt, _pylab_helpers=hp, backends=back)
