"""What a plot draws, and the circles of the Smith chart."""
from engine.contract import contract
from contracts.common import make_dim, make_dims, mk, untouched

PH = "plotting.helper:"
PS = "plotting.smith:"


def axes(w, name):
    w.mod("hftools.plotting")
    if w.symbolic:
        from engine import symmpl
        return symmpl.PROJECTIONS[name]()
    from matplotlib.figure import Figure
    return Figure().add_subplot(111, projection=name)


class Drawn(object):
    """Lines as two functions of point and line number."""

    def __init__(self, w, lines):
        self.w, self.lines = w, lines

    def count(self):
        if self.w.symbolic:
            return 1 if self.lines.y.ndim == 1 else self.lines.y.shape[1]
        return len(self.lines)

    def points(self):
        if self.w.symbolic:
            return self.lines.y.shape[0]
        return len(self.lines[0].get_ydata(orig=True))

    def get(self, which, i, k):
        if self.w.symbolic:
            a = getattr(self.lines, which)
            if a.ndim == 1:
                return self.w.at(a, (i,))
            n = a.shape[1]
            return self.w.at(a, (i, 0 if type(n) is int and n == 1 else k))
        ln = self.lines[k]
        d = ln.get_xdata(orig=True) if which == "x" else \
            ln.get_ydata(orig=True)
        return self.w.np.asarray(d)[i]


QUANTITY = {
    "db": lambda w, y: 20 * w.log10(w.absv(y)),
    "db10": lambda w, y: 10 * w.log10(w.absv(y)),
    "mag": lambda w, y: w.absv(y),
    "mag_square": lambda w, y: w.absv(y) * w.absv(y),
    "rad": lambda w, y: w.angle(y),
    "deg": lambda w, y: w.angle(y) * 180 / w.pi,
    "real": lambda w, y: w.re(y),
    "imag": lambda w, y: w.im(y),
    "x-si": lambda w, y: y,
}
PLAIN = ("rectilinear", "unity", "cplx", "cpolar", "smith")
SHAPES = ("f", "fr", "rf", "frs", "fgr", "sfgr", "r", "p")


def away(w, raw):
    if not w.symbolic:
        w.assume(bool((abs(w.np.asarray(raw)) > 1e-3).all()))


def call(w, ax, Y, X, how, over):
    kw = {"projection": over} if over else {}
    if how == "y":
        return ax.plot(Y, **kw)
    if how == "y fmt":
        return ax.plot(Y, "r-", **kw)
    if how == "x y fmt":
        return ax.plot(X, Y, "b--", **kw)
    return ax.plot(X, Y, **kw)


@contract("C28", [PH + "HFToolsAxes.plot", PH + "HFToolsAxes._plot_helper",
                  PH + "_projfun"],
          cases=[dict(p=p, d=d, how=how, k=k, over=over)
                 for p in sorted(QUANTITY) + list(PLAIN)
                 for d in SHAPES for how in ("y", "y fmt", "x y", "x y fmt",
                                             "full x y")
                 for k in ("f", "c") for over in (False, True)
                 if not (k == "c" and p == "x-si") and
                 not (over and p in PLAIN[1:]) and
                 (how != "full x y" or len(d) > 1) and
                 (not over or d in ("f", "fr", "rf")) and
                 (p != "smith" or (d in ("f", "fr") and how == "y")) and
                 (how in ("y", "x y") or d in ("f", "fr", "frs"))])
def drawn_over_sweep(w, p, d, how, k, over):
    """One line for each coordinate of the outer axes, over the first."""
    dims = make_dims(w, d)
    Y, ry = mk(w, "y", d, dims, k)
    away(w, ry)
    xd = d if how == "full x y" else d[:1]
    X, rx = mk(w, "x", xd, dims, "f")
    if over:
        ax = axes(w, "rectilinear" if p != "rectilinear" else "db")
    else:
        ax = axes(w, p)
    lines = Drawn(w, call(w, ax, Y, X, how, p if over else None))
    sizes = [w.size_of(dims[c]) for c in d]
    n = 1
    for s in sizes[1:]:
        n = n * s
    w.true("as many lines as outer coordinates", lines.count() == n)
    w.true("as many points as the first axis has", lines.points() == sizes[0])
    for idx in w.forall(sizes):
        col = w.flat(idx[1:], sizes[1:]) if len(d) > 1 else 0
        y = w.at(ry, idx)
        if p in QUANTITY:
            want = QUANTITY[p](w, y)
        elif k == "c":
            want = w.im(y)
        else:
            want = y
        w.eq("ordinate", lines.get("y", idx[0], col), want)
        if p not in QUANTITY and k == "c":
            want = w.re(y)
        elif how in ("y", "y fmt"):
            want = w.at(w.data(dims[d[0]]), idx[:1])
        else:
            want = w.at(rx, idx[:len(xd)])
        w.eq("abscissa", lines.get("x", idx[0], col), want)
    untouched(w, "the array is as it was", Y, ry, [dims[c] for c in d])
    untouched(w, "the abscissa is as it was", X, rx, [dims[c] for c in xd])


@contract("C28", [PH + "_projfun", PH + "HFToolsAxes.plot"],
          cases=[dict(p=p, d=d, how=how) for p in (
              "unwraprad", "unwrapdeg", "groupdelay")
              for d in ("f", "fr", "frs", "fgr") for how in ("y", "x y")])
def drawn_along_sweep(w, p, d, how):
    """Continuous phase and group delay are those of hftools.math."""
    dims = make_dims(w, d)
    if not w.symbolic:
        w.assume(w.size_of(dims["f"]) > 1)
    Y, ry = mk(w, "y", d, dims, "c")
    away(w, ry)
    ds = w.ds
    if how == "y":
        X = ds.hfarray(dims["f"])
    else:
        X, _ = mk(w, "x", "f", dims, "f")
    ma = w.mod("hftools.math")
    ax = axes(w, p)
    lines = Drawn(w, call(w, ax, Y, X, how, None))
    if p == "groupdelay":
        WX, WY = ma.delay(X, Y)
    else:
        WX, WY = X, ma.unwrap_phase(Y, deg=p == "unwrapdeg")
    sizes = [w.size_of(x) for x in WY.dims]
    w.true("same outer axes", WY.ndim == len(d))
    n = 1
    for s in sizes[1:]:
        n = n * s
    w.true("as many lines as outer coordinates", lines.count() == n)
    for idx in w.forall(sizes):
        col = w.flat(idx[1:], sizes[1:]) if len(d) > 1 else 0
        w.eq("ordinate", lines.get("y", idx[0], col), w.at(WY, idx))
        w.eq("abscissa", lines.get("x", idx[0], col),
             w.at(WX, idx[:1] + tuple(
                 0 if type(n) is int and n == 1 else i
                 for n, i in zip(WX.shape[1:], idx[1:]))))
    untouched(w, "the array is as it was", Y, ry, [dims[c] for c in d])


@contract("C28", [PH + "ComplexPolarAxes.plot", PH + "cplx_polar_projection"],
          cases=[dict(d=d, k=k, how=how) for d in ("f", "fr", "frs", "rf")
                 for k, how in (("c", "y"), ("c", "y fmt"), ("c", "x y"),
                                ("c", "x y fmt"), ("f", "x y"))
                 if k == "c" or len(d) == 1])
def drawn_polar(w, d, k, how):
    """Angle and magnitude of the number; of x + iy for two real arrays."""
    dims = make_dims(w, d)
    Y, ry = mk(w, "y", d, dims, k)
    X, rx = mk(w, "x", d[:1], dims, "f")
    away(w, ry)
    ax = axes(w, "cplxpolar")
    lines = Drawn(w, call(w, ax, Y, X, how, None))
    sizes = [w.size_of(dims[c]) for c in d]
    for idx in w.forall(sizes):
        col = w.flat(idx[1:], sizes[1:]) if len(d) > 1 else 0
        z = w.at(ry, idx)
        if k == "f":
            z = w.at(rx, idx[:1]) + w.j * z
        w.eq("radius", lines.get("y", idx[0], col), w.absv(z))
        w.eq("direction", w.absv(z) * w.exp(
            w.j * w.num(lines.get("x", idx[0], col))), z)
    untouched(w, "the array is as it was", Y, ry, [dims[c] for c in d])


@contract("C28", [PH + "HFToolsAxes.plot", PH + "HFToolsAxes.set_xlabel_unit",
                  PH + "UnitFormatter.set_label_unit",
                  PH + "UnitFormatter.get_label_unit"],
          cases=[dict(p=p, how=how, u=u) for p in (
              "db", "mag", "mag_square", "real", "imag", "deg", "rad",
              "x-si", "cplx", "unity") for how in ("y", "x y")
              for u in ("Hz", "s", None)] +
              [dict(p="cplx", how=how, u=u, kind="c", v=v)
               for how in ("y", "x y") for u in ("Hz", None)
               for v in ("V", None)])
def axis_units(w, p, how, u, kind="f", v=None):
    """The axis of the plot has the unit of the axis of the array."""
    ds = w.ds
    n = w.size("n")
    f = ds.DimSweep("f", w.raw("f", (n,)), unit=u)
    ry = w.raw("y", (n,), kind)
    away(w, ry)
    Y = ds.hfarray(ry, dims=(f,), unit="V" if p == "real" else v)
    X = ds.hfarray(f)
    ax = axes(w, p)
    call(w, ax, Y, X, how, None)
    if kind == "c":
        w.true("units of both parts", ax.get_xlabel_unit() == (v or "") and
               ax.get_ylabel_unit() == (v or ""))
        return
    w.true("unit of the abscissa", ax.get_xlabel_unit() == (u or ""))
    if p == "real":
        w.true("unit of the ordinate", ax.get_ylabel_unit() == "V")
    if p == "db":
        w.true("decibel", ax.get_ylabel_unit() == "dB")


PREFIX = {"": 0, "k": 3, "M": 6, "G": 9, "T": 12, "m": -3, "u": -6, "n": -9,
          "p": -12, "f": -15, "a": -18, "P": 15, "E": 18, "\xb5": -6,
          "\u03bc": -6, "z": -21, "y": -24, "Z": 21, "Y": 24}


@contract("C28", [PH + "UnitFormatter.__call__",
                  PH + "SimpleUnitFormatter.__call__"],
          cases=[dict(p=p, fmt=fmt) for p in ("mag", "db", "real", "x-si")
                 for fmt in (None, "Voltage []")], prove=False, runs=25)
def tick_texts(w, p, fmt):
    """The number at a tick with the prefix of the label is its value."""
    ds = w.ds
    ax = axes(w, p)
    n = w.size("n", 2)
    scale = w.choice("scale", [1e-12, 3e-10, 1e-9, 2e-6, 1e-3, 0.5, 1, 7, 1e3,
                               2.5e4, 1e6, 3e9, 1e12, 1e30, 3e-29])
    f = ds.DimSweep("f", w.np.arange(n) + 1., unit="Hz")
    ax.plot(ds.hfarray(w.np.arange(n) + 1., dims=(f,)))
    if fmt:
        ax.set_xlabel_fmt(fmt)
    step = w.choice("step", [1, 2, 2.5, 0.5, 0.25])
    start = w.choice("start", [-3, -1, 0, 1, 4])
    locs = [(start + step * i) * scale for i in range(6)]
    fo = ax.xaxis.get_major_formatter()
    fo.locs = locs
    for x in locs:
        text = fo(x)
        label = ax.get_xlabel()
        w.true("label ends in the unit: %r" % label, label.endswith("Hz]"))
        pre = label[label.index("[") + 1:-3]
        w.true("prefix is known: %r" % pre, pre in PREFIX)
        v = float(text.replace("\u2212", "-")) * 10. ** PREFIX[pre]
        big = max(abs(y) for y in locs)
        w.true("tick %r [%s] is %r" % (text, pre, x),
               abs(v - x) <= 0.006 * big)
        if fmt:
            w.true("label as asked for", label.startswith("Voltage "))


@contract("C29", [PS + "z2gamma", PS + "y2gamma", PS + "RCircle",
                  PS + "XCircle", PS + "GCircle", PS + "BCircle"],
          cases=[dict(kind=k, sign=s) for k in "RXGB" for s in (1, -1)])
def circles(w, kind, sign):
    """Every reflection coefficient of that r, x, g or b is on the circle."""
    m = w.mod("hftools.plotting.smith")
    a = w.pos("a")
    if kind in "XB":
        a = sign * a
    elif sign < 0:
        a = w.num(0)
    t = w.real("t")
    c = getattr(m, kind + "Circle")(a)
    z = a + w.j * t if kind in "RG" else t * t + w.j * a
    if kind in "RX":
        gamma = (z - 1) / (z + 1)
    else:
        gamma = (1 - z) / (1 + z)
    d = gamma - (c.x + w.j * c.y)
    w.eq("distance from the centre", d * w.conj(d), w.num(c.r) * c.r)
    w.true("a radius", c.r > 0)
    w.eq("reflection coefficient of an impedance", m.z2gamma(z),
         (z - 1) / (z + 1))
    w.eq("reflection coefficient of an admittance", m.y2gamma(z),
         (1 - z) / (1 + z))
    w.true("a whole circle", c.t1 is None and c.t2 is None)


@contract("C29", [PS + "XCircle", PS + "BCircle", PS + "MyLine"],
          cases=[dict(kind=k, part=p) for k in "XB" for p in (False, True)])
def real_axis(w, kind, part):
    """For x = 0 or b = 0 the circle is a piece of the real axis."""
    m = w.mod("hftools.plotting.smith")
    f = getattr(m, kind + "Circle")
    if not part:
        c = f(0)
        ends = (w.num(-1), w.num(1))
    else:
        g1, g2 = w.pos("g1"), w.pos("g2")
        c = f(0, g1, g2)
        ends = [(g - 1) / (g + 1) for g in (g1, g2)]
        if kind == "B":
            ends = [-e for e in ends]
    w.eq("first end", c.x1, ends[0])
    w.eq("second end", c.x2, ends[1])
    w.true("on the axis", c.y1 == 0 and c.y2 == 0)
    w.true("its coordinates", c.xdata == [c.x1, c.x2] and
           c.ydata == [c.y1, c.y2])


def turn(x, lo):
    """x modulo 360 in [lo, lo + 360)."""
    return lo + (x - lo) % 360


@contract("C29", [PS + "RCircle", PS + "XCircle", PS + "GCircle",
                  PS + "BCircle", PS + "angle"],
          cases=[dict(kind=k, ends=e) for k in "RXGB"
                 for e in ("all", "half", "any")], prove=False, runs=30)
def arcs(w, kind, ends):
    """The arc between two values holds the points between them only."""
    import math
    m = w.mod("hftools.plotting.smith")
    a = w.choice("a", [0.2, 1 / 3., 0.5, 1, 2, 3, 7.5, "any"])
    if a == "any":
        a = abs(w.real("ra")) + 0.05
    inf = float("inf")
    if kind in "XB":
        a = a * w.choice("sign", [1, -1])
        lo, hi = {"all": (0, inf), "half": (0, 1)}.get(ends) or sorted(
            abs(w.real("r%d" % i)) + 0.3 * i for i in range(2))
    else:
        lo, hi = {"all": (-inf, inf),
                  "half": w.choice("half", [(0, inf), (-inf, 0)])}.get(
            ends) or sorted(w.real("r%d" % i) + 0.3 * i for i in range(2))
    w.assume(hi - lo > 0.1)
    c = getattr(m, kind + "Circle")(a, *w.choice("order", [(lo, hi),
                                                           (hi, lo)]))
    span = turn(c.t2 - c.t1, 1e-6)

    def where(t):
        z = complex(a, t) if kind in "RG" else complex(t, a)
        g = (z - 1) / (z + 1) if kind in "RX" else (1 - z) / (1 + z)
        d = g - complex(c.x, c.y)
        return turn(math.degrees(math.atan2(d.imag, d.real)) - c.t1, -1e-6)
    for k in range(9):
        t0 = max(lo, -30.) if kind in "RG" else lo
        t1 = min(hi, 30.)
        t = t0 + (t1 - t0) * (k + 0.5) / 9
        w.true("a point between is on the arc: %r %r" % (t, (lo, hi)),
               where(t) <= span + 1e-6)
    out = []
    if lo > -1e300 and kind in "RG":
        out += [lo - 0.1, lo - 2]
    if kind in "XB" and lo > 0.11:
        out += [lo - 0.1]
    if hi < 1e300:
        out += [hi + 0.1, hi + 2]
    for t in out:
        w.true("a point outside is not on the arc: %r %r" % (t, (lo, hi)),
               where(t) > span)


@contract("C29", [PS + "smith", PS + "inv_smith", PS + "smith_grid",
                  PS + "smith_lower", PS + "smith_upper", PS + "polar_grid",
                  PS + "MyCircle.get_artist", PS + "MyLine.get_artist"],
          cases=[dict(what=x) for x in (
              "smith", "inv_smith", "smith_lower", "smith_upper",
              "smith_polar", "polar")], prove=False, runs=1)
def grids(w, what):
    """The grid of a chart is inside the unit circle, arcs as circles say."""
    import math
    w.mod("hftools.plotting")
    m = w.mod("hftools.plotting.smith")
    from matplotlib.figure import Figure
    from matplotlib.patches import Arc, Circle
    fig = Figure()
    ax = fig.add_subplot(111, projection="rectilinear")
    if what == "polar":
        m.polar_grid(ax)
    else:
        getattr(m, what)(ax)
    inside = 0
    arcs = []
    for p in ax.patches:
        if isinstance(p, Arc):
            w.true("round", abs(p.width - p.height) < 1e-12 and p.angle == 0)
            arcs.append((round(p.center[0], 6), round(p.center[1], 6),
                         round(p.width / 2, 6)))
            t2 = p.theta2
            while t2 <= p.theta1:
                t2 += 360
            for k in range(41):
                t = math.radians(p.theta1 + (t2 - p.theta1) * k / 40.)
                x = p.center[0] + p.width / 2 * math.cos(t)
                y = p.center[1] + p.height / 2 * math.sin(t)
                w.true("inside the unit circle", x * x + y * y < 1 + 1e-9)
                if what == "smith_upper":
                    w.true("upper half", y > -1e-9)
                if what == "smith_lower":
                    w.true("lower half", y < 1e-9)
                inside += 1
    w.true("there is a grid", inside > 0)
    rs = [0, 1 / 3., 1, 3]
    s = -1 if what == "inv_smith" else 1
    if "smith" in what:
        for r in rs:
            w.true("circle of constant resistance %r" % r, (
                round(s * r / (r + 1), 6), 0, round(1 / (r + 1), 6)) in [
                    (a, abs(b), c) for a, b, c in arcs])
        for x in (1 / 3., 1, 3):
            for sign in (1, -1):
                if what in ("smith_upper",) and sign < 0:
                    continue
                if what in ("smith_lower", "smith_polar") and sign > 0:
                    continue
                w.true("arc of constant reactance %r" % (sign * x), (
                    float(s), round(s * sign / x, 6), round(1 / x, 6))
                    in arcs)
