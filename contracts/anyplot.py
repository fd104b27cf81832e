"""Plots and Smith charts drawn at random against plain numpy.

What the proofs of contracts/plotting.py leave out: kinds of numbers, many
lines, odd values and labels, what is passed on to matplotlib, labels."""
import cmath
import math

from engine.contract import contract
from contracts.plotting import PH, PS, PREFIX, PLAIN, axes, turn

RECT = ["db", "db10", "mag", "mag_square", "rad", "deg", "real", "imag",
        "x-si", "rectilinear", "unity", "cplx"]
SIZES = [1, 2, 3, 4, 5, 9, 12]


def numbers(w, shape, kind):
    np, r = w.np, w.rng
    n = 1
    for s in shape:
        n *= s

    def one():
        return r.choice([0., -1., 1., r.gauss(0, 1), r.gauss(0, 1),
                         r.gauss(0, 1e-9), r.gauss(0, 1e9), 1e-30])
    v = [one() for _ in range(n)]
    if kind[0] == "c":
        v = [complex(a, one()) for a in v]
    if kind == "i8":
        v = [r.randint(-5, 5) for _ in v]
    a = np.array(v, dtype=kind).reshape(shape)
    if r.random() < .2 and kind[0] in "fc" and n > 2:
        a.flat[r.randrange(n)] = r.choice([float("nan"), float("inf")])
    if r.random() < .3:
        a = np.asfortranarray(a)
    return a


def labels(w, n):
    np, r = w.np, w.rng
    k = r.randrange(4)
    if k == 0:
        return np.arange(n) * r.choice([1, 3, 100]) + r.randint(-5, 5)
    if k == 1:
        return np.sort(np.array([r.gauss(0, 1) for _ in range(n)]))[::-1]
    return (np.arange(n) + 1) * r.choice([1e-12, 1e-3, 1., 2.5e9])


def quantity(np, p, y):
    with np.errstate(all="ignore"):
        return {"db": lambda: 20 * np.log10(np.abs(y)),
                "db10": lambda: 10 * np.log10(np.abs(y)),
                "mag": lambda: np.abs(y),
                "mag_square": lambda: np.abs(y) ** 2,
                "rad": lambda: np.angle(y),
                "deg": lambda: np.angle(y, deg=True),
                "real": lambda: np.real(y),
                "imag": lambda: np.imag(y)}.get(p, lambda: y)()


def close(w, what, a, b):
    np = w.np
    a, b = np.asarray(a), np.asarray(b)
    w.true(what + ": shape", a.shape == b.shape)
    single = any(x.dtype in ("f4", "c8") for x in (a, b))
    with np.errstate(all="ignore"):
        w.true("%s: %r instead of %r" % (what, a[:4], b[:4]),
               bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) |
                           (abs(a - b) <= (1e-5 if single else 1e-11) *
                            abs(b)))))


@contract("C28", [PH + "HFToolsAxes.plot", PH + "HFToolsAxes._plot_helper",
                  PH + "_projfun", PH + "ComplexPolarAxes.plot"],
          cases=[dict(p=p) for p in RECT + ["cplxpolar"]], prove=False,
          runs=20, bound="up to 4 axes after the first, 12 labels each")
def any_plot(w, p):
    """Any array in any projection, several times on the same axes."""
    ds, np, r = w.ds, w.np, w.rng
    ax = axes(w, p if p in ("cplxpolar",) or r.random() < .6 else
              r.choice(RECT[:9]))
    drawn = []
    for again in range(r.choice([1, 2, 3])):
        nd = r.choice([0, 0, 1, 1, 2, 3, 4])
        shape = [r.choice(SIZES)] + [r.choice(SIZES[:6 - nd])
                                     for _ in range(nd)]
        kind = r.choice(["c16", "c16", "c8"] + (
            [] if p == "cplxpolar" else ["f8", "f4", "i8"]))
        if p == "x-si" and kind[0] == "c":
            kind = "f8"
        y = numbers(w, shape, kind)
        u, v = (r.choice([None, "Hz", "s", "V", "m", "deg", "m/s"])
                for _ in range(2))
        f = ds.DimSweep(r.choice(["f", "freq", "x_1"]), labels(w, shape[0]),
                        unit=u)
        dims = (f,) + tuple(
            r.choice([ds.DimSweep, ds.DimRep])("d%d" % i, labels(w, n))
            for i, n in enumerate(shape[1:]))
        keep = y.copy()
        Y = ds.hfarray(y, dims=dims, unit=v)
        if r.random() < .2:
            Y.flags.writeable = False
        kw, args = {}, ()
        if p not in ("cplxpolar",) and (p != ax.name or r.random() < .1):
            kw["projection"] = p
        style = r.randrange(4)
        if style == 0:
            args = (r.choice(["r-", "g--", "k:", "bo"]),)
        elif style == 1:
            kw.update(color="m", lw=2.5, label="the line")
        given = r.random() < .4
        if given:
            xs = [r.gauss(0, 1) for _ in range(shape[0])]
            X = ds.hfarray(np.array(xs), dims=(f,), unit=u)
            lines = ax.plot(X, Y, *args, **kw)
        else:
            X, xs = None, f.data
            lines = ax.plot(Y, *args, **kw)
        w.true("as many lines as outer coordinates",
               len(lines) == int(np.prod(shape[1:] or [1])))
        flat = keep.reshape(shape[0], -1)
        for k, ln in enumerate(lines):
            c = flat[:, k]
            gx, gy = ln.get_xdata(orig=True), ln.get_ydata(orig=True)
            if p == "cplxpolar":
                close(w, "radius", gy, np.abs(c))
                close(w, "direction", gx, np.angle(c))
            elif p in PLAIN and kind[0] == "c":
                close(w, "imaginary part", gy, c.imag)
                close(w, "real part", gx, c.real)
            else:
                close(w, "ordinate", gy, quantity(np, p, c))
                close(w, "abscissa", gx, xs)
            if style == 0:
                w.true("colour asked for", ln.get_color() == args[0][0])
                w.true("line style asked for", {
                    "-": "-", "--": "--", ":": ":", "o": "None"}[
                        args[0][1:]] == ln.get_linestyle())
            if style == 1:
                w.true("colour asked for", ln.get_color() == "m")
                w.true("width asked for", ln.get_linewidth() == 2.5)
                w.true("label asked for", len(lines) > 1 or
                       ln.get_label() == "the line")
        w.true("array unchanged", np.array_equal(
            np.asarray(Y), keep, equal_nan=kind[0] != "i"))
        w.true("its axes unchanged", Y.dims == dims and Y.unit == v and
               Y.dtype == np.dtype(kind))
        if X is not None:
            w.true("abscissa unchanged", list(np.asarray(X)) == xs and
                   X.dims == (f,))
        drawn += lines
        if p not in ("cplxpolar",) and ax.get_xlabel_unit() is not None:
            a = v if p in PLAIN and kind[0] == "c" else u
            if a:
                w.true("unit of the abscissa", ax.get_xlabel_unit() ==
                       {"deg": "\xb0"}.get(a, a))
    w.true("every line is on the axes",
           [id(x) for x in ax.lines] == [id(x) for x in drawn])


QUANT = {"Hz": "Frequency", "s": "Time", "m": "Length"}


@contract("C28", [PH + "UnitFormatter.__call__",
                  PH + "UnitFormatter.update_template",
                  PH + "UnitFormatter.get_label_name_and_unit",
                  PH + "UnitFormatter.get_label_unit",
                  PH + "SimpleUnitFormatter.__call__",
                  PH + "SimpleUnitFormatter.update_template",
                  PH + "xlabel_fmt", PH + "ylabel_fmt"],
          cases=[dict(p=p, side=s) for p in ("mag", "db", "deg", "real")
                 for s in "xy"] + [dict(p="x-si", side="x"),
                                   dict(p="cplx", side="y")],
          prove=False, runs=40)
def any_ticks(w, p, side):
    """Numbers at the ticks, the prefix and the name in the label."""
    ds, np, r = w.ds, w.np, w.rng
    ax = axes(w, p)
    u = r.choice([None, "Hz", "s", "V", "m", "deg", "m/s"])
    name = r.choice(["f", "Vdc", "x_1"])
    n = r.randint(2, 8)
    f = ds.DimSweep(name, np.arange(n) + 1., unit=u)
    y = np.arange(n) + (1j if p == "cplx" else 1.)
    ax.plot(ds.hfarray(y, dims=(f,), unit=u if side == "y" else None))
    fmt = r.choice([None, None, "Voltage []", "a [^]", "{default} [^]"])
    simple = p == "db" and side == "y"
    if simple and fmt and "^" in fmt:
        fmt = None
    given = r.random() < .3
    if fmt and given:
        u = r.choice(["A", "K"])
    if fmt:
        m = w.mod("hftools.plotting.helper")
        if r.random() < .5:
            getattr(m, side + "label_fmt")(fmt, *([u] if given else []),
                                           axes=ax)
        elif given:
            getattr(ax, "set_%slabel_fmt" % side)(fmt, u)
        else:
            getattr(ax, "set_%slabel_fmt" % side)(fmt)
    scale = r.choice([1e-15, 1e-12, 3e-10, 2e-6, 1e-3, 0.05, 0.5, 1, 7, 99,
                      1e3, 2.5e4, 1e6, 3e9, 1e12, 4e15, 1e30, 3e-29])
    if simple:
        scale = r.choice([0.1, 0.01, 0.5, 1, 7, 30, 0.25])
    step = r.choice([1, 2, 2.5, 0.5, 0.25, 0.2, 0.05, 0.125, 1 / 3.])
    start = r.choice([-300, -30, -6, -3, -1, 0, 1, 4, 100, 900])
    cls = w.mod("hftools.plotting.helper").UnitFormatter
    for q in (None, "Hz", "deg"):
        w.true("unit of a formatter", cls("%.1f", unit=q).get_label_unit() ==
               {None: "", "deg": "\xb0"}.get(q, q))
    locs = [(start + step * i) * scale for i in range(r.randint(2, 12))]
    if r.random() < .2:
        locs.append(locs[-1] * r.choice([20, 3000, 2e5]))
    if r.random() < .2:
        locs.reverse()
    fo = getattr(ax, side + "axis").get_major_formatter()
    fo.locs = locs
    big = [abs(x) for x in locs if x]
    wide = max(big) / min(big) > 10000 and not simple
    for x in locs:
        text = fo(x).replace("\u2212", "-")
        label = getattr(ax, "get_%slabel" % side)()
        if wide:
            num = text.rstrip("abcdefghijklmnopqrstuvwxyzEGMPTQRYZ\xb5 ")
            pre = text[len(num):].strip()
            w.true("prefix is known: %r" % text, pre in PREFIX or
                   not 1e-18 <= abs(x) < 1e21)
            if pre in PREFIX:
                s = 10. ** PREFIX[pre]
                w.true("tick %r is %r" % (text, x),
                       abs(float(num) * s - x) <= 0.00501 * s)
            continue
        if simple:
            s = 1
        elif fmt and "^" in fmt:
            k = label[label.index("10^") + 3:].replace("{", "")
            s = 10. ** int(k[:k.index("}")])
        else:
            w.true("unit in the label: %r" % label, label.endswith(
                ({"deg": "\xb0"}.get(ax_unit(ax, side), ax_unit(ax, side)) or
                 "U") + "]"))
            pre = label[label.index("[") + 1:-1 - len(ax_unit(ax, side) or
                                                      "U")]
            w.true("prefix is known: %r" % label, pre in PREFIX)
            s = 10. ** PREFIX[pre]
        tol = 0.00101 * s
        if "e" in text:
            tol = 0.000501 * abs(x)
            w.true("no power for numbers with exponents", s == 1)
        w.true("tick %r in %r is %r" % (text, label, x),
               abs(float(text) * s - x) <= tol + 1e-12 * abs(x))
    if not wide:
        unit = ax_unit(ax, side)
        if given and fmt:
            w.true("unit asked for", unit == u)
        elif side == "x" or p in ("mag", "real", "cplx"):
            w.true("unit of the data", unit ==
                   {"deg": "\xb0", None: ""}.get(u, u))
        if fmt:
            w.true("the unit is in the label: %r" % label, unit in label)
        if fmt == "Voltage []":
            w.true("label as asked for", label.startswith("Voltage ["))
        elif fmt and fmt[0] == "a":
            w.true("label as asked for", label.startswith("a $[10^"))
        elif side == "x":
            w.true("what the axis is: %r" % label, label.startswith(
                QUANT.get(unit, name) + " "))


def ax_unit(ax, side):
    return getattr(ax, "get_%slabel_unit" % side)()


@contract("C29", [PS + "z2gamma", PS + "y2gamma", PS + "RCircle",
                  PS + "XCircle", PS + "GCircle", PS + "BCircle",
                  PS + "MyCircle.get_artist", PS + "MyLine.get_artist"],
          cases=[dict(kind=k) for k in "RXGB"], prove=False, runs=150)
def any_circle(w, kind):
    """Circles and arcs of any size, as drawn."""
    r = w.rng
    m = w.mod("hftools.plotting.smith")
    w.mod("hftools.plotting")
    from matplotlib.patches import Arc, Circle, Polygon
    inf = float("inf")
    a = r.choice([0, 0, 0, 1e-3, 0.005, 0.02, 0.2, 1. / 3, 0.5, 1, 2, 3, 7.5, 40,
                  200, 3000, abs(r.gauss(0, 3)) + 1e-3])
    whole = r.random() < .3
    if kind in "XB" or whole:
        a *= r.choice([1, -1])
    if a == -1 and kind in "RG":
        a = -2
    lim = [r.choice([0, 1e-3, 0.1, 0.5, 1, 2, 10, 300, 2e4, inf,
                     abs(r.gauss(0, 3))]) for _ in range(2)]
    if kind in "RG":
        lim = [x * r.choice([1, -1]) for x in lim]
    lo, hi = sorted(lim)
    f = getattr(m, kind + "Circle")

    def gamma(t):
        if abs(t) == inf:
            return complex(1 if kind in "RX" else -1)
        z = complex(a, t) if kind in "RG" else complex(t, a)
        return (z - 1) / (z + 1) if kind in "RX" else (1 - z) / (1 + z)
    if a == 0 and kind in "XB":
        c = f(a) if whole else f(a, *lim)
        ends = [-1, 1] if whole else [gamma(x).real for x in lim]
        p = c.get_artist(color="k", fc="none")
        w.true("a line", isinstance(p, Polygon))
        xy = p.get_xy()
        w.true("from end to end: %r %r" % (xy, ends),
               max(abs(min(xy[:2, 0]) - min(ends)),
                   abs(max(xy[:2, 0]) - max(ends))) < 1e-12 and
               abs(xy[:, 1]).max() == 0 and len(xy) in (2, 3))
        return
    if whole:
        c = f(a)
        p = c.get_artist(color="k")
        w.true("a whole circle", isinstance(p, Circle))
        (x, y), rad = p.center, p.radius
        span, first = 360., 0.
    else:
        g = [gamma(lo), gamma(hi)]
        w.assume(abs(g[0] - g[1]) > 1e-7 or (lo, hi) == (-inf, inf))
        c = f(a, *lim)
        p = c.get_artist(color="k")
        w.true("an arc", isinstance(p, Arc) and p.angle == 0 and
               p.width == p.height)
        (x, y), rad = p.center, p.width / 2
        first = p.theta1
        span = turn(p.theta2 - p.theta1, 1e-9)
    w.true("the circle drawn is the circle", (x, y) == (c.x, c.y) and
           rad == c.r and rad > 0 and c.pars == ((c.x, c.y), c.r))
    w.true("drawn as asked for", p.get_edgecolor()[:3] == (0, 0, 0) and
           p.get_facecolor()[3] == 0)

    # angles are known to about 1e-16 of the centre over the radius
    eps = 1e-9 + 1e-13 * max(1, abs(complex(x, y))) / rad
    for k in range(40):
        t = r.choice([0, 1e-3, 0.1, 1, 3, 50, abs(r.gauss(0, 2)),
                      abs(r.gauss(0, 1e3))])
        if kind in "RG":
            t *= r.choice([1, -1])
        d = gamma(t) - complex(x, y)
        w.true("distance from the centre", abs(abs(d) - rad) <=
               1e-11 * max(1, rad))
        at = turn(math.degrees(cmath.phase(d)) - first, -eps)
        if lo + 1e-3 * max(1, abs(lo)) < t < hi - 1e-3 * max(1, abs(t)) or \
                whole:
            w.true("a point between is on the arc: %r %r" % (t, lim),
                   at <= span + eps)
        near = min(abs(gamma(t) - gamma(q)) for q in (lo, hi))
        if (t < lo or t > hi) and not whole and near > rad * 1e-3:
            w.true("a point outside is not on the arc: %r %r" % (t, lim),
                   at > span)


@contract("C29", [PS + "z2gamma", PS + "y2gamma"],
          cases=[dict(n=n) for n in "zy"], prove=False, runs=60)
def any_gamma(w, n):
    """Reflection coefficients, also of very large and small impedances."""
    r = w.rng
    m = w.mod("hftools.plotting.smith")
    f = getattr(m, n + "2gamma")
    s = 1 if n == "z" else -1
    z = complex(*[r.choice([0, 1, r.gauss(0, 1), r.gauss(0, 1e4),
                            r.gauss(0, 1e9), r.gauss(0, 1e-6)])
                  for _ in range(2)])
    if r.random() < .3:
        z = z.real
    w.assume(abs(z + 1) > 1e-6)
    g = f(z) * s
    # 1 - gamma = 2 / (1 + z) and 1 + gamma = 2 z / (1 + z)
    w.true("distance from the open", abs((1 - g) - 2 / (1 + z)) <=
           1e-14 * (1 + abs(g)))
    w.true("distance from the short", abs((1 + g) - 2 * z / (1 + z)) <=
           1e-14 * (1 + abs(g)))
    for q in (float("inf"), complex(0, float("inf")), -float("inf"),
              complex(3, -float("inf"))):
        w.true("the open", abs(f(q) - s) < 1e-14)


def pieces(w, ax):
    """Arcs (centre, radius, ends counter clockwise) and straight lines."""
    from matplotlib.patches import Arc, Circle, Polygon
    arcs, lines, discs = [], [], []
    for p in ax.patches:
        if isinstance(p, Arc):
            w.true("round", abs(p.width - p.height) < 1e-12 and p.angle == 0)
            arcs.append((complex(*p.center), p.width / 2, p.theta1,
                         turn(p.theta2 - p.theta1, 1e-3)))
        elif isinstance(p, Circle):
            discs.append((complex(*p.center), p.radius))
        else:
            w.true("a line", isinstance(p, Polygon))
            xy = p.get_xy()
            lines.append((complex(*xy[0]), complex(*xy[1])))
    return arcs, lines, discs


def holds(arcs, c, rad, points, ends):
    """An arc of that circle with those points and ends (None: whole)."""
    for c0, r0, t1, span in arcs:
        if abs(c0 - c) > 1e-9 or abs(r0 - rad) > 1e-9:
            continue
        if rad == 0:
            return True
        if not all(turn(math.degrees(cmath.phase(z - c)) - t1, -1e-3) <=
                   span + 1e-3 for z in points):
            continue
        if ends is None:
            if span > 359.99:
                return True
            continue
        got = [c0 + r0 * cmath.exp(1j * math.radians(t))
               for t in (t1, t1 + span)]
        if all(min(abs(e - g) for g in got) < 1e-6 for e in ends):
            return True
    return False


@contract("C29", [PS + "smith", PS + "inv_smith", PS + "smith_grid",
                  PS + "smith_lower", PS + "smith_upper", PS + "polar_grid",
                  PS + "smith_polar", PS + "MyCircle.get_artist",
                  PS + "MyLine.get_artist"],
          cases=[dict(what=x, mode=m, inv=i) for x in ("smith", "polar")
                 for m in ("full", "upper", "lower") for i in (False, True)
                 if not (x == "polar" and i)] +
                [dict(what=x, mode=m, inv=i) for x, m, i in (
                    ("smith()", "full", False), ("inv_smith", "full", True),
                    ("smith_lower", "lower", False),
                    ("smith_upper", "upper", False),
                    ("smith axes", "full", False),
                    ("cpolar axes", "full", False),
                    ("smith_polar", "full", False))],
          prove=False, runs=1)
def whole_grids(w, what, mode, inv):
    """Every circle of the grid from one end to the other."""
    m = w.mod("hftools.plotting.smith")
    w.mod("hftools.plotting")
    from matplotlib.figure import Figure
    kind = what.split()[0] if "axes" in what else "rectilinear"
    ax = Figure().add_subplot(111, projection=kind)
    if what == "smith":
        m.smith_grid(ax, mode, standard=not inv)
    elif what == "polar":
        m.polar_grid(ax, mode)
    elif "axes" not in what:
        getattr(m, what.rstrip("()"))(ax)
    arcs, lines, discs = pieces(w, ax)
    if what == "smith_polar":
        w.true("reactances in the lower half, magnitudes in the upper",
               holds(arcs, 0, 0.6, [0.6j], [-.6, .6]) and
               holds(arcs, 1 - 1j, 1, [0.2 - .4j], [-1j, 1]) and
               not holds(arcs, 0, 0.6, [-0.6j], [-.6, .6]))
        return
    up = {"full": (1, -1), "upper": (1,), "lower": (-1,)}[mode]
    half = [cmath.exp(1j * math.radians(q * a)) for q in up
            for a in (1, 45, 90, 135, 179)]
    if "polar" in what:
        for k in range(1, 6):
            rad = 0.2 * k
            w.true("circle of magnitude %r" % rad, holds(
                arcs, 0, rad, [rad * z for z in half],
                None if mode == "full" else [-rad, rad]))
        w.true("no other circles", all(
            abs(c) < 1e-9 and abs(5 * r - round(5 * r)) < 1e-9
            for c, r, _, _ in arcs))
        rays = sorted(round(math.degrees(cmath.phase(b)), 6) % 360
                      for a, b in lines)
        w.true("rays from the centre to the rim", all(
            abs(a) < 1e-12 and abs(abs(b) - 1) < 1e-9 for a, b in lines))
        want = {"full": range(0, 360, 45), "upper": range(0, 181, 45),
                "lower": list(range(180, 360, 45)) + [0]}[mode]
        w.true("every 45 degrees", sorted(set(rays)) == sorted(want))
        return
    s = -1 if inv else 1
    w.true("the unit circle", holds(
        arcs, 0, 1, half, None if mode == "full" else [-1, 1]))
    for r in (0, 1 / 3., 1, 3):
        w.true("circle of constant resistance %r" % r, holds(
            arcs, s * r / (r + 1.), 1. / (r + 1),
            [s * (complex(r, t) - 1) / (complex(r, t) + 1)
             for q in up for t in (s * q * .05, s * q, s * q * 20)],
            None if mode == "full" else [s * (r - 1) / (r + 1.), s]))
    for x in (1 / 3., 1, 3):
        for q in up:
            z = 1j * x * q * s
            w.true("arc of constant reactance %r" % z, holds(
                arcs, s * (1 + 1 / z.imag * 1j), 1 / x,
                [s * (t + z - 1) / (t + z + 1) for t in (.05, 1, 20)],
                [s * (z - 1) / (z + 1), s]))
    w.true("the real axis", any(
        min(abs(a + 1) + abs(b - 1), abs(a - 1) + abs(b + 1)) < 1e-9
        for a, b in lines))
    w.true("no other lines", len(lines) == 1)
    w.true("no other arcs", len(arcs) == 1 + 4 + 3 * len(up))
    if what in ("smith()", "inv_smith", "smith axes"):
        w.true("the disc", (0, 1) in discs)
