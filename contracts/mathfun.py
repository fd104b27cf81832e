"""Elementwise and one-dimensional mathematics."""
from engine.contract import contract
from contracts.common import make_dim, make_dims, mk, full, untouched

MA = "math:"
# axes of every class in every position
SHAPES = ("f", "fr", "", "rf", "r", "p", "xg", "sfr", "i", "rfij", "fgrs")


def mod(w):
    return w.mod("hftools.math")


def away(w, raw, eps=1e-3):
    """Concrete draws: keep away from zero."""
    if not w.symbolic:
        w.assume(bool((abs(w.np.asarray(raw)) > eps).all()))


@contract("C11", [MA + "angle"],
          cases=[dict(d=d, deg=deg, br=b) for d in SHAPES
                 for deg in (False, True) for b in (None, 0, 90, "any")])
def angle_direction(w, d, deg, br):
    """The angle points in the direction of z whatever the branch."""
    dims = make_dims(w, d)
    Z, rz = mk(w, "z", d, dims, "c")
    away(w, rz)
    if br == "any":
        br = w.real("branch")
    R = mod(w).angle(Z, deg=deg, branch=br)
    dl = [dims[c] for c in d]
    w.dims_are("angle", R, dl)
    for idx in w.forall([w.size_of(x) for x in dl]):
        a, z = w.at(R, idx), w.at(rz, idx)
        if deg:
            a = a * w.pi / 180
        w.eq("direction", w.exp(w.j * a) * w.absv(z), z)
    untouched(w, "argument unchanged", Z, rz, dl)


@contract("C11", [MA + "angle"],
          cases=[dict(deg=deg, br=b, k=k) for deg in (False, True)
                 for b in (None, 0, 30, -400, 200)
                 for k in ("arr", "plain", "num", "real", "whole",
                           "single", "number")],
          prove=False, runs=10)
def angle_interval(w, deg, br, k):
    dims = make_dims(w, "f")
    Z, rz = mk(w, "z", "f", dims, "c")
    away(w, rz)
    if k == "plain":
        Z = rz
    if k in ("real", "whole", "single"):
        rz = (rz.real if k == "real" else w.np.sign(rz.real).astype(int) *
              w.rng.randrange(1, 9) if k == "whole" else
              rz.astype(w.np.complex64))
        w.assume(bool((rz != 0).all()))
        Z = w.ds.hfarray(rz, dims=(dims["f"],))
    if k == "number":
        Z = rz = complex(rz[0])
    if k == "num":
        Z = rz = rz[0]
    if br is not None and not deg:
        br = br / 57.
    R = mod(w).angle(Z, deg=deg, branch=br)
    full_turn = 360. if deg else 2 * w.np.pi
    lo = -full_turn / 2 if br is None else br
    r = w.np.asarray(R)
    eps = 1e-3 if k == "single" else 1e-9
    w.true("within one turn of the branch",
           bool((r > lo - eps).all() and (r < lo + full_turn + eps).all()))
    a = r / full_turn * 2 * w.np.pi
    w.true("direction", bool(w.np.allclose(
        w.np.exp(1j * a) * abs(w.np.asarray(rz)), rz, atol=eps,
        rtol=1e-3 if k == "single" else 1e-9)))
    if k in ("real", "whole", "single", "arr"):
        w.dims_are("angle", R, [dims["f"]])


@contract("C11", [MA + "dB", MA + "dBinv"],
          cases=[dict(d=d, k=k) for d in SHAPES for k in "cf"])
def decibel(w, d, k):
    dims = make_dims(w, d)
    X, rx = mk(w, "x", d, dims, k)
    away(w, rx)
    Y, ry = mk(w, "y", d, dims, "f")
    dl = [dims[c] for c in d]
    D = mod(w).dB(X)
    full(w, "dB", D, dl,
         lambda *i: 20 * w.log10(w.absv(w.at(rx, i))))
    I = mod(w).dBinv(Y)
    full(w, "dBinv", I, dl,
         lambda *i: w.pow(10, w.at(ry, i) / 20))
    full(w, "dB of dBinv", mod(w).dB(I), dl, lambda *i: w.at(ry, i))
    full(w, "dBinv of dB", mod(w).dBinv(D), dl,
         lambda *i: w.absv(w.at(rx, i)))
    untouched(w, "argument unchanged", X, rx, dl)


@contract("C11", [MA + "mag_angle_to_complex", MA + "dB_angle_to_complex",
                  MA + "re_im_to_complex"],
          cases=[dict(a=a, b=b) for a, b in [("f", "f"), ("f", "fr"),
                                             ("r", "f"), ("", ""),
                                             ("rf", "fr"), ("g", "fr"),
                                             ("", "rf"), ("sfr", "xs"),
                                             ("ijf", "fij"), ("p", "gp"),
                                             ("fgrs", "srgf")]])
def to_complex(w, a, b):
    from contracts.common import union
    dims = make_dims(w, a + b)
    A, ra = mk(w, "a", a, dims)
    B, rb = mk(w, "b", b, dims)
    u = union(a, b)
    dl = [dims[c] for c in u]
    m = mod(w)

    def both(f):
        def g(*i):
            e = dict(zip(u, i))
            return f(w.at(ra, [e[c] for c in a]), w.at(rb, [e[c] for c in b]))
        return g
    rot = lambda y: w.exp(w.j * w.pi * y / 180)
    full(w, "magnitude and angle", m.mag_angle_to_complex(A, B), dl,
         both(lambda x, y: x * rot(y)))
    full(w, "dB and angle", m.dB_angle_to_complex(A, B), dl,
         both(lambda x, y: w.pow(10, x / 20) * rot(y)))
    full(w, "real and imaginary part", m.re_im_to_complex(A, B), dl,
         both(lambda x, y: x + w.j * y))


@contract("C11", [MA + "chop"],
          cases=[dict(d=d, k=k, t=t) for d in SHAPES for k in "fc"
                 for t in (None, "any")])
def chopping(w, d, k, t):
    dims = make_dims(w, d)
    X, rx = mk(w, "x", d, dims, k)
    dl = [dims[c] for c in d]
    kw, lim = {}, w.num(1e-16)
    if t:
        kw["threshold"] = lim = w.pos("threshold")
    R = mod(w).chop(X, **kw)
    w.dims_are("chop", R, dl)
    for idx in w.forall([w.size_of(x) for x in dl]):
        v = w.at(rx, idx)
        small = w.absv(v) < lim
        w.eq_if("small elements become zero", small, w.at(R, idx), 0)
        w.eq_if("others are kept", w.neg(small), w.at(R, idx), v)
    untouched(w, "argument unchanged", X, rx, dl)


@contract("C11", [MA + "chop"], cases=[{}], prove=False, runs=12)
def chopping_numbers(w):
    v = (w.real("v") + 1j * w.real("u")) * 10. ** w.int("e", -20, 0)
    t = 10. ** w.int("t", -20, 0)
    w.true("chop of a number", mod(w).chop(v, t) ==
           (0 if abs(v) < t else v))


@contract("C11", [MA + "unwrap_phase", MA + "_unwrap_phase"],
          cases=[dict(d=d, deg=deg) for d in SHAPES if d
                 for deg in (False, True)])
def unwrapping_steps(w, d, deg):
    """The first value is the angle, up to whole turns, and every step is the
    angle between neighbours; by induction the phase agrees modulo one turn
    everywhere and no step exceeds half a turn."""
    dims = dict((c, make_dim(w, c, n=w.size("n" + c, lo=2)
                             if c == d[0] else None)) for c in set(d))
    Z, rz = mk(w, "z", d, dims, "c")
    away(w, rz, .05)
    if not w.symbolic:
        w.assume(bool((abs(abs(w.np.angle(rz[1:] / rz[:-1])) - w.pi) >
                       1e-4).all()))
    R = mod(w).unwrap_phase(Z, deg=deg)
    dl = [dims[c] for c in d]
    w.dims_are("unwrap", R, dl)
    turn = 180 if deg else w.pi
    for idx in w.forall([w.size_of(dl[0]) - 1] +
                        [w.size_of(x) for x in dl[1:]]):
        i, rest = idx[0], idx[1:]
        first = w.at(R, (0,) + rest) / turn * w.pi
        z = w.at(rz, (0,) + rest)
        w.eq("angle of the first value", w.exp(w.j * first) * w.absv(z), z)
        step = w.at(R, (i + 1,) + rest) - w.at(R, idx)
        w.eq("step", step / turn * w.pi,
             w.angle(w.at(rz, (i + 1,) + rest) / w.at(rz, idx)))
    untouched(w, "argument unchanged", Z, rz, dl)


@contract("C11", [MA + "unwrap_phase", MA + "_unwrap_phase",
                  MA + "continous_phase_sqrt"],
          cases=[dict(d=d, deg=deg) for d in SHAPES if d
                 for deg in (False, True)], prove=False, runs=10)
def unwrapping(w, d, deg):
    np = w.np
    dims = dict((c, make_dim(w, c, n=w.size("n" + c, lo=2)
                             if c == d[0] else None)) for c in set(d))
    Z, rz = mk(w, "z", d, dims, "c")
    away(w, rz, .05)
    rr = np.asarray(rz)
    w.assume(bool((abs(abs(np.angle(rr[1:] / rr[:-1])) - np.pi) >
                   1e-4).all()))
    R = mod(w).unwrap_phase(Z, deg=deg)
    dl = [dims[c] for c in d]
    w.dims_are("unwrap", R, dl)
    r = np.asarray(R)
    if deg:
        r = r / 180 * np.pi
    w.true("phase modulo one turn", bool(np.allclose(
        np.exp(1j * r) * abs(rr), rr)))
    w.true("no step over half a turn", bool(
        (abs(r[1:] - r[:-1]) <= np.pi + 1e-9).all()))
    untouched(w, "argument unchanged", Z, rz, dl)
    if not deg:
        Q = mod(w).continous_phase_sqrt(Z)
        w.true("axes of the root", sorted(x.name for x in Q.dims) ==
               sorted(x.name for x in dl))
        q = np.asarray(Q.reorder_dimensions(*dl) if dl else Q)
        w.true("root squared", bool(np.allclose(q * q, rr)))
        w.true("continuous root", bool(
            (np.real(q[1:] * q[:-1].conj()) >= -1e-9).all()))


@contract("C11", [MA + "continous_phase_sqrt"],
          cases=[dict(d=d) for d in SHAPES if d])
def continuous_root(w, d):
    """The root squared is the number, and neighbouring roots differ by half
    the angle between the numbers."""
    dims = dict((c, make_dim(w, c, n=w.size("n" + c, lo=2)
                             if c == d[0] else None)) for c in set(d))
    Z, rz = mk(w, "z", d, dims, "c")
    away(w, rz, .05)
    Q = mod(w).continous_phase_sqrt(Z)
    P = mod(w).unwrap_phase(Z)
    dl = [dims[c] for c in d]
    w.true("axes of the root", sorted(x.name for x in Q.dims) ==
           sorted(x.name for x in dl))
    order = [d.index(x.name[-1]) for x in Q.dims]
    for idx in w.forall([w.size_of(x) for x in dl]):
        q = w.at(Q, [idx[k] for k in order])
        w.eq("half the continuous phase", q, w.sqrt(w.absv(
            w.at(rz, idx))) * w.exp(w.j * w.at(P, idx) / 2))
    untouched(w, "argument unchanged", Z, rz, dl)


@contract("C11", [MA + "delay"],
          cases=[dict(d=d) for d in ("f", "fr", "rf", "gf", "fgrs", "srgf",
                                     "fij", "ijf", "pf", "fx")] +
          [dict(d=d, fd="fr") for d in ("fr", "rf")] +
          [dict(d=d, fd="p") for d in ("p", "rp", "gp")], runs=8)
def group_delay(w, d, fd="f"):
    """tau = -d phi / d omega between neighbouring points."""
    x = fd[0]
    n = w.size("n" + x, lo=2)
    dims = make_dims(w, d.replace(x, ""))
    dims[x] = make_dim(w, x, n=n)
    V, rv = mk(w, "v", d, dims, "c")
    away(w, rv, .05)
    F, rf = mk(w, "fr", fd, dims, "f")
    ax = d.index(x)
    if not w.symbolic:
        # a step of exactly half a turn has two angles
        q = w.np.moveaxis(w.np.asarray(rv), ax, 0)
        w.assume(bool((abs(abs(w.np.angle(q[1:] / q[:-1])) - w.pi)
                       > 1e-6).all()))
        w.assume(bool((abs(w.np.diff(rf, axis=0)) > 1e-3).all()))
    fm, tau = mod(w).delay(F, V)
    w.true("axes", sorted(c.name for c in tau.dims) ==
           sorted(dims[c].name for c in d) and
           all(c.name in ["dim" + k for k in d] for c in fm.dims))
    letters = [c.name[-1] for c in tau.dims]
    for c in tau.dims:
        if c.name[-1] != x:
            w.same_seq("labels", c.data, dims[c.name[-1]].data)
    fl = [c.name[-1] for c in fm.dims]
    rest = [c for c in d if c != x]
    for idx in w.forall([n - 1] + [w.size_of(dims[c]) for c in rest]):
        e = dict(zip([x] + rest, idx))
        e1 = dict(e)
        e1[x] = e[x] + 1
        at = lambda a, let, env: w.at(a, [env[c] for c in let])
        f0, f1 = at(rf, fd, e), at(rf, fd, e1)
        fi = tuple(0 if fm.shape[k] == 1 and c not in fd else e[c]
                   for k, c in enumerate(fl))
        w.eq("middle frequency", w.at(fm, fi), (f0 + f1) / 2)
        w.eq("delay", at(tau, letters, e) * 2 * w.pi * (f0 - f1),
             w.angle(at(rv, d, e1) / at(rv, d, e)))
    w.true("one value per interval",
           tau.shape[letters.index(x)] == n - 1 and
           fm.shape[fl.index(x)] == n - 1)


def ascending(w, name, n):
    """A strictly increasing real vector of n elements."""
    if w.symbolic:
        r = w.raw(name, (n,), "f")
        return r
    np = w.np
    v = np.array([0.1 + w.rng.random() for _ in range(int(n))]).cumsum() - 1
    w._log(name, list(v))
    return v


@contract("C11", [MA + "linear_extrapolate", MA + "interpolate"],
          cases=[dict(k=k, out=o) for k in "fc" for o in (False, True)])
def interpolation(w, k, out):
    """Straight line through the two neighbouring points."""
    n, m = w.size("n", lo=2), w.size("m")
    x = ascending(w, "x", n)
    y = w.raw("y", (n,), k)
    if w.symbolic:
        xi = w.raw("xi", (m,), "f")
    else:
        np = w.np
        lo, hi = (x[0] - 1, x[-1] + 1) if out else (x[0], x[-1])
        xi = np.array([lo + (hi - lo) * w.rng.random() if w.rng.random() < .7
                       else x[w.rng.randrange(int(n))]
                       for _ in range(int(m))])
        w._log("xi", list(xi))
    R = mod(w).linear_extrapolate(x, y, xi)
    if not w.symbolic and not out:
        w.true("interpolate agrees", bool(w.np.allclose(
            mod(w).interpolate(x, y, xi), R)))
    w.true("shape", R.shape == xi.shape)
    for q, in w.forall((m,)):
        v = w.at(xi, (q,))
        k0 = w.np.searchsorted(x[1:-1], v)
        x0, x1 = w.at(x, (k0,)), w.at(x, (k0 + 1,))
        y0, y1 = w.at(y, (k0,)), w.at(y, (k0 + 1,))
        w.eq("on the line", w.at(R, (q,)) * (x1 - x0),
             y0 * (x1 - v) + y1 * (v - x0))
        if not w.symbolic:
            w.true("neighbouring points",
                   (x0 <= v or k0 == 0) and (v <= x1 or k0 == n - 2))


@contract("C11", [MA + "linear_extrapolate"], cases=[{}])
def linear_data_reproduced(w):
    """Data on a straight line is reproduced everywhere."""
    n, m = w.size("n", lo=2), w.size("m")
    x = ascending(w, "x", n)
    a, b = w.cplx("a"), w.cplx("b")
    y = a + b * x
    xi = w.raw("xi", (m,), "f")
    R = mod(w).linear_extrapolate(x, y, xi)
    for q, in w.forall((m,)):
        w.eq("linear", w.at(R, (q,)), a + b * w.at(xi, (q,)))


@contract("C11", [MA + "interpolate"], cases=[dict(side=s) for s in
                                              ("below", "above")],
          prove=False, runs=8)
def no_extrapolation(w, side):
    n, m = w.size("n", lo=2), w.size("m")
    x = ascending(w, "x", n)
    y = w.raw("y", (n,), "f")
    np = w.np
    xi = np.array([x[0] + (x[-1] - x[0]) * w.rng.random()
                   for _ in range(int(m))])
    e = 1e-6 + w.rng.random()
    xi[w.rng.randrange(int(m))] = x[0] - e if side == "below" else x[-1] + e
    w._log("x", list(x)), w._log("xi", list(xi))
    with w.raises("outside the range", ValueError):
        mod(w).interpolate(x, y, xi)


@contract("C11", [MA + "smooth"],
          cases=[dict(d=d, ap=a) for d in ("f", "fr") for a in range(1, 8)] +
          [dict(d="rf", ap=a, kind=k) for a in (2, 3) for k in "ci"] +
          [dict(d="fr", ap=a, kind="i") for a in (2, 3)] +
          [dict(d=d, ap=a, neg=n, kind="f") for a in (2, 3, 5)
           for n in (False, True) for d in ("f", "rf", "grf", "gfr", "fij",
                                            "rsf", "xf")],
          runs=8)
def smoothing(w, d, ap, kind="c", neg=False):
    """Mean over the window, which shrinks towards the ends."""
    np = w.np
    n = w.size("nf") if w.symbolic else w.size("nf") + 2 * w.size("extra")
    dims = make_dims(w, d.replace("f", ""))
    dims["f"] = make_dim(w, "f", n=n)
    X, rx = mk(w, "x", d, dims, kind)
    axis = d.index("f")
    R = mod(w).smooth(X, ap, axis - len(d) if neg else axis)
    dl = [dims[c] for c in d]
    w.dims_are("smooth", R, dl)
    at = lambda a, i, idx: w.at(a, idx[:axis] + (i,) + idx[axis:])
    for i in range(int(n)):
        h = min(i, ap // 2, int(n) - 1 - i)
        win = range(i - h, i + h + ap % 2) if h else [i]
        for idx in w.forall([w.size_of(c) for c in dl if c is not
                             dims["f"]]):
            s = w.num(0)
            for q in win:
                s = s + at(rx, q, idx)
            w.eq("window mean", at(R, i, idx), s / len(win))
    untouched(w, "argument unchanged", X, rx, dl)


@contract("C11", [MA + "smooth_magphase"], cases=[dict(ap=a) for a in (1, 3,
                                                                     5)],
          prove=False, runs=8)
def smoothing_magnitude_and_phase(w, ap):
    """Magnitude and continuous phase are smoothed separately."""
    np = w.np
    n = 4 + w.size("n")
    F = w.ds.DimSweep("freq", np.arange(n) * 1.)
    mag = 1 + abs(w.raw("m", (n,), "f"))
    ph = np.cumsum(2.5 * (w.raw("p", (n,), "f") % 1) + .1)
    w._log("mag", list(mag)), w._log("phase", list(ph))
    X = w.ds.hfarray(mag * np.exp(1j * ph), dims=(F,))
    R = mod(w).smooth_magphase(X, ap)
    w.dims_are("result", R, [F])
    for i in range(n):
        h = min(i, ap // 2, n - 1 - i)
        m, p = mag[i - h:i + h + 1].mean(), ph[i - h:i + h + 1].mean()
        w.eq("value", w.at(R, (i,)), m * np.exp(1j * p), tol=1e-6)
