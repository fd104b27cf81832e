"""Matrix algebra, sweep mathematics and networks of any rank and size.

Bounded stand-in next to the proofs of contracts/networks.py, mathfun.py and
passive.py: up to five outer axes in any order, up to eight ports, long
sweeps, single precision and whole numbers, any memory layout, compared with
plain numpy at every coordinate."""
from engine.contract import contract
from contracts.anyarray import Axis, Arr, axis, layout, axes_same, \
    numbers_same, PRIO
from contracts.anyblock import AXES

MA = "math:"
MP = "networks.multiports:"
SP = "networks.spar_functions:"
NO = "networks.noise:"


def unchanged(w, A, a):
    np = w.np
    axes_same(w, "the source", A.dims, a.axes)
    w.true("values of the source", A.dtype == a.x.dtype and
           A.shape == a.x.shape and
           numbers_same(np, np.asarray(A), a.x))
    w.true("unit and format of the source",
           A.unit == a.unit and A.outputformat == a.fmt)


def outer(w, most):
    r = w.rng
    out, size = [], 1
    for n in r.sample(AXES, r.randint(0, most)):
        k = min(r.choice([1, 2, 2, 3, 4]), max(1, 60 // size))
        out.append(axis(w, n, k))
        size *= k
    return out


def some(w, axes):
    r = w.rng
    out = r.sample(axes, r.randint(0, len(axes)))
    if r.random() < .5:
        out.sort(key=lambda x: PRIO[x.cls.__name__])
    return out


def matrix_axes(w, rows, cols):
    return [Axis(w.ds.DimMatrix_i, "i", w.np.arange(rows), None, None),
            Axis(w.ds.DimMatrix_j, "j", w.np.arange(cols), None, None)]


def numbers(w, shape, kind):
    """Numbers of order one."""
    np, r = w.np, w.rng
    n = 1
    for s in shape:
        n *= s
    if kind == "i":
        x = np.array([r.randint(-9, 9) for _ in range(n)], int)
    else:
        x = np.array([r.uniform(-1, 1) for _ in range(n)])
        if kind in "cz":
            x = x + 1j * np.array([r.uniform(-1, 1) for _ in range(n)])
    return np.asarray(x).astype({"i": r.choice(["i8", "i4", "i2"]), "f": "f8", "c": "c16",
                     "4": "f4", "z": "c8"}[kind]).reshape(shape)


def labelled(w, name, axes, x, cls=None, **kw):
    """The values over these axes as labelled array, with its model."""
    np = w.np
    w._log(name, (str([(a.cls.__name__, a.name, a.lab.tolist()) for a in
                       axes]), str(x.dtype), x.shape,
                  str(x.tolist())[:3000]))
    x = np.asarray(x)
    A = (cls or w.ds.hfarray)(layout(w, x),
                              dims=tuple(a.dim() for a in axes), **kw)
    return A, Arr(list(axes), x, A.unit, A.outputformat)


def matrices(w, name, axes, rows, cols, kind, regular=False, cls=None,
             anywhere=False, scale=1, **kw):
    """Matrices over outer axes.  The model keeps rows and columns last."""
    np, r = w.np, w.rng
    x = numbers(w, [len(a.lab) for a in axes] + [rows, cols], kind)
    if regular:
        x = (x + (x.dtype.type(2 * rows * (9 if kind == "i" else 1)) *
                  np.eye(rows)).astype(x.dtype)).astype(x.dtype)
    if scale != 1:
        x = (x * scale).astype(x.dtype)
    al = list(axes) + matrix_axes(w, rows, cols)
    if anywhere:
        order = r.sample(range(len(al)), len(al))
        A, a = labelled(w, name, [al[k] for k in order],
                        x.transpose(order), cls, **kw)
    else:
        A, a = labelled(w, name, al, x, cls, **kw)
    return A, a, Arr(al, x, None, None)


def union(*models):
    """Outer axes of all models, in any order."""
    out = []
    for m in models:
        for a in m.axes:
            if a.name not in [x.name for x in out] and \
                    a.name not in ("i", "j"):
                out.append(a)
    return out


def over(np, m, axes, tail):
    """Values of the model broadcast over these outer axes, tail last."""
    names = [a.name for a in m.axes]
    al = [a for a in axes if a.name in names]
    x = m.x.transpose([names.index(a.name) for a in al] +
                      [names.index(t) for t in tail])
    ts = x.shape[x.ndim - len(tail):]
    x = x.reshape([len(a.lab) if a.name in names else 1 for a in axes] +
                  list(ts))
    return np.broadcast_to(x, [len(a.lab) for a in axes] + list(ts))


def result(w, what, X, axes, x, tail=(), tol=1e-9, dtype=None):
    """X has these values; outer axes in any order, the tail last."""
    np = w.np
    names = [a.name for a in axes]
    n = len(tail)
    got = [d.name for d in X.dims]
    w.true("%s: axes %r instead of %r + %r" % (
        what, got, names, [t.name for t in tail]),
        sorted(got[:len(got) - n]) == sorted(names) and
        got[len(got) - n:] == [t.name for t in tail])
    order = [names.index(g) for g in got[:len(got) - n]]
    k = len(names)
    axes_same(w, what, X.dims, [axes[o] for o in order] + list(tail), False)
    x = x.transpose(order + list(range(k, k + n)))
    w.true("%s: shape %r instead of %r" % (what, X.shape, x.shape),
           X.shape == x.shape)
    if dtype is not None:
        w.true("%s: type %s instead of %s" % (what, X.dtype, dtype),
               X.dtype == dtype)
    m = max([1] + [float(abs(x[np.isfinite(x)]).max())]
            if x.size and np.isfinite(x).any() else [1])
    w.true("%s: values %r instead of %r" % (
        what, np.asarray(X).tolist(), x.tolist()),
        numbers_same(np, np.asarray(X), x, tol, tol * m))


def single(*xs):
    return any(x.dtype in ("f4", "c8", "i2") for x in xs)


def exact(np, *xs):
    """The type numpy's linear algebra gives."""
    return np.result_type(*[x.dtype if x.dtype.kind in "fc" else
                            np.dtype("f8") for x in xs])


def redraw(w, draw, ok):
    """Draw again at the coordinates that are not ok."""
    x = draw()
    for k in range(40):
        with w.np.errstate(all="ignore"):
            bad = ~ok(x)
        if not bad.any():
            return x
        x[bad] = draw()[bad]
    w.assume(False)


# ---------------------------------------------------------------- C10

@contract("C10", [MA + "matrix_multiply", MA + "inv", MA + "det",
                  MA + "solve_Ab", MA + "lstsq", MA + "make_matrix",
                  MA + "matrix_axes_last", MA + "broadcast_matrices.__init__",
                  MA + "broadcast_matrices.__iter__"],
          cases=[dict(what=x) for x in ("product", "inverse", "solve",
                                        "least squares", "elements")],
          prove=False, runs=40,
          bound="up to 5 outer axes, matrices up to 6 x 6")
def any_matrices(w, what):
    np, r, m = w.np, w.rng, w.mod("hftools.math")
    axes = outer(w, 5)
    k1, k2 = r.choice("fcci4z"), r.choice("fcci4z")
    n = r.choice([1, 2, 2, 3, 4, 6])
    any_ = r.random() < .4
    if what == "product":
        p, q = r.choice([1, 2, 3, 5]), r.choice([1, 2, 3, 4])
        A, a, ma = matrices(w, "A", some(w, axes), p, n, k1, anywhere=any_)
        B, b, mb = matrices(w, "B", some(w, axes), n, q, k2, anywhere=any_)
        u = union(a, b)
        X = m.matrix_multiply(A, B)
        x = np.matmul(over(np, a, u, "ij"), over(np, b, u, "ij"))
        t = np.result_type(a.x, b.x)
        result(w, what, X, u, x, matrix_axes(w, p, q),
               1e-4 if single(a.x, b.x) else 1e-11, t)
        unchanged(w, A, a)
        unchanged(w, B, b)
        return
    if what == "elements":
        ms = []
        for q in "abcd":
            ax = some(w, axes)
            ms.append(labelled(w, q, ax, numbers(
                w, [len(z.lab) for z in ax], r.choice("fci4z"))))
        X = m.make_matrix(*[A for A, a in ms])
        u = union(*[a for A, a in ms])
        t = np.result_type(*[a.x.dtype for A, a in ms])
        vs = [over(np, a, u, "").astype(t) for A, a in ms]
        x = np.stack([np.stack(vs[:2], -1), np.stack(vs[2:], -1)], -2)
        result(w, what, X, u, x, matrix_axes(w, 2, 2),
               1e-6 if not u else 1e-14, t if u else None)
        for A, a in ms:
            unchanged(w, A, a)
        return
    A, a, ma = matrices(w, "A", some(w, axes), n, n, k1, True,
                        anywhere=any_)
    tol = 1e-3 if single(a.x) else 1e-8
    eye = np.eye(n)
    if what == "inverse":
        X = m.inv(A)
        u = union(a)
        x = over(np, a, u, "ij").astype("c16")
        result(w, what, X, u, np.linalg.solve(x, np.broadcast_to(
            eye, x.shape)).astype(complex), matrix_axes(w, n, n), tol,
            exact(np, a.x))
        d = m.det(A)
        result(w, "determinant", d, u, np.linalg.det(x), (), tol)
        w.true("real matrices stay real", a.x.dtype.kind == "c" or
               (X.dtype.kind == "f" and d.dtype.kind == "f"))
    elif what == "solve":
        q = r.choice([1, 2, 3, 5])
        B, b, mb = matrices(w, "B", some(w, axes), n, q, k2, anywhere=any_)
        u = union(a, b)
        tol = 1e-3 if single(a.x, b.x) else 1e-8
        x = np.linalg.solve(over(np, a, u, "ij").astype("c16"),
                            over(np, b, u, "ij").astype("c16"))
        X = m.solve_Ab(A, B, False)
        result(w, what, X, u, x, matrix_axes(w, n, q), tol,
               exact(np, a.x, b.x))
        Y = m.solve_Ab(A, B)
        w.true("without the axes of one label", [d.name for d in Y.dims] ==
               [d.name for d, s in zip(X.dims, X.shape) if s > 1] and
               bool(np.all(np.asarray(Y).ravel() == np.asarray(X).ravel())))
        unchanged(w, B, b)
    else:
        p, q = n + r.choice([0, 1, 3]), r.choice([1, 2, 5])
        A, a, ma = matrices(w, "A", some(w, axes), p, n, k1)
        w.assume(bool((np.linalg.svd(ma.x.astype("c16"))[1] > .05).all()))
        B, b, mb = matrices(w, "B", some(w, axes), p, q, k2)
        u = union(a, b)
        aa = over(np, a, u, "ij").astype("c16")
        ah = aa.conj().swapaxes(-1, -2)
        x = np.linalg.solve(np.matmul(ah, aa), np.matmul(
            ah, over(np, b, u, "ij").astype("c16")))
        X = m.lstsq(A, B, r.choice([True, False]))
        result(w, what, X, u, x, matrix_axes(w, n, q),
               1e-2 if single(a.x, b.x) else 1e-7, exact(np, a.x, b.x))
        unchanged(w, B, b)
    unchanged(w, A, a)


# ---------------------------------------------------------------- C11

@contract("C11", [MA + "angle", MA + "dB", MA + "dBinv", MA + "chop",
                  MA + "dB_angle_to_complex", MA + "mag_angle_to_complex",
                  MA + "re_im_to_complex"],
          cases=[dict(part=p) for p in range(3)], prove=False, runs=40,
          bound="up to 6 axes, 4 labels each")
def any_elementwise(w, part):
    np, r, m = w.np, w.rng, w.mod("hftools.math")
    axes = outer(w, 6)
    kind = r.choice("fci4z")
    shape = [len(a.lab) for a in axes]
    x = numbers(w, shape, kind)
    wide = kind in "fc" and r.random() < .5
    if wide:
        x = x * 10. ** np.array([r.randint(-14, 12) for _ in range(x.size)]
                                ).reshape(shape)
    x = np.where(x == 0, 1, x).astype(x.dtype)
    A, a = labelled(w, "x", axes, x)
    tol = 1e-4 if single(x) else 1e-11
    deg = r.random() < .5
    for how, v in (("labelled", A), ("plain", x), ("number", x.flat[0]),
                   ("number", x.flat[0].item())):
        y = x if how != "number" else np.asarray(x.flat[0])
        if how == "labelled":
            def check(what, R, want):
                result(w, what, R, axes, want, (), tol)
        else:
            def check(what, R, want):
                w.true("%s of a %s: %r instead of %r" % (
                    what, how, np.asarray(R).tolist(), want.tolist()),
                    np.shape(R) == want.shape and
                    numbers_same(np, np.asarray(R), want, tol, tol))
        q = y.astype("c16")
        br = r.choice([None, 0, -400., 90, 725, -90])
        rad = br if deg or br is None else br / 57.
        th = m.angle(v, deg=deg, branch=rad)
        turn = 360. if deg else 2 * np.pi
        lo = -turn / 2 if rad is None else rad
        t = np.asarray(th) * (2 * np.pi / turn)
        w.true("direction of %s" % how, bool(np.all(
            abs(np.exp(1j * t) - q / abs(q)) < max(tol, 1e-9) * 100)))
        w.true("interval of %s" % how, bool(np.all(
            (np.asarray(th) > lo - 1e-3) &
            (np.asarray(th) < lo + turn + 1e-3))))
        if how == "labelled":
            w.true("axes of the angle", [d.name for d in th.dims] ==
                   [z.name for z in axes])
        check("dB", m.dB(v), 20 * np.log10(abs(q)))
        ex = q.real * r.choice([1, 30]) if not wide else \
            np.clip(q.real, -4000, 4000)
        if ex.dtype.kind == "f" and np.all(ex == y):
            check("dBinv", m.dBinv(v), 10 ** (ex / 20))
        lim = r.choice([1e-16, 1e-8, .5, 3, 0] + (
            [float(abs(q).flat[0])] * 2 if kind in "fi" else []))
        w._log("threshold", lim)
        w.assume(kind in "fi" or not np.any(abs(abs(q) - lim) < 1e-6 * lim))
        check("chop", m.chop(v, lim), np.where(abs(y) < lim, 0, y))
        check("chop", m.chop(v), np.where(abs(y) < 1e-16, 0, y))
    k2 = r.choice("fi4")
    ax = some(w, axes)
    z = numbers(w, [len(q.lab) for q in ax], k2)
    z = (z * z.dtype.type(r.choice([1, 100]))).astype(z.dtype)
    if r.random() < .2:
        z = z.astype("f8") * 1e3
    B, b = labelled(w, "y", ax, z)
    if x.dtype.kind != "c" and not wide:
        u = union(a, b)
        va = over(np, a, u, "").astype("f8")
        vb = over(np, b, u, "").astype("f8")
        rot = np.exp(1j * np.pi * vb / 180)
        tol = 1e-2 if single(x, z) else 1e-9
        result(w, "magnitude and angle", m.mag_angle_to_complex(A, B), u,
               va * rot, (), tol)
        result(w, "dB and angle", m.dB_angle_to_complex(A, B), u,
               10 ** (va / 20) * rot, (), tol)
        result(w, "parts", m.re_im_to_complex(A, B), u, va + 1j * vb, (),
               1e-5 if single(x, z) else 1e-12)
        p, q = float(va.flat[0]), float(vb.flat[0])
        for f, v in ((m.mag_angle_to_complex, p * rot.flat[0]),
                     (m.dB_angle_to_complex, 10 ** (p / 20) * rot.flat[0]),
                     (m.re_im_to_complex, p + 1j * q)):
            w.true("numbers", abs(f(p, q) - v) < 1e-9 * (1 + abs(v)))
            if p == int(p) and q == int(q):
                w.true("whole numbers",
                       abs(f(int(p), int(q)) - v) < 1e-9 * (1 + abs(v)))
    unchanged(w, A, a)
    unchanged(w, B, b)


def sweep(w, most, lo=1):
    """A long axis first, others after."""
    r = w.rng
    n = r.choice([1, 2, 3, 5, 17, 70, 130])
    rest = [a for a in outer(w, most) if len(a.lab)][:most]
    size = max(lo, n)
    for a in rest:
        size *= len(a.lab)
    if size > 2500:
        rest = rest[:1]
    first = Axis(w.ds.DimSweep, "sweep", w.np.arange(max(lo, n)) * .5, "Hz",
                 None)
    return [first] + rest


@contract("C11", [MA + "unwrap_phase", MA + "_unwrap_phase", MA + "delay",
                  MA + "continous_phase_sqrt", MA + "smooth",
                  MA + "smooth_magphase"],
          cases=[dict(what=x) for x in ("unwrap", "delay", "smooth",
                                        "phase")], prove=False, runs=30,
          bound="sweeps up to 130 points, up to 5 axes")
def any_sweep(w, what):
    np, r, m = w.np, w.rng, w.mod("hftools.math")
    axes = sweep(w, 4, 2 if what == "delay" else 1)
    if what == "smooth":
        r.shuffle(axes)
    shape = [len(a.lab) for a in axes]
    if what == "smooth":
        kind = r.choice("fci4z")
        x = numbers(w, shape, kind)
        if kind in "fc" and r.random() < .3:
            x.flat[r.randrange(x.size)] = np.nan
        A, a = labelled(w, "x", axes, x)
        ax = [q.name for q in axes].index("sweep")
        n = shape[ax]
        ap = r.choice([1, 2, 3, 4, 7, 20, 31, 200])
        w._log("aperture", ap), w._log("axis", ax)
        R = m.smooth(A, ap, ax if r.random() < .5 else ax - x.ndim)
        P = m.smooth(layout(w, x), ap, ax)
        v = np.moveaxis(x, ax, 0)
        want = np.zeros(v.shape, np.result_type(x, "f8"))
        for i in range(n):
            h = min(i, ap // 2, n - 1 - i)
            win = v[i - h:i + h + ap % 2] if h else v[i:i + 1]
            want[i] = win.astype(want.dtype).sum(0) / len(win)
        want = np.moveaxis(want, 0, ax)
        tol = 1e-4 if single(x) else 1e-10
        w.true("axes", [d.name for d in R.dims] == [q.name for q in axes])
        axes_same(w, what, R.dims, axes, False)
        for q in (R, P):
            w.true("window means %r instead of %r" % (
                np.asarray(q).tolist(), want.tolist()),
                numbers_same(np, np.asarray(q), want, tol, tol))
        unchanged(w, A, a)
        return
    kind = r.choice("cz")
    mag = .1 + abs(numbers(w, shape, "f"))
    # any step below half a turn
    step = 3.1 * numbers(w, shape, "f")
    if r.random() < .3:
        step = abs(step)
    ph = np.cumsum(step, 0)
    x = (mag * np.exp(1j * ph)).astype({"c": "c16", "z": "c8"}[kind])
    A, a = labelled(w, "x", axes, x)
    tol = 2e-3 if single(x) else 1e-8
    if what == "unwrap":
        deg = r.random() < .5
        R = m.unwrap_phase(A, deg=deg)
        axes_same(w, what, R.dims, axes, False)
        t = np.asarray(R) * (np.pi / 180 if deg else 1)
        w.true("phase modulo one turn", bool(np.all(
            abs(np.exp(1j * t) - x / abs(x)) < tol)))
        w.true("steps", bool(np.all(
            abs(np.diff(t, axis=0) - step[1:]) < tol)))
        w.true("between minus and plus two turns at first",
               bool(np.all(abs(t[0]) < 4 * np.pi)))
    elif what == "delay":
        fk = r.choice("fi4")
        f = np.cumsum(1 + abs(numbers(w, shape[:1], fk)), 0)
        if fk != "4" and r.random() < .5:
            f = f * r.choice([10 ** 6, 10 ** 9])
        if r.random() < .3:
            f = f[::-1].copy()
        F, fm = labelled(w, "f", axes[:1], f)
        f0, tau = m.delay(F, A)
        if single(f):
            tol = 2e-3
        f = f.astype("f8")
        w.true("axes", sorted(d.name for d in tau.dims) ==
               sorted(q.name for q in axes) and
               all(d.name in [q.name for q in axes] for d in f0.dims))
        names = [d.name for d in tau.dims]
        t = np.asarray(tau).transpose([names.index(q.name) for q in axes])
        df = np.diff(f).reshape([-1] + [1] * (len(shape) - 1))
        w.true("delay", t.shape == step[1:].shape and bool(np.all(
            abs(t * 2 * np.pi * df + step[1:]) < 20 * tol)))
        mid = (f[1:] + f[:-1]) / 2
        w.true("middles", f0.size == len(f) - 1 and bool(np.all(
            abs(np.asarray(f0).ravel() - mid) <=
            (1e-5 if single(fm.x) else 1e-12) * abs(f).max())))
        unchanged(w, F, fm)
    else:
        Q = m.continous_phase_sqrt(A)
        names = [d.name for d in Q.dims]
        w.true("axes of the root", sorted(names) ==
               sorted(z.name for z in axes))
        q = np.asarray(Q).transpose([names.index(z.name) for z in axes])
        w.true("root squared", bool(np.all(abs(q * q - x) < tol)))
        w.true("continuous", bool(np.all(abs(
            q[1:] / q[:-1] - (abs(x[1:]) / abs(x[:-1])) ** .5 *
            np.exp(.5j * step[1:])) < 10 * tol)))
        if len(axes) == 1 and kind == "c":
            ap, n = r.choice([1, 3, 9, 21]), shape[0]
            R = m.smooth_magphase(A, ap)
            axes_same(w, "smoothed", R.dims, axes, False)
            for i in range(n):
                h = min(i, ap // 2, n - 1 - i)
                v = mag[i - h:i + h + 1].mean() * np.exp(
                    1j * ph[i - h:i + h + 1].mean())
                # the middle of an unwrapped phase is that up to turns
                w.true("smoothed magnitude and phase",
                       abs(np.asarray(R)[i] - v) < 1e-6)
    unchanged(w, A, a)


@contract("C11", [MA + "linear_extrapolate", MA + "interpolate"],
          cases=[{}], prove=False, runs=60, bound="up to 90 points")
def any_interpolation(w):
    np, r, m = w.np, w.rng, w.mod("hftools.math")
    n = r.choice([2, 3, 4, 10, 50, 90])
    ty = r.choice("ffi4")
    x = np.cumsum(1 + abs(numbers(w, (n,), ty)))
    x = (x - x.dtype.type(r.choice([0, 3, 20]))) if ty == "i" else \
        (x - r.uniform(0, n)).astype(x.dtype)
    y = numbers(w, (n,), r.choice("fci4z"))
    k = r.choice([1, 2, 7, 60])
    t = [r.random() for _ in range(k)]
    xi = [float(x[0]) + (float(x[-1]) - float(x[0])) * q if r.random() < .6
          else float(x[r.randrange(n)]) for q in t]
    xi = np.clip(np.array(xi), x[0], x[-1])
    if r.random() < .2:
        xi = np.sort(xi)
    w._log("x", x.tolist()), w._log("y", y.tolist())
    w._log("xi", xi.tolist())
    keep = [q.copy() for q in (x, y, xi)]
    R = m.interpolate(x, y, xi)
    c = y.astype("c16")
    want = np.interp(xi, x.astype("f8"), c.real) + 1j * np.interp(
        xi, x.astype("f8"), c.imag)
    tol = 1e-3 if single(x, y) else 1e-9
    w.true("interpolated %r instead of %r" % (R.tolist(), want.tolist()),
           R.shape == want.shape and
           numbers_same(np, R, want, tol, tol))
    out = np.concatenate([[x[0] - 2.5, x[-1] + 1.5], xi])
    E = m.linear_extrapolate(x, y, out)
    s0 = (c[1] - c[0]) / (x[1] - x[0])
    s1 = (c[-1] - c[-2]) / (x[-1] - x[-2])
    w.true("extrapolated", numbers_same(np, E, np.concatenate(
        [[c[0] - 2.5 * s0, c[-1] + 1.5 * s1], want]), tol, tol * 10))
    far = r.choice([1e-11, 1e-6, 1, 1e5]) * (1 + abs(float(x[0])) +
                                             abs(float(x[-1])))
    for q in (float(x[0]) - far, float(x[-1]) + far):
        bad = np.append(xi, q)
        r.shuffle(bad)
        with w.raises("outside the range", ValueError):
            m.interpolate(x, y, bad)
    w.true("arguments unchanged", all(
        q.dtype == p.dtype and bool(np.all(q == p))
        for p, q in zip(keep, (x, y, xi))))


# ---------------------------------------------------------------- C12

TWO = ["S", "Z", "Y", "H", "G", "ABCD", "T", "Tp"]


def cls_of(w, k):
    return getattr(w.mod("hftools.networks.multiports"), k + "Array")


def port_columns(np, k, M, z0):
    """Columns (V; I) of port quantities the network M allows."""
    n = M.shape[-1]
    eye = np.broadcast_to(np.eye(n), M.shape)

    def col(*rows):
        return np.concatenate(rows, -2)
    row = lambda X, i: X[..., i:i + 1, :]
    if k == "Z":
        return col(M, eye)
    if k == "Y":
        return col(eye, M)
    if k == "S":
        return col(z0 * (eye + M), eye - M)
    a, b = row(M, 0), row(M, 1)
    e, f = row(eye, 0), row(eye, 1)
    if k == "H":            # V1, I2 from I1, V2
        return col(a, f, e, b)
    if k == "G":            # I1, V2 from V1, I2
        return col(e, b, a, f)
    if k == "ABCD":         # V1, I1 from V2, -I2
        return col(a, e, b, -f)
    if k == "T":            # b1, a1 from a2, b2
        b1, a1, a2, b2 = a, b, e, f
    else:                   # Tp: a1, b1 from b2, a2
        a1, b1, b2, a2 = a, b, e, f
    return col(z0 * (a1 + b1), z0 * (a2 + b2), a1 - b1, a2 - b2)


def residual(np, k, M, z0, W):
    """How far the columns W are from what M allows."""
    n = M.shape[-1]
    V, I = W[..., :n, :], W[..., n:, :]
    a, b = (V + z0 * I) / z0, (V - z0 * I) / z0
    row = lambda X, i: X[..., i:i + 1, :]
    pair = lambda x, y: np.concatenate([x, y], -2)
    if k == "Z":
        l, r = V, I
    elif k == "Y":
        l, r = I, V
    elif k == "S":
        l, r = b, a
    elif k == "H":
        l, r = pair(row(V, 0), row(I, 1)), pair(row(I, 0), row(V, 1))
    elif k == "G":
        l, r = pair(row(I, 0), row(V, 1)), pair(row(V, 0), row(I, 1))
    elif k == "ABCD":
        l, r = pair(row(V, 0), row(I, 0)), pair(row(V, 1), -row(I, 1))
    elif k == "T":
        l, r = pair(row(b, 0), row(a, 0)), pair(row(a, 1), row(b, 1))
    else:
        l, r = pair(row(a, 0), row(b, 0)), pair(row(b, 1), row(a, 1))
    m = np.matmul(M, r)
    size = abs(l) + np.matmul(abs(M), abs(r))
    return abs(l - m), size


SIZE = {"S": 1, "Z": 50, "Y": .02, "T": 1, "Tp": 1}


def network(w, name, kind, axes, n, num, z0=None, ok=None, size=1):
    """A network of moderate size, its S-parameters ok."""
    np, r = w.np, w.rng
    kw = {} if z0 is None else dict(Z0=z0)
    if num == "i":
        return matrices(w, name, axes, n, n, num, kind != "S",
                        cls_of(w, kind), **kw)

    def draw():
        x = numbers(w, [len(a.lab) for a in axes] + [n, n], num)
        if kind in "YZ":
            x = x + 2 * n * np.eye(n)
        x = (x * SIZE.get(kind, 1) * size).astype(
            {"f": "f8", "c": "c16", "4": "f4", "z": "c8"}[num])
        if kind == "H":
            x[..., 0, 0] *= 50
            x[..., 1, 1] *= .02
        if kind == "G":
            x[..., 0, 0] *= .02
            x[..., 1, 1] *= 50
        if kind == "ABCD":
            x[..., 0, 1] *= 50
            x[..., 1, 0] *= .02
        return x

    def fine(x):
        return ok(s_of(np, kind, x, z0 or 50.))
    x = redraw(w, draw, fine) if ok else draw()
    al = list(axes) + matrix_axes(w, n, n)
    A, a = labelled(w, name, al, x, cls_of(w, kind), **kw)
    return A, a, a


def regular(w, A, lim=1e3):
    """Conversions that are not close to singular."""
    x = w.np.asarray(A)
    w.assume(x.size == 0 or bool(w.np.all(abs(x) < lim)) and
             bool(w.np.isfinite(x).all()))


@contract("C12", [MP + "convert", MP + "_MultiPortArray.__new__",
                  MP + "_MultiPortArray.__init__", MP + "SArray.P",
                  MP + "ZArray.P", MP + "YArray.P", MP + "HArray.P",
                  MP + "GArray.P", MP + "ABCDArray.P", MP + "TArray.P",
                  MP + "TpArray.P", MP + "_MultiPortArray.__getitem__",
                  MP + "_MultiPortArray.__getattr__",
                  MP + "_MultiPortArray.__setattr__"],
          cases=[dict(part=p) for p in range(4)], prove=False, runs=60,
          bound="up to 4 outer axes, 8 ports")
def any_network(w, part):
    np, r = w.np, w.rng
    axes = outer(w, 4)
    n = r.choice([1, 2, 2, 2, 3, 4, 5, 8])
    kinds = TWO if n == 2 else TWO[:3]
    x, y = r.choice(kinds), r.choice(kinds)
    num = r.choice("fcccziz")
    z1 = r.choice([None, 50., 75, 1., 12.5]) if x == "S" else None
    A, a, _ = network(w, "M", x, axes, n, num, z1)
    z1 = z1 or 50.
    w.true("reference", x != "S" or A.Z0 == z1)
    z2 = r.choice([None, 25., 50, 100.]) if y == "S" else None
    w._log("conversion", (x, y, z1, z2))
    try:
        B = cls_of(w, y)(A) if z2 is None else cls_of(w, y)(A, Z0=z2)
    except np.linalg.LinAlgError:
        w.assume(False)
    # transfer parameters keep the reference of their source
    zy = z2 or (z1 if x == y else 50.) if y == "S" else \
        B.Z0 if y in ("T", "Tp") else 50.
    w.true("a reference impedance", y not in ("T", "Tp") or
           zy in (50, z1))
    w.true("reference of the result", y != "S" or B.Z0 == zy)
    w.true("type", type(B) is cls_of(w, y))
    axes_same(w, "converted", B.dims, a.axes, False)
    unchanged(w, A, a)
    W = port_columns(np, x, a.x.astype("c16"), z1 if x == "S" else 50.)
    M = np.asarray(B).astype("c16")
    w.assume(bool(np.isfinite(M).all()))
    err, size = residual(np, y, M, zy, W)
    # scale of the matrix relative to its unit: how ill the conversion is
    ill = 1 + float(abs(M).max() / SIZE.get(y, 50)) if M.size else 1
    w.assume(ill < (30 if single(a.x) else 1e5))
    tol = (3e-4 if single(a.x) else 1e-10) * ill
    w.true("the same port relation: error %r" % float(
        (err / (size + 1e-30)).max() if err.size else 0),
        bool(np.all(err <= tol * (size + size.max(axis=-2, keepdims=True)))))
    # parts and elements
    if axes:
        k = r.randrange(len(axes))
        idx = tuple(slice(None) for _ in range(k)) + \
            (r.randrange(len(axes[k].lab)),)
        if r.random() < .5:
            idx = (Ellipsis, idx[-1]) + (slice(None),) * (
                len(axes) - k - 1 + 2)
        P = A[idx]
        w.true("type of a part", type(P) is cls_of(w, x))
        w.true("reference of a part", P.Z0 == A.Z0)
        axes_same(w, "part", P.dims, a.axes[:k] + a.axes[k + 1:], False)
        w.true("values of a part", bool(np.all(
            np.asarray(P) == np.asarray(a.x)[idx])))
    short = {"ABCD": "A"}.get(x, x)
    i, j = r.randrange(n), r.randrange(n)
    nm = "%s%d%d" % (r.choice([short, short.upper(), short.lower()]),
                     i + 1, j + 1)
    E = getattr(A, nm)
    w.true("element", type(E) is w.ds.hfarray and bool(np.all(
        np.asarray(E) == a.x[..., i, j])))
    axes_same(w, "element", E.dims, a.axes[:-2], False)
    N = A.copy()
    w.true("copy", type(N) is type(A) and N.Z0 == A.Z0)
    some_ = some(w, axes)
    v = numbers(w, [len(q.lab) for q in some_],
                "i" if num == "i" else "f" if num in "fc" else "4")
    V, mv = labelled(w, "value", some_, v)
    setattr(N, nm, V)
    want = a.x.copy()
    want[..., i, j] = over(np, mv, axes, "")
    w.true("written element %s: %r instead of %r" % (
        nm, np.asarray(N).tolist(), want.tolist()),
        bool(np.all(np.asarray(N) == want)))
    unchanged(w, A, a)
    C = A * 2 + A
    w.true("type of arithmetic", type(C) is cls_of(w, x) and C.Z0 == A.Z0)
    result(w, "arithmetic", C, axes, a.x * 3, a.axes[-2:],
           1e-5 if single(a.x) else 1e-12)


# ---------------------------------------------------------------- C13

def s_of(np, k, M, z0=50.):
    """S-parameters (50 Ohm) of any two-port, from its port relation."""
    W = port_columns(np, k, M.astype("c16"), z0)
    n = M.shape[-1]
    V, I = W[..., :n, :], W[..., n:, :]
    return np.matmul(V - 50 * I, np.linalg.inv(V + 50 * I))


def transmits(S):
    """Two-ports that can be taken away again."""
    return ((abs(S[..., 1, 0]) > .05) & (abs(S[..., 0, 1]) > .02) &
            (abs(S).max((-1, -2)) < 20))


def t_of(np, S):
    """b1, a1 from a2, b2; the next network has a1' = b2, b1' = a2."""
    a, b, c, d = S[..., 0, 0], S[..., 0, 1], S[..., 1, 0], S[..., 1, 1]
    return np.stack([np.stack([b - a * d / c, a / c], -1),
                     np.stack([-d / c, 1 / c], -1)], -2)


def s_from_t(np, T):
    a, b, c, d = T[..., 0, 0], T[..., 0, 1], T[..., 1, 0], T[..., 1, 1]
    return np.stack([np.stack([b / d, a - b * c / d], -1),
                     np.stack([1 / d, -c / d], -1)], -2)


def well(w, *xs):
    np = w.np
    for x in xs:
        w.assume(bool(np.all(np.isfinite(x))) and
                 bool(np.all(abs(x) < 50)))


@contract("C13", [SP + "cascadeS", SP + "deembedleft", SP + "deembedright",
                  SP + "deembed", SP + "switch_correct",
                  MP + "_MultiPortArray.cascade",
                  MP + "_MultiPortArray.deembed"],
          cases=[dict(what=x) for x in ("cascade", "deembed", "methods",
                                        "switch")], prove=False, runs=50,
          bound="up to 5 outer axes")
def any_chain(w, what):
    np, r, m = w.np, w.rng, w.mod("hftools.networks.spar_functions")
    axes = outer(w, 5)
    if what == "switch":
        n = r.choice([1, 2, 2, 3, 4, 6])
        A, a, _ = matrices(w, "a", some(w, axes), n, n, r.choice("fcz"),
                           True)
        B, b, _ = matrices(w, "b", some(w, axes), n, n, r.choice("fcz"))
        u = union(a, b)
        x = np.matmul(over(np, b, u, "ij"),
                      np.linalg.inv(over(np, a, u, "ij").astype("c16")))
        result(w, "switch correction", m.switch_correct(B, A), u, x,
               matrix_axes(w, n, n), 1e-4 if single(a.x, b.x) else 1e-9)
        unchanged(w, A, a)
        unchanged(w, B, b)
        return
    k = 3 if what == "deembed" else 2 if what == "methods" else \
        r.choice([2, 2, 3, 4, 6])
    nets = []
    size = r.choice([1, .5])
    for q in range(k):
        kind = r.choice(TWO) if what == "methods" else "S"
        z0 = r.choice([50., 50., 75., 20]) if what == "methods" and \
            kind == "S" else None
        N, mod, _ = network(w, "N%d" % q, kind, some(w, axes), 2,
                            r.choice("fccz"), z0, transmits, size)
        nets.append((kind, N, mod, z0 or 50.))
    u = union(*[q[2] for q in nets])
    sp = single(*[q[2].x for q in nets])
    ss = []
    for kind, N, mod, z0 in nets:
        s = s_of(np, kind, over(np, mod, u, "ij"), z0)
        ss.append(s)
    ts = [t_of(np, s) for s in ss]
    tol = 1e-2 if sp else 1e-7
    ij = matrix_axes(w, 2, 2)
    if what == "cascade":
        t = ts[0]
        for q in ts[1:]:
            t = np.matmul(t, q)
            w.assume(bool(np.all(abs(t[..., 1, 1]) > .05)))
        want = s_from_t(np, t)
        well(w, want)
        X = m.cascadeS(*[q[1] for q in nets])
        w.true("type", type(X) is cls_of(w, "S"))
        result(w, what, X, u, want, ij, tol)
    elif what == "deembed":
        inv = np.linalg.inv
        t = np.matmul(inv(ts[0]), ts[1])
        w.assume(bool(np.all(abs(t[..., 1, 1]) > .05)))
        ul = union(nets[0][2], nets[1][2])
        ur = union(nets[1][2], nets[2][2])
        two = lambda p, q: [t_of(np, s_of(np, "S", over(
            np, nets[z][2], p, "ij"))) for z in q]
        e, x = two(ul, (0, 1))
        well(w, s_from_t(np, np.matmul(inv(e), x)))
        result(w, "left", m.deembedleft(nets[0][1], nets[1][1]), ul,
               s_from_t(np, np.matmul(inv(e), x)), ij, tol)
        x, e = two(ur, (1, 2))
        v = np.matmul(x, inv(e))
        w.assume(bool(np.all(abs(v[..., 1, 1]) > .05)))
        well(w, s_from_t(np, v))
        result(w, "right", m.deembedright(nets[1][1], nets[2][1]), ur,
               s_from_t(np, v), ij, tol)
        v = np.matmul(t, inv(ts[2]))
        w.assume(bool(np.all(abs(v[..., 1, 1]) > .05)))
        well(w, s_from_t(np, v))
        result(w, "both", m.deembed(*[q[1] for q in nets]), u,
               s_from_t(np, v), ij, tol)
    else:
        (k0, A, a, z0), (k1, B, b, z1) = nets
        w.assume(not sp)
        inv = np.linalg.inv
        for how, t, f in (
                ("cascade", np.matmul(ts[0], ts[1]),
                 lambda: A.cascade(B)),
                ("right", np.matmul(ts[0], inv(ts[1])),
                 lambda: A.deembed(right=B)),
                ("left", np.matmul(inv(ts[1]), ts[0]),
                 lambda: A.deembed(left=B)),
                ("both", np.matmul(inv(ts[1]), np.matmul(ts[0],
                                                         inv(ts[1]))),
                 lambda: A.deembed(left=B, right=B))):
            w.assume(bool(np.all(abs(t[..., 1, 1]) > .05)))
            want = s_from_t(np, t)
            well(w, want)
            X = f()
            w.true("%s: type" % how, type(X) is cls_of(w, k0))
            w.true("%s: outer axes" % how,
                   sorted(d.name for d in X.dims) ==
                   sorted([q.name for q in u] + ["i", "j"]))
            order = [q.name for q in u] + ["i", "j"]
            x = np.asarray(X).transpose(
                [[d.name for d in X.dims].index(q) for q in order])
            w.assume(bool(np.all(abs(x) < 1e5)))
            try:
                got = s_of(np, k0, x, getattr(X, "Z0", None) or 50.
                           if k0 == "S" else 50.)
            except np.linalg.LinAlgError:
                w.assume(False)
            w.true("%s of %s and %s: %r instead of %r" % (
                how, k0, k1, got.tolist(), want.tolist()),
                numbers_same(np, got, want, 1e-4, 1e-4))
        w.true("nothing to remove", A.deembed() is A)
    for kind, N, mod, z0 in nets:
        unchanged(w, N, mod)


# ---------------------------------------------------------------- C14

@contract("C14", [NO + "passive_noise", NO + "Hconj",
                  NO + "NoisyTwoport.convert",
                  NO + "NoisyTwoport.noise_parameters",
                  NO + "from_noisepar"],
          cases=[dict(what=x) for x in ("passive", "convert", "parameters",
                                        "synthesis")], prove=False, runs=40,
          bound="up to 4 outer axes")
def any_noise(w, what):
    np, r, m = w.np, w.rng, w.mod("hftools.networks.noise")
    k = w.mod("hftools.constants").k
    axes = outer(w, 4)
    ij = matrix_axes(w, 2, 2)
    H = lambda x: x.conj().swapaxes(-1, -2)
    if what == "passive":
        kind = r.choice("YZS")
        n = 2 if kind == "S" else r.choice([1, 2, 3, 4])
        z0 = r.choice([None, 75.]) if kind == "S" else None
        A, a, _ = network(w, "M", kind, axes, n, r.choice("fcz"), z0)
        T = r.choice([None, 0, 4.2, 77, 290, 300, 1000.5])
        w._log("T", T)
        N = m.passive_noise(A) if T is None else m.passive_noise(A, T)
        T = 290 if T is None else T
        x = a.x.astype("c16")
        want = k * T * (np.eye(2) - np.matmul(x, H(x))) if kind == "S" else \
            2 * k * T * (x + H(x))
        unit = k * 290 * SIZE[kind]
        w.true("no noise at zero", T != 0 or not np.any(np.asarray(N.C)))
        w.true("network", N.N is A)
        result(w, what, N.C / unit, axes, want / unit, matrix_axes(w, n, n),
               1e-4 if single(a.x) else 1e-10)
        unchanged(w, A, a)
        return
    if what == "synthesis":
        shape = [len(q.lab) for q in axes]
        db = w.ds.DataBlock()
        vs = {}
        for nm, v in (("Rn", 1 + 50 * abs(numbers(w, shape, "f"))),
                      ("Gopt", .6 * np.asarray(numbers(w, shape, "c"))),
                      ("Fmin", None)):
            if nm == "Fmin":
                # a physical set: Fmin - 1 <= 4 Rn Re Yopt
                yo = .02 * (1 - vs["Gopt"]) / (1 + vs["Gopt"])
                v = 1 + 4 * vs["Rn"] * yo.real * (
                    .05 + .9 * abs(numbers(w, shape, "f")))
            vs[nm] = v
            db[nm] = labelled(w, nm, axes, v)[0]
        S, s, _ = network(w, "S", "S", axes, 2, "c", None, transmits)
        db.S = S
        N = m.from_noisepar(db)
        yo = .02 * (1 - vs["Gopt"]) / (1 + vs["Gopt"])
        names = [d.name for d in N.C.dims]
        order = [names.index(q.name) for q in axes + ij]
        C = np.asarray(N.C).transpose(order) / (4 * k * 290)
        w.true("noise refers to the chain matrix",
               type(N.N) is cls_of(w, "ABCD"))
        names = [d.name for d in N.N.dims]
        s2 = s_of(np, "ABCD", np.asarray(N.N).transpose(
            [names.index(q.name) for q in axes + ij]))
        w.true("network", numbers_same(np, s2, s.x, 1e-6, 1e-6))
        for q in range(3):
            ys = .02 * (r.uniform(.1, 3) + 1j * r.uniform(-2, 2))
            t = np.array([ys, 1])
            F = 1 + np.einsum("p,...pq,q->...", t, C, t.conj()) / ys.real
            want = vs["Fmin"] + vs["Rn"] / ys.real * abs(ys - yo) ** 2
            w.true("noise factor %r instead of %r" % (
                F.tolist(), want.tolist()),
                numbers_same(np, F, want.astype(complex), 1e-8, 1e-8))
        back = N.noise_parameters()
        for nm in ("Rn", "Gopt", "Fmin"):
            result(w, nm, back[nm], axes, vs[nm].astype(complex), (), 1e-6)
        return
    kinds = ["Y", "Z", "ABCD", "S"]
    x = r.choice(kinds)
    z0 = r.choice([50., 75.]) if x == "S" else 50.
    A, a, _ = network(w, "M", x, axes, 2, "c", z0 if x == "S" else None,
                      transmits)
    s = s_of(np, x, a.x, z0)
    h = numbers(w, a.x.shape, "c")
    h = np.matmul(h, H(h)) + .1 * np.eye(2)
    u1 = {"Y": [.02, .02], "Z": [50, 50], "ABCD": [7, .14],
          "S": [1, 1]}[x]
    d = np.array(u1) ** .5 if x in "YZ" else np.array(u1)
    h = h * d[:, None] * d[None, :] * 4 * k * 290
    C, c = labelled(w, "C", a.axes, h)
    N = m.NoisyTwoport(A, C)
    if what == "convert":
        y = r.choice([q for q in kinds])
        w._log("to", y)
        R = N.convert(cls_of(w, y))
        regular(w, R.N, 1e4)
        w.true("type", type(R.N) is cls_of(w, y))
        # by way of the chain matrix: noise voltage and current at the input
        e = chain_noise(np, x, a.x, h, z0)
        n1 = [q.name for q in R.N.dims]
        n2 = [q.name for q in R.C.dims]
        al = [q.name for q in axes + ij]
        M = np.asarray(R.N).transpose([n1.index(q) for q in al])
        D = np.asarray(R.C).transpose([n2.index(q) for q in al])
        g = chain_noise(np, y, M, D, z0 if x == y else 50.)
        sc = np.array([7, .14])
        z = sc[:, None] * sc[None, :] * 4 * k * 290
        big = abs(e / z).max() + 1
        w.assume(big < 1e4)
        w.true("the same noise: %r instead of %r" % (
            (g / z).tolist(), (e / z).tolist()),
            bool(np.all(abs(g - e) / z < 1e-5 * big)))
        w.true("Hermitian", bool(np.all(
            abs(D - H(D)) <= 1e-9 * abs(D).max())))
    else:
        db = N.noise_parameters(r.choice([True, False]))
        E = chain_noise(np, x, a.x, h, z0) / (4 * k * 290)
        v = {}
        for nm in ("Rn", "Fmin", "Yopt", "Gopt"):
            names = [q.name for q in db[nm].dims]
            w.true("axes of " + nm,
                   sorted(names) == sorted(q.name for q in axes))
            v[nm] = np.asarray(db[nm]).transpose(
                [names.index(q.name) for q in axes])
        for q in range(3):
            ys = .02 * (r.uniform(.1, 3) + 1j * r.uniform(-2, 2))
            t = np.array([ys, 1])
            F = 1 + np.einsum("p,...pq,q->...", t, E, t.conj()) / ys.real
            want = v["Fmin"] + v["Rn"] / ys.real * abs(ys - v["Yopt"]) ** 2
            w.true("noise factor %r instead of %r" % (
                want.tolist(), F.tolist()),
                numbers_same(np, want.astype(complex), F, 1e-5, 1e-5))
        w.true("reflection", numbers_same(
            np, v["Gopt"], (.02 - v["Yopt"]) / (.02 + v["Yopt"]), 1e-9,
            1e-9))
        w.true("reference impedance", db.S.Z0 == z0)
        result(w, "S", db.S, axes, a.x if x == "S" else s, ij, 1e-6)
    unchanged(w, A, a)
    unchanged(w, C, c)


def chain_noise(np, k, M, C, z0):
    """Correlation matrix of the input noise voltage and current that stand
    for the sources of description k."""
    z = np.zeros(M.shape[:-2])
    o = z + 1
    mat = lambda a, b, c, d: np.stack([np.stack([a, b], -1),
                                       np.stack([c, d], -1)], -2)
    if k == "ABCD":
        T = mat(o, z, z, o)
    elif k == "Y":           # V1 = e + V, I1 = i + I with I2 = Y21 V + ...
        T = mat(z, -1 / M[..., 1, 0], o, -M[..., 0, 0] / M[..., 1, 0])
    elif k == "Z":
        T = mat(o, -M[..., 0, 0] / M[..., 1, 0], z, -1 / M[..., 1, 0])
    else:
        # b1 = S11 a1 + S12 a2 + n1 and b2 = S21 a1 + S22 a2 + n2, the waves
        # scaled by sqrt(z0): sources ahead of the network give
        # a1 -> a1 + d, b1 -> b1 + f with n2 = S21 d, n1 = S11 d + f
        d = mat(z, 1 / M[..., 1, 0], o, -M[..., 0, 0] / M[..., 1, 0])
        r = z0 ** .5
        # (a1', b1') seen by the noiseless network is (a1 + d, b1 - f);
        # outside minus inside: voltage and current of the source
        da, db = -d[..., 0, :], d[..., 1, :]
        T = np.stack([r * (da + db), (da - db) / r], -2)
    return np.matmul(np.matmul(T, C), T.conj().swapaxes(-1, -2))


# ---------------------------------------------------------------- C15

@contract("C15", [SP + "make_passive_svd", SP + "make_passive_eig",
                  SP + "check_passive", SP + "make_reciprocal"],
          cases=[dict(what=x) for x in ("svd", "eig", "reciprocal")],
          prove=False, runs=50, bound="up to 4 outer axes, 7 ports")
def any_enforcement(w, what):
    np, r, m = w.np, w.rng, w.mod("hftools.networks.spar_functions")
    axes = outer(w, 4)
    n = r.choice([1, 2, 3, 5, 7]) if what != "reciprocal" else \
        r.choice([2, 2, 3, 4])
    num = r.choice("fccz") if what != "reciprocal" else r.choice("ccz")
    x = numbers(w, [len(a.lab) for a in axes] + [n, n], num)
    sv = np.linalg.svd(x)[1].max(-1)
    w.assume(bool(np.all(sv > 1e-2)))
    size = np.array([r.choice([.3, .99, 1.01, 1 + 1e-7, 2, 30]) for _ in
                     range(sv.size)]).reshape(sv.shape)
    if what == "eig":
        sv = abs(np.linalg.eigvals(x)).max(-1)
        w.assume(bool(np.all(sv > 1e-2)))
    x = (x / sv[..., None, None] * size[..., None, None]).astype(x.dtype)
    al = list(axes) + matrix_axes(w, n, n)
    z0 = r.choice([None, 75.])
    A, a = labelled(w, "S", al, x, cls_of(w, "S"),
                    **({} if z0 is None else dict(Z0=z0)))
    tol = 1e-4 if single(x) else 1e-9
    if what == "svd":
        R = m.make_passive_svd(A)
        u, s, v = np.linalg.svd(x.astype("c16"))
        want = np.matmul(u * np.minimum(s, 1)[..., None, :], v)
    elif what == "eig":
        d = r.choice([None, 0, 1e-3, .5])
        w._log("delta", d)
        c = m.check_passive(A)
        lam = abs(np.linalg.eigvals(x.astype("c16"))).max(-1)
        w.true("axes", [q.name for q in c.dims] == [q.name for q in axes])
        axes_same(w, "check", c.dims, axes, False)
        w.true("largest eigenvalues %r instead of %r" % (
            np.asarray(c).tolist(), lam.tolist()),
            numbers_same(np, np.asarray(c), lam, tol * 10, tol * 10))
        w.assume(not single(x) or bool(np.all(abs(lam - 1) > 1e-4)))
        R = m.make_passive_eig(A) if d is None else \
            m.make_passive_eig(A, d)
        d = 1e-6 if d is None else d
        want = x * np.where(lam > 1, (1 - d) / lam, 1)[..., None, None]
    else:
        w.assume(bool(np.all(abs(x[..., 0, 1]) > 1e-2)) and
                 bool(np.all(abs(x[..., 1, 0]) > 1e-2)))
        # opposite elements have two roots between them
        ang = np.angle(x[..., 1, 0] / x[..., 0, 1])
        w.assume(bool(np.all(abs(abs(ang) - np.pi) > 1e-3)))
        R = m.make_reciprocal(A)
        want = x.astype("c16")
        rt = x[..., 0, 1] * (abs(x[..., 1, 0]) / abs(
            x[..., 0, 1])) ** .5 * np.exp(.5j * ang)
        want[..., 0, 1] = want[..., 1, 0] = rt
    w.true("type", type(R) is cls_of(w, "S"))
    w.true("reference", R.Z0 == (z0 or 50.))
    result(w, what, R, axes, want.astype(complex), al[-2:], tol * 100
           if what == "svd" else tol)
    unchanged(w, A, a)
