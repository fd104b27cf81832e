"""Matrix algebra, network conversions, cascades, noise."""
from engine.contract import contract
from contracts.common import make_dim, make_dims, union, mk, full, untouched

MA = "math:"
MP = "networks.multiports:"
SP = "networks.spar_functions:"
NO = "networks.noise:"


def mdims(w, n, m=None):
    ds = w.ds
    return [ds.DimMatrix_i("i", n), ds.DimMatrix_j("j", n if m is None
                                                   else m)]


def outer_dims(w, letters):
    return make_dims(w, letters)


def matrix(w, name, letters, dims, n, m=None, cls=None, kind="c", **kw):
    """An array of n x m matrices over the axes named by letters."""
    d = [dims[c] for c in letters] + mdims(w, n, m)
    raw = w.raw(name, [w.size_of(x) for x in d], kind)
    return (cls or w.ds.hfarray)(raw, dims=tuple(d), **kw), raw, d


def entry(w, raw, letters, e, i, j):
    return w.at(raw, [e[c] for c in letters] + [i, j])


def placed(w, name, letters, dims, n, m=None, kind="c", **kw):
    """An array of matrices, the matrix axes anywhere among the letters; the
    second value gives its element (i, j) at the coordinates e."""
    m = n if m is None else m
    if "i" not in letters:
        letters += "ij"
    i, j = mdims(w, n, m)
    d = [i if c == "i" else j if c == "j" else dims[c] for c in letters]
    raw = w.raw(name, [w.size_of(x) for x in d], kind)

    def el(e, p, q):
        return w.at(raw, [p if c == "i" else q if c == "j" else e[c]
                          for c in letters])
    return w.ds.hfarray(raw, dims=tuple(d), **kw), el, (raw, d)


def outer_of(l):
    return l.replace("i", "").replace("j", "")


# outer axes of every rank and class, and the matrix axes in every place
OUTER = ["", "f", "r", "fr", "rf", "fg", "gf", "frs", "srf", "rgf", "p", "xr",
         "fgrs"]
PLACES = ["ij", "fij", "ifj", "ijf", "ji", "jif", "fji", "rfij", "irfj",
          "rifj", "ijrf", "frij", "gijr", "jfir"]


def pairs(items, n):
    """Every item meets itself, nothing and n others."""
    out = []
    for k, a in enumerate(items):
        for b in [a, items[0]] + [items[(k * 3 + q * 5 + 1) % len(items)]
                                  for q in range(n)]:
            if (a, b) not in out:
                out.append((a, b))
    return out


# ------------------------------------------------------------ matrix algebra

@contract("C10", [MA + "matrix_multiply", "dataset.arrayobj:make_same_dims"],
          cases=[dict(a=a, b=b, n=n, k=k, m=m) for a, b, n, k, m in [
              ("f", "f", 2, 2, 2), ("", "f", 2, 2, 2), ("f", "", 2, 2, 2),
              ("fr", "f", 2, 2, 2), ("f", "rf", 2, 2, 2), ("f", "g", 2, 2, 2),
              ("r", "f", 2, 2, 2), ("f", "f", 3, 3, 3), ("", "", 1, 1, 1),
              ("rf", "fr", 2, 2, 2), ("f", "f", 2, 3, 2),
              ("f", "f", 3, 1, 3)]] +
          [dict(a=a, b=b, n=2, k=2, m=2) for a, b in
           pairs(PLACES, 3) + pairs(OUTER, 1)] +
          [dict(a=a, b=b, n=n, k=k, m=m) for a, b in
           [("ifj", "f"), ("fij", "ifj"), ("rf", "jrfi")]
           for n, k, m in [(1, 2, 3), (3, 2, 1), (4, 4, 4), (2, 4, 3)]] +
          [dict(a="f", b=b, n=2, k=2, m=2, kinds=k) for b in ("f", "r")
           for k in ("fc", "cf", "ff")])
def multiply(w, a, b, n, k, m, kinds="cc"):
    mod = w.mod("hftools.math")
    dims = outer_dims(w, outer_of(a + b))
    A, ea, keepa = placed(w, "A", a, dims, n, k, kinds[0])
    B, eb, keepb = placed(w, "B", b, dims, k, m, kinds[1])
    R = mod.matrix_multiply(A, B)
    u = union(outer_of(a), outer_of(b))
    w.true("type", type(R) is w.ds.hfarray)
    check_outer(w, R, dims, u)
    w.true("matrix shape", (R.shape[-2], R.shape[-1]) == (n, m))
    w.true("matrix labels", (w.size_of(R.dims[-2]),
                             w.size_of(R.dims[-1])) == (n, m))
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        for i in range(n):
            for j in range(m):
                v = 0
                for q in range(k):
                    v = v + ea(e, i, q) * eb(e, q, j)
                w.eq("entry of the product", w.at(R, idx + (i, j)), v)
    untouched(w, "left factor unchanged", A, *keepa)
    untouched(w, "right factor unchanged", B, *keepb)


def det_of(w, M):
    n = len(M)
    if n == 1:
        return M[0][0]
    r = 0
    for j in range(n):
        minor = [row[:j] + row[j + 1:] for row in M[1:]]
        r = r + (-1) ** j * M[0][j] * det_of(w, minor)
    return r


def nonsingular(w, raw, n):
    """Concrete draws only: keep away from singular matrices."""
    if not w.symbolic:
        np = w.np
        a = np.asarray(raw).reshape(-1, n, n)
        w.assume(bool((abs(np.linalg.det(a)) > 1e-2).all()))


def regular_matrices(w, A, n):
    """Concrete draws only: keep away from singular matrices."""
    if not w.symbolic:
        np = w.np
        k = [c for c, d in enumerate(A.dims)
             if isinstance(d, w.ds.DimMatrix_i)]
        l = [c for c, d in enumerate(A.dims)
             if isinstance(d, w.ds.DimMatrix_j)]
        a = np.moveaxis(np.asarray(A), (k[0], l[0]), (-2, -1))
        w.assume(bool((abs(np.linalg.det(a)) > 1e-2).all()))


@contract("C10", [MA + "inv", MA + "det"],
          cases=[dict(a=a, n=n) for a in ("", "f", "fr") for n in (1, 2, 3)] +
          [dict(a=a, n=2) for a in OUTER + PLACES if a not in
           ("", "f", "fr")] +
          [dict(a=a, n=n) for a in ("ifj", "rfij", "jif") for n in (1, 3)] +
          [dict(a=a, n=2, kind="f") for a in ("f", "rf")],
          thorough=[dict(a="f", n=4)], seconds=40)
def inverse_and_determinant(w, a, n, kind="c"):
    mod = w.mod("hftools.math")
    u = outer_of(a)
    dims = outer_dims(w, u)
    A, el, keep = placed(w, "A", a, dims, n, kind=kind)
    regular_matrices(w, A, n)
    I = mod.inv(A)
    D = mod.det(A)
    check_outer(w, I, dims, u)
    w.dims_are("determinant", D, [dims[c] for c in u])
    w.true("types", type(I) is type(D) is w.ds.hfarray)
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        M = [[el(e, i, j) for j in range(n)] for i in range(n)]
        w.eq("determinant", w.at(D, idx), det_of(w, M))
        for i in range(n):
            for j in range(n):
                v = 0
                for q in range(n):
                    v = v + M[i][q] * w.at(I, idx + (q, j))
                w.eq("A times its inverse is the identity", v,
                     1 if i == j else 0)
    untouched(w, "argument unchanged", A, *keep)


def solves(w, X, u, dims, ea, eb, n, m, tol=1e-6):
    w.true("rank", X.ndim == len(u) + 2 == len(X.dims))
    for q, c in enumerate(u):
        w.same_dim("outer axis", X.dims[q], type(dims[c]), dims[c].name,
                   dims[c].data, dims[c].unit)
    w.true("matrix axes", (type(X.dims[-2]), type(X.dims[-1])) ==
           (w.ds.DimMatrix_i, w.ds.DimMatrix_j))
    w.true("matrix shape", (X.shape[-2], X.shape[-1]) == (n, m))
    w.true("matrix labels", (w.size_of(X.dims[-2]),
                             w.size_of(X.dims[-1])) == (n, m))
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        for i in range(n):
            for j in range(m):
                v = 0
                for q in range(n):
                    v = v + ea(e, i, q) * w.at(X, idx + (q, j))
                w.eq("A x = b", v, eb(e, i, j), tol=tol)


@contract("C10", [MA + "solve_Ab"],
          cases=[dict(a=a, b=b, n=n, m=m, sq=s) for a, b, n, m, s in [
              ("f", "f", 2, 2, False), ("f", "f", 2, 2, True),
              ("f", "fr", 2, 2, False), ("fr", "f", 2, 2, False),
              ("f", "f", 3, 3, False), ("f", "f", 2, 1, False),
              ("", "f", 2, 2, False)]] +
          [dict(a=a, b=b, n=2, m=2, sq=bool(q % 2)) for q, (a, b) in
           enumerate(pairs(PLACES, 1) + pairs(OUTER, 0))] +
          [dict(a=a, b=b, n=2, m=m, sq=False) for a, b in
           [("rf", "f"), ("ifj", "fij"), ("f", "ijr")] for m in (1, 3)])
def solve(w, a, b, n, m, sq):
    mod = w.mod("hftools.math")
    u = union(outer_of(a), outer_of(b))
    dims = dict((c, make_dim(w, c, n=w.size("n" + c, lo=2))) for c in
                sorted(u))
    A, ea, keepa = placed(w, "A", a, dims, n)
    B, eb, keepb = placed(w, "B", b, dims, n, m)
    regular_matrices(w, A, n)
    X = mod.solve_Ab(A, B, squeeze=sq)
    solves(w, X, u, dims, ea, eb, n, m)
    untouched(w, "matrix unchanged", A, *keepa)
    untouched(w, "right side unchanged", B, *keepb)


@contract("C10", [MA + "lstsq", MA + "broadcast_matrices.__init__"],
          cases=[dict(a=a, b=b, n=n) for a, b, n in [
              ("f", "f", 2), ("fr", "fr", 2), ("f", "f", 3),
              ("fr", "f", 2), ("f", "fr", 2)]] +
          [dict(a=a, b=b, n=2) for a, b in pairs(PLACES[:8], 0) +
           pairs(OUTER, 0)], prove=False)
def least_squares(w, a, b, n):
    """For a regular square system the least-squares solution solves it."""
    mod = w.mod("hftools.math")
    u = union(outer_of(a), outer_of(b))
    dims = outer_dims(w, u)
    A, ea, keepa = placed(w, "A", a, dims, n)
    B, eb, keepb = placed(w, "B", b, dims, n)
    regular_matrices(w, A, n)
    solves(w, mod.lstsq(A, B), u, dims, ea, eb, n, n, 1e-5)
    untouched(w, "matrix unchanged", A, *keepa)
    untouched(w, "right side unchanged", B, *keepb)


def drawn_matrices(w, name, shape, kind):
    """Concrete matrices that are well conditioned up to the scaling of rows
    and columns: real, complex, whole numbers or badly scaled."""
    np = w.np
    n, m = shape[-2:]
    raw = np.empty(shape, complex if kind in "cs" else float)
    for q in np.ndindex(*shape[:-2]):
        while True:
            a = np.array([[w.rng.uniform(-1, 1) for _ in range(m)]
                          for _ in range(n)])
            if kind in "cs":
                a = a + 1j * np.array([[w.rng.uniform(-1, 1)
                                        for _ in range(m)]
                                       for _ in range(n)])
            if kind == "i":
                a = np.round(a * 9)
            if np.linalg.svd(a)[1].min() > .1:
                break
        if kind == "s":
            a = a * np.array([[10. ** w.rng.randint(-7, 7)]
                              for _ in range(n)])
        raw[q] = a
    if kind == "i":
        raw = raw.astype(int)
    w._log(name, repr(raw.tolist())[:3000])
    return raw


@contract("C10", [MA + "inv", MA + "det", MA + "solve_Ab",
                  MA + "matrix_multiply", MA + "lstsq"],
          cases=[dict(n=n, kind=k, d=d) for n in range(1, 8)
                 for k, d in (("f", "f"), ("c", "fr"), ("i", "r"), ("s", "f"),
                              ("c", ""), ("f", "fgrs"))],
          prove=False, runs=3, bound="matrices up to 7 x 7")
def matrices_of_any_size(w, n, kind, d):
    """Real, complex, whole-number and badly scaled matrices of every size
    against numpy one coordinate at a time."""
    mod, np = w.mod("hftools.math"), w.np
    dims = dict((c, make_dim(w, c, n=w.size("n" + c, lo=2))) for c in d)
    outer = [dims[c] for c in d]
    so = [w.size_of(x) for x in outer]
    m = w.rng.randrange(1, 5)
    dl, dr = outer + mdims(w, n), outer + mdims(w, n, m)
    ra = drawn_matrices(w, "A", so + [n, n], kind)
    rb = drawn_matrices(w, "B", so + [n, m], "i" if kind == "i" else
                        "c" if w.rng.random() < .5 else "f")
    A = w.ds.hfarray(ra.copy(), dims=tuple(dl))
    B = w.ds.hfarray(rb.copy(), dims=tuple(dr))
    D, I = mod.det(A), mod.inv(A)
    X, P = mod.solve_Ab(A, B, squeeze=False), mod.matrix_multiply(A, B)
    XS = mod.solve_Ab(A, B)
    w.dims_are("determinant", D, outer)
    w.dims_are("inverse", I, dl)
    w.dims_are("solution", X, dr)
    w.dims_are("product", P, dr)
    w.true("squeezed solution has the axes longer than one",
           [x.name for x in XS.dims] ==
           [x.name for x in dr if w.size_of(x) > 1])
    w.true("squeezed solution", np.array_equal(
        np.asarray(XS), np.asarray(X).squeeze()))
    K = n + w.rng.randrange(0, 4)
    rc = drawn_matrices(w, "C", so + [K, n], "f" if kind == "i" else kind)
    re = drawn_matrices(w, "E", so + [K, m], "c" if w.rng.random() < .5
                        else "f")
    L = mod.lstsq(w.ds.hfarray(rc.copy(), dims=tuple(outer + mdims(w, K, n))),
                  w.ds.hfarray(re.copy(), dims=tuple(outer + mdims(w, K, m))))
    w.dims_are("least squares", L, dr)
    near = lambda x, y: bool(np.all(abs(x - y) <= 1e-9 * abs(y).max()))
    for q in np.ndindex(*so):
        a, b = ra[q], rb[q]
        w.true("determinant value", near(np.asarray(D)[q],
                                         np.linalg.det(a)))
        w.true("inverse value", near(np.asarray(I)[q], np.linalg.inv(a)))
        w.true("solution value", near(np.asarray(X)[q],
                                      np.linalg.solve(a, b)))
        w.true("product value", near(np.asarray(P)[q], np.dot(a, b)))
        # the rank of nearly dependent columns is a matter of rounding
        if np.linalg.cond(rc[q]) < 1e5:
            w.true("least squares value", bool(np.all(abs(
                np.asarray(L)[q] - np.linalg.lstsq(
                    rc[q], re[q], rcond=None)[0]) <= 1e-7 * (
                        1e-30 + abs(np.asarray(L)[q]).max()))))
    untouched(w, "matrices unchanged", A, ra, dl)


@contract("C10", [MA + "make_matrix"],
          cases=[dict(l=l) for l in [("f", "f", "f", "f"),
                                     ("f", "", "r", "f"),
                                     ("fr", "f", "r", ""),
                                     ("r", "f", "f", "f"),
                                     ("", "", "", ""), ("", "", "f", ""),
                                     ("rf", "fr", "f", "rf"),
                                     ("", "f", "g", "r"),
                                     ("fgrs", "f", "s", "rg"),
                                     ("p", "x", "px", "p"),
                                     ("srf", "frs", "rsf", "fsr"),
                                     ("r", "r", "r", "r"),
                                     ("", "f", "f", "f"),
                                     ("f", "f", "f", "")]] +
          [dict(l=("f", "f", "", "f"), kinds=k) for k in ("fccc", "ccff",
                                                          "fffc", "ffff")])
def matrix_from_elements(w, l, kinds="cccc"):
    mod = w.mod("hftools.math")
    dims = outer_dims(w, "".join(l))
    parts = [mk(w, "abcd"[q], x, dims, kinds[q]) for q, x in enumerate(l)]
    R = mod.make_matrix(*[p[0] for p in parts])
    u = []
    for x in l:
        u = union(u, x)
    w.true("rank", R.ndim == len(u) + 2 == len(R.dims))
    for q, c in enumerate(u):
        w.same_dim("outer axis", R.dims[q], type(dims[c]), dims[c].name,
                   dims[c].data, dims[c].unit)
    w.true("row axis", type(R.dims[-2]) is w.ds.DimMatrix_i)
    w.true("column axis", type(R.dims[-1]) is w.ds.DimMatrix_j)
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        for q in range(4):
            w.eq("entry", w.at(R, idx + (q // 2, q % 2)),
                 w.at(parts[q][1], [e[c] for c in l[q]]))


# ------------------------------------------------------------ conversions

NAMES = ["S", "Z", "Y", "H", "G", "ABCD", "T", "Tp"]


def cls_of(w, n):
    return getattr(w.mod("hftools.networks.multiports"), n + "Array")


def ports(w, kind, M, e, z0):
    """Port voltages and currents for excitation e of a network described
    by M in the given representation."""
    n = len(M)
    out = []
    for i in range(n):
        v = 0
        for j in range(n):
            v = v + M[i][j] * e[j]
        out.append(v)
    rz = w.sqrt(w.num(z0))
    wave_v = lambda a, b: rz * (a + b)
    wave_i = lambda a, b: (a - b) / rz
    if kind == "Z":
        return out, list(e)
    if kind == "Y":
        return list(e), out
    if kind == "S":
        return ([wave_v(a, b) for a, b in zip(e, out)],
                [wave_i(a, b) for a, b in zip(e, out)])
    if kind == "H":       # v1, i2 of i1, v2
        return [out[0], e[1]], [e[0], out[1]]
    if kind == "G":       # i1, v2 of v1, i2
        return [e[0], out[1]], [out[0], e[1]]
    if kind == "ABCD":    # v1, i1 of v2, -i2
        return [out[0], e[0]], [out[1], -e[1]]
    if kind == "T":       # b1, a1 of a2, b2
        b1, a1 = out
        a2, b2 = e
    else:                 # a1, b1 of b2, a2
        a1, b1 = out
        b2, a2 = e
    return ([wave_v(a1, b1), wave_v(a2, b2)],
            [wave_i(a1, b1), wave_i(a2, b2)])


def residuals(w, kind, M, v, i, z0):
    """Zero iff the port quantities satisfy the network M."""
    n = len(M)
    rz = w.sqrt(w.num(z0))
    a = [(v[k] / rz + rz * i[k]) / 2 for k in range(n)]
    b = [(v[k] / rz - rz * i[k]) / 2 for k in range(n)]
    lhs, rhs = {
        "Z": lambda: (v, i), "Y": lambda: (i, v), "S": lambda: (b, a),
        "H": lambda: ([v[0], i[1]], [i[0], v[1]]),
        "G": lambda: ([i[0], v[1]], [v[0], i[1]]),
        "ABCD": lambda: ([v[0], i[0]], [v[1], -i[1]]),
        "T": lambda: ([b[0], a[0]], [a[1], b[1]]),
        "Tp": lambda: ([a[0], b[0]], [b[1], a[1]])}[kind]()
    out = []
    for k in range(n):
        s = 0
        for j in range(n):
            s = s + M[k][j] * rhs[j]
        out.append((lhs[k], s))
    return out


def at_matrix(w, a, idx, n):
    return [[w.at(a, tuple(idx) + (i, j)) for j in range(n)]
            for i in range(n)]


def same_network(w, label, kx, MX, zx, ky, MY, zy):
    n = len(MX)
    for q in range(n):
        e = [w.num(1 if k == q else 0) for k in range(n)]
        v, i = ports(w, kx, MX, e, zx)
        for l, r in residuals(w, ky, MY, v, i, zy):
            w.eq(label, l, r, tol=1e-5)


def conditioned(w, raw, n):
    """Concrete draws: keep intermediate matrices well conditioned."""
    if not w.symbolic:
        np = w.np
        a = np.asarray(raw).reshape(-1, n, n)
        w.assume(bool((abs(np.linalg.det(a)) > 5e-2).all()))
        w.assume(bool((abs(a) > 5e-2).all()))


def scaled(w, name, letters, dims, n, kind, dtype="g"):
    """Raw matrix entries (impedances of the order of the 50 Ohm system)."""
    d = [dims[c] for c in letters] + mdims(w, n)
    raw = w.raw(name, [w.size_of(x) for x in d], dtype)
    conditioned(w, raw, n)
    if not w.symbolic:
        import numpy as np
        if kind in "SZY":
            e = np.eye(n)
            for s in (1, -1):
                w.assume(bool((abs(np.linalg.det(
                    e - s * raw)) > 5e-2).all()))
        f = {"Z": 50., "Y": .02}.get(kind)
        if f:
            raw = raw * f
        if kind == "ABCD":
            raw = raw * np.array([[1, 50.], [.02, 1]])
        if kind == "H":
            raw = raw * np.array([[50., 1], [1, .02]])
        if kind == "G":
            raw = raw * np.array([[.02, 1], [1, 50.]])
    return raw, d


def close(w, ky, R):
    """Skip draws whose conversion is singular."""
    if not w.symbolic:
        np = w.np
        w.assume(bool(np.isfinite(np.asarray(R)).all()) and
                 bool((abs(np.asarray(R)) < 1e7).all()))


@contract("C12", [MP + "convert", MP + "_MultiPortArray.__init__",
                  MP + "_MultiPortArray.__new__"] +
          [MP + x + "Array.P" for x in NAMES],
          cases=[dict(x=x, y=y, d=d) for x in NAMES for y in NAMES
                 for d in (["f"] if x != y else ["fr"])] +
          [dict(x=x, y=y, d=OUTER[(8 * p + 3 * q) % len(OUTER)])
           for p, x in enumerate(NAMES) for q, y in enumerate(NAMES)] +
          [dict(x=x, y=y, d="rf") for x in "SZY" for y in "SZY"] +
          [dict(x=x, y=y, d="f", dtype="f") for x in "SZY" for y in "SZ"],
          thorough=[dict(x=x, y=y, d=d) for x in NAMES for y in NAMES
                    for d in ("", "fr", "rf")], runs=4)
def convert_two_port(w, x, y, d, dtype="g"):
    dims = outer_dims(w, d)
    raw, dl = scaled(w, "M", d, dims, 2, x, dtype)
    X = cls_of(w, x)(raw, dims=tuple(dl))
    R = cls_of(w, y)(X)
    close(w, y, R)
    w.true("type", type(R) is cls_of(w, y))
    w.dims_are("dimensions kept", R, dl)
    for idx in w.forall([w.size_of(c) for c in dl[:-2]]):
        same_network(w, "%s to %s describes the same network" % (x, y),
                     x, at_matrix(w, raw, idx, 2), 50,
                     y, at_matrix(w, R, idx, 2), 50)
    untouched(w, "source unchanged", X, raw, dl)


@contract("C12", [MP + "convert", MP + "SArray.P", MP + "ZArray.__init__",
                  MP + "YArray.__init__"],
          cases=[dict(x=x, y=y, n=n) for x in "SZY" for y in "SZY"
                 for n in (1, 3)] +
          [dict(x=x, y=y, n=n, d=d) for x in "SZY" for y in "SZY"
           for n, d in ((1, "rf"), (1, ""), (3, "rf"))] +
          [dict(x=x, y=y, n=4) for x, y in ("ZY", "YZ", "SS", "ZZ", "YY")],
          runs=4, seconds=60)
def convert_n_port(w, x, y, n, d="f"):
    dims = outer_dims(w, d)
    raw, dl = scaled(w, "M", d, dims, n, x)
    X = cls_of(w, x)(raw, dims=tuple(dl))
    R = cls_of(w, y)(X)
    close(w, y, R)
    w.true("type", type(R) is cls_of(w, y))
    w.dims_are("dimensions kept", R, dl)
    for idx in w.forall([w.size_of(c) for c in dl[:-2]]):
        same_network(w, "%s to %s describes the same network" % (x, y),
                     x, at_matrix(w, raw, idx, n), 50,
                     y, at_matrix(w, R, idx, n), 50)


@contract("C12", [MP + "convert", MP + "SArray.P"],
          cases=[dict(x=x, y=y, n=n) for x, y in ("SZ", "SY", "ZS", "YS")
                 for n in (4, 5)] +
          [dict(x=x, y=y, n=n, z=True) for x, y in
           ("SZ", "SY", "ZS", "YS", "SS") for n in (1, 2, 3, 4, 5)] +
          [dict(x=x, y=y, n=n, z="complex") for x, y in
           ("SZ", "SY", "ZS", "YS", "SS") for n in (1, 2, 3)],
          prove=False, runs=4)
def convert_many_ports(w, x, y, n, z=False):
    """Larger multiports, also with another reference impedance."""
    dims = outer_dims(w, "f")
    z0 = 20 * w.pos("z0") if z else 50
    if z == "complex":
        z0 = z0 + 20j * (w.rng.random() - .5)
        w._log("z0", str(z0))
    raw, dl = scaled(w, "M", "f", dims, n, x)
    kw = lambda k: {"Z0": z0} if k == "S" and z else {}
    X = cls_of(w, x)(raw, dims=tuple(dl), **kw(x))
    z1 = 35. if x == y and z else z0
    R = cls_of(w, y)(X, **({"Z0": z1} if y == "S" and z else {}))
    close(w, y, R)
    w.dims_are("dimensions kept", R, dl)
    for idx in w.forall([w.size_of(c) for c in dl[:-2]]):
        same_network(w, "%s to %s describes the same network" % (x, y),
                     x, at_matrix(w, raw, idx, n), z0,
                     y, at_matrix(w, R, idx, n), z1)


@contract("C12", [MP + "SArray.__init__", MP + "SArray.P",
                  MP + "_MultiPortArray.view",
                  MP + "_MultiPortArray.__getitem__"],
          cases=[dict(x=x) for x in ("Z", "Y", "ABCD", "S", "same", "plain",
                                     "H", "G", "T", "Tp")] +
          [dict(x=x, n=n) for x in ("Z", "Y", "S", "same", "plain")
           for n in (1, 3)] +
          [dict(x=x, d=d) for x in ("Z", "S", "plain", "T")
           for d in ("", "rf", "fr")] +
          [dict(x=x, to=t) for x in ("plain", "S") for t in NAMES[1:]] +
          [dict(x="plain", to=t, n=n) for t in "ZY" for n in (1, 3)],
          seconds=60)
def reference_impedance(w, x, n=2, d="f", to="Z"):
    """An explicit reference impedance is used and kept."""
    SA = cls_of(w, "S")
    dims = outer_dims(w, d)
    z0 = w.pos("z0")
    if not w.symbolic:
        z0 = 20 * z0
    elif x == "S":
        w.assume(w.neg(z0 == 50))    # 50 Ohm itself: the case "same"
    if x == "same":
        x, z0 = "S", 50
    if x == "plain":
        raw, dl = scaled(w, "M", d, dims, n, "S")
        R = SA(raw, dims=tuple(dl), Z0=z0)
        kind, zs = "S", z0
    else:
        raw, dl = scaled(w, "M", d, dims, n, x)
        R = SA(cls_of(w, x)(raw, dims=tuple(dl)), Z0=z0)
        kind, zs = x, 50
    close(w, "S", R)
    w.eq("reference impedance", R.Z0, z0)
    w.dims_are("dimensions", R, dl)
    for label, Q in [("slice", R[:]), ("ellipsis", R[...]),
                     ("copy", R.copy()), ("view", R.view()),
                     ("SArray of it", SA(R))]:
        w.eq("reference impedance of " + label, Q.Z0, z0)
        w.same_array(label, Q, lambda *i: w.at(R, i), R.shape)
    Z = cls_of(w, to)(R)
    close(w, to, Z)
    w.dims_are("dimensions", Z, dl)
    z1 = Z.Z0 if to in ("T", "Tp") else 50
    for idx in w.forall([w.size_of(c) for c in dl[:-2]]):
        M = at_matrix(w, raw, idx, n)
        same_network(w, "with a reference impedance", kind, M, zs,
                     "S", at_matrix(w, R, idx, n), z0)
        same_network(w, "and on to " + to, kind, M, zs,
                     to, at_matrix(w, Z, idx, n), z1)


@contract("C12", [MP + "make_accessor", MP + "_MultiPortArray.__getattr__",
                  MP + "_MultiPortArray.__setattr__",
                  MP + "_MultiPortArray.__getitem__"],
          cases=[dict(x=x, n=2) for x in NAMES] +
                [dict(x=x, n=n) for x in "SZY" for n in (1, 3, 4, 9, 10)] +
                [dict(x=x, n=2, d=d) for x, d in zip(
                    NAMES * 2, OUTER[:1] + OUTER[2:] + ["p", "rf", "fr"])] +
                [dict(x=x, n=2, d=d, v=v) for x, (d, v) in zip(NAMES * 2, [
                    ("fr", "rf"), ("rf", "fr"), ("fr", "f"), ("fr", "r"),
                    ("fr", ""), ("srf", "fs"), ("px", "xp"), ("f", ""),
                    ("fgr", "gr"), ("gf", "fg")])])
def element_access(w, x, n, d="f", v=None):
    v = d if v is None else v
    short = "A" if x == "ABCD" else x
    dims = outer_dims(w, d)
    dl = [dims[c] for c in d] + mdims(w, n)
    raw = w.raw("M", [w.size_of(q) for q in dl], "c")
    X = cls_of(w, x)(raw, dims=tuple(dl))
    p = ((w.rng.randrange(n), w.rng.randrange(n)) if not w.symbolic and
         n > 3 else (0, n - 1))
    for i in range(n):
        for j in range(n):
            for nm in (short, short.lower(), short.upper()):
                el = getattr(X, "%s%d%d" % (nm, i + 1, j + 1))
                full(w, "element", el, dl[:-2],
                     lambda *q: w.at(raw, q + (i, j)))
    V, rv = mk(w, "v", v, dims, "c")
    val = lambda q: w.at(rv, [q[d.index(c)] for c in v])
    setattr(X, "%s%d%d" % (short, p[0] + 1, p[1] + 1), V)
    for q in w.forall([w.size_of(c) for c in dl[:-2]]):
        for i in range(n):
            for j in range(n):
                w.eq("only the named element is assigned",
                     w.at(X, q + (i, j)),
                     val(q) if (i, j) == p else w.at(raw, q + (i, j)))
    if d:
        Q = X[0]
        w.true("a matrix selection keeps the type", type(Q) is type(X))
        for q in w.forall([w.size_of(c) for c in dl[1:-2]]):
            w.eq("selection", w.at(Q, q + p), val((0,) + q))
    E = X[..., 0, 0]
    w.true("an element selection is a plain labelled array",
           type(E) is w.ds.hfarray)
    with w.raises("unknown element", AttributeError):
        getattr(X, "%s%d1" % (short, n + 1))


@contract("C12", [MP + "_MultiPortArray.__new__",
                  MP + "_MultiPortArray.__init__", MP + "SArray.__init__"],
          cases=[dict(x=x) for x in NAMES])
def construction(w, x):
    """What is asked for when an array is made is what it has."""
    dims = outer_dims(w, "f")
    ds = w.ds
    K = cls_of(w, x)
    dl = [dims["f"]] + mdims(w, 2)
    shape = [w.size_of(d) for d in dl]
    raw = w.raw("M", shape, "f")
    R = K(raw, dims=tuple(dl), unit="Ohm")
    w.true("unit", R.unit == "Ohm")
    w.true("default reference impedance", R.Z0 == 50)
    full(w, "array", R, dl, lambda *i: w.at(raw, i), cls=K)
    full(w, "array by info", K(raw, info=tuple(dl)), dl,
         lambda *i: w.at(raw, i), cls=K)
    with w.raises("dims and info", ValueError):
        K(raw, info=tuple(dl), dims=tuple(dl))
    R = K(raw)
    w.true("default axes", [type(d) for d in R.dims] ==
           [ds.DimSweep, ds.DimMatrix_i, ds.DimMatrix_j])
    w.same_array("default axes", R, lambda *i: w.at(raw, i), shape)
    n4 = [w.size("n4"), w.size("m4"), 2, 2]
    raw4 = w.raw("M4", n4, "f")
    R = K(raw4)
    w.true("default axes", [type(d) for d in R.dims] ==
           [ds.DimSweep, ds.DimRep, ds.DimMatrix_i, ds.DimMatrix_j])
    w.same_array("default axes", R, lambda *i: w.at(raw4, i), n4)
    for axes in ((dims["f"], ds.DimMatrix_j("j", 2)),
                 (ds.DimMatrix_i("i", 2), ds.DimSweep("g", 2)),
                 (dims["f"], ds.DimRep("r", 2))):
        sh = [w.size_of(d) for d in axes]
        odd = K(w.raw("odd%s" % axes[1].name, sh), dims=axes)
        w.true("not a matrix", not odd.ismatrix())
        with w.raises("not a matrix", ValueError):
            cls_of(w, "S" if x != "S" else "ABCD")(odd)
    w.true("a matrix", R.ismatrix())
    H = ds.hfarray(raw, dims=tuple(dl), unit="V")
    full(w, "axes and unit of a labelled array", K(H), dl,
         lambda *i: w.at(raw, i), cls=K, unit="V")
    other = cls_of(w, "Y" if x != "Y" else "Z")
    X = K(raw, dims=tuple(dl))
    with w.raises("part of a matrix", ValueError):
        other(X[..., :1, :])
    if x != "S":
        S = cls_of(w, "S")(scaled(w, "S", "f", dims, 2, "S")[0],
                           dims=tuple(dl), Z0=75)
        w.true("default reference impedance",
               cls_of(w, "S")(K(S)).Z0 == 50)


@contract("C12", [MP + "_TwoPortArray.__init__"],
          cases=[dict(x=x, n=n) for x in NAMES[3:] for n in (1, 3)])
def two_port_only(w, x, n):
    dims = outer_dims(w, "f")
    raw, dl = scaled(w, "M", "f", dims, n, "S")
    with w.raises("only 2x2", ValueError):
        cls_of(w, x)(raw, dims=tuple(dl))
    for a, b in ((n, 2), (2, n)):
        axes = (dims["f"], w.ds.DimMatrix_i("i", a), w.ds.DimMatrix_j("j", b))
        part = w.raw("P%d%d" % (a, b), [w.size_of(d) for d in axes], "c")
        with w.raises("only 2x2", ValueError):
            cls_of(w, x)(part, dims=axes)
        with w.raises("only 2x2", ValueError):
            cls_of(w, x)(w.ds.hfarray(part, dims=axes))
        with w.raises("only 2x2", ValueError):
            cls_of(w, x)(part)


@contract("C12", [MP + "_MultiPortArray.view",
                  MP + "_MultiPortArray.__array_finalize__"],
          cases=[dict(x=x, op=o) for x in NAMES for o in
                 ("view", "add", "mul", "rmul", "neg", "div", "sub", "copy",
                  "fulldata")] + [dict(x="S", op=o, n=3) for o in
                                  ("div", "sub")])
def arithmetic_keeps_type(w, x, op, n=2):
    dims = outer_dims(w, "f")
    raw, dl = scaled(w, "M", "f", dims, n, x)
    X = cls_of(w, x)(raw, dims=tuple(dl))
    if x == "S":
        X.Z0 = 75
    rb = w.raw("B", [w.size_of(d) for d in dl], "c")
    B = w.ds.hfarray(rb, dims=tuple(dl))
    R, f = {"view": lambda: (X.view(), lambda a, b: a),
            "copy": lambda: (X.copy(), lambda a, b: a),
            "add": lambda: (X + X, lambda a, b: a + a),
            "neg": lambda: (-X, lambda a, b: -a),
            "div": lambda: (X / 2, lambda a, b: a / 2),
            "sub": lambda: (X - 1, lambda a, b: a - 1),
            "fulldata": lambda: (X - B, lambda a, b: a - b),
            "rmul": lambda: (3 * X, lambda a, b: 3 * a),
            "mul": lambda: (X * 2, lambda a, b: a * 2)}[op]()
    w.true("type", type(R) is type(X))
    w.dims_are("dimensions", R, dl)
    w.same_array("values", R, lambda *i: f(w.at(raw, i), w.at(rb, i)),
                 raw.shape)
    if x == "S":
        w.eq("reference impedance", R.Z0, 75)
    short = "A" if x == "ABCD" else x
    for i in range(n):
        for j in range(n):
            full(w, "element", getattr(R, "%s%d%d" % (short, i + 1, j + 1)),
                 dl[:-2], lambda q: f(w.at(raw, (q, i, j)),
                                      w.at(rb, (q, i, j))))
    if op not in ("view",):
        setattr(R, "%s12" % short, 0)
        for q, in w.forall((w.size_of(dl[0]),)):
            for i in range(n):
                for j in range(n):
                    w.eq("only the named element is assigned",
                         w.at(R, (q, i, j)), 0 if (i, j) == (0, 1) else
                         f(w.at(raw, (q, i, j)), w.at(rb, (q, i, j))))
    untouched(w, "operand unchanged", X, raw, dl)


# ------------------------------------------------------------ cascades

def cascade_spec(A, B):
    """Solve the connected network for the outgoing waves."""
    R = [[None, None], [None, None]]
    den = 1 - A[1][1] * B[0][0]
    for q in range(2):
        a1, a2 = (1, 0) if q == 0 else (0, 1)
        y = (A[1][0] * a1 + A[1][1] * B[0][1] * a2) / den
        x = B[0][0] * y + B[0][1] * a2
        R[0][q] = A[0][0] * a1 + A[0][1] * x
        R[1][q] = B[1][0] * y + B[1][1] * a2
    return R


CAS = [("f", "f"), ("", "f"), ("f", ""), ("fr", "f"), ("f", "r"),
       ("rf", "f"), ("f", "rf"), ("g", "f")]
CAS += [x for x in pairs(OUTER, 1) if x not in CAS]


@contract("C13", [SP + "cascadeS"],
          cases=[dict(a=a, b=b) for a, b in CAS] +
          [dict(a=a, b=b, kinds=k) for a, b in ("ff", ("", "f"), ("", ""))
           for k in ("fc", "cf", "ff")])
def cascade(w, a, b, kinds="cc"):
    mod = w.mod("hftools.networks.spar_functions")
    dims = outer_dims(w, a + b)
    SA = cls_of(w, "S")
    A, ra, da = matrix(w, "A", a, dims, 2, cls=SA, kind=kinds[0])
    B, rb, db = matrix(w, "B", b, dims, 2, cls=SA, kind=kinds[1])
    R = mod.cascadeS(A, B)
    w.true("type", type(R) is SA)
    u = result_order(w, R, dims, union(a, b))
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        MA_ = at_matrix(w, ra, [e[c] for c in a], 2)
        MB_ = at_matrix(w, rb, [e[c] for c in b], 2)
        if not w.symbolic:
            w.assume(abs(1 - MA_[1][1] * MB_[0][0]) > 1e-2)
        want = cascade_spec(MA_, MB_)
        for i in range(2):
            for j in range(2):
                w.eq("cascade element", w.at(R, idx + (i, j)), want[i][j])
    untouched(w, "first network unchanged", A, ra, da)
    untouched(w, "second network unchanged", B, rb, db)


@contract("C13", [SP + "cascadeS"],
          cases=[dict(l=l) for l in [("f",) * 3, ("f",) * 4, ("", "f", ""),
                                     ("f",) * 7, ("r",) + ("",) * 5,
                                     ("f", "r", "g"), ("rf", "f", "fr"),
                                     ("f", "", "", "f"), ("f", "f", "g", "r"),
                                     ("r", "f", "r", "f")]], runs=5,
          seconds=60)
def cascade_of_several(w, l):
    """More networks are connected one after the other."""
    mod = w.mod("hftools.networks.spar_functions")
    dims = outer_dims(w, "".join(l))
    SA = cls_of(w, "S")
    nets = [matrix(w, "N%d" % k, x, dims, 2, cls=SA)
            for k, x in enumerate(l)]
    R = mod.cascadeS(*[x[0] for x in nets])
    u = l[0]
    for x in l[1:]:
        u = union(u, x)
    u = result_order(w, R, dims, u)
    for x in nets:
        untouched(w, "network unchanged", *x)
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        want = at_matrix(w, nets[0][1], [e[c] for c in l[0]], 2)
        for x, q in list(zip(nets, l))[1:]:
            want = cas(w, want, at_matrix(w, x[1], [e[c] for c in q], 2))
        for i in range(2):
            for j in range(2):
                w.eq("cascade element", w.at(R, idx + (i, j)), want[i][j],
                     tol=1e-5)


def result_order(w, R, dims, u):
    """The letters of u in the order the result has them: the order among
    the sweep axes of several operands is not specified."""
    names = [d.name for d in R.dims[:-2]]
    w.true("outer axes", sorted(names) == sorted(dims[c].name for c in u))
    order = sorted(u, key=lambda c: names.index(dims[c].name))
    w.true("sweeps before repetitions", [c in "rs" for c in order] ==
           sorted(c in "rs" for c in order))
    check_outer(w, R, dims, order)
    return order


def check_outer(w, R, dims, u):
    w.true("rank", R.ndim == len(u) + 2 == len(R.dims))
    for q, c in enumerate(u):
        w.same_dim("outer axis", R.dims[q], type(dims[c]), dims[c].name,
                   dims[c].data, dims[c].unit)
        w.true("outer length", R.shape[q] == w.size_of(dims[c]))
    w.true("row axis", type(R.dims[-2]) is w.ds.DimMatrix_i)
    w.true("column axis", type(R.dims[-1]) is w.ds.DimMatrix_j)


def regular(w, raw):
    """Concrete: transmissions away from zero, reflections moderate."""
    if not w.symbolic:
        np = w.np
        a = np.asarray(raw)
        w.assume(bool((abs(a[..., 0, 1]) > .05).all() and
                      (abs(a[..., 1, 0]) > .05).all()))


def cas(w, X, Y):
    if not w.symbolic:
        w.assume(abs(1 - X[1][1] * Y[0][0]) > 2e-2)
    return cascade_spec(X, Y)


def arr(w, name, f, letters, dims):
    """A labelled S array whose matrix at idx is f(idx)."""
    np = w.np
    dl = [dims[c] for c in letters] + mdims(w, 2)
    shape = [w.size_of(x) for x in dl]
    if w.symbolic:
        from engine import symnp
        from engine.num import coerce
        raw = symnp.mkarray(shape, lambda i: coerce(
            f(i[:-2])[int(i[-2])][int(i[-1])]), np.dtype(complex))
    else:
        raw = np.zeros(shape, complex)
        for i in w.forall(shape[:-2]):
            raw[i] = f(i)
    return cls_of(w, "S")(raw, dims=tuple(dl)), raw


@contract("C13", [SP + "deembedleft", SP + "deembedright", SP + "deembed"],
          cases=[dict(how=h, e=e, x=x) for h in ("left", "right", "both")
                 for e, x in [("f", "f"), ("", "f"), ("f", "fr"), ("f", "rf"),
                              ("f", ""), ("", ""), ("r", "f"), ("rf", "rf"),
                              ("g", "fr"), ("fr", "f"), ("rf", "fr"),
                              ("srf", "f"), ("f", "srf"), ("p", "px")]])
def deembed_inverts_cascade(w, how, e, x):
    mod = w.mod("hftools.networks.spar_functions")
    dims = outer_dims(w, e + x)
    SA = cls_of(w, "S")
    E, re_, de = matrix(w, "E", e, dims, 2, cls=SA)
    F, rf, df = matrix(w, "F", e, dims, 2, cls=SA)
    X, rx, dx = matrix(w, "X", x, dims, 2, cls=SA)
    for r in (re_, rf, rx):
        regular(w, r)
    u = union(e, x)

    def total(idx, u):
        q = dict(zip(u, idx))
        M = at_matrix(w, rx, [q[c] for c in x], 2)
        A = at_matrix(w, re_, [q[c] for c in e], 2)
        B = at_matrix(w, rf, [q[c] for c in e], 2)
        if how == "both":
            cas(w, M, B)        # what is left without the left fixture
        if how in ("left", "both"):
            M = cas(w, A, M)
        if how in ("right", "both"):
            M = cas(w, M, B)
        return M
    T, rt = arr(w, "T", lambda idx, u=u: total(idx, u), u, dims)
    if not w.symbolic:      # near resonance the rounding errors grow
        w.assume(bool((abs(w.np.asarray(rt)) < 1e3).all()))
    if how == "left":
        R = mod.deembedleft(E, T)
    elif how == "right":
        R = mod.deembedright(T, F)
    else:
        R = mod.deembed(E, T, F)
    u = result_order(w, R, dims, u)
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        q = dict(zip(u, idx))
        for i in range(2):
            for j in range(2):
                w.eq("the embedded network is recovered",
                     w.at(R, idx + (i, j)),
                     w.at(rx, [q[c] for c in x] + [i, j]), tol=1e-5)


@contract("C13", [SP + "deembedleft", SP + "deembedright"],
          cases=[dict(how=h, e=e, x=x) for h in ("left", "right")
                 for e, x in [("f", "f"), ("fr", "f"), ("", "f"), ("f", ""),
                              ("", ""), ("r", "f"), ("rf", "f"), ("f", "rf"),
                              ("rf", "fr"), ("g", "fr"), ("srf", "f"),
                              ("x", "xp")]] +
          [dict(how=h, e="f", x="f", kinds=k) for h in ("left", "right")
           for k in ("fc", "cf")])
def cascade_inverts_deembed(w, how, e, x, kinds="cc"):
    mod = w.mod("hftools.networks.spar_functions")
    dims = outer_dims(w, e + x)
    SA = cls_of(w, "S")
    E, re_, de = matrix(w, "E", e, dims, 2, cls=SA, kind=kinds[0])
    X, rx, dx = matrix(w, "X", x, dims, 2, cls=SA, kind=kinds[1])
    regular(w, re_)
    regular(w, rx)
    u = union(e, x)
    R = mod.deembedleft(E, X) if how == "left" else mod.deembedright(X, E)
    u = result_order(w, R, dims, u)
    close(w, "S", R)
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        q = dict(zip(u, idx))
        A = at_matrix(w, re_, [q[c] for c in e], 2)
        M = at_matrix(w, R, idx, 2)
        C = cas(w, A, M) if how == "left" else cas(w, M, A)
        for i in range(2):
            for j in range(2):
                w.eq("re-embedding gives the measured network", C[i][j],
                     w.at(rx, [q[c] for c in x] + [i, j]), tol=1e-4)
    untouched(w, "fixture unchanged", E, re_, de)
    untouched(w, "measurement unchanged", X, rx, dx)


DPAIRS = [("f", "f"), ("", "f"), ("f", ""), ("rf", "rf"), ("fr", "f"),
          ("r", "f"), ("", "")]


@contract("C13", [MP + "_MultiPortArray.cascade",
                  MP + "_MultiPortArray.deembed"],
          cases=[dict(x=x, y=y) for x in ("S", "ABCD", "Z", "T", "Y")
                 for y in ("S", "ABCD")] +
          [dict(x=x, y=y, d=DPAIRS[(3 * p + q) % len(DPAIRS)])
           for p, x in enumerate(NAMES) for q, y in enumerate(NAMES)
           if (p + q) % 2] +
          [dict(x="S", y=y, z=z) for y in ("S", "Z", "Y")
           for z in ((75, 50), (50, 75), (75, 75), (25, 100))],
          runs=4, seconds=60)
def cascade_method(w, x, y, d=("f", "f"), z=None):
    """Cascading is independent of the representation: the chain matrices
    multiply; de-embedding undoes it."""
    dims = outer_dims(w, d[0] + d[1])
    ra, dl = scaled(w, "A", d[0], dims, 2, x)
    rb, dl2 = scaled(w, "B", d[1], dims, 2, y)
    z = z or (50, 50)
    kw = lambda k, v: {"Z0": v} if k == "S" and v != 50 else {}
    A = cls_of(w, x)(ra, dims=tuple(dl), **kw(x, z[0]))
    B = cls_of(w, y)(rb, dims=tuple(dl2), **kw(y, z[1]))
    R = A.cascade(B)
    close(w, x, R)
    w.true("type of the left network", type(R) is type(A))
    u = result_order(w, R, dims, union(*d))
    zr = R.Z0 if x in ("S", "T", "Tp") else 50
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        MA_ = at_matrix(w, ra, [e[c] for c in d[0]], 2)
        MB_ = at_matrix(w, rb, [e[c] for c in d[1]], 2)
        MR = at_matrix(w, R, idx, 2)
        # excite the second network, carry its input to the first
        for q in range(2):
            e = [w.num(1 if k == q else 0) for k in range(2)]
            vb, ib = ports(w, y, MB_, e, z[1])
            # first network: port 2 voltage vb1, current -ib1
            va, ia = carry(w, x, MA_, vb[0], -ib[0], z[0])
            for l, r in residuals(w, x, MR, [va, vb[1]], [ia, ib[1]], zr):
                w.eq("the connected network", l, r, tol=1e-4)
    untouched(w, "left network unchanged", A, ra, dl)
    untouched(w, "right network unchanged", B, rb, dl2)


def carry(w, kind, M, v2, i2, z0=50):
    """Port 1 quantities of a two-port from its port 2 quantities."""
    if kind == "ABCD":
        return (M[0][0] * v2 - M[0][1] * i2, M[1][0] * v2 - M[1][1] * i2)
    if kind == "Z":
        i1 = (v2 - M[1][1] * i2) / M[1][0]
        return M[0][0] * i1 + M[0][1] * i2, i1
    if kind == "Y":
        v1 = (i2 - M[1][1] * v2) / M[1][0]
        return v1, M[0][0] * v1 + M[0][1] * v2
    if kind == "H":          # i2 = H21 i1 + H22 v2
        i1 = (i2 - M[1][1] * v2) / M[1][0]
        return M[0][0] * i1 + M[0][1] * v2, i1
    if kind == "G":          # v2 = G21 v1 + G22 i2
        v1 = (v2 - M[1][1] * i2) / M[1][0]
        return v1, M[0][0] * v1 + M[0][1] * i2
    rz = w.sqrt(w.num(z0))
    a2, b2 = (v2 / rz + rz * i2) / 2, (v2 / rz - rz * i2) / 2
    if kind == "T":
        b1, a1 = M[0][0] * a2 + M[0][1] * b2, M[1][0] * a2 + M[1][1] * b2
    elif kind == "Tp":
        a1, b1 = M[0][0] * b2 + M[0][1] * a2, M[1][0] * b2 + M[1][1] * a2
    else:
        a1 = (b2 - M[1][1] * a2) / M[1][0]
        b1 = M[0][0] * a1 + M[0][1] * a2
    return rz * (a1 + b1), (a1 - b1) / rz


@contract("C13", [MP + "_MultiPortArray.deembed"],
          cases=[dict(x=x, how=h) for x in ("S", "ABCD")
                 for h in ("left", "right", "both", "none")] +
          [dict(x=x, how=h) for x in ("Z", "Y", "H", "G", "T", "Tp")
           for h in ("left", "right", "both")] +
          [dict(x="S", how=h, d=d) for h in ("left", "right", "both")
           for d in ("", "fr", "rf", "srf")] +
          [dict(x="S", how=h, z=z) for h in ("left", "right", "both")
           for z in ((75, 50, 50), (50, 75, 50), (50, 50, 75), (25, 75, 20))],
          runs=4, seconds=60)
def deembed_method(w, x, how, z=None, d="f"):
    dims = outer_dims(w, d)
    r1, dl = scaled(w, "A", d, dims, 2, x)
    r2, dl2 = scaled(w, "B", d, dims, 2, "S")
    rx, dl3 = scaled(w, "X", d, dims, 2, x)
    for r, k in ((r1, x), (r2, "S"), (rx, x)):
        if k == "S":
            regular(w, r)
    if z:
        L = cls_of(w, x)(r1, dims=tuple(dl), Z0=z[0])
        Q = cls_of(w, "S")(r2, dims=tuple(dl2), Z0=z[1])
        X = cls_of(w, x)(rx, dims=tuple(dl3), Z0=z[2])
    else:
        L = cls_of(w, x)(r1, dims=tuple(dl))
        Q = cls_of(w, "S")(r2, dims=tuple(dl2))
        X = cls_of(w, x)(rx, dims=tuple(dl3))
    T = X
    if how in ("left", "both"):
        T = L.cascade(T)
    if how in ("right", "both"):
        T = T.cascade(Q)
    close(w, x, T)
    if z:
        # the measured network may be given over another impedance as well
        T = cls_of(w, x)(T, Z0=90)
        close(w, x, T)
    R = T.deembed(left=L if how in ("left", "both") else None,
                  right=Q if how in ("right", "both") else None)
    w.true("type", type(R) is cls_of(w, x))
    u = result_order(w, R, dims, d)
    if z:
        close(w, "S", R)
        for idx in w.forall([w.size_of(q) for q in dl3[:-2]]):
            same_network(w, "the network is recovered", "S",
                         at_matrix(w, rx, idx, 2), z[2],
                         "S", at_matrix(w, R, idx, 2), R.Z0)
        return
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        for i in range(2):
            for j in range(2):
                w.eq("the network is recovered", w.at(R, idx + (i, j)),
                     w.at(rx, [e[c] for c in d] + [i, j]), tol=1e-4)


@contract("C13", [MP + "unit_smatrix", SP + "cascadeS"],
          cases=[dict(side=s, d=d) for s in ("left", "right")
                 for d in OUTER if d == "".join(union(d, ""))])
def through_is_neutral(w, side, d):
    mod = w.mod("hftools.networks.spar_functions")
    dims = outer_dims(w, d)
    X, rx, dx = matrix(w, "X", d, dims, 2, cls=cls_of(w, "S"))
    T = w.mod("hftools.networks.multiports").unit_smatrix()
    w.true("type", type(T) is cls_of(w, "S"))
    R = mod.cascadeS(T, X) if side == "left" else mod.cascadeS(X, T)
    check_outer(w, R, dims, d)
    w.same_array("unchanged network", R, lambda *i: w.at(rx, i), rx.shape)


@contract("C13", [SP + "switch_correct"],
          cases=[dict(a=a, b=b) for a, b in CAS] +
          [dict(a=a, b=b, kinds=k) for a, b in CAS[:3]
           for k in ("fc", "cf", "ff")])
def switch_correction(w, a, b, kinds="cc"):
    """b = S a"""
    mod = w.mod("hftools.networks.spar_functions")
    dims = outer_dims(w, a + b)
    A, ra, da = matrix(w, "A", a, dims, 2, kind=kinds[0])
    B, rb, db = matrix(w, "B", b, dims, 2, kind=kinds[1])
    nonsingular(w, ra, 2)
    R = mod.switch_correct(B, A)
    u = result_order(w, R, dims, union(b, a))
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        for i in range(2):
            for j in range(2):
                v = 0
                for q in range(2):
                    v = v + w.at(R, idx + (i, q)) * entry(w, ra, a, e, q, j)
                w.eq("b = S a", v, entry(w, rb, b, e, i, j), tol=1e-6)


# ------------------------------------------------------------ noise

K = 1.3806488e-23


def herm(w, name, letters, dims):
    """An arbitrary Hermitian correlation matrix of order k T."""
    dl = [dims[c] for c in letters] + mdims(w, 2)
    p = w.raw(name + "p", [w.size_of(dims[c]) for c in letters], "p")
    q = w.raw(name + "q", [w.size_of(dims[c]) for c in letters], "p")
    r = w.raw(name + "r", [w.size_of(dims[c]) for c in letters], "c")
    if not w.symbolic:           # draw positive definite ones
        p, q = p + .1, q + .1
        r = r / (1 + abs(r)) * w.np.sqrt(p * q) * .9

    def f(i):
        x, y, z = w.at(p, i), w.at(q, i), w.at(r, i)
        return [[x, z], [w.conj(z), y]]
    np = w.np
    if w.symbolic:
        from engine import symnp
        from engine.num import coerce
        raw = symnp.mkarray([w.size_of(x) for x in dl], lambda i: coerce(
            f(i[:-2])[int(i[-2])][int(i[-1])]), np.dtype(complex))
    else:
        raw = np.zeros([w.size_of(x) for x in dl], complex)
        for i in w.forall(raw.shape[:-2]):
            raw[i] = f(i)
    return w.ds.hfarray(raw, dims=tuple(dl)), f


@contract("C14", [NO + "passive_noise", NO + "Hconj"],
          cases=[dict(x=x, d=d) for x in "YZS" for d in OUTER] +
          [dict(x=x, d="f", n=n) for x in "YZ" for n in (1, 3)] +
          [dict(x=x, d=d, n=2, T=290) for x in "YZS" for d in ("f", "rf")])
def passive_network_noise(w, x, d, n=2, T=None):
    """Thermal noise of a passive network at temperature T (Twiss)."""
    mod = w.mod("hftools.networks.noise")
    dims = outer_dims(w, d)
    raw, dl = scaled(w, "M", d, dims, n, x)
    X = cls_of(w, x)(raw, dims=tuple(dl))
    if T is None:
        T = w.pos("T")
        N = mod.passive_noise(X, T)
    else:
        N = mod.passive_noise(X)
    u = result_order(w, N.C, dims, d)
    k = w.mod("hftools.constants").k
    w.true("network", N.N is X)
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        M = at_matrix(w, raw, [e[c] for c in d], n)
        for i in range(n):
            for j in range(n):
                if x in "YZ":
                    v = 2 * k * T * (M[i][j] + w.conj(M[j][i]))
                else:
                    s = 0
                    for q in range(2):
                        s = s + M[i][q] * w.conj(M[j][q])
                    v = k * T * ((1 if i == j else 0) - s)
                w.eq("correlation matrix", scale(w, w.at(N.C, idx + (i, j))),
                     scale(w, v))
    untouched(w, "network unchanged", X, raw, dl)


@contract("C14", [NO + "passive_noise", NO + "NoisyTwoport.convert"],
          cases=[dict(x=x, y=y, d=d) for x in "YZS" for y in "YZS" if x != y
                 for d in ("f", "", "fr", "gfr")],
          runs=4, seconds=60)
def thermal_noise_is_thermal_noise(w, x, y, d):
    """Converting the noise of a passive network gives the noise of the
    converted network."""
    mod = w.mod("hftools.networks.noise")
    dims = outer_dims(w, d)
    raw, dl = scaled(w, "M", d, dims, 2, x)
    X = cls_of(w, x)(raw, dims=tuple(dl))
    T = w.pos("T")
    A = mod.passive_noise(X, T).convert(cls_of(w, y))
    close(w, y, A.N)
    B = mod.passive_noise(cls_of(w, y)(X), T)
    f = {"Y": 50, "Z": .02, "S": 1}[y]
    for idx in w.forall([w.size_of(d) for d in dl]):
        w.eq("noise", scale(w, w.at(A.C, idx)) * f,
             scale(w, w.at(B.C, idx)) * f, tol=1e-4)
    with w.raises("other descriptions", Exception):
        mod.passive_noise(cls_of(w, "ABCD")(X))


def scale(w, v):
    """Bring k T quantities to order one (concrete comparison only)."""
    return v if w.symbolic else v / 1e-21


def ratio(w, i, j):
    return i / j


@contract("C14", [NO + "NoisyTwoport.convert", NO + "Hconj",
                  MP + "convert"],
          cases=[dict(x=x, y=y) for x in ("Y", "Z", "ABCD", "S")
                 for y in ("Y", "Z", "ABCD", "S") if x != y] +
          [dict(x="Y", y="ABCD", kind="f")] +
          [dict(x=x, y=y, d=d) for x in ("Y", "Z", "ABCD", "S")
           for y in ("Y", "Z", "ABCD", "S") if x != y
           for d in ("", "fr")] + [dict(x="Z", y="Y", d="gs")],
          seconds=90, runs=4)
def correlation_conversion(w, x, y, kind="c", d="f"):
    """The converted noise sources are the same noise: for the transformation
    T between the source vectors, C' = T C T^H, where T is defined by the
    port relation with sources."""
    mod = w.mod("hftools.networks.noise")
    dims = outer_dims(w, d)
    raw, dl = scaled(w, "M", d, dims, 2, x, kind)
    C, f = herm(w, "C", d, dims)
    X = cls_of(w, x)(raw, dims=tuple(dl))
    src = mod.NoisyTwoport(X, C)
    N = src.convert(cls_of(w, y))
    close(w, y, N.N)
    w.true("type", type(N.N) is cls_of(w, y))
    w.true("source kept", src.N is X and src.C is C)
    w.dims_are("correlation", N.C, dl)
    N2, T2 = src.convert(cls_of(w, y), Tout=True)
    T3 = src.T(cls_of(w, y))
    w.same_array("with transformation: network", N2.N,
                 lambda *i: w.at(N.N, i), N.N.shape)
    w.same_array("with transformation: correlation", N2.C,
                 lambda *i: w.at(N.C, i), N.C.shape)
    for idx in w.forall([w.size_of(c) for c in dl[:-2]]):
        M = at_matrix(w, raw, idx, 2)
        Y = at_matrix(w, N.N, idx, 2)
        same_network(w, "network part", x, M, 50, y, Y, 50)
        Cs = f(idx)
        # how a unit source k of description x appears in description y:
        # out_x = M in_x + e_k; with in_x = 0 the residual of y is the source
        Tm = [[None, None], [None, None]]
        for k in range(2):
            e = [w.num(1 if q == k else 0) for q in range(2)]
            v, i = sourced(w, x, e)
            for q, (l, r) in enumerate(residuals(w, y, Y, v, i, 50)):
                Tm[q][k] = l - r
        for i in range(2):
            for j in range(2):
                m = 1
                if not w.symbolic:
                    m = 1 + max(abs(Tm[a][b]) for a in (0, 1)
                                for b in (0, 1))
                for t in (T2, T3):
                    w.eq("transformation", w.at(t, idx + (i, j)) / m,
                         Tm[i][j] / m, tol=1e-6)
        for i in range(2):
            for j in range(2):
                s = 0
                for p in range(2):
                    for q in range(2):
                        s = s + Tm[i][p] * Cs[p][q] * w.conj(Tm[j][q])
                got = w.at(N.C, idx + (i, j))
                if not w.symbolic:
                    m = 1 + max(abs(Tm[a][b]) for a in (0, 1)
                                for b in (0, 1)) ** 2
                    got, s = got / m, s / m
                w.eq("converted correlation", got, s, tol=1e-6)


def sourced(w, kind, out):
    """Port quantities when the 'in' vector is zero and 'out' is given."""
    z = w.num(0)
    if kind == "Z":
        return list(out), [z, z]
    if kind == "Y":
        return [z, z], list(out)
    if kind == "S":          # outgoing waves only
        rz = w.sqrt(w.num(50))
        return [rz * b for b in out], [-b / rz for b in out]
    return [out[0], z], [out[1], z]      # ABCD: v1, i1


@contract("C14", [NO + "NoisyTwoport.noise_parameters"],
          cases=[dict(x=x, partial=p, d=d) for x in ("Y", "ABCD", "Z")
                 for p in (False, True) for d in ("f", "", "fr")],
          seconds=60, runs=14)
def noise_parameters_definition(w, x, partial, d):
    """F(Ys) = Fmin + Rn/Gs |Ys - Yopt|^2 for every source admittance,
    with F computed from the correlation matrix directly."""
    mod = w.mod("hftools.networks.noise")
    dims = outer_dims(w, d)
    raw, dl = scaled(w, "M", d, dims, 2, x)
    C, f = herm(w, "C", d, dims)
    k = w.mod("hftools.constants").k
    sc = 4 * k * 290
    if not w.symbolic:
        np = w.np
        a = np.asarray(C)
        w.assume(bool((np.linalg.eigvalsh(a) > 1e-2).all()))
        C = w.ds.hfarray(a * sc * 0.02, dims=C.dims)
        g = f
        f = lambda i: [[t * sc * 0.02 for t in r] for r in g(i)]
    X = cls_of(w, x)(raw, dims=tuple(dl))
    db = mod.NoisyTwoport(X, C).noise_parameters(partial)
    for q in ("Rn", "Fmin", "Yopt", "Gopt"):
        w.dims_are(q, db[q], dl[:-2])
    w.dims_are("S", db.S, dl)
    w.true("S-parameters", type(db.S) is cls_of(w, "S"))
    close(w, "S", db.S)
    gs, bs = w.pos("gs"), w.real("bs")
    if not w.symbolic:
        gs, bs = gs * .02, bs * .02
    ys = gs + w.j * bs
    for idx in w.forall([w.size_of(c) for c in dl[:-2]]):
        Y = at_matrix(w, raw, idx, 2)
        c = f(idx)
        Rn, Fm = w.at(db.Rn, idx), w.at(db.Fmin, idx)
        Yo, Go = w.at(db.Yopt, idx), w.at(db.Gopt, idx)
        # source noise i_s plus i1 - (Y11 + Ys)/Y21 i2 at the input
        if x == "Y":
            t = (1, -(Y[0][0] + ys) / Y[1][0])
        elif x == "ABCD":
            # input noise voltage and current, the source short circuit
            t = (ys, 1)
        else:
            # noise voltages; output open: i1 = -e1 / (Z11 + Zs)
            zs = 1 / ys
            t = (1 / zs, -(Y[0][0] + zs) / (Y[1][0] * zs))
        pn = 0
        for p in range(2):
            for q in range(2):
                pn = pn + t[p] * c[p][q] * w.conj(t[q])
        F = 1 + pn / (sc * gs)
        F2 = Fm + Rn / gs * (ys - Yo) * w.conj(ys - Yo)
        w.eq("noise factor for every source", w.re(F), w.re(F2), tol=1e-6)
        w.eq("Gopt is the reflection of Yopt", Go,
             (w.num(1) / 50 - Yo) / (w.num(1) / 50 + Yo))
        same_network(w, "S-parameters of the network", x, Y, 50, "S",
                     at_matrix(w, db.S, idx, 2), 50)
        if x == "ABCD":
            for p in range(2 if partial else 0):
                for q in range(2):
                    w.eq("CA", w.at(db.CA, idx + (p, q)), c[p][q] / sc)
            continue
        if x == "Y":
            for p in range(2):
                for q in range(2):
                    w.eq("CY", w.at(db.CY, idx + (p, q)), c[p][q] / sc)
            # i1 = in + Ycor vn, with in and vn = -i2 / Y21 uncorrelated
            yc, gn = w.at(db.Ycor, idx), w.at(db.Gn, idx)
            w.eq("uncorrelated part", (Y[0][0] - yc) * c[1][1] / sc,
                 c[0][1] * Y[1][0] / sc)
            w.eq("total input current noise",
                 gn + (Y[0][0] - yc) * w.conj(Y[0][0] - yc) * Rn,
                 c[0][0] / sc)


@contract("C14", [NO + "NoisyTwoport.noise_parameters"],
          cases=[dict(x=x, d=d) for x in ("Y", "Z", "ABCD")
                 for d in ("f", "fr", "rf", "")],
          runs=10, prove=False)
def representation_independent(w, x, d):
    """Noise parameters do not depend on how the network is described."""
    mod = w.mod("hftools.networks.noise")
    dims = outer_dims(w, d)
    raw, dl = scaled(w, "M", d, dims, 2, "Y")
    C, f = herm(w, "C", d, dims)
    np = w.np
    w.assume(bool((np.linalg.eigvalsh(np.asarray(C)) > 1e-2).all()))
    k = w.mod("hftools.constants").k
    C = w.ds.hfarray(np.asarray(C) * 4 * k * 290 * .02, dims=C.dims)
    N = mod.NoisyTwoport(cls_of(w, "Y")(raw, dims=tuple(dl)), C)
    close(w, "Z", cls_of(w, "Z")(N.N))
    close(w, "ABCD", cls_of(w, "ABCD")(N.N))
    want = N.noise_parameters()
    got = N.convert(cls_of(w, x)).noise_parameters()
    for q in ("Rn", "Fmin", "Yopt", "Gopt"):
        g, v = getattr(got, q), getattr(want, q)
        names = [x.name for x in g.dims]
        w.true("axes", sorted(names) == sorted(dims[c].name for c in d))
        for idx in w.forall(v.shape):
            at = dict(zip([x.name for x in v.dims], idx))
            w.eq(q, w.at(g, [at[x] for x in names]), w.at(v, idx), tol=1e-4)


@contract("C14", [NO + "from_noisepar"],
          cases=[dict(kind=k, d=d) for k in "cf" for d in ("f", "", "fr",
                                                           "rf", "gs")] +
          [dict(kind="c", d=d, z=True) for d in ("f", "rf")],
          runs=4, seconds=60)
def noisy_twoport_from_parameters(w, kind, d, z=False):
    """Its noise factor is Fmin + Rn/Gs |Ys - Yopt|^2 for every source."""
    mod = w.mod("hftools.networks.noise")
    ds = w.ds
    dims = outer_dims(w, d)
    raw, dl = scaled(w, "M", d, dims, 2, "S", kind)
    n = [w.size_of(dims[c]) for c in d]
    fm, rn = w.raw("fm", n, "p"), w.raw("rn", n, "p")
    go = w.raw("go", n, "c")
    if not w.symbolic:
        fm, rn, go = 1 + fm, rn * 10, go * .5
        w.assume(bool((abs(1 + go) > .1).all()))
    d = tuple(dims[c] for c in d)
    db = ds.DataBlock()
    z0 = 50
    if z:
        z0 = w.pos("z0") if w.symbolic else 20 * w.pos("z0")
        db.S = cls_of(w, "S")(raw, dims=tuple(dl), Z0=z0)
    else:
        db.S = ds.hfarray(raw, dims=tuple(dl))
    db.Fmin, db.Rn = ds.hfarray(fm, dims=d), ds.hfarray(rn, dims=d)
    db.Gopt = ds.hfarray(go, dims=d)
    N = mod.from_noisepar(db)
    w.true("type", type(N.N) is cls_of(w, "ABCD"))
    close(w, "ABCD", N.N)
    k = w.mod("hftools.constants").k
    sc = 4 * k * 290
    gs, bs = w.pos("gs"), w.real("bs")
    if not w.symbolic:
        gs, bs = gs * .02, bs * .02
    ys = gs + w.j * bs
    for idx in w.forall(n):
        same_network(w, "network", "S", at_matrix(w, raw, idx, 2), z0,
                     "ABCD", at_matrix(w, N.N, idx, 2), 50)
        c = at_matrix(w, N.C, idx, 2)
        g = w.at(go, idx)
        yo = (1 - g) / (1 + g) / 50
        t = (ys, 1)
        pn = 0
        for p in range(2):
            for q in range(2):
                pn = pn + t[p] * c[p][q] * w.conj(t[q])
        F = 1 + pn / (sc * gs)
        want = w.at(fm, idx) + w.at(rn, idx) / gs * (ys - yo) * \
            w.conj(ys - yo)
        w.eq("noise factor", F, want, tol=1e-6)
        w.eq("hermitian", c[0][1] / sc, w.conj(c[1][0]) / sc)
        w.eq("noise resistance", c[0][0] / sc, w.at(rn, idx))


@contract("C14", [NO + "from_noisepar"], cases=[{}], prove=False, runs=8)
def from_noise_parameters(w):
    """Building a noisy two-port from Fmin, Rn, Gopt and S and asking for
    its noise parameters gives them back."""
    mod = w.mod("hftools.networks.noise")
    np = w.np
    n = w.size("n")
    fdim = w.ds.DimSweep("freq", w.raw("fl", (n,), "f"))
    raw, dl = scaled(w, "S", "", {}, 2, "S")
    S = np.zeros((n, 2, 2), complex)
    for q in range(n):
        S[q] = w.raw("S%d" % q, (2, 2), "c") * .4
        w.assume(abs(S[q, 1, 0]) > .1 and
                 abs(np.linalg.det(np.eye(2) + S[q])) > .1)
    db = w.ds.DataBlock()
    db.S = w.ds.hfarray(S, dims=(fdim,) + tuple(mdims(w, 2)))
    Rn = np.array([5 + 10 * w.rng.random() for _ in range(n)])
    go = np.array([.6 * (w.rng.random() - .5) + .6j * (w.rng.random() - .5)
                   for _ in range(n)])
    yo = .02 * (1 - go) / (1 + go)
    # physical: Fmin - 1 <= 4 Rn Re(Yopt)
    Fm = 1 + 4 * Rn * yo.real * np.array([.2 + .7 * w.rng.random()
                                          for _ in range(n)])
    w._log("Rn", list(Rn)), w._log("Gopt", list(map(str, go)))
    w._log("Fmin", list(Fm))
    db.Rn = w.ds.hfarray(Rn, dims=(fdim,))
    db.Gopt = w.ds.hfarray(go, dims=(fdim,))
    db.Fmin = w.ds.hfarray(Fm, dims=(fdim,))
    N = mod.from_noisepar(db)
    got = N.convert(cls_of(w, "Y")).noise_parameters()
    for q in range(n):
        w.eq("Rn", w.at(got.Rn, (q,)), Rn[q], tol=1e-6)
        w.eq("Fmin", w.at(got.Fmin, (q,)), Fm[q], tol=1e-6)
        w.eq("Gopt", w.at(got.Gopt, (q,)), go[q], tol=1e-6)
