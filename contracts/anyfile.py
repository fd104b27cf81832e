"""Files of any kind, against plain python.

Bounded stand-in next to the proofs of the file contracts: concrete blocks
and files drawn at random, with many variables, axes and ports, odd names and
comments and numbers of every kind and size; what is read has to equal what
was written exactly, digit by digit."""
import itertools
import os
from engine.contract import contract
from contracts.files import ff, write, TS
from contracts.citi import CI
from contracts.spdata import SP
from contracts.mdif import MD

NAMES = ["alpha", "Beta", "gAmma", "_q", "x_y", "Eta2", "kappa", "long" * 9,
         "Name", "Variable", "END_x", "VARx", "DATA_y", "NAMEd", "SEGx",
         "COMMENTx", "BEGINx", "w1_", "u", "N", "Re_x", "Imx", "nan_", "inf2",
         "e1", "E_", "T4"]
MATRICES = ["Z", "Zs", "M_", "Abc", "Q"]
AXES = ["Pin", "Load", "x_1", "Az", "w", "Nr", "VARy", "axis" * 5]
COMMENTS = ["Operator: n\xe5gon \xb5", "no colon", "Full text",
            "mail: a@b.c", "trailing # x", "price \u20ac 3", "a = b = c",
            "\xa7 3", "-- dashes --", "Fullish: yes", "Place: x y", "Z0x: q",
            "CONSTANT q", "100 %", "end", "BEGIN here", "tab\there", "%x",
            "\"quoted\"", "x ! y", "VAR 1", "[V]"]
UNITS = [None, None, "V", "A", "Ohm", "m/s", "dBm", "K", "dB/GHz"]


def number(w, kind="f"):
    r = w.rng
    k = r.randrange(9)
    if kind == "i":
        return r.choice([0, 1, -1, r.randint(-10 ** 6, 10 ** 6),
                         r.randint(-10 ** 15, 10 ** 15)])
    if kind == "c":
        return complex(number(w), number(w))
    if k < 4:
        return r.uniform(-2, 2)
    if k < 6:
        return r.uniform(-1, 1) * 10. ** r.randint(-30, 30)
    return float(r.choice([0, 1, -1, 10, -2.5, 1 / 3., 1e-300, 123456789.5]))


WORDS = ["a", "two words", "Row", "x-y", "\xe5", "q"]


def draw(w, name, shape, kind, odd=False, words=WORDS):
    """Numbers of every size; odd: also nan and infinities."""
    np = w.np
    n = 1
    for s in shape:
        n *= int(s)
    if kind == "s":
        x = [w.rng.choice(words) for _ in range(n)]
    else:
        x = [number(w, kind) for _ in range(n)]
        if odd and kind == "f" and w.rng.random() < .2:
            x[w.rng.randrange(n)] = w.rng.choice(
                [float("nan"), float("inf"), -float("inf")])
    x = np.array(x, None if kind == "s" else
                 dict(f=float, c=complex, i=int)[kind]).reshape(shape)
    w._log(name, repr(x.tolist())[:1500])
    return x


def ascending(w, name, n, kind=None):
    """Different labels, sorted."""
    kind = kind or w.rng.choice("ffi")
    while True:
        x = sorted(number(w, kind) for _ in range(n))
        if all(a < b for a, b in zip(x, x[1:])):
            break
    w._log(name, repr(x))
    return w.np.array(x, float if kind == "f" else int)


def same(w, label, a, b):
    """Exactly the same values."""
    np = w.np
    a, b = np.asarray(a), np.asarray(b)
    w.true(label + ": shape", a.shape == b.shape)
    if b.dtype.kind in "fci":
        ok = (a == b) | ((a != a) & (b != b))
    else:
        ok = a == b
    w.true(label, bool(np.all(ok)))


def some(w, pool, lo, hi):
    return w.rng.sample(pool, w.rng.randint(lo, min(hi, len(pool))))


def text(w, db, lo=0):
    """Comments for db."""
    c = some(w, COMMENTS, lo, 6)
    if c or w.rng.random() < .5:
        db.comments = ff(w).Comments(list(c))
    w._log("comments", c)
    return c


def scalars(w, db, names, units=True):
    out = {}
    for n in names:
        k = w.rng.choice("fics")
        v = (w.rng.choice(["some text", "a: b", "x=y", "T\xe5g", "e"])
             if k == "s" else number(w, k))
        u = w.rng.choice(UNITS) if units and k != "s" else None
        out[n] = (v, u)
        db[n] = w.ds.hfarray(v, unit=u)
    w._log("scalars", repr(out))
    return out


def scalars_back(w, R, sc, units=True):
    for n, (v, u) in sc.items():
        w.true("scalar %s is there" % n, n in R.vardata)
        same(w, "scalar " + n, R[n], v)
        if units:
            w.true("unit of scalar " + n, R[n].unit == u)


@contract("C17", [TS + "save_touchstone", TS + "read_touchstone",
                  TS + "process_data", TS + "proc_info"],
          cases=[dict(ports=p) for p in (1, 2, 3, 4, 5, 6, 9, 10, 12)],
          prove=False, runs=6, bound="up to 12 ports and 12 frequencies")
def any_touchstone_saved(w, ports):
    ds, np, r = w.ds, w.np, w.rng
    n = r.randint(1, 12)
    f = ascending(w, "f", n, "f")
    kind = r.choice("ccfi")
    x = draw(w, "S", (n, ports, ports), kind)
    if r.random() < .2 and kind == "c":
        x = x.astype(np.complex64)
        w.assume(bool(np.isfinite(x).all()))
    dims = (ds.DimSweep("freq", f, unit="Hz"), ds.DimMatrix_i("i", ports),
            ds.DimMatrix_j("j", ports))
    db = ds.DataBlock()
    z0 = 50.
    db.S = ds.hfarray(x.copy(), dims=dims)
    how = r.choice(["none", "none", "scalar", "attribute"])
    if how == "attribute" and kind == "c":
        z0 = r.choice([75., 10.5, 50., 1e3])
        db.S = w.mod("hftools.networks.multiports").SArray(
            x.copy(), dims=dims, Z0=z0)
    elif how == "scalar":
        z0 = r.choice([75., 10.5, 50., 1e-3, 377])
        db.Z0 = ds.hfarray(z0, unit="Ohm")
    w._log("z0", repr((how, z0)))
    sc = scalars(w, db, some(w, NAMES, 0, 4))
    c = text(w, db)
    fn = os.path.join(w.tmpdir(), "t.s%dp" % ports)
    ff(w).save_touchstone(db, fn)
    same(w, "source unchanged", db.S, x)
    R = ff(w).read_touchstone(fn)
    for k in range(2):
        same(w, "frequencies", R.S.dims[0].data, f)
        same(w, "S", R.S, x)
        w.eq("reference impedance", float(R.Z0), z0)
        scalars_back(w, R, sc)
        w.true("comments", R.comments.fullcomments[:len(c)] == c)
        if k:
            break
        ff(w).save_touchstone(R, fn)
        R = ff(w).read_touchstone(fn)


def cased(w, t):
    return w.rng.choice([t, t.lower(), t.capitalize()])


@contract("C17", [TS + "ReadTouchstoneFileFormat.tokenize",
                  TS + "ReadTouchstoneFileFormat.parse_blocks",
                  TS + "process_data", TS + "proc_data", TS + "proc_info"],
          cases=[dict(ports=p) for p in (1, 2, 3, 4, 5, 7, 10, 11)] +
          [dict(ports=2, noise=True)] * 2, prove=False, runs=8,
          bound="up to 11 ports and 10 frequencies")
def any_touchstone_file(w, ports, noise=False):
    """Files as other programs write them."""
    np, r = w.np, w.rng
    from contracts.files import MULT, port_order
    n = r.randint(1, 10)
    f = [abs(q) for q in ascending(w, "f", n, "f")]
    f = sorted(set(f))
    n = len(f)
    unit, par = r.choice(sorted(MULT)), r.choice("SZYGH")
    fmt = r.choice(["RI", "MA", "DB"])
    a = np.array([[[r.uniform(-3, 3), r.uniform(-400, 400)]
                   for _ in range(ports ** 2)] for _ in range(n)])
    if fmt == "MA":
        a[..., 0] = abs(a[..., 0])
    conv = lambda x, y: (x + 1j * y if fmt == "RI" else
                         (x if fmt == "MA" else 10 ** (x / 20)) *
                         np.exp(1j * np.pi * y / 180))
    z0 = r.choice([None, "50", "75", "1", "10.5", "3e2"])
    opt = ["#" + r.choice(["", " "]) + cased(w, unit), cased(w, par),
           cased(w, fmt)]
    if z0:
        opt += [r.choice("Rr"), z0]
    sep = lambda: r.choice([" ", "\t", "   "])
    num = lambda v: r.choice(["%.17g", "%+.17e", "%.16e"]) % v
    coms = some(w, COMMENTS, 0, 4)
    lines = ["!" + r.choice(["", " "]) + q for q in coms[:2]]
    lines += [sep().join(opt)]
    extra = coms[2:]
    step = 8 if ports > 3 else 2 * ports if ports == 3 else 99

    def add(line):
        k = r.random()
        if k < .15:
            line += r.choice(["!", " ! "]) + "note 1 2 3"
        lines.append(r.choice(["", "", " ", "\t"]) + line)
        if r.random() < .1:
            lines.append("")
        if r.random() < .15 and extra:
            lines.append("!" + extra.pop(0))
    for k in range(n):
        fields = [num(v) for v in a[k].ravel()]
        if step < 99:
            # the rows of a matrix begin on their own lines
            per = 2 * ports
            parts = []
            for s in range(0, len(fields), per):
                row = fields[s:s + per]
                parts += [row[q:q + step] for q in range(0, len(row), step)]
        else:
            parts = [fields]
        parts[0] = [num(f[k])] + parts[0]
        for p in parts:
            line = p[0]
            for q in p[1:]:
                line += sep() + q
            add(line)
    if noise:
        m = r.randint(1, 6)
        own = r.random() < .6 or n < m
        fn_ = sorted(set(r.uniform(0, 1) * f[-1] for _ in range(m))) \
            if own else list(f)
        if own and n > 1 and r.random() < .4:
            # nearly, but not, the frequencies of the signal data
            fn_ = [v * (1 - 4e-4) for v in f]
        if own:
            w.assume(len(fn_) != n or
                     not np.allclose(fn_, f, rtol=1e-4, atol=2e-8))
            w.assume(fn_[0] <= f[-1])
        m = len(fn_)
        nd = np.array([[r.uniform(0, 9), abs(r.uniform(0, .9)),
                        r.uniform(-180, 180), r.uniform(0, 2)]
                       for _ in range(m)])
        for k in range(m):
            add(sep().join([num(fn_[k])] + [num(v) for v in nd[k]]))
    lines += ["!" + q for q in extra]
    name = write(w, "t.s%dp" % ports, "\n".join(lines) +
                 r.choice(["", "\n", "\n\n"]))
    R = ff(w).read_touchstone(name)
    mul = MULT[unit]
    X = np.asarray(R[par])
    w.true("shape", X.shape == (n, ports, ports))
    near = lambda p, q: bool(np.all(abs(np.asarray(p) - q) <=
                                    1e-9 * (1e-30 + abs(np.asarray(q)))))
    w.true("frequencies", near(R[par].dims[0].data, np.array(f) * mul))
    for q, (i, j) in enumerate(port_order(ports)):
        w.true("element", near(X[:, i, j], conv(a[:, q, 0], a[:, q, 1])))
    zv = float(z0) if z0 else 1.
    w.eq("reference impedance", float(R.Z0), zv)
    w.true("comments", R.comments.fullcomments == coms)
    if noise:
        w.true("noise axis", near(R.Rn.dims[0].data, np.array(fn_) * mul))
        w.true("noise axis name", R.Rn.dims[0].name ==
               ("freqn" if own else "freq"))
        w.true("Rn", near(R.Rn, nd[:, 3] * zv))
        w.true("Fmin", near(R.Fmin, 10 ** (nd[:, 0] / 10)))
        w.true("Gopt", near(R.Gopt, conv(nd[:, 1], nd[:, 2])))


@contract("C18", [CI + "save_citi", CI + "format_citi_block",
                  CI + "read_citi"],
          cases=[dict(sweeps=s) for s in (1, 1, 2, 2, 3, 4)], prove=False,
          runs=10, bound="up to 4 axes and 9 variables")
def any_citi_saved(w, sweeps):
    ds, np, r = w.ds, w.np, w.rng
    axes = [r.choice([ds.DimSweep, ds.DimSweep, ds.DimRep])(
        a, ascending(w, a, r.randint(1, 4)))
        for a in r.sample(["freq"] + AXES, sweeps)]
    db = ds.DataBlock()
    db.blockname = r.choice(["the block", "B", "DATA", "x  y", "\xe5"])
    src = {}
    used = some(w, NAMES, 2, 9)
    nsc = r.randrange(0, 3)
    for n in used[nsc:] + some(w, MATRICES, 0, 3):
        a = r.sample(axes, len(axes)) if r.random() < .5 else list(axes)
        k = r.choice("fci")
        if n in MATRICES:
            p, q = r.randint(1, 4), r.randint(1, 4)
            if p == q == 1 or r.random() < .2:
                p, q = r.choice([(2, 1), (1, 10), (12, 2), (10, 11), (9, 9)])
            a += [ds.DimMatrix_i("i%d" % len(src), p),
                  ds.DimMatrix_j("j%d" % len(src), q)]
        src[n] = (draw(w, n, [len(x.data) for x in a], k, True), a)
        db[n] = ds.hfarray(src[n][0].copy(), dims=tuple(a))
    sc = scalars(w, db, used[:nsc])
    c = text(w, db)
    fn = os.path.join(w.tmpdir(), "t.cti")
    ff(w).save_citi(db, fn)
    w._log("file", open(fn, encoding="cp1252").read()[:3000])
    R = ff(w).read_citi(fn)
    for again in range(2):
        w.true("block name", R.blockname == db.blockname)
        for n, (x, a) in src.items():
            same(w, "source unchanged", db[n], x)
            w.true("variable %s is there" % n, n in R.vardata)
            X = R[n]
            new = [d.name for d in X.dims]
            m = 2 if n in MATRICES else 0
            old = [d.name for d in a]
            w.true("axes", sorted(new[:len(new) - m]) ==
                   sorted(old[:len(old) - m]) and len(new) == len(old))
            order = [old.index(q) for q in new[:len(new) - m]]
            for p, q in enumerate(order):
                same(w, "labels", X.dims[p].data, a[q].data)
            same(w, n, X, x.transpose(order + list(range(len(order),
                                                         x.ndim))))
        scalars_back(w, R, sc)
        w.true("comments", R.comments.fullcomments[:len(c)] ==
               [q.strip() for q in c])
        if again:
            break
        ff(w).save_citi(R, fn)
        R = ff(w).read_citi(fn)


@contract("C19", [SP + "save_spdata", SP + "format_sp_block",
                  SP + "read_spdata"],
          cases=[dict(outer=s) for s in (0, 0, 0, 1, 1, 2, 3)], prove=False,
          runs=8, bound="up to 4 axes and 9 variables")
def any_sp_saved(w, outer):
    ds, np, r = w.ds, w.np, w.rng
    names = r.sample(AXES, outer)
    F = ds.DimSweep(r.choice(["freq", "Tx"]),
                    ascending(w, "f", r.randint(2, 6)),
                    unit=r.choice([None, "V", "m/s"]))
    if F.name == "freq":
        F = ds.DimSweep("freq", F.data, unit="Hz")
    axes = [ds.DimSweep(a, ascending(w, a, r.randint(2, 3)),
                        unit=r.choice([None, "V", "Ohm", "m/s"]))
            for a in names]
    db = ds.DataBlock()
    src = {}
    used = some(w, NAMES, 2, 9)
    nsc = r.randrange(0, 2)
    size = r.choice([(2, 2), (2, 2), (2, 3), (9, 9), (10, 2), (2, 11),
                     (10, 10)])
    for q, n in enumerate(used[nsc:] + some(w, MATRICES, 0, 2)):
        a = [F] + (axes if q == 0 or r.random() < .6 else [])
        k = r.choice("fcis" if q else "fc")
        if n in MATRICES:
            k = r.choice("fc")
            a += [ds.DimMatrix_i("i", size[0]), ds.DimMatrix_j("j", size[1])]
        u = None if k == "s" else r.choice(UNITS)
        src[n] = (draw(w, n, [len(x.data) for x in a], k, True), a, u)
        db[n] = ds.hfarray(src[n][0].copy(), dims=tuple(a), unit=u)
    sc = scalars(w, db, used[:nsc])
    c = text(w, db)
    fn = os.path.join(w.tmpdir(), "t.txt")
    ff(w).save_spdata(db, fn)
    w._log("file", open(fn, encoding="cp1252").read()[:3000])
    R = ff(w).read_spdata(fn, hyper=True)
    for n, (x, a, u) in src.items():
        same(w, "source unchanged", db[n], x)
        w.true("variable %s is there" % n, n in R.vardata)
        X = R[n]
        w.true("axes", [d.name for d in X.dims] == [d.name for d in a])
        for e, d in zip(X.dims, a):
            if isinstance(d, ds.DimSweep):
                same(w, "labels", e.data, d.data)
                w.true("unit of axis", e.unit == d.unit)
        same(w, n, X, x)
        w.true("unit", X.unit == u)
    scalars_back(w, R, sc)
    w.true("comments", [q for q in R.comments.fullcomments
                        if q in COMMENTS] == c)


@contract("C20", [MD + "save_mdif", MD + "fmt_mdif_block", MD + "loop_db",
                  MD + "read_mdif"],
          cases=[dict(outer=s) for s in (0, 0, 1, 1, 2, 3, 4)], prove=False,
          runs=8, bound="up to 5 axes, 9 variables and 12 x 12 matrices")
def any_mdif_saved(w, outer):
    ds, np, r = w.ds, w.np, w.rng
    F = ds.DimSweep(r.choice(["freq", "Tx"]),
                    ascending(w, "f", r.randint(1, 5)))
    axes = [ds.DimSweep(a, ascending(w, a, r.randint(1, 3)))
            for a in r.sample(AXES, outer)]
    sizes = [len(x.data) for x in axes]
    total = 1
    for s in sizes:
        total *= s
    db = ds.DataBlock()
    if r.random() < .7:
        db.blockname = r.choice(["the.block", "B", "A_1"])
    bname = db.blockname or "DATABLOCK"
    src = {}
    used = some(w, NAMES, 2, 9)
    nsc = min(r.randrange(0, 3), len(used) - 1) if outer == 0 else 0
    natt = r.randrange(0, 3) if outer else 0
    p, s = ((r.randint(8, 12), r.randint(2, 12))
            if r.random() < .3 and outer < 2 else
            (r.randint(2, 3), r.randint(1, 3)))
    if r.random() < .5:
        p, s = s, p
    for q, n in enumerate(used[nsc:] + some(w, MATRICES, 0, 2)):
        att = natt > q and q < len(used) - 1
        a = ([] if att else [F]) + axes
        k = r.choice("fc" if q == natt else "fcis")
        if n in MATRICES:
            k = r.choice("fc")
            a = a + [ds.DimMatrix_i("i", p), ds.DimMatrix_j("j", s)]
        src[n] = (draw(w, n, [len(x.data) for x in a], k, k != "s",
                       WORDS + [" lead", "trail "]), a, att)
        db[n] = ds.hfarray(src[n][0].copy(), dims=tuple(a))
    sc = scalars(w, db, used[:nsc], units=False)
    c = text(w, db)
    fn = os.path.join(w.tmpdir(), "t.mdif")
    ff(w).save_mdif(db, fn)
    w._log("file", open(fn, encoding="cp1252").read()[:3000])
    out = ff(w).read_mdif(fn, verbose=False)
    w.true("block name", list(out.keys()) == [bname])
    R = out[bname]
    for n, (x, a, att) in src.items():
        same(w, "source unchanged", db[n], x)
        w.true("variable %s is there" % n, n in R.vardata)
        X = R[n]
        m = 2 if n in MATRICES else 0
        lead = () if att else (len(F.data),)
        mid = (total,) if total > 1 else ()
        tail = x.shape[x.ndim - m:]
        w.true("axes", [d.name for d in X.dims][:X.ndim - m] ==
               ([] if att else [F.name]) + (["INDEX"] if mid else []))
        if not att:
            same(w, "labels", X.dims[0].data, F.data)
        same(w, n, X, x.reshape(lead + mid + tail))
    at = list(itertools.product(*[d.data for d in axes]))
    for q, d in enumerate(axes):
        if total > 1:
            same(w, "parameter " + d.name, R[d.name], [v[q] for v in at])
        else:
            same(w, "parameter " + d.name, R.ivardata[d.name].data, d.data)
    scalars_back(w, R, sc, units=False)
    w.true("comments", R.comments.fullcomments[1:1 + len(c)] ==
           [q.strip() for q in c])


def quoted(w):
    return w.rng.choice(["a", " lead", "trail ", "two words", "x,y", "\xe5",
                         "1", "# no", "%", "! x", "END"])


@contract("C20", [MD + "ReadMDIFFileFormat", MD + "GetData", MD + "read_mdif",
                  MD + "simple_merge_blocks", MD + "match_matrix_names"],
          prove=False, runs=30, bound="files of up to 3 names with up to 4 "
          "blocks each, 13 x 13 matrices and 6 rows")
def any_mdif_file(w):
    """Text written by hand: every block name with one or more blocks, their
    parameters, attributes and columns in any order and spelling."""
    ds, np, r = w.ds, w.np, w.rng
    sp = lambda: r.choice(["", " ", "\t", "  "])
    prefix = lambda: r.choice(["", "", "SWEEP.", "SWEEP."])
    lines, expect = [], {}
    if r.random() < .5:
        lines.append("! made by hand")
    order = []
    for name in r.sample(["A", "the.block", "END_of", "x1", "Var.q"],
                         r.randint(1, 3)):
        pars = r.sample(AXES[:4], r.randint(0, 3))
        atts = {n: r.choice("fcs") for n in r.sample(NAMES[:6],
                                                     r.randint(0, 3))}
        cols = {n: r.choice("fcis") for n in r.sample(NAMES[6:],
                                                      r.randint(1, 4))}
        heads = [(n, n, k) for n, k in cols.items()]
        shapes = {n: () for n in cols}
        if r.random() < .6:
            p, s = r.choice([(1, 2), (2, 2), (3, 1), (13, 2), (2, 11),
                             (10, 1)])
            k = r.choice("fc")
            shapes["Mat"], cols["Mat"] = (p, s), k
            heads += [("Mat", "Mat[%d,%d]" % (a + 1, b + 1), k)
                      for a in range(p) for b in range(s)]
        if r.random() < .6:
            p, k = r.choice([1, 2, 9, 10, 14]), r.choice("fc")
            shapes["vec"], cols["vec"] = (p,), k
            heads += [("vec", "vec[%d]" % (a + 1), k) for a in range(p)]
        at = list(range(len(heads)))
        r.shuffle(at)
        rows = r.randint(1, 6)
        F = ascending(w, name, rows, "f")
        sweep = r.choice(["freq", "Time", "sweeps"])
        shead = prefix() + sweep
        if shead == sweep:
            shead = r.choice(["", "sweep.", "Sweep."]) + sweep
        broken = sorted(r.sample(range(1, len(heads) + 1),
                                 r.randint(0, min(3, len(heads)))))
        got = []
        for b in range(r.randint(1, 4)):
            P = {n: number(w) for n in pars}
            A = {n: quoted(w) if k == "s" else number(w, k)
                 for n, k in atts.items()}
            V = {n: np.array([quoted(w) if k == "s" else number(w, k)
                              for _ in range(rows * int(np.prod(shapes[n])))]
                             ).reshape((rows,) + shapes[n])
                 for n, k in cols.items()}
            got.append((P, A, V))
            order.append((name, pars, atts, cols, heads, at, F, shead, broken,
                          P, A, V))
        expect[name] = (F, sweep, shapes, got)
    if r.random() < .5:
        r.shuffle(order)

    def num(x):
        if isinstance(x, (complex, np.complexfloating)):
            return "%r %r" % (float(x.real), float(x.imag))
        if isinstance(x, (str, np.str_)):
            return '"%s"' % x
        if isinstance(x, (int, np.integer)):
            return r.choice(["%d", "%+d"]) % x
        return r.choice(["%r", "%.17g", "%+.17e", "%.17E"]) % float(x)
    kind = dict(f="real", c="complex", i="integer", s="string")
    got = {n: [] for n in expect}
    for (name, pars, atts, cols, heads, at, F, shead, broken, P, A, V) in order:
        got[name].append((P, A, V))
        for n in pars:
            lines.append(sp() + "VAR %s%s(real)%s=%s%s" % (
                prefix(), n, sp(), sp(), num(P[n])))
        lines.append(sp() + "BEGIN " + name)
        for n, k in atts.items():
            lines.append(sp() + "#" + sp() + "%s%s(%s)%s=%s%s" % (
                prefix(), n, kind[k], sp(), sp(), num(A[n])))

        def put(cells, lead):
            start = 0
            for stop in broken + [len(cells)]:
                if cells[start:stop]:
                    lines.append(sp() + lead + r.choice(" \t").join(
                        cells[start:stop]))
                start = stop
        put([shead + "(real)"] + ["%s(%s)" % (heads[q][1], kind[heads[q][2]])
                                  for q in at], "%" + sp())
        for i in range(len(F)):
            cells = ["%r" % float(F[i])]
            for q in at:
                n, h, k = heads[q]
                ix = tuple(int(c) - 1 for c in h[len(n) + 1:-1].split(",")
                           if c)
                cells.append(num(V[n][(i,) + ix]))
            put(cells, "")
        lines.append(sp() + r.choice(["END", "END " + name]))
        if r.random() < .3:
            lines.append("")
    fn = write(w, "t.mdif", "\n".join(lines) + "\n")
    w._log("file", "\n".join(lines)[:3000])
    out = ff(w).read_mdif(fn, verbose=False)
    w.true("block names", sorted(out) == sorted(expect))
    for name, (F, sweep, shapes, _) in expect.items():
        R, L = out[name], got[name]
        many = len(L) > 1
        w.true("name of block", R.blockname == name)
        for n in L[0][0]:
            X = R[n] if many else R.ivardata[n].data
            same(w, "parameter " + n, X,
                 np.array([p[n] for p, _, _ in L]))
        for n in L[0][1]:
            x = [a[n] for _, a, _ in L]
            same(w, "attribute " + n, R[n], np.array(x if many else x[0]))
            w.true("axis of attribute", [d.name for d in R[n].dims] ==
                   ["INDEX"] * many)
        for n in shapes:
            X = R[n]
            w.true("axes of " + n, [d.name for d in X.dims][:1 + many] ==
                   [sweep] + ["INDEX"] * many)
            same(w, "labels", X.dims[0].data, F)
            x = np.array([v[n] for _, _, v in L])
            same(w, n, X, np.moveaxis(x, 0, 1) if many else x[0])
