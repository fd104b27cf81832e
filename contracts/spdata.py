"""Reading and writing sp-data (tab separated) files."""
import os
from engine.contract import contract
from contracts.common import untouched
from contracts.files import ff, distinct as sweep, write

SP = "file_formats.spdata:"
RB = "file_formats.readbase:"
FC = "file_formats.common:"


def values(w, name, shape, kind="f"):
    raw = w.raw(name, shape, kind)
    return raw, lambda *i: w.at(raw, i)


def line(*fields):
    return "\t".join(fields)


@contract("C19", [SP + x for x in (
    "ReadSPFileFormat.tokenize", "ReadSPFileFormat.group_blocks",
    "ReadSPFileFormat.parse_blocks", "read_spdata")] + [
    RB + "make_cplx", RB + "get_outer_function", RB + "fix_unit",
    RB + "reg_varunit", RB + "ReadFileFormat._guess_unit"],
    cases=[dict(kind=k, com=c) for k in ("real", "complex", "polar", "units",
                                         "repeated") for c in (0, 1)],
    runs=8)
def sp_columns(w, kind, com):
    """Each column becomes the variable its heading names."""
    n = int(w.size("n"))
    f = sweep(w, "f", n)
    _, a = values(w, "a", (n,))
    _, b = values(w, "b", (n,))
    _, c = values(w, "c", (n,))
    head = {"real": ["freq", "alpha", "beta", "gamma"],
            "complex": ["freq", "Re(alpha)", "beta", "Im(alpha)"],
            "polar": ["freq", "Mag(alpha)", "Arg(alpha)", "beta"],
            "units": ["freq [GHz]", "alpha [mA]", "beta[V]", "gamma [foo]"],
            "repeated": ["freq", "alpha", "beta", "alpha"]}[kind]
    text = ["!Operator: someone", "!Temp [mA]: 3", "!no colon"] if com else []
    text.append("")
    text.append(line(*head))
    for i in range(n):
        text.append(line(w.text(w.at(f, (i,))), w.text(a(i)), w.text(b(i)),
                         w.text(c(i))))
        if i % 2:
            text.append("   ")
    db = ff(w).read_spdata(write(w, "t.txt", "\n".join(text) + "\n"))
    ds = w.ds
    fm = w.num(1e9) if kind == "units" else 1
    dim = ds.DimSweep("freq", w.np.array([w.at(f, (i,)) * fm
                                          for i in range(n)]), unit="Hz")
    want = {"real": dict(alpha=a, beta=b, gamma=c),
            "complex": dict(alpha=lambda i: a(i) + w.j * c(i), beta=b),
            "polar": dict(alpha=lambda i: a(i) * w.exp(
                w.j * w.pi * b(i) / 180), beta=c),
            "units": dict(alpha=lambda i: a(i) / 1000, beta=b, gamma=c),
            "repeated": dict(beta=b)}[kind]
    units = dict(alpha="A", beta="V", gamma="foo") if kind == "units" else {}
    for k, fn in want.items():
        R = db[k]
        w.dims_are(k, R, [dim])
        for i in range(n):
            w.eq("value", w.at(R, (i,)), fn(i))
        if k in units:
            w.true("unit", R.unit == units[k])
    known = set(want) | set(["FILENAME", "Operator", "Temp"])
    if kind == "repeated":
        R = db.alpha
        known.add("alpha")
        w.true("repeated columns", tuple(R.shape) == (n, 2) and
               isinstance(R.dims[1], ds.DimRep))
        w.same_dim("sweep axis", R.dims[0], ds.DimSweep, "freq", f, "Hz")
        for i in range(n):
            w.eq("first repetition", w.at(R, (i, 0)), a(i))
            w.eq("second repetition", w.at(R, (i, 1)), c(i))
    w.true("nothing else", set(db.vardata.keys()) <= known)
    if com:
        w.eq("comment value", w.at(db.Temp, ()), w.num(3) / 1000)
        w.true("comments", db.comments.fullcomments[:3] ==
               ["Operator: someone", "Temp [mA]: 3", "no colon"])


COLUMNS = {
    # headings, and what each variable is made of
    "pairs": (["freq", "Im(a)", "Mag(b)", "Re(c)", "Re(a)", "d", "Arg(b)",
               "Im(c)"],
              {"a": ("RI", 3, 0), "b": ("MA", 1, 5), "c": ("RI", 2, 6),
               "d": ("R", 4)}),
    "pair units": (["freq [MHz]", "Re(a) [mV]", "Im(a) [mV]", "Mag(b) [kA]",
                    "Arg(b) [kA]", "c [GW]", "d [um]"],
                   {"a": ("RI", 0, 1, 1e-3, "V"), "c": ("R", 4, 1e9, "W"),
                    "d": ("R", 5, 1e-6, "m")}),
    "axis": (["Freq[Hz]", "a", "b"], {"a": ("R", 0), "b": ("R", 1)}),
    "other axis": (["Pin [mW]", "a"], {"a": ("R", 0)}),
    "many": (["freq"] + ["v%d" % k for k in range(12)],
             dict(("v%d" % k, ("R", k)) for k in range(10))),
    "matrix": (["freq", "S21", "S11", "S12", "S22", "T11", "T12", "T21"],
               {"S": ("M", 1, 2, 0, 3), "T11": ("R", 4), "T12": ("R", 5),
                "T21": ("R", 6)}),
    "raw": (["Freq", "b1/a1", "b2/a1", "b1/a2", "b2/a2", "a1"],
            {"b": ("M", 0, 2, 1, 3), "a11": ("R", 4)}),
    "complex matrix": (["freq", "Re(Z11)", "Im(Z11)", "Re(Z21)", "Im(Z21)",
                        "Re(Z12)", "Im(Z12)", "Re(Z22)", "Im(Z22)"],
                       {"Z": ("CM", 0, 4, 2, 6)}),
    "statistics": (["freq", "Mean(x)", "Std(x)", "y"],
                   {"x": ("R", 0), "s_x": ("R", 1), "y": ("R", 2)}),
}


@contract("C19", [SP + "ReadSPFileFormat.tokenize",
                  SP + "ReadSPFileFormat.group_blocks",
                  SP + "ReadSPFileFormat.parse_blocks", RB + "make_cplx",
                  RB + "fix_unit", FC + "normalize_names",
                  RB + "ReadFileFormat._make_matrix_from_block"],
          cases=[dict(kind=k) for k in sorted(COLUMNS)], runs=8)
def sp_headings(w, kind):
    """Headings of every kind and in any order of the columns."""
    head, want = COLUMNS[kind]
    n = int(w.size("n"))
    f = sweep(w, "f", n)
    k = len(head) - 1
    raw = w.raw("x", (n, k), "f")
    x = lambda i, c: w.at(raw, (i, c))
    text = ["! made by hand", line(*head)]
    for i in range(n):
        text.append(line(w.text(w.at(f, (i,))), *[w.text(x(i, c))
                                                  for c in range(k)]))
    db = ff(w).read_spdata(write(w, "t.txt", "\n".join(text) + "\n"))
    ds = w.ds
    name, unit, mult = {"pair units": ("freq", "Hz", w.num(1e6)),
                        "other axis": ("Pin", "W", w.num(1) / 1000)}.get(
        kind, ("freq", "Hz", 1))
    dim = ds.DimSweep(name, w.np.array([w.at(f, (i,)) * mult
                                        for i in range(n)]), unit=unit)
    for v, spec in want.items():
        R = db[v]
        kind, at = spec[0], spec[1:]
        if kind in ("M", "CM"):
            w.true("matrix", tuple(R.shape) == (n, 2, 2) and
                   isinstance(R.dims[1], ds.DimMatrix_i) and
                   isinstance(R.dims[2], ds.DimMatrix_j))
            for i in range(n):
                for q, c in enumerate(at):
                    w.eq("element", w.at(R, (i, q // 2, q % 2)), x(i, c) + (
                        w.j * x(i, c + 1) if kind == "CM" else 0))
            continue
        w.dims_are(v, R, [dim])
        n_c = 1 if kind == "R" else 2
        mul = w.num(at[n_c]) if len(at) > n_c else 1
        for i in range(n):
            e = x(i, at[0])
            if kind == "RI":
                e = e + w.j * x(i, at[1])
            elif kind == "MA":
                e = e * w.exp(w.j * w.pi * x(i, at[1]) / 180)
            w.eq("value", w.at(R, (i,)), e * mul)
        if len(at) > n_c:
            w.true("unit", R.unit == at[n_c + 1])


@contract("C19", [SP + "ReadSPFileFormat.group_blocks",
                  SP + "ReadSPFileFormat.parse_blocks",
                  RB + "ReadFileFormat._merge",
                  "file_formats.merge:merge_blocks"],
          cases=[dict(blocks=b, hyper=h, part=p) for b in (2, 3)
                 for h in (False, True) for p in (1, 2)] +
                [dict(blocks=1, hyper=False, part=1),
                 dict(blocks=12, hyper=False, part=1),
                 dict(blocks=11, hyper=True, part=1)], runs=6)
def sp_blocks(w, blocks, hyper, part):
    """Blocks of swept parameters are stacked in file order."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    if hyper and part == 2:
        points = [(v, u) for v in (1.5, 2.5) for u in (-1.0, 3.0, 4.0)]
    elif hyper:
        points = [(0.5 * k,) for k in range(blocks)]
    else:
        p = w.raw("p", (blocks, part), "f")
        points = [tuple(w.at(p, (k, q)) for q in range(part))
                  for k in range(blocks)]
    N = len(points)
    _, a = values(w, "a", (N, n))
    text = []
    names = ["Pin", "Pout"][:part]
    for k, pt in enumerate(points):
        for nm, v in zip(names, pt):
            t = repr(v) if hyper else w.text(v)
            text.append("!@%s%s%s" % (nm, "=" if k % 2 else " : ", t))
        text.append(line("freq", "alpha"))
        for i in range(n):
            text.append(line(w.text(w.at(f, (i,))), w.text(a(k, i))))
        text.append("")
    db = ff(w).read_spdata(write(w, "t.txt", "\n".join(text) + "\n"),
                           hyper=hyper)
    R = db.alpha
    ds = w.ds
    w.same_dim("sweep axis", R.dims[0], ds.DimSweep, "freq", f, "Hz")
    if hyper:
        grid = [sorted(set(pt[q] for pt in points)) for q in range(part)]
        w.true("axes", [d.name for d in R.dims[1:]] == names and
               tuple(R.shape) == (n,) + tuple(map(len, grid)))
        for d, g in zip(R.dims[1:], grid):
            w.true("axis labels", [float(x) for x in d.data] == g)
        for k, pt in enumerate(points):
            pos = tuple(g.index(v) for g, v in zip(grid, pt))
            for i in range(n):
                w.eq("value", w.at(R, (i,) + pos), a(k, i))
        return
    if N == 1:
        w.true("no new axis", tuple(R.shape) == (n,))
        for i in range(n):
            w.eq("value", w.at(R, (i,)), a(0, i))
        w.eq("parameter", w.at(db.ivardata["Pin"].data, (0,)), points[0][0])
        return
    w.true("one index axis", tuple(R.shape) == (n, N) and
           R.dims[1].name == "INDEX1")
    for k, pt in enumerate(points):
        for i in range(n):
            w.eq("value", w.at(R, (i, k)), a(k, i))
        for q, nm in enumerate(names):
            w.dims_are("parameter", db[nm], [R.dims[1]])
            w.eq("parameter value", w.at(db[nm], (k,)), pt[q])


@contract("C19", [SP + "save_spdata", SP + "format_sp_block",
                  FC + "db_iterator", FC + "make_block_iterator",
                  FC + "make_col_from_matrix", FC + "format_complex_header",
                  FC + "format_elem", FC + "format_unit_header",
                  FC + "format_scalar", SP + "read_spdata"],
          cases=[dict(kind=k, again=a) for k in (
              "plain", "units", "matrix", "two", "matrix2", "scalars",
              "three", "three ports", "repeated", "apart", "some", "mixed",
              "others", "matrices", "swapped",
              "comments", "lone", "padded", "axis units", "noisy",
              "not square", "complex scalars") for a in (False, True)
              if not (k in ("apart", "others") and a)], runs=6)
def sp_round_trip(w, kind, again):
    """What save_spdata writes is read back."""
    ds = w.ds
    n, m = int(w.size("n", lo=2)), 2
    F = ds.DimSweep("freq", sweep(w, "f", n), unit="Hz")
    G = ds.DimSweep("Pin", [0.5, 1.5])
    H = ds.DimSweep("Load", [-1.0, 2.5, 4.0])
    if kind in ("axis units", "noisy"):
        G = ds.DimSweep("Pin", [0.5, 1.5], unit="dBm")
        H = ds.DimSweep("Load", [-1.0, 2.5, 4.0], unit="Ohm")
    r = ds.DimRep("rep", 2)
    I, J = ds.DimMatrix_i("i", 2), ds.DimMatrix_j("j", 2)
    db = ds.DataBlock()
    src = {}

    def add(name, dims, kind, **kw):
        src[name] = (w.raw(name, [len(d.data) for d in dims], kind), dims,
                     kw.get("unit"))
        db[name] = ds.hfarray(src[name][0], dims=dims, **kw)

    if kind in ("plain", "scalars", "comments", "lone", "complex scalars"):
        add("alpha", (F,), "f")
        add("beta", (F,), "c")
    elif kind == "units":
        add("alpha", (F,), "f", unit="V")
        add("beta", (F,), "c", unit="A")
    elif kind == "two":
        add("alpha", (F, G), "c")
        add("beta", (F, G), "f", unit="V")
    elif kind == "three":
        add("alpha", (F, G, H), "c")
        add("beta", (F, G, H), "f", unit="V")
    elif kind == "swapped":
        add("alpha", (G, F), "f")
    elif kind == "repeated":
        add("alpha", (F, r), "f")
        add("beta", (F,), "c")
    elif kind == "apart":
        add("alpha", (F,), "c")
        add("beta", (G,), "f", unit="V")
        add("gamma", (F,), "f")
    elif kind == "some":
        add("beta", (F,), "f")
        add("alpha", (F, G), "c", unit="V")
        add("gamma", (F,), "c")
    elif kind == "mixed":
        add("Z", (F, I, J), "c")
        add("alpha", (F, H), "f")
    elif kind == "others":
        add("alpha", (F, H), "c")
        add("beta", (F, G), "f")
    elif kind == "matrices":
        add("Z", (F, I, J), "c", unit="Ohm")
        add("alpha", (F,), "f")
        add("A", (F, I, J), "f")
    elif kind == "three ports":
        I, J = ds.DimMatrix_i("i", 3), ds.DimMatrix_j("j", 3)
        add("Z", (F, I, J), "c")
    elif kind == "matrix":
        add("Z", (F, I, J), "c")
        add("beta", (F,), "f")
    elif kind == "axis units":
        add("alpha", (F, G, H), "c")
        add("beta", (F, G, H), "f", unit="V")
    elif kind == "noisy":
        add("alpha", (F, H), "f")
    elif kind == "not square":
        I, J = ds.DimMatrix_i("i", 2), ds.DimMatrix_j("j", 3)
        add("Z", (F, I, J), "c")
    elif kind == "padded":
        add("alpha", (F,), "f", unit="V", outputformat="%-30.16e")
        add("beta", (F,), "c", outputformat="%30.16e")
    else:
        add("Z", (F, G, I, J), "c")
    t = None
    if kind == "scalars":
        t = w.real("T")
        db.Temp = ds.hfarray(t, unit="K")
    z = None
    if kind == "complex scalars":
        z = w.cplx("z")
        db.Gam = ds.hfarray(z, unit="V")
    text = ["Operator: någon", "no colon", "Temp: 21"]
    if kind in ("comments", "noisy"):
        db.comments = ff(w).Comments(text)
        t = 21
    if kind == "lone":
        db["Pin"] = G
    fn = os.path.join(w.tmpdir(), "t.txt")
    if kind == "noisy":
        import io
        with io.open(fn, "w", encoding="cp1252") as fil:
            ff(w).save_spdata(db, fil)
            w.true("the caller closes the file", not fil.closed)
    else:
        ff(w).save_spdata(db, fn)
    if kind in ("comments", "noisy"):
        w.true("comments unchanged", db.comments.fullcomments == text and
               sorted(db.comments.property) == ["Operator", "Temp"])
    for name in src:
        untouched(w, "source unchanged", db[name], src[name][0],
                  src[name][1])
    R = ff(w).read_spdata(fn, hyper=True)
    if again:
        ff(w).save_spdata(R, fn)
        R = ff(w).read_spdata(fn, hyper=True)
    for name in src:
        raw, dims, unit = src[name]
        X = R[name]
        w.true("axes", [d.name for d in X.dims] == [d.name for d in dims])
        for e, d in zip(X.dims, dims):
            w.true("axis class", d is r or isinstance(e, d.__class__))
            if isinstance(d, ds.DimSweep):
                w.same_seq("axis labels", e.data, d.data)
                w.true("axis unit", e.unit == d.unit)
        w.same_array(name, X, lambda *i: w.at(raw, i), raw.shape)
        w.true("unit", X.unit == unit)
    if t is not None:
        w.eq("scalars and comment values", w.at(R.Temp, ()), t)
    if kind == "scalars":
        w.true("unit of scalars", R.Temp.unit == "K")
    if kind == "lone":
        w.same_seq("lone axis", R.ivardata["Pin"].data, G.data)
    if z is not None:
        w.eq("complex scalars", w.at(R.Gam, ()), z)
    if kind in ("comments", "noisy"):
        w.true("comments", R.comments.fullcomments[:3] == text)


@contract("C19", [SP + "ReadSPFileFormat.group_blocks",
                  SP + "ReadSPFileFormat.parse_blocks"],
          cases=[dict(what=x) for x in (
              "no header", "header only", "comment only", "short header",
              "short row", "long row", "short first row", "no rows")],
          runs=4)
def sp_errors(w, what):
    """Columns that do not fit their headings are refused."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    x = w.raw("x", (n, 2), "f")
    rows = [[w.text(w.at(f, (i,))), w.text(w.at(x, (i, 0))),
             w.text(w.at(x, (i, 1)))] for i in range(n)]
    text = ["!a: 1", line("freq", "alpha", "beta")]
    if what == "no header":
        text = text[:1]
    elif what == "header only":
        rows = []
    elif what == "comment only":
        rows, text = [], text[:1]
    elif what == "short header":
        text[1] = line("freq", "alpha")
    elif what == "short row":
        del rows[-1][-1]
    elif what == "long row":
        rows[-1].append("1.5")
    elif what == "short first row":
        del rows[0][-1]
    elif what == "no rows":
        text += ["!b: 2", text[1]]
    text += [line(*r) for r in rows]
    with w.raises("refused: " + what,
                  w.mod("hftools.file_formats.spdata").SPDataIOError):
        ff(w).read_spdata(write(w, "t.txt", "\n".join(text) + "\n"))
