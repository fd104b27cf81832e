"""What every file reader does with the blocks it has parsed."""
import re
from engine.contract import contract
from contracts.common import make_dims, mk, full, untouched
from contracts.files import ff, write

RB = "file_formats.readbase:"
FC = "file_formats.common:"


def rb(w):
    return w.mod("hftools.file_formats.readbase")


def fill(w, names, pat, dims, kinds):
    """A block of labelled arrays and their values, all over *pat*."""
    db = w.ds.DataBlock()
    raw = {}
    for q, n in enumerate(names):
        A, raw[n] = mk(w, "x%d" % q, pat, dims, kinds[q % len(kinds)])
        db[n] = A
    return db, raw


@contract("C23", [RB + "make_cplx", RB + "get_outer_function",
                  RB + "name_with_unit"],
          cases=[dict(pat=p, what=x) for p in ("f", "fg", "")
                 for x in ("both", "units", "taken", "alone", "taken unit",
                           "alone 2", "alone 3", "taken plain", "spaced",
                           "nested", "extra")],
          runs=6)
def complex_columns(w, pat, what):
    """Re/Im and Mag/Arg pairs become complex variables."""
    dims = make_dims(w, pat)
    rest = " [mA]" if what in ("units", "taken unit", "taken plain") else ""
    names = ["Im(a)" + rest, "other", "Re(a)" + rest, "Arg(b)" + rest,
             "Mag(b)" + rest, "abs(a)"]
    if what == "alone":
        names = names[:2] + names[4:]
    elif what == "alone 2":
        names = names[1:4] + names[5:]
    elif what == "spaced":
        names = ["Im (a)", "other", "Re  (a)", "Arg (b)", "Mag(b)", "abs(a)"]
    elif what == "nested":
        names = ["Im(f(a))", "other", "Re(f(a))", "Arg(g(x)(b))",
                 "Mag(g(x)(b))", "abs(a)"]
    elif what == "extra":
        names += ["Re(b)", "Mag(a)", "dB(a)", "dB(b)", "(c)", "Re(", "Im)"]
    elif what == "alone 3":
        names = ["Im(a)", "Arg(a)", "Re(b)", "Mag(b)", "Arg(c)", "Mag(d)"]
    elif what in ("taken", "taken plain"):
        names += ["a", "b"]
    elif what == "taken unit":
        names += ["a [mA]", "b [mA]"]
    db, raw = fill(w, names, pat, dims, "f")
    R = rb(w).make_cplx(db)
    D = [dims[c] for c in pat]
    w.true("in place", R is db)
    at = lambda n: lambda *i: w.at(raw[n], i)
    if what in ("both", "units", "spaced", "nested", "extra"):
        a, b = ("f(a)", "g(x)(b)") if what == "nested" else (
            "a" + rest, "b" + rest)
        keep = ["other"] + names[5:]
        w.true("names", set(R.vardata.keys()) == set([a, b] + keep))
        im, re, arg, mag = [at(names[q]) for q in (0, 2, 3, 4)]
        full(w, "rectangular", R[a], D, lambda *i: re(*i) + w.j * im(*i))
        full(w, "polar", R[b], D,
             lambda *i: mag(*i) * w.exp(w.j * w.pi * arg(*i) / 180))
    else:
        w.true("names", set(R.vardata.keys()) == set(names))
        keep = names
    for n in keep:
        full(w, "kept", R[n], D, at(n))


@contract("C23", [RB + "fix_unit", RB + "ReadFileFormat._guess_unit"],
          cases=[dict(pat=p, unit=u) for p in ("f", "fg")
                 for u in ("Hz", "GHz", "mA", "foo", "kOhm", "THz", "EW",
                           "aF", "V/m", "dB/GHz", "dBm")], runs=6)
def unit_columns(w, pat, unit):
    """A unit in a name is moved to the unit, prefixes to the values."""
    ds = w.ds
    dims = make_dims(w, pat)
    f = dims["f"]
    dims["f"] = ds.DimSweep("sweep [%s]" % unit, f.data)
    db, raw = fill(w, ["a [%s]" % unit, "b[%s]" % unit, "c", "d [V] x"], pat,
                   dims, "ffcf")
    obj = rb(w).ReadFileFormat()
    obj._guess_unit([db])
    mult, base = {"Hz": (1, "Hz"), "GHz": (w.num(1e9), "Hz"),
                  "mA": (w.num(1) / 1000, "A"), "foo": (1, "foo"),
                  "kOhm": (1000, "Ohm"), "THz": (w.num(1e12), "Hz"),
                  "EW": (w.num(1e18), "W"),
                  "aF": (w.num(1) / 10 ** 18, "F")}.get(unit, (1, unit))
    D = [dims[c] for c in pat]
    lab = f.data
    n = w.size_of(f)
    new = ds.DimSweep("sweep", lab * mult, unit=base)
    D[0] = new
    w.true("names", set(db.vardata.keys()) == set(["a", "b", "c", "d [V] x"]))
    w.true("axis names", set(db.ivardata.keys()) == set(d.name for d in D))
    at = lambda n: lambda *i: w.at(raw[n], i)
    for name in ("a", "b"):
        old = at("a [%s]" % unit if name == "a" else "b[%s]" % unit)
        full(w, name, db[name], D, lambda *i: old(*i) * mult, unit=base)
    for name in ("c", "d [V] x"):
        full(w, name, db[name], D, at(name))
    w.same_dim("axis", db.ivardata["sweep"], ds.DimSweep, "sweep",
               new.data, base)


@contract("C23", [RB + "fix_unit", RB + "ReadFileFormat._guess_unit"],
          cases=[dict(unit=u) for u in ("mA", "GHz", "kOhm", "uV", "foo")],
          prove=False, runs=6, bound="up to 9 labels, two axes")
def unit_of_counted_axis(w, unit):
    """Labels which are whole numbers are scaled like any others."""
    ds, np, r = w.ds, w.np, w.rng
    n = r.randint(1, 9)
    lab = np.array(r.sample(range(-50, 2000), n))
    db = ds.DataBlock()
    sweep = ds.DimSweep("sweep [%s]" % unit, lab)
    val = np.array([r.randint(-999, 999) for _ in range(n)])
    db["a [%s]" % unit] = ds.hfarray(val, dims=(sweep,))
    w._log("labels and values", (unit, lab.tolist(), val.tolist()))
    rb(w).ReadFileFormat()._guess_unit([db])
    mult, base = {"GHz": (1e9, "Hz"), "mA": (1e-3, "A"), "uV": (1e-6, "V"),
                  "kOhm": (1e3, "Ohm")}.get(unit, (1, unit))
    w.true("names", db.vardata.keys() == ["a"] and
           db.ivardata.keys() == ["sweep"])
    w.true("units", db.a.unit == base and
           db.ivardata["sweep"].unit == base)
    w.true("labels scaled", np.allclose(
        np.array(db.ivardata["sweep"].data), lab * mult, 1e-12, 0))
    w.true("values scaled", np.allclose(np.asarray(db.a), val * mult,
                                        1e-12, 0))


TABLE = {'b1/a1 raw': 'b11', 'b1/a2 raw': 'b12', 'b2/a1 raw': 'b21',
         'b2/a2 raw': 'b22', 'a1 raw': 'a11', 'a1/a2 raw': 'a12',
         'a2/a1 raw': 'a21', 'a2 raw': 'a22', 'b1/a1': 'b11',
         'b1/a2': 'b12', 'b2/a1': 'b21', 'b2/a2': 'b22', 'a1': 'a11',
         'a1/a2': 'a12', 'a2/a1': 'a21', 'a2': 'a22',
         "Mean(x)": "x", "Std(x)": "s_x", "Max(x)": "Max(x)",
         "Mean(x": "Mean(x", "Mean(f(y))": "f(y)", "Std(V [V])": "s_V [V]",
         "mean(q)": "mean(q)"}


@contract("C23", [FC + "normalize_names", FC + "remove_enclosing_function",
                  "dataset.dataset:DataBlock.rename"],
          cases=[dict(axis=a, names=n) for a in ("Freq", "Frequency",
                                                 "Freq[Hz]", "freq", "Pin")
                 for n in ("raw", "waves", "stat")], runs=6)
def standard_names(w, axis, names):
    """Known names are translated, values stay with their column."""
    ds = w.ds
    n = w.size("n")
    lab = w.raw("f", (n,), "f")
    F = ds.DimSweep(axis, lab, unit="Hz")
    use = sorted(k for k in TABLE if {"raw": "raw" in k, "stat": "(" in k,
                                      "waves": "(" not in k and
                                      "raw" not in k}[names])
    use += ["other"]
    db, raw = fill(w, use, "f", {"f": F}, "fc")
    R = ff(w).normalize_names(db)
    new = axis if axis == "Pin" else "freq"
    G = ds.DimSweep(new, lab, unit="Hz")
    w.true("names", set(R.vardata.keys()) ==
           set(TABLE.get(k, k) for k in use))
    w.true("axes", list(R.ivardata.keys()) == [new])
    for k in use:
        full(w, k, R[TABLE.get(k, k)], [G], lambda *i: w.at(raw[k], i))
        untouched(w, "source", db[k], raw[k], [F])


@contract("C23", [FC + "normalize_names"],
          cases=[dict(what=x) for x in ("target", "two", "mean", "axis")],
          runs=6)
def name_clashes(w, what):
    """No column is overwritten by another."""
    ds = w.ds
    n = w.size("n")
    F = ds.DimSweep("freq", w.raw("f", (n,), "f"), unit="Hz")
    names = {"target": ["b1/a1", "b11", "c"],
             "two": ["b1/a1", "b1/a1 raw", "c"],
             "mean": ["Mean(x)", "x"],
             "axis": ["Freq", "c"]}[what]
    db, raw = fill(w, names, "f", {"f": F}, "f")
    if what == "mean":
        with w.raises("refused", ValueError):
            ff(w).normalize_names(db)
        return
    R = ff(w).normalize_names(db)
    w.true("number of columns", len(R.vardata.keys()) == len(names))
    if what == "two":
        left = [k for k in names[:2] if k in R.vardata]
        w.true("one translated", len(left) == 1 and "b11" in R.vardata)
        full(w, "kept", R[left[0]], [F], lambda *i: w.at(raw[left[0]], i))
        other = names[1 - names.index(left[0])]
        full(w, "translated", R.b11, [F], lambda *i: w.at(raw[other], i))
        names = names[2:]
    for k in names:
        full(w, k, R[k], [F], lambda *i: w.at(raw[k], i))


@contract("C23", [RB + "ReadFileFormat._make_matrix_from_block",
                  RB + "match_matrix_elements", RB + "_matrix_elements",
                  RB + "ReadFileFormat._combine_matrices"],
          cases=[dict(pat=p, rows=r, cols=c, kinds=k, name="S", at=1)
                 for p, r, c in (("f", 2, 2), ("fg", 2, 2), ("f", 3, 3),
                                 ("f", 2, 3), ("", 2, 2), ("f", 1, 2))
                 for k in ("f", "c", "fc", "cf")] +
          [dict(pat="f", rows=r, cols=c, kinds=k, name=n, at=1)
           for r, c, k, n in ((9, 9, "f", "S"), (1, 9, "c", "M_"),
                              (9, 1, "f", "_q"), (2, 2, "c", "s_Zin"),
                              (2, 2, "f", "a"), (3, 2, "c", "abcDEF"))] +
          [dict(pat="f", rows=2, cols=3, kinds="c", name="Sx", at=q)
           for q in (0, 7)], runs=6)
def matrix_columns(w, pat, rows, cols, kinds, name, at):
    """A complete set of indexed columns is the matrix they spell."""
    ds = w.ds
    dims = make_dims(w, pat)
    names = [(i, j) for j in range(cols, 0, -1) for i in range(rows, 0, -1)]
    el = lambda i, j: "%s%d%d" % (name, i - 1 + at, j - 1 + at)
    mat = [el(*x) for x in names]
    names = mat + ["T11", "T12", "T21", "u", "V3"]
    db, raw = fill(w, names, pat, dims, kinds)
    for n in names:
        db[n].unit = "V" if n in mat else None
    obj = rb(w).ReadFileFormat(make_matrix=True)
    obj._combine_matrices([db])
    D = [dims[c] for c in pat]
    w.true("names", set(db.vardata.keys()) ==
           set([name, "T11", "T12", "T21", "u", "V3"]))
    I = ds.DimMatrix_i("i", rows)
    J = ds.DimMatrix_j("j", cols)
    M = db[name]
    w.dims_are("axes", M, D + [I, J])
    w.true("unit", M.unit == "V")
    w.true("type", M.dtype.kind == ("c" if "c" in kinds else "f"))
    k = len(pat)
    for idx in w.forall(tuple(w.size_of(d) for d in D)):
        for i in range(rows):
            for j in range(cols):
                w.eq("element", w.at(M, idx + (i, j)),
                     w.at(raw[el(i + 1, j + 1)], idx))
    for n in ("T11", "T12", "T21", "u", "V3"):
        full(w, n, db[n], D, lambda *i: w.at(raw[n], i))


@contract("C23", [RB + "match_matrix_elements", RB + "_matrix_elements"],
          cases=[dict(rows=r, cols=c, order=o)
                 for r, c in (((1, 2, 10), (1, 2, 10)), ((9, 10), (3, 21)),
                              ((1, 11), (1, 11)), ((7,), (2, 10)))
                 for o in (0, 1, 2)], runs=1)
def matrix_names(w, rows, cols, order):
    """Elements are ordered by their indices, however they are spelled."""
    m = re.compile("([A-Za-z_]+?)([0-9]+)_([0-9]+)$").match
    want = ["S%d_%d" % (i, j) for i in rows for j in cols]
    names = [want, want[::-1], sorted(want)][order]
    names = ["T1_2", "T2_1"] + names + ["u", "U3_4"]
    R = rb(w).match_matrix_elements(names, m)
    w.true("one matrix", list(R) == ["S"])
    elems, i, j = R["S"]
    w.true("order of elements", list(elems) == want)
    w.true("indices", list(i) == list(rows) and list(j) == list(cols))


@contract("C23", [RB + "ReadFileFormat._make_matrix_from_block"],
          cases=[dict(what=x) for x in ("taken", "axes", "off")], runs=6)
def matrix_columns_kept(w, what):
    """Columns that are not a matrix stay as they are."""
    ds = w.ds
    dims = make_dims(w, "fg")
    names = ["S11", "S12", "S21", "S22"]
    db, raw = fill(w, names, "f", dims, "c")
    pats = dict((n, "f") for n in names)
    if what == "taken":
        db.S, raw["S"] = mk(w, "s", "f", dims, "f")
        pats["S"] = "f"
    elif what == "axes":
        db.S12, raw["S12"] = mk(w, "s", "fg", dims, "f")
        pats["S12"] = "fg"
    obj = rb(w).ReadFileFormat(make_matrix=what != "off")
    obj._combine_matrices([db])
    w.true("names", set(db.vardata.keys()) == set(pats))
    for n in pats:
        full(w, n, db[n], [dims[c] for c in pats[n]],
             lambda *i: w.at(raw[n], i))


@contract("C23", [RB + "combine_elements_to_matrix"],
          cases=[dict(pat=p, kinds=k, first=s) for p in ("f", "fg")
                 for k in ("f", "fc", "cf") for s in (0, 1)], runs=6)
def combine_elements(w, pat, kinds, first):
    """The named matrix is added next to its elements."""
    ds = w.ds
    dims = make_dims(w, pat)
    names = ["S%d%d" % (i + first, j + first) for j in range(2)
             for i in range(2)]
    db, raw = fill(w, names + ["T11"], pat, dims, kinds)
    R = rb(w).combine_elements_to_matrix(db, "S")
    D = [dims[c] for c in pat]
    w.dims_are("axes", R.S, D + [ds.DimMatrix_i("i", 2),
                                 ds.DimMatrix_j("j", 2)])
    for idx in w.forall(tuple(w.size_of(d) for d in D)):
        for i in range(2):
            for j in range(2):
                w.eq("element", w.at(R.S, idx + (i, j)),
                     w.at(raw["S%d%d" % (i + first, j + first)], idx))
    for n in names + ["T11"]:
        full(w, n, R[n], D, lambda *i: w.at(raw[n], i))
    with w.raises("incomplete", Exception):
        rb(w).combine_elements_to_matrix(db, "T1")
    for a, b, p in ((1, 3, 4), (3, 1, 4), (2, 3, 4), (1, 1, 4), (3, 2, 8)):
        D2, r2 = fill(w, ["W%d%d" % (p + 1 - i, p + 1 - j)
                          for i in range(a) for j in range(b)],
                      pat, dims, kinds)
        rb(w).combine_elements_to_matrix(D2, "W")
        w.dims_are("axes", D2.W, D + [ds.DimMatrix_i("i", a),
                                      ds.DimMatrix_j("j", b)])
        for idx in w.forall(tuple(w.size_of(d) for d in D)):
            for i in range(a):
                for j in range(b):
                    w.eq("element", w.at(D2.W, idx + (i, j)), w.at(
                        r2["W%d%d" % (p + 2 - a + i, p + 2 - b + j)], idx))
    with w.raises("no such element", Exception):
        rb(w).combine_elements_to_matrix(db, "nothing")
    del db["S12" if first else "S01"]
    with w.raises("incomplete", Exception):
        rb(w).combine_elements_to_matrix(db, "S")


@contract("C23", [RB + "combine_elements_to_matrix",
                  "dataset.arrayobj:change_shape"],
          cases=[dict(ps=p) for p in (
              ("fg", "fg", "gf", "fg"), ("fg", "gf", "f", "g"),
              ("gr", "rg", "", "gr"), ("fgr", "rgf", "gf", "r"),
              ("f", "", "", "f"))])
def combine_elements_over_any_axes(w, ps):
    """Elements with their axes in another order, or with fewer of them."""
    ds = w.ds
    dims = make_dims(w, ps[0])
    db = ds.DataBlock()
    pats, raw = dict(zip(("S11", "S12", "S21", "S22"), ps)), {}
    for n, p in pats.items():
        db[n], raw[n] = mk(w, n, p, dims, "f")
    R = rb(w).combine_elements_to_matrix(db, "S")
    D = [dims[c] for c in ps[0]]
    w.dims_are("axes", R.S, D + [ds.DimMatrix_i("i", 2),
                                 ds.DimMatrix_j("j", 2)])
    for idx in w.forall(tuple(w.size_of(d) for d in D)):
        e = dict(zip(ps[0], idx))
        for i in range(2):
            for j in range(2):
                n = "S%d%d" % (i + 1, j + 1)
                w.eq("element", w.at(R.S, idx + (i, j)),
                     w.at(raw[n], [e[c] for c in pats[n]]))


@contract("C23", [RB + "ReadFileFormat." + x for x in (
    "do_file", "_make_complex", "_properties_to_vars", "_normalize",
    "_merge")] + ["dataset.dataset:DataBlock.values_from_property"],
    cases=[dict(off=x) for x in ("none", "make_complex", "property_to_vars",
                                 "guess_unit", "normalize", "make_matrix")],
    runs=6)
def reading_steps(w, off):
    """Each step of reading is done unless it is switched off."""
    ds = w.ds
    n = w.size("n", lo=2)
    lab = w.raw("f", (n,), "f")
    F = ds.DimSweep("Freq", lab)
    names = ["Re(a) [mA]", "Im(a) [mA]", "b1/a1", "M11", "M12"]
    db, raw = fill(w, names, "f", {"f": F}, "f")
    t, u = w.real("t"), w.real("u")
    db.comments = ff(w).Comments(["Temp: 21 C", "Note: some text",
                                  "b1/a1: 3"])

    class R(rb(w).ReadFileFormat):
        def tokenize(self, stream):
            return stream

        def parse_blocks(self, stream):
            yield db

    args = {} if off == "none" else {off: False}
    out = R(**args).do_file(iter([]))
    at = lambda n: lambda *i: w.at(raw[n], i)
    fn = "Freq" if off == "normalize" else "freq"
    G = ds.DimSweep(fn, lab, unit=None if off == "guess_unit" else "Hz")
    names = ["b1/a1" if off == "normalize" else "b11"]
    full(w, "translated", out[names[0]], [G], at("b1/a1"))
    sfx = " [mA]" if off == "guess_unit" else ""
    mul = 1 if off == "guess_unit" else w.num(1) / 1000
    unit = None if off == "guess_unit" else "A"
    if off == "make_complex":
        names += ["Re(a) [mA]", "Im(a) [mA]"]
        for x in names[1:]:
            w.dims_are(x, out[x[:5]], [G])
            w.same_array(x, out[x[:5]], lambda i: at(x)(i) * mul, (n,))
        names[1:] = [x[:5] for x in names[1:]]
    else:
        names.append("a" + sfx)
        full(w, "complex", out["a" + sfx], [G],
             lambda i: (at("Re(a) [mA]")(i) + w.j * at("Im(a) [mA]")(i)) *
             mul, unit=unit)
    if off == "make_matrix":
        names += ["M11", "M12"]
        full(w, "element", out.M11, [G], at("M11"))
        full(w, "element", out.M12, [G], at("M12"))
    else:
        names.append("M")
        w.dims_are("matrix", out.M, [G, ds.DimMatrix_i("i", 1),
                                     ds.DimMatrix_j("j", 2)])
        for i, in w.forall((n,)):
            w.eq("element", w.at(out.M, (i, 0, 0)), at("M11")(i))
            w.eq("element", w.at(out.M, (i, 0, 1)), at("M12")(i))
    if off != "property_to_vars":
        names += ["Temp", "Note"]
        w.true("numeric property", out.Temp.ndim == 0)
        w.eq("numeric property", w.at(out.Temp, ()), 21)
        w.true("text property", out.Note.item() == "some text")
    w.true("nothing else", set(out.vardata.keys()) == set(names))
    w.true("comments", out.comments.fullcomments ==
           ["Temp: 21 C", "Note: some text", "b1/a1: 3"])
    w.true("file index", [int(x) for x in
                          out.ivardata["FILEINDEX"].data] == [0])


@contract("C23", [RB + "ReadFileFormat.read_file",
                  RB + "ReadFileFormat.do_file"],
          cases=[dict(fmt=f, files=n) for f in ("spdata", "citi")
                 for n in (1, 2)], runs=2)
def file_name_taken(w, fmt, files):
    """A property or column named like the file name is kept."""
    tmp = w.tmpdir()
    fns = []
    for k in range(files):
        t = {"spdata": "!FILENAME: some text %d\n!FILEINDEX: 7.5\nx\ty\n"
                       "1\t2\n2\t3\n",
             "citi": "CITIFILE A.01.01\nCOMMENT FILENAME: some text %d\n"
                     "COMMENT FILEINDEX: 7.5\nNAME X\n"
                     "VAR x MAG 2\nDATA y MAG\nVAR_LIST_BEGIN\n1\n2\n"
                     "VAR_LIST_END\nBEGIN\n2\n3\nEND\n"}[fmt] % k
        if files > 1:
            t = t.replace("FILEINDEX", "Index")
        fns.append(write(w, "t%d.txt" % k, t, where=tmp))
    R = getattr(ff(w), "read_" + fmt)(fns if files > 1 else fns[0])
    names = [str(x) for x in w.np.array(R.FILENAME).flatten()]
    w.true("kept", names == ["some text %d" % k for k in range(files)])
    X = R.FILEINDEX if files == 1 else R.Index
    w.true("kept", [float(x) for x in w.np.array(X).flatten()] ==
           [7.5] * files)
    w.true("values", [float(x) for x in w.np.array(R.y).flatten()][:2] ==
           [2.0, 3.0 if files == 1 else 2.0])
