"""Dimension objects and diagonal axes."""
from engine.contract import contract
from contracts.common import make_dim, make_dims, mk, full, dim_class

DM = "dataset.dim:"
AR = "dataset.arrayobj:"
CLASSES = ["DimSweep", "DimRep", "DimMatrix_i", "DimMatrix_j",
           "DimAnonymous", "DiagAxis", "DimBase", "DimPartial", "user",
           "ComplexIndepAxis", "ComplexDerivAxis", "IndepAxis"]


def cls_of(w, n):
    if n == "user":
        return dim_class(w, "x")
    return getattr(w.mod("hftools.dataset.dim"), n)


@contract("C06", [DM + "DimBase.__init__", DM + "DimBase.data",
                  DM + "flatten"],
          cases=[dict(c=c) for c in CLASSES])
def construct_dimension(w, c):
    cls = cls_of(w, c)
    n = w.size("n")
    raw = w.raw("L", (n,), "f")
    d = cls("a", raw, unit="V", outputformat="%.2f")
    w.same_dim("constructed", d, cls, "a", raw, "V")
    w.true("output format", d.outputformat == "%.2f")
    w.true("full size", d.fullsize() == n)
    e = cls("b", raw)
    w.true("no unit by default", e.unit is None)
    w.true("default output format for real labels",
           e.outputformat == "%.16e")
    g = cls("c", n)
    w.true("length from an integer", w.size_of(g) == n)
    for i, in w.forall((n,)):
        w.eq("labels count from zero", w.at(g.data, (i,)), i)
    h = cls("d", 3)
    w.true("default output format for integer labels",
           h.outputformat == "%d")
    k = cls("e", [1.0, [2.0, (3.0, [4.0])], 5.0])
    w.true("nested labels are flattened", tuple(k.data) == (1, 2, 3, 4, 5))
    k = cls("e", [[], 1.0, [[], [2.0, ()]], [(), []]])
    w.true("empty parts", tuple(k.data) == (1, 2))
    m = cls("f", ["x", "y"])
    w.true("text labels", tuple(m.data) == ("x", "y"))
    w.true("default output format for text labels", m.outputformat == "%s")
    w.true("empty", cls("g", []).data.shape == (0,) and
           cls("g", []).outputformat == "%.16e")


@contract("C06", [DM + "DimBase.__init__", DM + "DimBase.data",
                  DM + "flatten"],
          cases=[dict(c=c, how=h) for c in ("DimSweep", "DimRep", "user")
                 for h in ("2d", "3d", "0d", "labelled", "list of columns",
                           "tuple", "dates", "text", "numbers", "range",
                           "generator", "complex", "bools")])
def labels_given_as(w, c, how):
    """The labels are the elements of what is given, in row-major order."""
    import datetime
    cls = cls_of(w, c)
    np = w.np
    if how in ("2d", "3d", "0d"):
        k = int(how[0])
        sizes = [w.size("n%d" % q) for q in range(k)]
        raw = w.raw("L", sizes, "f")
        d = cls("a", raw, unit="V")
        for idx in w.forall(sizes):
            w.eq("label", w.at(d.data, (w.flat(idx, sizes) if k else 0,)),
                 w.at(raw, idx))
        tot = 1
        for x in sizes:
            tot = tot * x
        w.true("number of labels", w.size_of(d) == tot)
        return
    if how == "labelled":
        dims = make_dims(w, "f")
        A, ra = mk(w, "A", "f", dims, "f", unit="V")
        d = cls("a", A)
        w.same_seq("labels", d.data, ra)
        w.true("the unit is that of the dimension", d.unit is None)
        return
    t = datetime.datetime(2014, 1, 2, 3, 4, 5, 123456)
    u = datetime.datetime(1999, 12, 31, 23, 59, 59, 999999)
    x = [w.real("x%d" % q) for q in range(4)]
    given, want, fmt = {
        "list of columns": ([[x[0], x[1]], [x[2], x[3]]], x, "%.16e"),
        "tuple": (((x[0],), x[1], [x[2], [x[3]]]), x, "%.16e"),
        "dates": ([t, u, t], [t, u, t], "%s"),
        "text": (["b", "a", "1.5"], ["b", "a", "1.5"], "%s"),
        "numbers": ([3, 1, 2], [3, 1, 2], "%d"),
        "range": (range(2, 9, 3), [2, 5, 8], "%d"),
        "generator": ((q for q in x), x, "%.16e"),
        "bools": ([True, False], [True, False], None),
        "complex": ([1 + 2j, 3j], [1 + 2j, 3j], "%.16e")}[how]
    if how == "dates" and w.symbolic:
        return
    d = cls("a", given, unit="V")
    w.true("number of labels", w.size_of(d) == len(want))
    for k, v in enumerate(want):
        got = d.data[k]
        if how == "dates":
            w.true("type", d.data.dtype == np.dtype("datetime64[us]"))
            got = got.astype(object)
            w.true("label", got == v)
        else:
            w.eq("label", got, v)
    if fmt:
        w.true("output format", d.outputformat == fmt)
    if how == "dates":
        e = cls(d)
        w.true("copied dates", list(e.data) == list(d.data))
        w.true("sliced dates", list(d[1:].data) == list(d.data[1:]))
        g = cls("a", np.array(given, "datetime64[s]"))
        w.true("coarse dates", list(g.data) ==
               list(np.array(given, "datetime64[s]")))


@contract("C06", [DM + "DimBase.__init__"],
          cases=[dict(a=a, b=b) for a in CLASSES for b in CLASSES])
def copy_construct(w, a, b):
    A, B = cls_of(w, a), cls_of(w, b)
    n = w.size("n")
    raw = w.raw("L", (n,), "f")
    d = A("a", raw, unit="V", outputformat="%.2f")
    e = B(d)
    w.same_dim("everything is taken over", e, B, "a", raw, "V")
    w.true("output format", e.outputformat == "%.2f")
    m = w.size("m")
    new = w.raw("M", (m,), "f")
    f = B(d, data=new)
    w.same_dim("labels overridden", f, B, "a", new, "V")
    w.true("output format", f.outputformat == "%.2f")
    w.same_dim("name overridden", B(d, name="z"), B, "z", raw, "V")
    w.same_dim("unit overridden", B(d, unit="Hz"), B, "a", raw, "Hz")
    w.same_dim("no unit", B(d, unit=""), B, "a", raw, "")
    w.true("counted labels", tuple(B(d, data=3).data) == (0, 1, 2) and
           B(d, data=3).unit == "V")
    w.true("no labels", B(d, data=[]).data.shape == (0,))
    w.same_dim("empty name", B(d, name=""), B, "", raw, "V")
    w.same_dim("all overridden", B(d, data=new, unit="Hz", name="z"), B, "z",
               new, "Hz")
    w.true("format overridden",
           B(d, outputformat="%d").outputformat == "%d")
    w.same_dim("the source is unchanged", d, A, "a", raw, "V")
    w.true("output format", d.outputformat == "%.2f")


@contract("C06", [DM + "DimBase.__getitem__"],
          cases=[dict(c=c, how=h) for c in CLASSES
                 for h in ("all", "a:b", "step", "rev", "-a:", ":-1", "b:a",
                           "mask", "order")])
def slice_dimension(w, c, how):
    cls = cls_of(w, c)
    n = w.size("n")
    raw = w.raw("L", (n,), "f")
    d = cls("a", raw, unit="V", outputformat="%.2f")
    if how == "all":
        e, m, off, st = d[:], n, 0, 1
    elif how == "a:b":
        lo = w.int("lo", 0, n)
        hi = w.int("hi", lo, n)
        w.assume(hi > lo)
        e, m, off, st = d[lo:hi], hi - lo, lo, 1
    elif how == "step":
        e, m, off, st = d[::2], (n + 1) // 2, 0, 2
    elif how == "-a:":
        lo = w.int("lo", 1, n)
        e, m, off, st = d[-lo:], lo, n - lo, 1
    elif how == ":-1":
        w.assume(n > 1)
        e, m, off, st = d[:-1], n - 1, 0, 1
    elif how == "b:a":
        hi = w.int("hi", 0, n - 1)
        lo = w.int("lo", 0, hi)
        w.assume(hi > lo)
        e, m, off, st = d[hi:lo:-1], hi - lo, hi, -1
    elif how == "mask":
        mask = w.raw("mask", (n,), "b")
        m = w.count(mask)
        w.assume(m >= 1)
        e = d[mask]
        off, st = None, None
    elif how == "order":
        i0, i1 = w.int("i0", 0, n - 1), w.int("i1", 0, n - 1)
        e, m, off, st = d[w.np.array([i1, i0])], 2, i1, i0 - i1
    else:
        e, m, off, st = d[::-1], n, n - 1, -1
    w.true("class", type(e) is cls)
    w.true("name", e.name == "a")
    w.true("unit", e.unit == "V")
    w.true("output format", e.outputformat == "%.2f")
    w.true("length", w.size_of(e) == m)
    for i, in w.forall((m,)):
        w.eq("label", w.at(e.data, (i,)), w.at(raw, (
            w.select(mask, i) if off is None else off + st * i,)))
    w.same_dim("the source is unchanged", d, cls, "a", raw, "V")
    with w.raises("no integer index", IndexError):
        d[0]


@contract("C06", [DM + "DimBase.data"], cases=[dict(c=c) for c in
                                               CLASSES])
def labels_are_immutable(w, c):
    cls = cls_of(w, c)
    n = w.size("n")
    raw = w.raw("L", (n,), "f")
    first = w.at(raw, (0,))
    d = cls("a", raw)
    raw[0] = 77.0
    w.eq("not tied to the array given", w.at(d.data, (0,)), first)
    x = d.data
    x[0] = 78.0
    w.eq("not tied to the array returned", w.at(d.data, (0,)), first)
    w.true("copy", d.copy() == d)


FIELDS = ["name", "unit", "labels", "class", "length", "same", "fmt"]


@contract("C06", [DM + "DimBase.__eq__", DM + "DimBase.__hash__"],
          cases=[dict(diff=f, c=c) for f in FIELDS for c in CLASSES],
          prove=False, runs=12)
def equality_is_by_value(w, diff, c):
    """class, name, labels and unit decide equality; equal dimensions have
    equal hashes."""
    cls = cls_of(w, c)
    n = w.size("n", lo=2)
    raw = w.labels("L", n)
    kw = dict(unit="V", outputformat="%.2f")
    a = cls("a", raw, **kw)
    name, lab, k2 = "a", raw.copy(), cls
    if diff == "name":
        name = w.choice("other", ["b", "A", "a ", "aa"])
    elif diff == "unit":
        kw["unit"] = w.choice("u", ["A", None, "v"])
    elif diff == "labels":
        k = w.int("k", 0, n - 1)
        lab = list(lab)
        lab[k] = "other" if isinstance(lab[k], str) else lab[k] + 1
    elif diff == "length":
        lab = lab[:-1]
    elif diff == "class":
        k2 = cls_of(w, w.choice("c", [x for x in CLASSES if x != c]))
    elif diff == "fmt":
        kw["outputformat"] = w.choice("f", ["%.3f", None])
    b = k2(name, lab, **kw)
    if diff == "same":
        for x, y in (([1, 2], [1., 2.]), ([0], [-0.]), ([1, 0], [True, 0]),
                     ([3.], [3 + 0j])):
            p, q = cls("a", x), cls("a", y)
            if p == q:
                w.true("equal labels of different kinds hash alike",
                       hash(p) == hash(q) and {p: 1}.get(q) == 1)
    if diff in ("same", "fmt"):
        if a == b:
            w.true("equal dimensions hash alike", hash(a) == hash(b))
        if diff == "same":
            w.true("equal", a == b)
            w.true("symmetric", b == a)
            w.true("not unequal", not (a != b))
            w.true("usable as key", {a: 1}.get(b) == 1)
    else:
        w.true("different", not (a == b))
        w.true("unequal", a != b)
        w.true("symmetric", not (b == a))
    w.true("equal to its name", a == "a")
    w.true("not equal to another name", not (a == "q"))


@contract("C06", [DM + "DimBase.__lt__"],
          cases=[dict(k=k) for k in range(3)], prove=False)
def sort_order(w, k):
    """sweeps before repetitions before rows before columns, then by name."""
    m = w.mod("hftools.dataset.dim")
    pool = [m.DimSweep("b", 2), m.DimSweep("a", 3), m.DimRep("a", 2),
            m.DimRep("c", 1), m.DimMatrix_i("a", 2), m.DimMatrix_j("a", 2),
            m.ComplexIndepAxis("cplx", 2), m.ComplexDerivAxis("cplx", 2)]
    want = [pool[1], pool[0]] + pool[2:]
    mix = list(pool)
    w.rng.shuffle(mix)
    w.true("order", [x is y for x, y in zip(sorted(mix), want)] ==
           [True] * len(want))


@contract("C06", [DM + "_DiagAxis.indep_axis", DM + "_DiagAxis.deriv_axis",
                  DM + "_IndepAxis.diag_axis", DM + "_DerivAxis.diag_axis",
                  DM + "_DiagMeta.__init__"],
          cases=[dict(c=c) for c in ["DiagAxis", "DimSweep", "DimRep",
                                     "DimMatrix_i", "DimMatrix_j",
                                     "ComplexDiagAxis"]])
def derived_axes(w, c):
    m = w.mod("hftools.dataset.dim")
    cls = cls_of(w, c)
    n = w.size("n")
    raw = w.raw("L", (n,), "f")
    d = cls("a", raw, unit="V")
    ci, cd, back = {
        "ComplexDiagAxis": (m.ComplexIndepAxis, m.ComplexDerivAxis,
                            m.ComplexDiagAxis),
        "DimMatrix_i": (m.DimMatrix_Indep_i, m.DimMatrix_Deriv_i, None),
        "DimMatrix_j": (m.DimMatrix_Indep_j, m.DimMatrix_Deriv_j, None),
    }.get(c, (m.IndepAxis, m.DerivAxis, m.DiagAxis))
    i, e = d.indep_axis, d.deriv_axis
    w.same_dim("independent axis", i, ci, "a", raw, "V")
    w.same_dim("derivative axis", e, cd, "a", raw, "V")
    if back:
        w.same_dim("back from independent", i.diag_axis, back, "a", raw, "V")
        w.same_dim("back from derivative", e.diag_axis, back, "a", raw, "V")
        w.same_dim("partner", i.deriv_axis, cd, "a", raw, "V")
        w.same_dim("partner", e.indep_axis, ci, "a", raw, "V")


@contract("C06", [AR + "expand_diagonals", AR + "_expand_diagonal",
                  AR + "diagonal_view", AR + "as_strided"],
          cases=[dict(d=d) for d in ("d", "df", "fd", "fdr", "de", "ed", "rfd",
                                    "dfe", "frd", "f")])
def expand_diagonals(w, d):
    mod = w.mod("hftools.dataset.arrayobj")
    m = w.mod("hftools.dataset.dim")
    dims = {}
    for c in d:
        n = w.size("n" + c)
        raw = w.raw("lab_" + c, (n,), "f")
        # a repetition/sweep is a diagonal axis too
        dims[c] = (m.ComplexIndepAxis if c in "fr" else m.DiagAxis)(
            "dim" + c, raw)
    A, ra = mk(w, "A", d, dims, "f")
    R = mod.expand_diagonals(A)
    out = []
    for c in d:
        out += [(c, 0), (c, 1)] if c in "de" else [(c, 0)]
    w.true("rank", R.ndim == len(out) == len(R.dims))
    for q, (c, k) in enumerate(out):
        want = dims[c] if c not in "de" else \
            (dims[c].indep_axis, dims[c].deriv_axis)[k]
        w.same_dim("axis", R.dims[q], type(want), want.name, want.data,
                   want.unit)
        w.true("length", R.shape[q] == w.size_of(dims[c]))
    for idx in w.forall([w.size_of(dims[c]) for c, k in out]):
        diag = True
        src = {}
        for (c, k), i in zip(out, idx):
            if k == 1:
                diag = w.both(diag, i == src[c])
            else:
                src[c] = i
        v = w.at(R, idx)
        w.eq_if("on the diagonal", diag, v, w.at(ra, [src[c] for c in d]))
        w.eq_if("off the diagonal", w.neg(diag), v, 0)


def np_scalar(w, kind):
    return w.raw("plain", (), kind)


@contract("C06", [AR + "_expand_diagonal"])
def expand_refused(w):
    """Only diagonal axes of the array can be expanded."""
    mod = w.mod("hftools.dataset.arrayobj")
    m = w.mod("hftools.dataset.dim")
    dims = make_dims(w, "f")
    d = m.DiagAxis("d", 3)
    A, ra = mk(w, "A", "f", dims, "f")
    with w.raises("axis of another array", Exception):
        mod.expand_diagonals(A, [d])
    with w.raises("not a diagonal axis", Exception):
        mod.expand_diagonals(A, [m.IndepAxis("dimf", 3)])


@contract("C06", [AR + "ismatrix"],
          cases=[dict(d=d) for d in ("", "f", "i", "j", "fi", "fj", "ij",
                                     "ji", "fij", "ifj", "frij")])
def is_a_matrix(w, d):
    mod = w.mod("hftools.dataset.arrayobj")
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "f")
    w.true("matrix", mod.ismatrix(A) == ("i" in d and "j" in d))
    w.true("plain arrays are none", not mod.ismatrix(ra))


@contract("C06", [AR + "make_fullcomplex_array", AR + "isfullcomplex",
                  DM + "dims_has_complex"],
          cases=[dict(d=d, kind=k) for d in ("", "f", "fr", "fgr", "xij")
                 for k in ("c", "f", "i")])
def full_complex_form(w, d, kind):
    mod = w.mod("hftools.dataset.arrayobj")
    m = w.mod("hftools.dataset.dim")
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, kind)
    R = mod.make_fullcomplex_array(A)
    w.true("recognised", mod.isfullcomplex(R))
    w.true("not before", not mod.isfullcomplex(A))
    w.true("rank", R.ndim == len(d) + 2 == len(R.dims))
    w.true("complex axes", [type(x) for x in R.dims[-2:]] ==
           [m.ComplexIndepAxis, m.ComplexDerivAxis])
    for idx in w.forall([w.size_of(dims[c]) for c in d]):
        x = w.at(ra, idx)
        w.eq("re", w.at(R, tuple(idx) + (0, 0)), w.re(x))
        w.eq("-im", w.at(R, tuple(idx) + (0, 1)), -w.im(x))
        w.eq("im", w.at(R, tuple(idx) + (1, 0)), w.im(x))
        # a real quantity has no derivative with respect to the imaginary
        # part
        w.eq("re", w.at(R, tuple(idx) + (1, 1)),
             w.re(x) if kind == "c" else 0)
    w.true("complex axis lengths", R.shape[-2:] == (2, 2))
    P = mod.make_fullcomplex_array(np_scalar(w, kind))
    w.true("plain numbers", [type(x) for x in P.dims] ==
           [m.ComplexIndepAxis, m.ComplexDerivAxis] and
           isinstance(P, w.ds.hfarray))
    w.true("plain numbers are not", not mod.isfullcomplex(
        np_scalar(w, kind)))
    S = mod.make_fullcomplex_array(R)
    w.true("idempotent", S.ndim == R.ndim)


@contract("C06", [AR + "Dims.__contains__", AR + "Dims.get_matching_dim",
                  AR + "Dims.matching_index", AR + "_hfarray.dims_index"],
          cases=[dict(d=d) for d in ("fr", "fgr", "rfij", "xpr", "sgrf", "f",
                                    "ijar")])
def lookup_by_name_and_class(w, d):
    mod = w.mod("hftools.dataset.arrayobj")
    m = w.mod("hftools.dataset.dim")
    dims = make_dims(w, d)
    other = make_dims(w, d, "_other")
    A, ra = mk(w, "A", d, dims, "f")
    D = A.dims
    for k, c in enumerate(d):
        w.true("found by name", ("dim" + c) in D)
        w.true("found by same class and name", other[c] in D)
        w.true("matching index", D.matching_index(other[c]) == k)
        w.true("matching dim", D.get_matching_dim(other[c]) is dims[c])
        w.true("index by name", A.dims_index("dim" + c) == k)
        w.true("index by name and class",
               A.dims_index("dim" + c, type(dims[c])) == k)
        stranger = m.ComplexDiagAxis("dim" + c, 3)
        w.true("another class is not found", stranger not in D)
        with w.raises("index by another class", IndexError):
            A.dims_index("dim" + c, m.ComplexDiagAxis)
        with w.raises("no match", KeyError):
            D.get_matching_dim(stranger)
        with w.raises("no match", KeyError):
            D.matching_index(stranger)
    w.true("unknown name", "nosuch" not in D)
    w.true("numbers are never members", 1 not in D)
    with w.raises("unknown name", IndexError):
        A.dims_index("nosuch")
