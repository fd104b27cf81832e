"""Labelled arrays: construction, alignment, indexing, rearranging,
reductions."""
import itertools
import operator

from engine.contract import contract
from contracts import common
from contracts.common import (make_dim, union, mk, full, untouched,
                              ordered_subsets, spread, dim_class)


def make_dims(w, letters):
    return common.make_dims(w, letters, labels="any")


AR = "dataset.arrayobj:"

# ------------------------------------------------------------ construction


@contract("C01", [AR + "_hfarray.__new__", AR + "hfarray.__new__",
                  AR + "_hfarray.verify_dimension",
                  AR + "_hfarray.__array_finalize__"],
          cases=[dict(d=d, kind=k) for d in ("", "f", "fr", "rfg", "fij",
                                             "frij", "fgrs", "pf", "xr",
                                             "jif", "frsij", "a", "fq")
                 for k in "fcib"])
def construct_with_dims(w, d, kind):
    ds = w.ds
    dims = make_dims(w, d)
    dl = [dims[c] for c in d]
    raw = w.raw("A", [w.size_of(x) for x in dl], kind)
    A = ds.hfarray(raw, dims=tuple(dl), unit="V", outputformat="%.3f")
    full(w, "constructed", A, dl, lambda *i: w.at(raw, i), "V")
    w.true("output format as given", A.outputformat == "%.3f")
    P = ds.hfarray(raw, dims=tuple(dl))
    w.true("no unit by default", P.unit is None)
    w.true("default output format", P.outputformat ==
           {"i": "%d", "b": "%s"}.get(kind, "%.16e"))
    w.true("number of axes", A.ndim == len(d) == len(A.dims))
    # a copy unless copy=False
    if d and kind != "b":
        z = (0,) * len(d)
        old = w.at(raw, z)
        A[z] = 17
        w.eq("source not modified through the copy", w.at(raw, z), old)
        w.eq("assignment visible", w.at(A, z), 17)
        S = ds.hfarray(raw, dims=tuple(dl), copy=False)
        S[z] = 19
        w.eq("copy=False shares the data", w.at(raw, z), 19)


def stored(w, name, d, how, kind="c", **kw):
    """A labelled array, also one that is not stored contiguously."""
    if how == "reversed":
        rev = d[::-1]
        dims = make_dims(w, d)
        A, ra = mk(w, name, rev, dims, kind, **kw)
        A = A.T
        return A, lambda *i: w.at(ra, i[::-1]), [dims[c] for c in d], ra
    if how == "stepped":
        ds = w.ds
        dims = make_dims(w, d)
        c = d[0]
        n = w.size_of(dims[c])
        big = dim_class(w, c)("dim" + c, w.raw("big", (2 * n,), "f"),
                              unit="U" + c)
        shape = [2 * n] + [w.size_of(dims[x]) for x in d[1:]]
        ra = w.raw(name, shape, kind)
        A = ds.hfarray(ra, dims=tuple([big] + [dims[x] for x in d[1:]]),
                       **kw)[::2]
        return A, lambda *i: w.at(ra, (2 * i[0],) + i[1:]), \
            [A.dims[0]] + [dims[x] for x in d[1:]], ra
    dims = make_dims(w, d)
    A, ra = mk(w, name, d, dims, kind, **kw)
    return A, lambda *i: w.at(ra, i), [dims[c] for c in d], ra


@contract("C01", [AR + "_hfarray.__new__", AR + "_hfarray.copy",
                  AR + "_hfarray.view"],
          cases=[dict(d=d, how=h, lay=l)
                 for d in ("", "f", "fr", "fij", "fgrs", "xrp", "qf")
                 for h in ("hfarray", "copy", "view", "shared")
                 for l in ("plain", "reversed", "stepped")
                 if d or l == "plain"])
def inherits_metadata(w, d, how, lay):
    ds = w.ds
    A, val, dl, ra = stored(w, "A", d, lay, unit="S", outputformat="%.7e")
    z = (0,) * len(d)
    first = val(*z)
    B = {"hfarray": lambda: ds.hfarray(A), "copy": A.copy,
         "shared": lambda: ds.hfarray(A, copy=False), "view": A.view}[how]()
    full(w, how, B, dl, val, "S")
    w.true("output format inherited", B.outputformat == "%.7e")
    if how == "hfarray":
        C = ds.hfarray(A, unit="V", outputformat="%.2e")
        w.true("explicit unit wins", C.unit == "V")
        w.true("explicit output format wins", C.outputformat == "%.2e")
        full(w, "explicit", C, dl, val)
        w.true("explicitly no unit", w.ds.hfarray(A, unit="").unit == "")
        w.true("source unit kept", A.unit == "S")
        w.true("source format kept", A.outputformat == "%.7e")
        new = [ds.DimSweep("n%d" % k, w.labels("lab%d" % k, w.size_of(x)))
               for k, x in enumerate(dl)]
        full(w, "other dimensions", ds.hfarray(A, dims=tuple(new)), new, val,
             "S")
        w.true("output format with other dimensions",
               ds.hfarray(A, dims=tuple(new)).outputformat == "%.7e")
        C = ds.hfarray(A, dtype=complex)
        full(w, "of a type", C, dl, val, "S")
    B[z] = 5
    w.eq("assignment visible", w.at(B, z), 5)
    if how in ("view", "shared"):
        w.eq("view shares the data", w.at(A, z), 5)
    else:
        w.eq("copy does not share the data", w.at(A, z), first)
    if not d:
        B = ds.hfarray(A)
    B.unit = "Q"
    B.outputformat = "%d"
    w.true("unit is not shared", A.unit == "S")
    w.true("output format is not shared", A.outputformat == "%.7e")


@contract("C01", [AR + "_hfarray.__new__"],
          cases=[dict(nd=n, nl=m) for n in range(4) for m in range(5)
                 if n != m])
def rank_mismatch_rejected(w, nd, nl):
    ds = w.ds
    exc = w.mod("hftools.core.exceptions").HFArrayShapeDimsMismatchError
    sizes = [w.size("n%d" % k) for k in range(nd)]
    raw = w.raw("A", sizes, "f")
    dims = tuple(ds.DimSweep("d%d" % k, [0.0, 1.0]) for k in range(nl))
    with w.raises("dims and axes differ in number", exc):
        ds.hfarray(raw, dims=dims)


@contract("C01", [AR + "_hfarray.__new__"],
          cases=[dict(n=n) for n in range(5)])
def default_dims(w, n):
    ds = w.ds
    sizes = [w.size("n%d" % k) for k in range(n)]
    raw = w.raw("A", sizes, "f")
    if n > 2:
        exc = w.mod("hftools.core.exceptions").DimensionMismatchError
        with w.raises("dims needed", exc):
            ds.hfarray(raw)
        return
    A = ds.hfarray(raw)
    w.true("rank", len(A.dims) == n)
    for k, (d, c, nm) in enumerate(zip(A.dims, (ds.DimSweep, ds.DimRep),
                                       ("freq", "rep"))):
        w.true("class", type(d) is c)
        w.true("name", d.name == nm)
        w.true("length", w.size_of(d) == sizes[k])
        for i, in w.forall((sizes[k],)):
            w.eq("labels count from zero", w.at(d.data, (i,)), i)
    for idx in w.forall(sizes):
        w.eq("values", w.at(A, idx), w.at(raw, idx))


@contract("C01", [AR + "hfarray.__new__", "dataset.dim:DimBase.__hfarray__"],
          cases=[dict(c=c) for c in "fripxaj"])
def from_dimension(w, c):
    ds = w.ds
    d = make_dim(w, c, outputformat="%.5f", labels="any")
    A = ds.hfarray(d)
    full(w, "array of a dimension", A, [d],
         lambda i: w.at(d.data, (i,)), "U" + c)
    w.true("output format of the dimension", A.outputformat == "%.5f")
    B = ds.hfarray(d, unit="X", outputformat="%d")
    w.true("explicit unit wins", B.unit == "X")
    w.true("explicit output format wins", B.outputformat == "%d")
    E = ds.hfarray(type(d)("none", []))
    w.true("no labels", E.shape == (0,) and E.dims[0].name == "none" and
           E.outputformat == "%.16e")


# ------------------------------------------------------------ alignment

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul,
       "/": operator.truediv}

PAIRS = [("", "f"), ("f", ""), ("f", "f"), ("f", "r"), ("r", "f"),
         ("fr", "rf"), ("f", "g"), ("g", "f"), ("fg", "r"), ("fr", "gr"),
         ("rf", "g"), ("fij", "f"), ("f", "ij"), ("ij", "fr"), ("ij", "ij"),
         ("rfij", "fij"), ("frs", "sf"), ("srf", "rg"), ("fg", "gf"),
         ("ijf", "f"), ("fi", "jf"), ("qf", "f"), ("f", "q"), ("fq", "qf"),
         ("gq", "fg"), ("p", "x"), ("xp", "px"), ("fxr", "rp"), ("ra", "af"),
         ("srgf", "fh"), ("jisf", "gf"), ("rfghs", "hgf"), ("jfri", "irjg"),
         ("sgrf", "frgs")]
SUBS = ordered_subsets("fgxrsij", 3)
FOUR = spread([t for t in ordered_subsets("fgrsij", 4) if len(t) == 4], 24)
PAIRS2 = [(a, b) for k, a in enumerate(spread(SUBS + FOUR, 60))
          for b in spread((SUBS + FOUR)[k % 7:], 6)]
PAIRS3 = [(a, b) for k, a in enumerate(SUBS + FOUR)
          for b in spread((SUBS + FOUR)[k % 11:], 10)]


@contract("C02", [AR + "check_instance", AR + "dims_union",
                  AR + "change_shape", AR + "make_same_dims"],
          cases=[dict(a=a, b=b, op=op) for k, (a, b) in enumerate(PAIRS)
                 for op in (["+", "*"] if k % 2 else ["-", "/"])] +
          [dict(a=a, b=b, op="+-*/"[k % 4], runs=2)
           for k, (a, b) in enumerate(PAIRS2)],
          thorough=[dict(a=a, b=b, op=op) for a, b in PAIRS for op in OPS] +
          [dict(a=a, b=b, op="+-*/"[k % 4], runs=2)
           for k, (a, b) in enumerate(PAIRS3)])
def binary_operator_aligns(w, a, b, op, runs=6):
    dims = make_dims(w, a + b)
    A, ra = mk(w, "A", a, dims, "c")
    B, rb = mk(w, "B", b, dims, "c")
    if op == "/" and not w.symbolic:
        w.assume(bool((abs(rb) > 1e-3).all()))
    R = OPS[op](A, B)
    u = union(a, b)
    at = lambda x, l, e: w.at(x, [e[c] for c in l])

    def f(*idx):
        e = dict(zip(u, idx))
        return OPS[op](at(ra, a, e), at(rb, b, e))
    full(w, "result", R, [dims[c] for c in u], f)
    untouched(w, "left operand unchanged", A, ra, [dims[c] for c in a])
    untouched(w, "right operand unchanged", B, rb, [dims[c] for c in b])


@contract("C02", [AR + "check_instance", AR + "_hfarray.__radd__",
                  AR + "_hfarray.__rsub__", AR + "_hfarray.__rmul__",
                  AR + "_hfarray.__rtruediv__", AR + "_hfarray.__pow__",
                  AR + "_hfarray.__neg__", AR + "_hfarray.__abs__"],
          cases=[dict(d=d, op=op, refl=r) for d in ("", "f", "fr", "rfij",
                                                    "xp", "sgrf")
                 for op in "+-*/" for r in (False, True)] +
                [dict(d=d, op=o, refl=False) for d in ("fr", "", "rfij")
                 for o in ("neg", "abs", "pow2", "pow3", "2pow")])
def operator_with_number(w, d, op, refl):
    dims = make_dims(w, d)
    dl = [dims[c] for c in d]
    A, ra = mk(w, "A", d, dims, "p" if op == "2pow" else "c", unit="V")
    c = w.choice("number", [3, -2, 0.5, 1] + ([0] if op != "/" or refl
                                              else []) + [2j])
    if not w.symbolic:
        c = w.choice("type", [type(c), type(c), w.np.complex128] + (
            [w.np.float64] if c != 2j else []))(c)
    if not w.symbolic and op == "/":
        w.assume(bool((abs(ra) > 1e-3).all()))
    if op == "neg":
        R, f = -A, lambda x: -x
    elif op == "abs":
        R, f = abs(A), lambda x: w.absv(x)
    elif op == "pow2":
        R, f = A ** 2, lambda x: x * x
    elif op == "pow3":
        R, f = A ** 3, lambda x: x * x * x
    elif op == "2pow":
        R, f = 2.0 ** A, lambda x: w.pow(w.num(2.0), x)
    elif refl:
        R, f = OPS[op](c, A), lambda x: OPS[op](c, x)
    else:
        R, f = OPS[op](A, c), lambda x: OPS[op](x, c)
    full(w, "result", R, dl, lambda *i: f(w.at(ra, i)))
    untouched(w, "operand unchanged", A, ra, dl)


@contract("C02", [AR + "_hfarray.__and__", AR + "_hfarray.__or__",
                  AR + "_hfarray.__xor__"],
          cases=[dict(a=a, b=b, op=o) for a, b in
                 [("f", "f"), ("f", "r"), ("rf", "f"), ("g", "f"),
                  ("", "f"), ("fr", "rf"), ("fq", "qf"), ("rfg", "gsf"),
                  ("xp", "px"), ("jfri", "ir")]
                 for o in "&|^"])
def logic_aligns(w, a, b, op):
    fn = {"&": operator.and_, "|": operator.or_, "^": operator.xor}[op]
    dims = make_dims(w, a + b)
    A, ra = mk(w, "A", a, dims, "b")
    B, rb = mk(w, "B", b, dims, "b")
    R = fn(A, B)
    u = union(a, b)
    w.dims_are("result", R, [dims[c] for c in u])
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        x = w.at(ra, [e[c] for c in a])
        y = w.at(rb, [e[c] for c in b])
        w.true("element", w.iff(w.at(R, idx), fn(x, y)))


@contract("C02", [AR + "_hfarray.__eq__"],
          cases=[dict(a=a, b=b) for a, b in
                 [("f", "f"), ("f", "r"), ("rf", "f"), ("g", "f"),
                  ("fr", "rf"), ("", "f"), ("fq", "qf"), ("rfg", "gsf"),
                  ("xp", "px"), ("jfri", "ir")]])
def equality_aligns(w, a, b):
    dims = make_dims(w, a + b)
    A, ra = mk(w, "A", a, dims, "i")
    B, rb = mk(w, "B", b, dims, "i")
    R = A == B
    u = union(a, b)
    w.dims_are("result", R, [dims[c] for c in u])
    for idx in w.forall([w.size_of(dims[c]) for c in u]):
        e = dict(zip(u, idx))
        w.true("element", w.iff(w.at(R, idx),
                                w.at(ra, [e[c] for c in a]) ==
                                w.at(rb, [e[c] for c in b])))


@contract("C02", [AR + "make_same_dims_list", AR + "change_shape"],
          cases=[dict(a="f", b="r", c="g"), dict(a="fij", b="f", c="r"),
                 dict(a="", b="rf", c="fg")])
def three_operands(w, a, b, c):
    """Association does not matter for which axes meet."""
    dims = make_dims(w, a + b + c)
    A, ra = mk(w, "A", a, dims, "c")
    B, rb = mk(w, "B", b, dims, "c")
    C, rc = mk(w, "C", c, dims, "c")
    R = A * B + C
    u = union(union(a, b), c)

    def f(*idx):
        e = dict(zip(u, idx))
        at = lambda x, l: w.at(x, [e[k] for k in l])
        return at(ra, a) * at(rb, b) + at(rc, c)
    full(w, "A*B+C", R, [dims[k] for k in u], f)


# ------------------------------------------------------------ indexing

IDX = [
    ("f", ":"), ("f", "a:b"), ("f", "k"), ("f", "..."), ("f", "::2"),
    ("f", "::-1"), ("f", ":-1"), ("f", "-1"), ("f", "1:"),
    ("fr", "k"), ("fr", ":,k"), ("fr", "a:b,k"), ("fr", "k,a:b"),
    ("fr", "...,k"), ("fr", "k,..."), ("fr", "a:b,..."), ("fr", "k,k"),
    ("fr", "...,a:b"), ("fr", "-1,:"),
    ("fgr", ":,k"), ("fgr", "...,k"), ("fgr", "k,...,k"),
    ("fgr", "a:b,::2"), ("fgr", "k,...,a:b"), ("fgr", "a:b"),
    ("fgr", "...,a:b,k"), ("fgr", "k,a:b,k"),
    ("fij", "...,0,0"), ("fij", ":,0,0"), ("fij", "...,0,:"),
    ("fij", "a:b,0,0"), ("rfij", "...,0,0"), ("rfij", "k,...,0,0"),
    ("", "..."), ("f", "b:a:-1"), ("f", "-a:"), ("f", "::-2"), ("f", "::3"),
    ("f", ":-a"), ("f", "a:b:2"), ("x", "a:b"), ("p", "::-1"), ("q", "-a:"),
    ("f", "-k"), ("fq", ":,a:b"), ("qf", "a:b,:"), ("f", "...,k"),
    ("f", "k,..."), ("fr", "k,...,k"), ("fr", "a:b,...,k"),
    ("fr", ":,...,::2"), ("f", "...,a:b"),
]
KINDS = [":", "a:b", "k", "-1", "::2", "::-1", "b:a:-1", "-a:", ":-a", "0"]
IDX2 = [("gr", ",".join(t)) for t in itertools.product(KINDS, repeat=2)] + \
    spread([("fgr", ",".join(t)) for t in
            itertools.product(KINDS, repeat=3)], 60) + \
    spread([("rfij", ",".join(t)) for t in
            itertools.product(KINDS, repeat=4)], 40) + \
    [("fgrs", ",".join(t)) for n in (1, 2, 3) for t in spread(
        [u[:q] + ("...",) + u[q:] for u in itertools.product(KINDS, repeat=n)
         for q in range(n + 1)], 25)]
IDX3 = spread([("fgr", ",".join(t)) for t in
               itertools.product(KINDS, repeat=3)], 500)


@contract("C03", [AR + "_hfarray.__getitem__"])
def two_ellipses(w):
    dims = make_dims(w, "fgr")
    A, ra = mk(w, "A", "fgr", dims, "f")
    with w.raises("more than one ellipsis", IndexError):
        A[..., 0, ...]
    with w.raises("too many indices", IndexError):
        A[0, 0, 0, 0]


@contract("C03", [AR + "_hfarray.__getitem__",
                  "dataset.dim:DimBase.__getitem__"],
          cases=[dict(d=d, ix=ix) for d, ix in IDX] +
                [dict(d=d, ix=ix, runs=2) for d, ix in IDX2],
          thorough=[dict(d=d, ix=ix) for d, ix in IDX2 + IDX3])
def basic_indexing(w, d, ix, runs=6):
    dims = make_dims(w, d)
    dl = [dims[c] for c in d]
    A, ra = mk(w, "A", d, dims, "c", unit="V", outputformat="%.4e")
    parts = ix.split(",")
    n = len([p for p in parts if p != "..."])
    lay = []
    for p in parts:
        if p == "...":
            lay += [":"] * (len(d) - n)
        else:
            lay.append(p)
    lay += [":"] * (len(d) - len(lay))
    key, out, k = [], [], 0
    srcs = []                     # per source axis: fn(result idx) -> index
    newdims = []
    for ax, p in enumerate(lay):
        N = w.size_of(dl[ax])
        if p == ":":
            key_p = slice(None)
            m, off, st = N, 0, 1
        elif p == "a:b":
            lo = w.int("lo%d" % ax, 0, N)
            hi = w.int("hi%d" % ax, lo, N)
            key_p = slice(lo, hi)
            m, off, st = hi - lo, lo, 1
        elif p == "a:b:2":
            lo = w.int("lo%d" % ax, 0, N)
            hi = w.int("hi%d" % ax, lo, N)
            key_p = slice(lo, hi, 2)
            m, off, st = (hi - lo + 1) // 2, lo, 2
        elif p == "b:a:-1":
            hi = w.int("hi%d" % ax, 0, N - 1)
            lo = w.int("lo%d" % ax, 0, hi)
            key_p = slice(hi, lo, -1)
            m, off, st = hi - lo, hi, -1
        elif p == "-a:":
            lo = w.int("lo%d" % ax, 1, N)
            key_p = slice(-lo, None)
            m, off, st = lo, N - lo, 1
        elif p == ":-a":
            lo = w.int("lo%d" % ax, 1, N)
            key_p = slice(None, -lo)
            m, off, st = N - lo, 0, 1
        elif p == "::3":
            key_p = slice(None, None, 3)
            m, off, st = (N + 2) // 3, 0, 3
        elif p == "::-2":
            key_p = slice(None, None, -2)
            m, off, st = (N + 1) // 2, N - 1, -2
        elif p == "1:":
            key_p = slice(1, None)
            m, off, st = N - 1, 1, 1
        elif p == ":-1":
            key_p = slice(None, -1)
            m, off, st = N - 1, 0, 1
        elif p == "::2":
            key_p = slice(None, None, 2)
            m, off, st = (N + 1) // 2, 0, 2
        elif p == "::-1":
            key_p = slice(None, None, -1)
            m, off, st = N, N - 1, -1
        else:
            if p == "k":
                v = w.int("k%d" % ax, 0, N - 1)
                key_p, off = v, v
            elif p == "-k":
                v = w.int("k%d" % ax, 1, N)
                key_p, off = -v, N - v
            elif p == "-1":
                key_p, off = -1, N - 1
            else:
                key_p = off = int(p)
            srcs.append((None, off, 0))
            key.append(key_p)
            continue
        srcs.append((len(newdims), off, st))
        newdims.append((dl[ax], key_p, m, off, st))
        key.append(key_p)
    # the key as the user writes it
    if "..." in parts:
        e = parts.index("...")
        tail = len(parts) - e - 1
        user = tuple(key[:e]) + (Ellipsis,) + \
            (tuple(key[len(key) - tail:]) if tail else ())
    else:
        user = tuple(key[:len(parts)])
    if len(user) == 1:
        user = user[0]
    if not w.symbolic:
        wrap = lambda k: slice(*[x if x is None else w.numpy_int(x) for x in (
            k.start, k.stop, k.step)]) if isinstance(k, slice) else \
            k if k is Ellipsis else w.numpy_int(k)
        user = tuple(wrap(k) for k in user) if isinstance(user, tuple) else \
            wrap(user)
    R = A[user]
    exp = lambda *i: w.at(ra, [off if pos is None else off + st * i[pos]
                               for pos, off, st in srcs])
    if not newdims:
        w.eq("selected element", w.at(R, ()), exp())
        return
    w.true("number of axes", R.ndim == len(newdims) == len(R.dims))
    for q, (dim, kp, m, off, st) in enumerate(newdims):
        nd = R.dims[q]
        w.true("class of axis", type(nd) is type(dim))
        w.true("name of axis", nd.name == dim.name)
        w.true("unit of axis", nd.unit == dim.unit)
        w.true("length of axis", R.shape[q] == m)
        w.true("number of labels", w.size_of(nd) == m)
        for i, in w.forall((m,)):
            w.eq("label of the selected position", w.at(nd.data, (i,)),
                 w.at(dim.data, (off + st * i,)))
    for idx in w.forall([x[2] for x in newdims]):
        w.eq("selected element", w.at(R, idx), exp(*idx))
    w.true("unit kept", R.unit == "V")
    w.true("output format kept", R.outputformat == "%.4e")
    untouched(w, "source unchanged", A, ra, dl)


@contract("C03", [AR + "_hfarray.__getitem__"],
          cases=[dict(d="f", m="f"), dict(d="fr", m="f"),
                 dict(d="fr", m="r"), dict(d="fgr", m="g"),
                 dict(d="rfij", m="f"), dict(d="fij", m="f")] +
                [dict(d=d, m=c) for d in ("sgrf", "xpr", "ijf", "frs", "x")
                 for c in d])
def mask_indexing(w, d, m):
    ds = w.ds
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c", unit="V", outputformat="%.4e")
    M, rm = mk(w, "M", m, dims, "b")
    R = A[M]
    order = [c for c in d]
    ax = order.index(m)
    n = w.count(rm)
    w.true("rank", R.ndim == len(d) == len(R.dims))
    for q, c in enumerate(order):
        nd, dim = R.dims[q], dims[c]
        w.true("class of axis", type(nd) is type(dim))
        w.true("name of axis", nd.name == dim.name)
        w.true("unit of axis", nd.unit == dim.unit)
        if c != m:
            w.same_seq("labels of other axes", nd.data, dim.data)
        else:
            w.true("one label per selected position", w.size_of(nd) == n)
            w.true("one entry per selected position", R.shape[q] == n)
            for i, in w.forall((n,)):
                w.eq("labels are the selected labels", w.at(nd.data, (i,)),
                     w.at(dim.data, (w.select(rm, i),)))
    sizes = [n if c == m else w.size_of(dims[c]) for c in order]
    for idx in w.forall(sizes):
        src = list(idx)
        src[ax] = w.select(rm, idx[ax])
        w.eq("entries are the selected entries", w.at(R, idx),
             w.at(ra, src))
    w.true("unit kept", R.unit == "V")
    w.true("output format kept", R.outputformat == "%.4e")
    untouched(w, "source unchanged", A, ra, [dims[c] for c in d])


@contract("C03", [AR + "_hfarray.__getitem__",
                  "dataset.dim:DimBase.__getitem__"],
          cases=[dict(d=d, ax=k, how=h)
                 for d in ("f", "r", "fr", "rf", "xgr", "sfr", "fij", "pr",
                           "frsg")
                 for k in range(len(d))
                 for h in ("array", "list", "tuple", "dots")
                 if h != "dots" or k == len(d) - 1])
def array_indexing(w, d, ax, how):
    """Positions along one axis, in any order and repeatedly."""
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c", unit="V", outputformat="%.4e")
    n = w.size_of(dims[d[ax]])
    if how != "list":
        m = w.size("m")
        P = w.positions("at", m, n)
        if how == "array" and ax == 0:
            R = A[P]
        elif how == "dots":
            R = A[..., P]
        elif how == "tuple":
            R = A[(slice(None),) * ax + (P,) + (slice(None),) *
                  (len(d) - ax - 1)]
        else:
            R = A[(slice(None),) * ax + (P,)]
    else:
        m = 3
        # counted from the start or from the end
        pos = [w.int("k%d" % k, 0, n - 1) for k in range(m)]
        P = w.np.array(pos)
        back = [w.choice("from the end %d" % k, [False, True])
                for k in range(m)]
        pos = [p - n if b else p for p, b in zip(pos, back)]
        R = A[(slice(None),) * ax + (pos,)] if ax else A[pos]
    w.true("rank", R.ndim == len(d) == len(R.dims))
    for q, c in enumerate(d):
        nd, dim = R.dims[q], dims[c]
        w.true("class of axis", type(nd) is type(dim))
        w.true("name of axis", nd.name == dim.name)
        w.true("unit of axis", nd.unit == dim.unit)
        if q != ax:
            w.same_seq("labels of other axes", nd.data, dim.data)
        else:
            w.true("one label per selected position", w.size_of(nd) == m)
            for i, in w.forall((m,)):
                w.eq("labels are the selected labels", w.at(nd.data, (i,)),
                     w.at(dim.data, (w.at(P, (i,)),)))
    for idx in w.forall([m if q == ax else w.size_of(dims[c])
                         for q, c in enumerate(d)]):
        src = list(idx)
        src[ax] = w.at(P, (idx[ax],))
        w.eq("selected element", w.at(R, idx), w.at(ra, src))
    w.true("unit kept", R.unit == "V")
    w.true("output format kept", R.outputformat == "%.4e")
    untouched(w, "source unchanged", A, ra, [dims[c] for c in d])


@contract("C03", [AR + "_hfarray.__getitem__", AR + "get_new_anonymous_dim"],
          cases=[dict(d="fr", m="fr"), dict(d="fgr", m="gr"),
                 dict(d="fgr", m="fg")], prove=False)
def multi_axis_mask(w, d, m):
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c")
    M, rm = mk(w, "M", m, dims, "b")
    R = A[M]
    n = w.count(rm)
    k = d.index(m[0])
    w.true("rank", R.ndim == len(R.dims) == len(d) - len(m) + 1)
    w.true("length of the collected axis", R.shape[k] == n ==
           w.size_of(R.dims[k]))
    w.true("anonymous axis", type(R.dims[k]).__name__ == "DimAnonymous")
    rest = d[:k] + d[k + len(m):]
    sel = [i for i in w.forall([w.size_of(dims[c]) for c in m])
           if w.at(rm, i)]
    for q, pos in enumerate(sel):
        for idx in w.forall([w.size_of(dims[c]) for c in rest]):
            w.eq("entries", w.at(R, idx[:k] + (q,) + idx[k:]),
                 w.at(ra, idx[:k] + pos + idx[k:]))


@contract("C03", [AR + "_hfarray.__getitem__"],
          cases=[dict(d=d, ix=ix) for d, ix in
                 [("f", "a:b"), ("fr", "k"), ("fr", ":,a:b"),
                  ("fij", "...,0,0")]])
def slices_are_views(w, d, ix):
    """Writing through a basic selection writes the source."""
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c")
    N = w.size_of(dims[d[-1]])
    if ix == "a:b":
        lo = w.int("lo", 0, N - 1)
        key, pos = slice(lo, N), (lo,)
    elif ix == "k":
        lo = w.int("lo", 0, w.size_of(dims["f"]) - 1)
        key, pos = lo, (lo, 0)
    elif ix == ":,a:b":
        lo = w.int("lo", 0, N - 1)
        key, pos = (slice(None), slice(lo, N)), (0, lo)
    else:
        key, pos = (Ellipsis, 0, 0), (0, 0, 0)
    R = A[key]
    R[(0,) * R.ndim] = 7
    w.eq("written through", w.at(A, pos), 7)
    A[key] = 9
    w.eq("assignment by the same selection", w.at(A, pos), 9)


# ------------------------------------------------------------ rearranging

PERMS = {2: [(0, 1), (1, 0)],
         3: [(0, 2, 1), (1, 0, 2), (1, 2, 0), (2, 0, 1), (2, 1, 0)],
         4: list(itertools.permutations(range(4)))}


@contract("C04", [AR + "_hfarray.transpose", AR + "_hfarray.T"],
          cases=[dict(d=d, p=p) for d in ("fr", "fgr", "rfij", "xq")
                 for p in PERMS[len(d)]] +
                [dict(d=d, p=None) for d in ("", "f", "fr", "fij", "sgrp",
                                             "fq")])
def transpose_moves_labels(w, d, p):
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c", unit="V")
    if p is None:
        p = tuple(range(len(d)))[::-1]
        R = A.T
    else:
        R = A.transpose(*p)

    def f(*i):
        src = [None] * len(d)
        for k, q in enumerate(p):
            src[q] = i[k]
        return w.at(ra, src)
    full(w, "transposed", R, [dims[d[q]] for q in p], f, "V")
    untouched(w, "source unchanged", A, ra, [dims[c] for c in d])


@contract("C04", [AR + "_hfarray.reorder_dimensions"],
          cases=[dict(d="fr", o="r"), dict(d="fgr", o="r"),
                 dict(d="fgr", o="rf"), dict(d="fgr", o="gr"),
                 dict(d="rfij", o="f"), dict(d="rfij", o="jf"),
                 dict(d="fr", o=""), dict(d="", o=""), dict(d="fq", o="q"),
                 dict(d="xpr", o="px")] +
                [dict(d="fgrs", o=o) for o in ordered_subsets("fgrs", 4)])
def reorder_dimensions(w, d, o):
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c", unit="V")
    R = A.reorder_dimensions(*[dims[c] for c in o])
    new = o + "".join(c for c in d if c not in o)

    def f(*i):
        e = dict(zip(new, i))
        return w.at(ra, [e[c] for c in d])
    full(w, "reordered", R, [dims[c] for c in new], f, "V")


@contract("C04", [AR + "_hfarray.t"],
          cases=[dict(d=d) for d in ("ij", "fij", "frij", "f", "ijf", "fi",
                                    "ji", "fji", "jfri", "ifj", "", "rj",
                                    "sifjg")])
def matrix_transpose(w, d):
    ds = w.ds
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c", unit="V")
    R = A.t
    if "i" not in d or "j" not in d:
        full(w, "without matrix axes", R, [dims[c] for c in d],
             lambda *i: w.at(ra, i), "V")
        return
    pi, pj = d.index("i"), d.index("j")
    w.true("rank", R.ndim == len(d) == len(R.dims))
    for k, c in enumerate(d):
        if c not in "ij":
            w.same_dim("other axes kept", R.dims[k], type(dims[c]),
                       dims[c].name, dims[c].data, dims[c].unit)
    w.same_dim("row axis", R.dims[pi], ds.DimMatrix_i, "dimi",
               dims["j"].data, False)
    w.same_dim("column axis", R.dims[pj], ds.DimMatrix_j, "dimj",
               dims["i"].data, False)
    sizes = [w.size_of(dims[{"i": "j", "j": "i"}.get(c, c)]) for c in d]
    for idx in w.forall(sizes):
        src = list(idx)
        src[pi], src[pj] = src[pj], src[pi]
        w.eq("element", w.at(R, idx), w.at(ra, src))
    full(w, "twice is the identity", A.t.t, [dims[c] for c in d]
         if False else list(A.t.t.dims), lambda *i: w.at(ra, i), "V")


@contract("C04", [AR + "_hfarray.squeeze"],
          cases=[dict(d=d, one=o, ax=ax) for d, o, ax in [
              ("fr", "r", None), ("fr", "f", None), ("fgr", "g", None),
              ("fgr", "fr", None), ("fr", "", None), ("fr", "r", "name"),
              ("fgr", "g", "dim"), ("fgr", "gr", "g"), ("rfij", "r", "cls"),
              ("fgr", "g", "int"), ("fr", "fr", None), ("", "", None),
              ("f", "f", None), ("fgrs", "fs", None), ("frgs", "rg", None),
              ("xpr", "p", None), ("ijf", "ij", None), ("rfij", "rf", None),
              ("fgrs", "gr", "int"), ("fgrs", "fgrs", "name"),
              ("fgr", "fgr", "pair"), ("fgrs", "grs", "pair"),
              ("sgfr", "gr", "pair")]])
def squeeze_removes_axes(w, d, one, ax):
    dims = {}
    for c in d:
        if c in one:
            n = 1
        else:
            n = w.size("n" + c, lo=2)
        dims[c] = make_dim(w, c, n=n, labels="any")
    A, ra = mk(w, "A", d, dims, "c", unit="V", outputformat="%.3f")
    drop = one
    if ax is None:
        R = A.squeeze()
    elif ax == "pair":
        drop = "gr"
        R = A.squeeze((dims["r"].name, dims["g"]))
    else:
        c = {"name": "r", "dim": "g", "g": "g", "cls": "r", "int": "g"}[ax]
        arg = {"name": "dim" + c, "dim": dims[c], "g": "dimg",
               "cls": w.ds.DimRep, "int": d.index(c)}[ax]
        drop = c
        R = A.squeeze(arg)
    keep = "".join(c for c in d if c not in drop)

    def f(*i):
        e = dict(zip(keep, i))
        return w.at(ra, [e.get(c, 0) for c in d])
    full(w, "squeezed", R, [dims[c] for c in keep], f, "V")
    w.true("output format", R.outputformat == "%.3f")
    untouched(w, "source unchanged", A, ra, [dims[c] for c in d])


@contract("C04", [AR + "change_shape", AR + "make_same_dims_list"],
          cases=[dict(d="f", new="fr"), dict(d="r", new="fgr"),
                 dict(d="rf", new="fr"), dict(d="fij", new="frij"),
                 dict(d="rf", new="fgr"), dict(d="", new="fr"),
                 dict(d="qf", new="fq"), dict(d="q", new="fq")] +
                [dict(d=a, new=b) for b in ("fgrs", "gsrf", "xrij")
                 for a in spread(ordered_subsets(b, 4), 14)])
def change_shape_contract(w, d, new):
    """Axes by label; missing axes get length one."""
    mod = w.mod("hftools.dataset.arrayobj")
    dims = make_dims(w, new)
    A, ra = mk(w, "A", d, dims, "c", unit="V")
    R = mod.change_shape(A, tuple(dims[c] for c in new))
    w.true("rank", R.ndim == len(new) == len(R.dims))
    for k, c in enumerate(new):
        w.same_dim("axis", R.dims[k], type(dims[c]), dims[c].name,
                   dims[c].data, dims[c].unit)
        w.true("length", R.shape[k] ==
               (w.size_of(dims[c]) if c in d else 1))
    for idx in w.forall([w.size_of(dims[c]) for c in d]):
        e = dict(zip(d, idx))
        w.eq("element", w.at(R, [e.get(c, 0) for c in new]), w.at(ra, idx))
    w.true("unit", R.unit == "V")
    untouched(w, "source unchanged", A, ra, [dims[c] for c in d])


@contract("C04", [AR + "_hfarray.add_dim"],
          cases=[dict(d="f", new="r", ax=0), dict(d="f", new="r", ax=1),
                 dict(d="fr", new="g", ax=1), dict(d="fr", new="g", ax=9),
                 dict(d="fij", new="r", ax=1), dict(d="", new="f", ax=0),
                 dict(d="fr", new="f", ax=0), dict(d="fr", new=None, ax=0),
                 dict(d="fr", new="r", ax=0), dict(d="", new="f", ax=3),
                 dict(d="f", new="q", ax=0), dict(d="f", new="g", ax=1,
                                                  one=True),
                 dict(d="fr", new="x", ax=0, one=True)] +
                [dict(d="fgrs", new="h", ax=k) for k in range(6)] +
                [dict(d="ijr", new="x", ax=k) for k in range(5)])
def add_dim(w, d, new, ax, one=False):
    dims = make_dims(w, d + (new or ""))
    if one:
        dims[new] = make_dim(w, new, n=1)
    A, ra = mk(w, "A", d, dims, "c", unit="V", outputformat="%.3f")
    if new is None or new in d:
        R = A.add_dim(dims[new] if new else None, ax)
        full(w, "dimension already present", R, [dims[c] for c in d],
             lambda *i: w.at(ra, i), "V")
        return
    R = A.add_dim(dims[new], axis=ax)
    k = min(ax, len(d))
    out = d[:k] + new + d[k:]

    def f(*i):
        return w.at(ra, i[:k] + i[k + 1:])
    full(w, "broadcast along the new axis", R, [dims[c] for c in out], f, "V")
    w.true("output format", R.outputformat == "%.3f")
    untouched(w, "source unchanged", A, ra, [dims[c] for c in d])


@contract("C04", [AR + "_hfarray.replace_dim", AR + "replace_dim"],
          cases=[dict(d="fr", o="r", how="dim"), dict(d="fgr", o="g",
                                                      how="name"),
                 dict(d="fij", o="f", how="cls")] +
                [dict(d=d, o=c, how=h) for d in ("sgrf", "xpij")
                 for c in d for h in ("dim", "name", "cls")])
def replace_dim_keeps_data(w, d, o, how):
    ds = w.ds
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c", unit="V")
    old = dims[o]
    if how == "cls":
        new = ds.DimRep
        A.replace_dim(old.name, new)
        exp = ds.DimRep(old)
    else:
        exp = new = ds.DimSweep("other", w.raw("lab_new",
                                               (w.size_of(old),), "f"))
        A.replace_dim(old if how == "dim" else old.name, new)
    full(w, "relabelled", A, [exp if c == o else dims[c] for c in d],
         lambda *i: w.at(ra, i), "V")


@contract("C04", [AR + "_hfarray.take"],
          cases=[dict(d="f", ax="f", how="int"), dict(d="fr", ax="r",
                                                      how="name"),
                 dict(d="fgr", ax="g", how="dim"),
                 dict(d="rfij", ax="f", how="int")] +
                [dict(d="sgrf", ax=c, how=h) for c in "sgrf"
                 for h in ("int", "name", "dim")] +
                [dict(d="xr", ax="x", how="name"),
                 dict(d="fr", ax="r", how="neg"),
                 dict(d="fr", ax="r", how="cls")])
def take_gathers(w, d, ax, how):
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c", unit="V")
    k = d.index(ax)
    N = w.size_of(dims[ax])
    i0 = w.int("i0", -N if how == "name" else 0, N - 1)
    i1 = w.int("i1", 0, N - 1)
    arg = {"int": k, "name": dims[ax].name, "dim": dims[ax],
           "neg": k - len(d), "cls": type(dims[ax])}[how]
    R = A.take([i0, i1], axis=arg)
    if i0 < 0:
        i0 = i0 + N
    w.true("rank", R.ndim == len(d) == len(R.dims))
    for q, c in enumerate(d):
        if c == ax:
            w.true("class", type(R.dims[q]) is type(dims[c]))
            w.true("name", R.dims[q].name == dims[c].name)
            w.true("length", R.shape[q] == 2)
            w.true("labels", w.size_of(R.dims[q]) == 2)
            for m in range(2):
                w.eq("labels", w.at(R.dims[q].data, (m,)),
                     w.at(dims[c].data, ((i0, i1)[m],)))
            w.true("unit of the axis", R.dims[q].unit == dims[c].unit)
        else:
            w.same_dim("other axes", R.dims[q], type(dims[c]), dims[c].name,
                       dims[c].data, dims[c].unit)
    for idx in w.forall([2 if c == ax else w.size_of(dims[c]) for c in d]):
        src = list(idx)
        src[k] = (i0, i1)[idx[k]]
        w.eq("element", w.at(R, idx), w.at(ra, src))
    w.true("unit", R.unit == "V")


@contract("C04", [AR + "remove_tail"],
          cases=[dict(d="fr"), dict(d="fgr"), dict(d="frij"),
                 dict(d="fgrij"), dict(d="f"), dict(d="fij"),
                 dict(d="sgrf"), dict(d="xrpij"), dict(d="fq")])
def remove_tail(w, d):
    """Everything but the first and the matrix axes becomes one axis, in
    row-major order."""
    mod = w.mod("hftools.dataset.arrayobj")
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c", unit="V")
    R = mod.remove_tail(A)
    mat = d.endswith("ij")
    mid = d[1:-2] if mat else d[1:]
    sizes = [w.size_of(dims[c]) for c in mid]
    tot = 1
    for s in sizes:
        tot = tot * s
    w.true("rank", R.ndim == len(R.dims) == (4 if mat else 2))
    w.same_dim("first axis", R.dims[0], type(dims[d[0]]), dims[d[0]].name,
               dims[d[0]].data, dims[d[0]].unit)
    w.true("class of the collapsed axis", type(R.dims[1]) is w.ds.DimRep)
    w.true("length of the collapsed axis", R.shape[1] == tot)
    w.true("labels of the collapsed axis", w.size_of(R.dims[1]) == tot)
    for idx in w.forall([w.size_of(dims[c]) for c in d]):
        m = idx[1:1 + len(mid)]
        flat = w.flat(m, sizes) if m else 0
        w.eq("element", w.at(R, (idx[0], flat) + idx[1 + len(mid):]),
             w.at(ra, idx))
    w.true("unit", R.unit == "V")


@contract("C04", [AR + "remove_rep"],
          cases=[dict(d="fr"), dict(d="frs"), dict(d="rsf"), dict(d="f"),
                 dict(d="frij"), dict(d="frsij"), dict(d="fsrg"),
                 dict(d="rfs"), dict(d="frgs"), dict(d="sfrg"),
                 dict(d="rfgs"), dict(d="sr"), dict(d="r"), dict(d="xsrij"),
                 dict(d="rfsij"), dict(d="gfrs")])
def remove_rep(w, d):
    """All repetition axes become one, in row-major order."""
    mod = w.mod("hftools.dataset.arrayobj")
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c", unit="V", outputformat="%.2f")
    R = mod.remove_rep(A, "Reps")
    w.true("unit and format", (R.unit, R.outputformat) == ("V", "%.2f"))
    reps = [c for c in d if c in "rs"]
    if not reps:
        full(w, "no repetitions", R, [dims[c] for c in d],
             lambda *i: w.at(ra, i))
        return
    k = d.index(reps[0])
    rest = [c for c in d if c not in "rs"]
    out = rest[:k] + ["*"] + rest[k:]
    w.true("rank", R.ndim == len(R.dims) == len(out))
    tot = 1
    for c in reps:
        tot = tot * w.size_of(dims[c])
    for q, c in enumerate(out):
        if c == "*":
            w.true("class", type(R.dims[q]) is w.ds.DimRep)
            w.true("name", R.dims[q].name == "Reps")
            w.true("length", R.shape[q] == tot)
            w.true("labels", w.size_of(R.dims[q]) == tot)
        else:
            w.same_dim("other axes", R.dims[q], type(dims[c]), dims[c].name,
                       dims[c].data, dims[c].unit)
    for idx in w.forall([w.size_of(dims[c]) for c in d]):
        e = dict(zip(d, idx))
        flat = w.flat([e[c] for c in reps],
                      [w.size_of(dims[c]) for c in reps])
        w.eq("element", w.at(R, [flat if c == "*" else e[c] for c in out]),
             w.at(ra, idx))


# ------------------------------------------------------------ reductions

RED = ["sum", "mean", "min", "max", "std", "var", "rss"]
AX = [("f", "f", "int"), ("fr", "f", "int"), ("fr", "r", "name"),
      ("fr", "r", "dim"), ("fr", "r", "cls"), ("fgr", "g", "name"),
      ("fgr", "fr", "list"), ("rfij", "r", "dim"), ("fr", "fr", "all"),
      ("fgr", "gr", "names"), ("fr", "r", "neg"), ("frs", "rs", "cls"),
      ("fpr", "fp", "sweeps"), ("xrp", "xp", "sweeps"), ("rxs", "x", "name"),
      ("sgrf", "sf", "names"), ("sgrf", "gr", "ints"), ("sgrf", "r", "neg"),
      ("sgrf", "rg", "mixed"), ("fijr", "i", "dim"), ("xpf", "x", "dim"),
      ("sgrf", "s", "int"), ("a", "a", "name"), ("fgrs", "sgf", "list")]


def axis_arg(w, d, ax, how, dims):
    if how == "int":
        return d.index(ax)
    if how == "neg":
        return d.index(ax) - len(d)
    if how == "name":
        return dims[ax].name
    if how == "names":
        return tuple(dims[c].name for c in ax)
    if how == "dim":
        return dims[ax]
    if how == "cls":
        return w.ds.DimRep
    if how == "sweeps":
        return w.ds.DimSweep
    if how == "ints":
        return tuple(d.index(c) for c in ax)
    if how == "mixed":
        return [dims[ax[0]], d.index(ax[1]) - len(d)]
    if how == "list":
        return [dims[c] for c in ax]
    return None


@contract("C05", [AR + "_hfarray." + f for f in RED] +
          [AR + "multiple_axis_handler", AR + "_hfarray.squeeze"],
          cases=[dict(fn=f, d=d, ax=ax, how=h, keep=k)
                 for f in RED for q, (d, ax, h) in enumerate(AX)
                 for k in (False, True)
                 if not (f == "rss" and k) and
                 True and
                 (f in ("sum", "max") or q % 2 == 0 or not k)])
def reduce_axis(w, fn, d, ax, how, keep):
    dims = make_dims(w, d)
    kind = "f" if fn in ("min", "max") else "c"
    A, ra = mk(w, "A", d, dims, kind)
    kw = {} if fn == "rss" else dict(keepdims=keep)
    arg = axis_arg(w, d, ax, how, dims)
    R = getattr(A, fn)(**kw) if arg is None else getattr(A, fn)(arg, **kw)
    rest = [c for c in d if c not in ax]
    sizes = [w.size_of(dims[c]) for c in ax]
    n = 1
    for s in sizes:
        n = n * s

    def value(e):
        def el(*i):
            ee = dict(e)
            ee.update(zip(ax, i))
            return w.at(ra, [ee[c] for c in d])
        if fn == "sum":
            return w.sum(sizes, el)
        if fn == "mean":
            return w.sum(sizes, el) / w.num(n)
        if fn == "min":
            return w.min(sizes, el)
        if fn == "max":
            return w.max(sizes, el)
        sq = lambda x: x * w.conj(x)
        if fn == "rss":
            return w.sqrt(w.re(w.sum(sizes, lambda *i: sq(el(*i)))))
        m = w.sum(sizes, el) / w.num(n)
        v = w.re(w.sum(sizes, lambda *i: sq(el(*i) - m)) / w.num(n))
        return w.sqrt(v) if fn == "std" else v
    out = list(d) if keep else rest
    w.true("rank", len(R.dims) == len(out) == R.ndim)
    for q, c in enumerate(out):
        nd = R.dims[q]
        w.true("name of remaining axis", nd.name == dims[c].name)
        w.true("class of remaining axis", type(nd) is type(dims[c]))
        if c in rest:
            w.same_seq("labels of remaining axis", nd.data, dims[c].data)
            w.true("length of remaining axis",
                   R.shape[q] == w.size_of(dims[c]))
        else:
            w.true("reduced axis has length one", R.shape[q] == 1)
    for idx in w.forall([w.size_of(dims[c]) for c in rest]):
        e = dict(zip(rest, idx))
        w.eq("reduced value", w.at(R, [e.get(c, 0) for c in out]), value(e))
    untouched(w, "source unchanged", A, ra, [dims[c] for c in d])


@contract("C05", [AR + "_hfarray.std", AR + "_hfarray.var"],
          cases=[dict(fn=f, d=d, ax=ax) for f in ("std", "var")
                 for d, ax in [("f", "f"), ("fr", "r"), ("fgr", "g")]])
def ddof_is_honoured(w, fn, d, ax):
    dims = {}
    for c in d:
        dims[c] = make_dim(w, c, n=w.size("n" + c, lo=2))
    A, ra = mk(w, "A", d, dims, "f")
    R = getattr(A, fn)(dims[ax].name, ddof=1)
    rest = [c for c in d if c != ax]
    n = w.size_of(dims[ax])
    for idx in w.forall([w.size_of(dims[c]) for c in rest]):
        e = dict(zip(rest, idx))

        def el(i):
            ee = dict(e)
            ee[ax] = i
            return w.at(ra, [ee[c] for c in d])
        m = w.sum([n], el) / w.num(n)
        v = w.sum([n], lambda i: (el(i) - m) * (el(i) - m)) / w.num(n - 1)
        w.eq(fn, w.at(R, idx), w.sqrt(v) if fn == "std" else v)


@contract("C05", [AR + "_hfarray." + f for f in (
    "sum", "mean", "std", "var", "cumsum", "cumprod", "min", "max")],
    cases=[dict(fn=f, what=x) for f in ("sum", "mean", "std", "var", "cumsum",
                                        "cumprod", "min", "max")
           for x in ("dtype", "out") if (f, x) not in (
               ("min", "dtype"), ("max", "dtype"))], prove=False)
def numpy_arguments(w, fn, what):
    """dtype= and out= have the meaning they have in numpy."""
    import numpy as np
    dims = make_dims(w, "fr")
    A, ra = mk(w, "A", "fr", dims, "i")
    x = np.array(ra)
    cum = fn.startswith("cum")
    if what == "dtype":
        for t in (np.float32, np.complex128):
            if fn in ("std", "var") and t is np.complex128:
                continue
            R = getattr(A, fn)("dimr", dtype=t)
            want = getattr(x, fn)(1, dtype=t)
            w.true("type", R.dtype == want.dtype)
            w.true("value", np.array_equal(np.array(R), want))
        return
    out = np.full(x.shape if cum else (x.shape[0], 1), -99.0)
    ref = np.full(x.shape if cum else (x.shape[0],), -99.0)
    getattr(x, fn)(1, out=ref)
    R = getattr(A, fn)("dimr", out=out)
    w.true("value", np.array_equal(np.array(R), ref))
    w.true("output", np.array_equal(out if cum else out[:, 0], ref))


@contract("C05", [AR + "_hfarray." + f for f in (
    "sum", "cumsum", "min", "max", "mean")],
    cases=[dict(fn=f) for f in ("sum", "cumsum", "min", "max", "mean")],
    prove=False)
def large_integers(w, fn):
    """Integers are summed exactly, logical values counted."""
    import numpy as np
    dims = make_dims(w, "fr")
    shape = [w.size_of(dims[c]) for c in "fr"]
    vals = [w.rng.randint(-2 ** 40, 2 ** 40)
            for _ in range(shape[0] * shape[1])]
    for x in (np.array(vals).reshape(shape),
              np.array(vals).reshape(shape) > 0,
              (np.array(vals) % 256).astype(np.uint8).reshape(shape),
              (np.array(vals) % 30000).astype(np.int16).reshape(shape),
              (np.array(vals) / 3).astype(np.float32).reshape(shape)):
        A = w.ds.hfarray(x, dims=(dims["f"], dims["r"]))
        for ax, c in enumerate("fr"):
            R = getattr(A, fn)(dims[c])
            want = getattr(x, fn)(ax)
            w.true("type of the result", R.dtype == want.dtype)
            w.true("exact values", np.array_equal(np.array(R), want))


@contract("C05", [AR + "_hfarray.cumsum", AR + "_hfarray.cumprod",
                  AR + "axis_handler"],
          cases=[dict(fn=f, d=d, ax=ax, how=h)
                 for f in ("cumsum", "cumprod")
                 for d, ax, h in [("f", "f", "int"), ("fr", "r", "name"),
                                  ("fr", "f", "dim"), ("fgr", "g", "int"),
                                  ("fr", "r", "cls"), ("fr", "f", "neg"),
                                  ("sgrf", "r", "neg"), ("sgrf", "s", "dim"),
                                  ("sgrf", "f", "int"), ("rxs", "x", "sweeps"),
                                  ("rxs", "x", "name"), ("rij", "j", "dim"),
                                  ("pxr", "x", "dim"), ("fq", "f", "dim")]])
def cumulative(w, fn, d, ax, how):
    dims = make_dims(w, d)
    A, ra = mk(w, "A", d, dims, "c")
    R = getattr(A, fn)(axis_arg(w, d, ax, how, dims))
    k = d.index(ax)

    def f(*idx):
        def el(i):
            src = list(idx)
            src[k] = i
            return w.at(ra, src)
        return (w.sum if fn == "cumsum" else w.prod)([idx[k] + 1], el)
    full(w, fn, R, [dims[c] for c in d], f)
    exc = w.mod("hftools.core.exceptions").HFArrayError
    with w.raises("an axis is required", exc):
        getattr(A, fn)(axis=None)


@contract("C05", [AR + "axis_handler", AR + "multiple_axis_handler",
                  AR + "_hfarray.dims_index"],
          cases=[dict(fn=f) for f in RED + ["cumsum", "squeeze"]])
def unknown_axis_rejected(w, fn):
    dims = make_dims(w, "fr")
    A, ra = mk(w, "A", "fr", dims, "f")
    with w.raises("unknown name", IndexError):
        getattr(A, fn)("nosuch")
    with w.raises("unknown dimension", IndexError):
        getattr(A, fn)(w.ds.DimSweep("nosuch", 3))
    if fn in ("cumsum",):
        with w.raises("class not present", IndexError):
            A.cumsum(w.ds.DimMatrix_i)
    else:
        # a class names all axes of that class, also when there is none
        w.true("no axis of the class", getattr(A, fn)(
            w.ds.DimMatrix_i).ndim == 2)
    if fn not in ("squeeze", "rss", "cumsum"):
        R = getattr(A, fn)("nosuch", dimerror=False)
        untouched(w, "dimerror=False returns the array", R, ra,
                  [dims["f"], dims["r"]])
