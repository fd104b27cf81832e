"""HDF5 files."""
import os
from engine.contract import contract
from contracts.common import make_dims, mk, full, untouched
from contracts.files import ff

V1 = "file_formats.hdf5.v_01:"
V2 = "file_formats.hdf5.v_02:"
H5 = "file_formats.hdf5.hdf5:"
F2 = [V2 + x for x in (
    "save_hdf5", "save_hdf5_handle", "create_dataset", "cast_arrays_to_hdf5",
    "getvar", "getdim", "read_hdf5", "read_hdf5_handle", "escape_varname",
    "unescape_varname")] + [H5 + "save_hdf5", H5 + "read_hdf5",
                            "file_formats.hdf5.helper:hdf5context"]
F1 = [V1 + x for x in ("save_hdf5", "read_hdf5", "unpack_dim")]


def block(w, pats, names=None):
    """A block with one variable per pattern of axis letters."""
    ds = w.ds
    dims = make_dims(w, "".join(p for p, k in pats))
    if names:
        for c, n in names.items():
            d = dims[c]
            dims[c] = d.__class__(n, d.data, unit=d.unit)
    db = ds.DataBlock()
    spec = []
    for q, (p, kind) in enumerate(pats):
        name = "v%d" % q if not names else "v/%d/x//" % q
        unit = "W" if q % 2 else None
        fmt = [None, "%.3f", "%.9e"][q % 3]
        A, raw = mk(w, "v%d" % q, p, dims, kind, unit=unit, outputformat=fmt)
        db[name] = A
        spec.append((name, p, raw, unit, A))
    return db, dims, spec


def check(w, label, R, dims, spec, fmt=True):
    w.true(label + ": variables", set(R.vardata.keys()) ==
           set(n for n, _, _, _, _ in spec))
    used = set("".join(p for _, p, _, _, _ in spec))
    w.true(label + ": axes", set(R.ivardata.keys()) ==
           set(dims[c].name for c in used))
    for n, p, raw, unit, A in spec:
        full(w, label + ": " + n, R[n], [dims[c] for c in p],
             lambda *i: w.at(raw, i), unit=unit)
        w.true(label + ": type of " + n, R[n].dtype == raw.dtype)
        if fmt:
            w.true(label + ": format of " + n,
                   R[n].outputformat == A.outputformat)
    for c in used:
        d = R.ivardata[dims[c].name]
        w.same_dim(label + ": axis", d, dims[c].__class__, dims[c].name,
                   dims[c].data, dims[c].unit)


PATS = [[("f", "f")], [("", "f"), ("", "c"), ("", "i")],
        [("fg", "c"), ("g", "f"), ("", "i")], [("fij", "c"), ("f", "i")],
        [("fr", "f"), ("rf", "c"), ("fgij", "f")], [("frs", "i")],
        [("f", "b"), ("fg", "b")],
        [("g", "f"), ("f", "c"), ("gf", "f"), ("", "c")],
        [("ij", "c"), ("ijf", "f"), ("gij", "c")],
        [("rsfg", "f"), ("sr", "c"), ("g", "i")],
        [("j", "f"), ("i", "c"), ("jfi", "i")],
        [("frgh", "c"), ("h", "b")]]


@contract("C21", F1 + F2, cases=[dict(k=k, version=v, slash=False)
                                 for k in range(len(PATS))
                                 for v in ("0.1", "0.2")] +
          [dict(k=k, version="0.2", slash=True) for k in (0, 2, 4)], runs=4)
def hdf5_round_trip(w, k, version, slash):
    """Every variable, axis, unit and type is read back as saved."""
    names = dict(f="f/a/b/", g="b1/a1", r="r//r") if slash else None
    if names:
        names = dict((c, n) for c, n in names.items()
                     if any(c in p for p, _ in PATS[k]))
    db, dims, spec = block(w, PATS[k], names)
    fn = os.path.join(w.tmpdir(), "t.hdf5")
    if version == "0.1":
        bname = ["blk", "None2", "nonesuch", "a/b", " x y "][k % 5]
        lines = ["A: 1", "n\xe5gon", "!Stop!", "x ! y", "# 5", "tail!!"]
        db.blockname = bname
        db.comments = ff(w).Comments(list(lines))
    ff(w).save_hdf5(db, fn, version=version)
    for n, p, raw, unit, A in spec:
        untouched(w, "source unchanged", A, raw, [dims[c] for c in p])
    R = ff(w).read_hdf5(fn)
    check(w, "read", R, dims, spec, fmt=version == "0.2")
    if version == "0.1":
        w.true("block name", R.blockname == bname)
        w.true("comments", list(R.comments.fullcomments) == lines)
    ff(w).save_hdf5(R, fn, version=version)
    check(w, "read again", ff(w).read_hdf5(fn), dims, spec,
          fmt=version == "0.2")
    ff(w).save_hdf5(w.ds.DataBlock(), fn, version=version)
    w.true("saving replaces the file", not ff(w).read_hdf5(fn).vardata)


@contract("C21", F1 + F2, cases=[dict(version=v, cls=c, kind=k)
                                 for v in ("0.1", "0.2")
                                 for c in ("DimSweep", "DimRep", "DimPartial")
                                 for k in "fi"], runs=4)
def hdf5_axes(w, version, cls, kind):
    """Axes keep class, labels, type of labels, unit and format."""
    ds = w.ds
    n, m = w.size("n"), w.size("m")
    lab, lab2 = w.raw("lab", (n,), kind), w.raw("lab2", (m,), kind)
    d = getattr(ds, cls)("x", lab, unit="V", outputformat="%.3e")
    e = getattr(ds, cls)("y", lab2)
    db = ds.DataBlock()
    A = w.raw("a", (n, m), "c")
    db.a = ds.hfarray(A, dims=(d, e))
    fn = os.path.join(w.tmpdir(), "t.hdf5")
    ff(w).save_hdf5(db, fn, version=version)
    R = ff(w).read_hdf5(fn)
    for D in (R.a.dims[0], R.ivardata["x"]):
        w.same_dim("first axis", D, getattr(ds, cls), "x", lab, "V")
        w.true("type of labels", D.data.dtype == lab.dtype)
        if version == "0.2":
            w.true("format", D.outputformat == d.outputformat)
    for D in (R.a.dims[1], R.ivardata["y"]):
        w.same_dim("second axis", D, getattr(ds, cls), "y", lab2, None)
        if version == "0.2":
            w.true("format", D.outputformat == e.outputformat)
    for idx in w.forall([n, m]):
        w.eq("element", w.at(R.a, idx), w.at(A, idx))


@contract("C21", F1 + F2, cases=[dict(version=v, how=h)
                                 for v in ("0.1", "0.2")
                                 for h in ("handle", "named", "two")
                                 if h == "handle" or v == "0.1"], runs=4)
def hdf5_handles(w, version, how):
    """Open files and names of blocks reach the same contents."""
    db, dims, spec = block(w, PATS[2])
    fn = os.path.join(w.tmpdir(), "t.hdf5")
    names = {"handle": [None], "named": ["one"],
             "two": ["one", "two"]}[how]
    other, odims, ospec = db, dims, spec
    if how == "two":
        ds = w.ds
        odims = make_dims(w, "g")
        A, raw = mk(w, "other", "g", odims, "c", unit="Hz")
        other = ds.DataBlock()
        other.z = A
        ospec = [("z", "g", raw, "Hz", A)]
    with h5file(w, fn, "w") as f:
        for q, nm in enumerate(names):
            kw = {} if nm is None else {"name": nm}
            ff(w).save_hdf5(other if q else db, f, version=version, **kw)
        for nm in names[:1]:
            kw = {} if nm is None else {"name": nm}
            check(w, "open file", ff(w).read_hdf5(f, **kw), dims, spec,
                  fmt=version == "0.2")
    for q, nm in enumerate(names):
        kw = {} if nm is None else {"name": nm}
        R = ff(w).read_hdf5(fn, **kw)
        if q:
            check(w, "second", R, odims, ospec, fmt=False)
        else:
            check(w, "first", R, dims, spec, fmt=version == "0.2")
        w.true("no block name", R.blockname is None)
        w.true("no comments", list(R.comments.fullcomments) == [])
    with w.raises("no such file", Exception):
        ff(w).read_hdf5(fn + "x")
    if version == "0.1":
        with w.raises("no such block", Exception):
            ff(w).read_hdf5(fn, name="three")


@contract("C21", F1 + F2, cases=[dict(version=v, extra=e)
                                 for v in ("0.1", "0.2")
                                 for e in (False, True)], runs=4)
def hdf5_lone_axis(w, version, extra):
    """Axes no variable uses are kept."""
    db, dims, spec = block(w, [("", "f")] if not extra else [("f", "f")])
    more = make_dims(w, "gr")
    db[more["g"].name] = more["g"]
    db[more["r"].name] = more["r"]
    fn = os.path.join(w.tmpdir(), "t.hdf5")
    ff(w).save_hdf5(db, fn, version=version)
    R = ff(w).read_hdf5(fn)
    w.true("axes", set(R.ivardata.keys()) ==
           set(d.name for d in list(dims.values()) + list(more.values())))
    for d in more.values():
        w.same_dim("axis", R.ivardata[d.name], d.__class__, d.name, d.data,
                   d.unit)
    n, p, raw, unit, A = spec[0]
    full(w, "variable", R[n], [dims[c] for c in p],
         lambda *i: w.at(raw, i), unit=unit)


@contract("C21", [V2 + "append_hdf5", V2 + "expand_dataset",
                  V2 + "save_hdf5_handle", V2 + "create_dataset"],
          cases=[dict(times=t, dim=d, k=k) for t in (1, 2, 3)
                 for d in (None, "own")
                 for k in (0, 1, 2, 3, 7, 8, 9, 10, 11)] +
          [dict(times=7, dim=d, k=k) for d in (None, "own") for k in (0, 2)],
          runs=4)
def hdf5_append(w, times, dim, k):
    """Blocks appended to a file are read back stacked in order."""
    ds = w.ds
    pats = PATS[k]
    dims = make_dims(w, "".join(p for p, _ in pats))
    fn = os.path.join(w.tmpdir(), "t.hdf5")
    raws = []
    blocks = []
    for t in range(times + 1):
        db = ds.DataBlock()
        raws.append([])
        for q, (p, kind) in enumerate(pats):
            A, raw = mk(w, "v%d_%d" % (q, t), p, dims, kind, unit="W")
            A.outputformat = "%%.%de" % (q + 3)
            db["v/%d" % q] = A
            raws[-1].append(raw)
        blocks.append(db)
    kw = {}
    start = 0
    if dim == "own":
        start = w.int("start")
        kw = dict(expanddim=ds.DimRep("RUN", [start], unit="V",
                                      outputformat="%.1f"))
    ff(w).save_hdf5(blocks[0], fn, expandable=True, **kw)
    if dim == "own":
        for b in blocks[1:]:
            with h5file(w, fn) as f:
                ff(w).append_hdf5(b, f, **kw)
    else:
        with h5file(w, fn) as f:
            for b in blocks[1:]:
                ff(w).append_hdf5(b, f, **kw)
    R = ff(w).read_hdf5(fn)
    name = "RUN" if dim == "own" else "INDEX"
    for q, (p, kind) in enumerate(pats):
        X = R["v/%d" % q]
        want = [dims[c] for c in p]
        pos = min(1, len(want))
        w.true("rank", X.ndim == len(want) + 1 == len(X.dims))
        D = X.dims[pos]
        w.true("name of the new axis", D.name == name)
        w.true("class of the new axis", D.__class__ is ds.DimRep)
        w.true("unit of the new axis", D.unit == (
            "V" if dim == "own" else None))
        if dim == "own":
            w.true("format of the new axis", D.outputformat == "%.1f")
        w.true("format", X.outputformat == "%%.%de" % (q + 3))
        w.true("length of the new axis", D.data.shape[0] == times + 1)
        for t in range(times + 1):
            w.eq("numbering", w.at(D.data, (t,)), start + t)
        want.insert(pos, D)
        w.dims_are("stacked", X, want)
        for t in range(times + 1):
            for idx in w.forall([w.size_of(dims[c]) for c in p]):
                full_idx = idx[:pos] + (t,) + idx[pos:]
                w.eq("element of entry %d" % t, w.at(X, full_idx),
                     w.at(raws[t][q], idx))
        w.true("unit", X.unit == "W")


def h5file(w, fn, mode="a"):
    return w.mod("hftools.file_formats.hdf5.v_02").h5py.File(fn, mode)


@contract("C21", [V2 + "append_hdf5"],
          cases=[dict(what=x) for x in ("missing", "version", "swapped",
                                        "labels", "length", "complex",
                                        "truncated", "extra axis",
                                        "no version", "other version",
                                        "fewer axes", "name of axis",
                                        "other matrix")], runs=4)
def hdf5_append_refused(w, what):
    """A refused append leaves the file as it was."""
    pats = PATS[2]
    if what in ("swapped", "labels", "length", "extra axis", "fewer axes",
                "name of axis"):
        pats = [("f", "f"), ("fg", "f"), ("", "f")]
    elif what == "other matrix":
        pats = [("f", "f"), ("fij", "c")]
    elif what in ("complex", "truncated"):
        pats = [("f", "f"), ("f", "i" if what == "truncated" else "f")]
    ds = w.ds
    db, dims, spec = block(w, pats)
    use = dict(dims)
    if what in ("labels", "length"):
        n = w.size_of(dims["f"]) + (what == "length")
        lab = w.raw("l", (n,))
        if what == "labels":
            w.assume(w.at(lab, (0,)) != w.at(dims["f"].data, (0,)))
        use["f"] = dims["f"].__class__(dims["f"], data=lab)
    more = ds.DataBlock()
    for q, (p, kind) in enumerate(pats):
        if q == 1 and what in ("complex", "truncated"):
            kind = "c" if what == "complex" else "f"
        elif q == 1 and what in ("swapped", "other matrix"):
            p = p[::-1]
        elif q == 1 and what == "fewer axes":
            p = p[:1]
        elif q == 1 and what == "name of axis":
            use = dict(dims)
            use["f"] = dims["f"].__class__("other", dims["f"].data)
        elif q == 0 and what == "extra axis":
            p = p + "r"
            use["r"] = make_dims(w, "r")["r"]
        more["v%d" % q], _ = mk(w, "w%d" % q, p, use, kind)
    fn = os.path.join(w.tmpdir(), "t.hdf5")
    ff(w).save_hdf5(db, fn, expandable=what != "version",
                    version="0.1" if what == "version" else "0.2")
    if what == "missing":
        q = 1 if w.symbolic else w.choice("q", [0, 1, 2])
        del more["v%d" % q]
    key = "hftools file version"
    with h5file(w, fn) as f:
        if what == "no version":
            del f.attrs[key]
        elif what == "other version":
            f.attrs[key] = "0.3"
        with w.raises("refused", Exception):
            ff(w).append_hdf5(more, f)
        if what in ("no version", "other version"):
            f.attrs[key] = "0.2"
    R = ff(w).read_hdf5(fn)
    if what == "version":
        return check(w, "unchanged", R, dims, spec, fmt=False)
    for n, p, raw, unit, A in spec:
        w.true("rank", R[n].ndim == len(p) + 1)
        pos = min(1, len(p))
        w.true("one entry", R[n].shape[pos] == 1)
        for idx in w.forall([w.size_of(dims[c]) for c in p]):
            w.eq("element", w.at(R[n], idx[:pos] + (0,) + idx[pos:]),
                 w.at(raw, idx))


def hdf5_widths(w, n, fn):
    """Numbers of any width keep value and type."""
    ds, np = w.ds, w.np
    db = ds.DataBlock()
    f = ds.DimSweep("freq", np.arange(n).astype(
        w.choice("labels", ["i2", "u1", "f4", "i4", "f8", "u8"])))
    x = {}
    for t in ("i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4",
              "f8", "c8", "c16", "?"):
        v = np.array([w.rng.randint(0, 100) for _ in range(n)]).astype(t)
        if t in ("i8", "u8"):
            v = v + np.array(2 ** 62 + 1, t)
        x[t] = v
        db["v" + t.replace("?", "b")] = ds.hfarray(v, dims=(f,))
        db["s" + t.replace("?", "b")] = ds.hfarray(v[0])
    for version in ("0.1", "0.2"):
        ff(w).save_hdf5(db, fn, version=version)
        R = ff(w).read_hdf5(fn)
        for t, v in x.items():
            X, Y = R["v" + t.replace("?", "b")], R["s" + t.replace("?", "b")]
            w.true("type", X.dtype == v.dtype and Y.dtype == v.dtype)
            w.true("values", list(np.asarray(X)) == list(v) and Y == v[0])
            w.true("labels", X.dims[0].data.dtype == f.data.dtype and
                   list(X.dims[0].data) == list(f.data))


@contract("C21", F1 + F2, cases=[dict(k=k) for k in ("dates", "date axis",
                                                     "text", "text axis",
                                                     "long text", "widths",
                                                     "bytes")],
          prove=False, runs=8)
def hdf5_kinds(w, k):
    """Dates and text, also as axes (bounded)."""
    ds, np = w.ds, w.np
    n = w.size("n")
    fn = os.path.join(w.tmpdir(), "t.hdf5")
    if k == "widths":
        return hdf5_widths(w, n, fn)
    unit, big = w.choice("resolution", [
        ("s", 10 ** 9), ("ms", 10 ** 12), ("us", 10 ** 15), ("D", 10 ** 4),
        ("m", 10 ** 7), ("ns", 10 ** 18)])
    dates = np.array([w.rng.randint(-big, 3 * big) for _ in range(n)],
                     "M8[%s]" % unit)
    texts = np.array([w.choice("t%d" % i, ["", "a", "bc d", "\u00e5\u4e2d",
                                           "long text"]) for i in range(n)])
    f = ds.DimSweep("freq", w.raw("f", (n,)))
    db = ds.DataBlock()
    vals = dates if "date" in k else texts
    if k == "bytes":
        vals = np.array([w.choice("b%d" % i, [b"a", b"bc d", b"xyz"])
                         for i in range(n)])
    if "axis" in k:
        f = ds.DimRep("freq", vals)
        db.x = ds.hfarray(w.raw("x", (n,)), dims=(f,))
    else:
        db.x = ds.hfarray(vals, dims=(f,))
        db.y = ds.hfarray(vals[0])
    for version in ("0.2",) if "text" in k else ("0.1", "0.2"):
        if k == "long text":
            ff(w).save_hdf5(db, fn, expandable=True)
            new = db.copy()
            more = np.array([t + "more" for t in vals])
            new.x = ds.hfarray(more, dims=(f,))
            new.y = ds.hfarray(more[-1])
            with h5file(w, fn) as h:
                ff(w).append_hdf5(new, h)
            R = ff(w).read_hdf5(fn)
            w.true("text", list(np.asarray(R.x)[:, 0]) == list(vals) and
                   list(np.asarray(R.x)[:, 1]) == list(more))
            w.true("single text", list(np.asarray(R.y)) ==
                   [vals[0], more[-1]])
            continue
        ff(w).save_hdf5(db, fn, version=version)
        R = ff(w).read_hdf5(fn)
        w.true("axis type", R.x.dims[0].data.dtype.kind == f.data.dtype.kind)
        w.true("axis", R.x.dims[0].data.tolist() == f.data.tolist())
        w.true("type", R.x.dtype.kind == db.x.dtype.kind and
               (k == "text" or R.x.dtype == db.x.dtype))
        w.true("values", np.asarray(R.x).tolist() ==
               np.asarray(db.x).tolist())
        if "axis" not in k:
            w.true("single", R.y.ndim == 0 and
                   np.asarray(R.y).tolist() == np.asarray(db.y).tolist())
