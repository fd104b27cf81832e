"""Reading and writing MDIF files."""
import os
from engine.contract import contract
from contracts.common import untouched
from contracts.files import ff, anysweep as sweep, write
from contracts.spdata import values

MD = "file_formats.mdif:"
DS = "dataset.dataset:"


def cplx_text(w, v):
    return [w.text(w.re(v)), w.text(w.im(v))]


@contract("C20", [MD + x for x in (
    "ReadMDIFFileFormat.tokenize", "ReadMDIFFileFormat.group_blocks",
    "ReadMDIFFileFormat.parse_blocks", "ReadMDIFFileFormat.proc_data",
    "ReadMDIFFileFormat.proc_attrib", "ReadMDIFFileFormat.make_matrices",
    "GetData.parse_data", "GetData.parse_header", "GetData.get_complex",
    "match_matrix_names", "is_matrix_name", "is_vector_name", "read_mdif")],
    cases=[dict(kind=k, lines=n) for k in (
        "plain", "matrix", "shuffled", "vector", "incomplete", "attributes",
        "3x3", "2x3", "several", "gap", "long vector", "quoted", "texts",
        "offset vector")
        for n in (1, 2, 3)], runs=6)
def mdif_block(w, kind, lines):
    """Every column ends up in the variable its header names."""
    n = int(w.size("n"))
    ds = w.ds
    f = sweep(w, "f", n)
    raw, x = values(w, "x", (n, 3, 3), "c")
    _, a = values(w, "a", (n,))
    P, Q = {"3x3": (3, 3), "2x3": (2, 3)}.get(kind, (2, 2))
    order = [(p, q) for p in range(P) for q in range(Q)]
    texts = ["", "two words", "row", "a=b (c)", " padded "]
    if kind == "shuffled":
        order = [[(1, 0), (0, 0), (1, 1), (0, 1)],
                 [(0, 1), (0, 0), (1, 1), (1, 0)],
                 [(1, 1), (1, 0), (0, 1), (0, 0)]][lines - 1]
    if not w.symbolic and kind in ("shuffled", "3x3", "2x3", "several"):
        order = w.rng.sample(order, len(order))
    elif kind == "gap":
        order = [(0, 0), (0, 2), (2, 0), (2, 2)]
    elif kind == "incomplete":
        order = [(0, 0), (1, 1), (1, 0)]
    cols = []
    if kind == "plain":
        cols = [("beta(complex)", lambda i: cplx_text(w, x(i, 0, 0))),
                ("gamma(integer)", lambda i: [str(i * i)]),
                ("label(string)", lambda i: ['"row%d"' % i])]
    elif kind in ("vector", "long vector", "offset vector"):
        ks = {"vector": (1, 0), "long vector": (2, 0, 1)}.get(kind, (1, 2))
        cols = [("v[%d](complex)" % (k + 1),
                 lambda i, k=k: cplx_text(w, x(i, k, 0))) for k in ks]
    elif kind == "quoted":
        cols = [("beta(complex)", lambda i: ['"%s"' % s for s in cplx_text(
                    w, x(i, 0, 0))]),
                ("gamma(integer)", lambda i: ['"%d"' % (7 - i)]),
                ("delta(real)", lambda i: [
                    '"%s"' % w.text(w.re(x(i, 0, 1)))])]
    elif kind == "texts":
        cols = [("label(string)", lambda i: [
                    '"%s"' % texts[i % len(texts)]]),
                ("beta(complex)", lambda i: cplx_text(w, x(i, 0, 0))),
                ("kind(string)", lambda i: [
                    '"%s"' % texts[(i + 1) % len(texts)]])]
    elif kind == "several":
        cols = [("Z[%d,%d](complex)" % (p + 1, q + 1),
                 lambda i, p=p, q=q: cplx_text(w, x(i, p, q)))
                for p, q in order]
        cols += [("between(real)", lambda i: [w.text(w.re(x(i, 2, 2)))])]
        cols += [("A[%d,%d](real)" % (p + 1, q + 1),
                  lambda i, p=p, q=q: [w.text(w.im(x(i, p, q)))])
                 for p, q in order]
    elif kind != "attributes":
        cols = [("X.m[%d,%d](complex)" % (p + 1, q + 1),
                 lambda i, p=p, q=q: cplx_text(w, x(i, p, q)))
                for p, q in order]
    cols = [("SWEEP.freq(real)" if kind == "plain" else "freq(real)",
             lambda i: [w.text(w.at(f, (i,)))]),
            ("alpha(real)", lambda i: [w.text(a(i))])] + cols
    if lines == 1 or len(cols) < 3:
        groups = [cols]
    elif lines == 2 or len(cols) < 4:
        groups = [cols[:2], cols[2:]]
    else:
        groups = [cols[:1], cols[1:3], cols[3:]]
    t = w.real("t")
    text = ["! a remark", "!Temp: 21", "BEGIN the.block"]
    if kind == "attributes":
        text += ["# P1(real) = " + w.text(t),
                 "# P2(complex) = " + " ".join(cplx_text(w, x(0, 0, 0))),
                 '# P3(string) = "some text"',
                 '# SWEEP.P4(string) = "a = b = c"',
                 "# SWEEP.P5(real) = " + w.text(w.im(x(0, 0, 1)))]
    for g in groups:
        text.append("% " + "  ".join(c[0] for c in g))
    for i in range(n):
        for g in groups:
            text.append(" " + "\t".join(s for c in g for s in c[1](i)))
        if i == 0:
            text.append("")
    text.append("END")
    text.append("! the end")
    fn = write(w, "t.mdif", "\n".join(text) + "\n")
    out = ff(w).read_mdif(fn, verbose=False)
    w.true("blocks by name", list(out.keys()) == ["the.block"])
    db = out["the.block"]
    w.true("block name", db.blockname == "the.block")
    dim = ds.DimSweep("freq", f, unit="Hz")
    w.dims_are("alpha", db.alpha, [dim])
    w.same_array("alpha", db.alpha, a, (n,))
    w.eq("comment value", w.at(db.Temp, ()), 21)
    w.true("comments", db.comments.fullcomments == ["a remark", "Temp: 21"])
    if kind == "plain":
        w.dims_are("beta", db.beta, [dim])
        w.same_array("beta", db.beta, lambda i: x(i, 0, 0), (n,))
        w.same_array("gamma", db.gamma, lambda i: i * i, (n,))
        w.true("label", [str(v) for v in db.label] ==
               ["row%d" % i for i in range(n)])
    elif kind in ("vector", "long vector"):
        m = 2 if kind == "vector" else 3
        w.true("vector", tuple(db.v.shape) == (n, m) and
               isinstance(db.v.dims[1], ds.DimMatrix_j))
        w.dims_are("vector", db.v, [dim] + list(db.v.dims[1:]))
        w.same_array("vector", db.v, lambda i, k: x(i, k, 0), (n, m))
        w.true("no elements left", not any("[" in k for k in db.vardata))
    elif kind == "offset vector":
        w.true("no vector", "v" not in db)
        for k in (1, 2):
            w.same_array("element", db["v[%d]" % (k + 1)],
                         lambda i: x(i, k, 0), (n,))
    elif kind == "quoted":
        w.same_array("beta", db.beta, lambda i: x(i, 0, 0), (n,))
        w.same_array("gamma", db.gamma, lambda i: 7 - i, (n,))
        w.same_array("delta", db.delta, lambda i: w.re(x(i, 0, 1)), (n,))
    elif kind == "texts":
        w.same_array("beta", db.beta, lambda i: x(i, 0, 0), (n,))
        w.true("label", [str(v) for v in db.label] ==
               [texts[i % len(texts)] for i in range(n)])
        w.true("kind", [str(v) for v in db.kind] ==
               [texts[(i + 1) % len(texts)] for i in range(n)])
    elif kind == "several":
        w.true("order of variables", [k for k in db.vardata.keys()
                                      if k not in ("Temp", "FILENAME")] ==
               ["alpha", "Z", "between", "A"])
        w.same_array("first", db.Z, x, (n, 2, 2))
        w.same_array("second", db.A, lambda i, p, q: w.im(x(i, p, q)),
                     (n, 2, 2))
        w.same_array("between", db.between, lambda i: w.re(x(i, 2, 2)),
                     (n,))
    elif kind == "attributes":
        w.eq("real attribute", w.at(db.P1, ()), t)
        w.eq("complex attribute", w.at(db.P2, ()), x(0, 0, 0))
        w.true("text attribute", str(w.at(db.P3, ())) == "some text")
        w.true("text with =", str(w.at(db.P4, ())) == "a = b = c")
        w.eq("swept attribute", w.at(db.P5, ()), w.im(x(0, 0, 1)))
    elif kind in ("incomplete", "gap"):
        w.true("no matrix", "X.m" not in db)
        for p, q in order:
            w.same_array("element", db["X.m[%d,%d]" % (p + 1, q + 1)],
                         lambda i: x(i, p, q), (n,))
    else:
        M = db["X.m"]
        w.true("matrix", isinstance(M.dims[1], ds.DimMatrix_i) and
               isinstance(M.dims[2], ds.DimMatrix_j))
        w.dims_are("matrix", M, [dim] + list(M.dims[1:]))
        w.same_array("matrix", M, x, (n, P, Q))
        w.true("no elements left", not any("[" in k for k in db.vardata))


@contract("C20", [MD + "ReadMDIFFileFormat.group_blocks",
                  MD + "ReadMDIFFileFormat.proc_var",
                  MD + "ReadMDIFFileFormat._merge",
                  MD + "ReadMDIFFileFormat.read_file",
                  MD + "simple_merge_blocks"],
          cases=[dict(blocks=b, files=m) for b in (1, 2, 3, 11)
                 for m in (False, True)], runs=6)
def mdif_blocks(w, blocks, files):
    """Blocks of the same name are stacked, others kept apart."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    pv = w.raw("p", (blocks, 2), "f")
    _, a = values(w, "a", (blocks, n), "c")
    _, b = values(w, "b", (blocks,))
    _, c = values(w, "c", (n,))
    text = []
    for k in range(blocks):
        text += ["!Temp: 21"] if k == 0 else []
        text += ["  !  plain remark %d" % k] if k else []
        text += ["VAR Vg(real) = " + w.text(w.at(pv, (k, 0))),
                 "VAR SWEEP.Pin(real) = " + w.text(w.at(pv, (k, 1))),
                 "BEGIN meas", "# Id(real) = " + w.text(b(k)),
                 "% freq(real) alpha(complex)"]
        text += [" ".join([w.text(w.at(f, (i,)))] + cplx_text(w, a(k, i)))
                 for i in range(n)]
        text += ["END", ""]
        if k == 0:
            text += ["BEGIN other", "% freq(real) gamma(real)"]
            text += [w.text(w.at(f, (i,))) + " " + w.text(c(i))
                     for i in range(n)]
            text += ["END"]
    fn = write(w, "t1.mdif", "\n".join(text) + "\n")
    N = blocks
    if files:
        write(w, "t2.mdif", "\n".join(text[1:]) + "\n",
              where=os.path.dirname(fn))
        where = os.path.dirname(fn)
        fn = os.path.join(where, "t*.mdif")
        N = 2 * blocks
        if blocks == 2:
            fn = [os.path.join(where, "t1.mdif"),
                  os.path.join(where, "t2.m*")]
    out = ff(w).read_mdif(fn, verbose=False)
    w.true("blocks", sorted(out) == ["meas", "other"])
    db = ff(w).read_mdif(fn, verbose=False, blockname="meas")
    w.true("block name", db.blockname == "meas")
    R = db.alpha
    ds = w.ds
    w.same_dim("sweep axis", R.dims[0], ds.DimSweep, "freq", f, "Hz")
    if N == 1:
        w.same_array("value", R, lambda i: a(0, i), (n,))
        w.eq("parameter", w.at(db.ivardata["Vg"].data, (0,)),
             w.at(pv, (0, 0)))
        w.eq("attribute", w.at(db.Id, ()), b(0))
    else:
        w.true("index axis", R.dims[1].name == "INDEX" and
               isinstance(R.dims[1], ds.DimRep))
        w.same_array("value", R, lambda i, k: a(k % blocks, i), (n, N))
        for nm, q in (("Vg", 0), ("Pin", 1)):
            w.dims_are(nm, db[nm], [R.dims[1]])
            w.same_array("parameter", db[nm],
                         lambda k: w.at(pv, (k % blocks, q)), (N,))
        w.dims_are("Id", db.Id, [R.dims[1]])
        w.same_array("attribute", db.Id, lambda k: b(k % blocks), (N,))
    w.eq("comment value", w.at(db.Temp, ()), 21)
    notes = ["plain remark %d" % k for k in range(1, blocks)]
    w.true("comments of all blocks", db.comments.fullcomments ==
           ["Temp: 21"] + notes + (notes if files else []))
    names = [os.path.basename(str(v)) for v in (
        db.FILENAME if db.FILENAME.dims else [w.at(db.FILENAME, ())])]
    w.true("file names", names == ["t%d.mdif" % (k // blocks + 1)
                                   for k in range(N)])
    O = out["other"].gamma
    if files:
        w.same_array("other block", O, lambda i, k: c(i), (n, 2))
    else:
        w.same_array("other block", O, c, (n,))
    with w.raises("unknown block", w.mod(
            "hftools.file_formats.mdif").MDIFError):
        ff(w).read_mdif(fn, verbose=False, blockname="nothing")


@contract("C20", [MD + "save_mdif", MD + "fmt_mdif_block", MD + "loop_db",
                  MD + "read_mdif", DS + "convert_matrices_to_elements",
                  DS + "yield_dim_consistent_datablocks"],
          cases=[dict(kind=k, again=a) for k in (
              "one", "two", "three", "matrix", "matrix2", "attributes",
              "scalars", "scalars2", "comments", "3x3", "2x3", "many",
              "texts", "nameless", "repetition")
              for a in (False, True)], runs=6)
def mdif_round_trip(w, kind, again):
    """What save_mdif writes is read back."""
    ds = w.ds
    n, m = int(w.size("n")), 2
    F = ds.DimSweep("freq", sweep(w, "f", n), unit="Hz")
    G = ds.DimSweep("Pin", sweep(w, "g", m))
    H = ds.DimSweep("Vx", sweep(w, "h", 3))
    P, Q = {"3x3": (3, 3), "2x3": (2, 3)}.get(kind, (2, 2))
    I, J = ds.DimMatrix_i("i", P), ds.DimMatrix_j("j", Q)
    bname = "DATABLOCK" if kind == "nameless" else "the.block"
    db = ds.DataBlock()
    if kind != "nameless":
        db.blockname = bname
    if kind == "repetition":
        G = ds.DimRep("Pin", 2)
    src = {}

    def add(name, dims, kind, **kw):
        src[name] = (w.raw(name, [len(d.data) for d in dims], kind), dims)
        db[name] = ds.hfarray(src[name][0], dims=dims, **kw)

    outer = {"two": (G,), "three": (G, H), "matrix2": (G,),
             "attributes": (G,), "scalars2": (G,), "3x3": (G,),
             "repetition": (G,), "many": (H, G)}.get(kind, ())
    if kind == "many":
        add("Z", (F,) + outer + (I, J), "c")
        add("beta", (F,) + outer, "f")
        add("Y", (F,) + outer + (I, J), "f")
        add("Id", outer, "f")
    elif kind in ("matrix", "matrix2", "3x3", "2x3"):
        add("Z", (F,) + outer + (I, J), "c")
        add("beta", (F,) + outer, "f")
    else:
        add("alpha", (F,) + outer, "f")
        add("beta", (F,) + outer, "c")
    if kind == "attributes":
        add("Id", (G,), "f")
        add("Ic", (G,), "c")
    if kind == "scalars":
        add("Temp", (), "f")
        add("Tc", (), "c")
    elif kind == "scalars2":
        add("Temp", (), "f")
    texts = [("", "two words", "row %d" % i)[i % 3] for i in range(n)]
    if kind == "texts":
        db.label = ds.hfarray(texts, dims=(F,))
        add("last", (F,), "f")
        db.kind = ds.hfarray(texts[::-1], dims=(F,))
    if kind == "comments":
        db.comments = ff(w).Comments(["Operator: någon", "no colon"])
    fn = os.path.join(w.tmpdir(), "t.mdif")
    ff(w).save_mdif(db, fn)
    for name in src:
        untouched(w, "source unchanged", db[name], src[name][0],
                  src[name][1])
    out = ff(w).read_mdif(fn, verbose=False)
    if again:
        ff(w).save_mdif(out[bname], fn)
        out = ff(w).read_mdif(fn, verbose=False)
    w.true("block name", list(out.keys()) == [bname])
    R = out[bname]
    if kind == "texts":
        w.true("texts", [str(v) for v in R.label] == texts)
        w.true("texts", [str(v) for v in R.kind] == texts[::-1])
    sizes = [len(d.data) for d in outer]
    total = 1
    for s in sizes:
        total *= s

    def split(k):
        idx = []
        for s in reversed(sizes):
            idx.insert(0, k % s)
            k //= s
        return tuple(idx)

    for name in src:
        raw, dims = src[name]
        X = R[name]
        sweeps = [d for d in dims if d is F]
        mats = [d for d in dims if d is I or d is J]
        has = [d for d in dims if d is G or d is H]
        w.true(name + ": axes", [d.name for d in X.dims] ==
               [d.name for d in sweeps] + (["INDEX"] if has else []) +
               [d.name for d in mats])
        for d in X.dims:
            if d.name == "freq":
                w.same_seq("axis labels", d.data, F.data)
        shape = [n] * len(sweeps) + ([total] if has else []) + \
            [P, Q][:len(mats)]

        def want(*i):
            i = list(i)
            pos = tuple(i[:len(sweeps)])
            k = split(i[len(sweeps)]) if has else ()
            return w.at(raw, pos + k + tuple(i[len(i) - len(mats):]
                                             if mats else ()))
        w.same_array(name, X, want, tuple(shape))
    for q, d in enumerate(outer):
        w.same_array("swept parameter", R[d.name],
                     lambda k: w.at(d.data, (split(k)[q],)), (total,))
    if kind == "comments" and not again:
        w.true("comments", R.comments.fullcomments[1:] ==
               ["Operator: någon", "no colon"])


@contract("C20", [MD + "ReadMDIFFileFormat.tokenize",
                  MD + "ReadMDIFFileFormat.group_blocks",
                  MD + "GetData.parse_data", MD + "GetData.parse_header",
                  MD + "simple_merge_blocks"],
          cases=[dict(what=x) for x in (
              "no begin", "no end", "second not ended", "type", "short row",
              "no data", "var type", "other frequencies",
              "other variables", "long row", "attribute type",
              "not a number", "last row missing")], runs=4)
def mdif_errors(w, what):
    """Truncated or inconsistent files are refused."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    x = w.raw("x", (n, 2), "f")
    text = []
    blocks = 1
    if what in ("second not ended", "other frequencies", "other variables"):
        blocks = 3
    for k in range(blocks):
        rows = [[w.text(w.at(f, (i,))), w.text(w.at(x, (i, 0))),
                 w.text(w.at(x, (i, 1)))] for i in range(n)]
        last = k == blocks - 1
        if what == "short row":
            del rows[-1][-1]
        elif what == "long row":
            rows[-1].append("1")
        elif what == "not a number":
            rows[-1][-1] = "abc"
        elif what == "no data":
            rows = []
        elif what == "other frequencies" and last:
            rows[0][0] = w.text(w.at(f, (0,)) - 1)
        name = "beta"
        if what == "other variables" and last:
            name = "gamma"
        text += ["VAR Vg(%s) = %d" % (
            "text" if what == "var type" else "real", k)]
        text += [] if what == "no begin" else ["BEGIN meas"]
        if what == "attribute type":
            text += ["# P(other) = 1"]
        if what == "last row missing":
            text += ["% freq(real) alpha(real)", "% " + name + "(real)"]
            text += [x for r in rows for x in ("\t".join(r[:2]), r[2])][:-1]
        else:
            text += ["% freq(real) alpha(real) " + name + (
                "(unknown)" if what == "type" else "(real)")]
            text += ["\t".join(r) for r in rows]
        if what == "no end" or what == "second not ended" and last:
            continue
        text.append("END")
    with w.raises("refused: " + what, Exception):
        ff(w).read_mdif(write(w, "t.mdif", "\n".join(text) + "\n"),
                        verbose=False)


@contract("C20", [MD + "simple_merge_blocks", MD + "read_mdif",
                  MD + "ReadMDIFFileFormat._merge",
                  MD + "ReadMDIFFileFormat.proc_var"],
          cases=[dict(blocks=b, how=h) for b in (1, 2, 3)
                 for h in ("pattern", "single", "off")], runs=6)
def mdif_units(w, blocks, how):
    """Units in the names of columns and parameters scale all blocks."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    _, a = values(w, "a", (blocks, n, 2))
    _, p = values(w, "p", (blocks,))
    t = w.text
    text = []
    for k in range(blocks):
        text += ["VAR Vg[mV](real) = " + t(p(k)), "BEGIN blk",
                 "% freq[GHz](real) Vd[mV](real) Ic[kA](complex)"]
        text += ["%s %s %s %s" % (t(w.at(f, (i,))), t(a(k, i, 0)),
                                  t(a(k, i, 0)), t(a(k, i, 1)))
                 for i in range(n)] + ["END"]
    fn = write(w, "t.mdif", "\n".join(text) + "\n")
    kw = {"guess_unit": False} if how == "off" else {}
    if how == "single":
        kw["multiple_files"] = False
        kw["merge"] = True
    R = ff(w).read_mdif(fn, verbose=False, **kw)["blk"]
    if how == "single":
        w.true("one block of each name", len(R) == 1)
        R = R[0]
    off = how == "off"
    V, I, P = ("Vd[mV]", "Ic[kA]", "Vg[mV]") if off else ("Vd", "Ic", "Vg")
    w.true("units", (R[V].unit, R[I].unit) == (
        (None, None) if off else ("V", "A")))
    milli = 1 if off else w.num(1) / 1000
    kilo = 1 if off else 1000
    giga = 1 if off else w.num(1e9)
    F = R[V].dims[0]
    w.true("axis", F.name == ("freq[GHz]" if off else "freq") and
           F.unit == (None if off else "Hz"))
    for i in range(n):
        w.eq("labels", w.at(F.data, (i,)), w.at(f, (i,)) * giga)
        for k in range(blocks):
            pos = (i, k) if blocks > 1 else (i,)
            w.eq("real", w.at(R[V], pos), a(k, i, 0) * milli)
            w.eq("complex", w.at(R[I], pos),
                 (a(k, i, 0) + w.j * a(k, i, 1)) * kilo)
    if blocks == 1:
        w.eq("parameter", w.at(R.ivardata[P].data, (0,)), p(0) * milli)
        w.true("unit", R.ivardata[P].unit == (None if off else "V"))
    else:
        w.true("unit", R[P].unit == (None if off else "V"))
        for k in range(blocks):
            w.eq("parameter", w.at(R[P], (k,)), p(k) * milli)
