"""Reading and writing CITI files."""
import os
from engine.contract import contract
from contracts.common import untouched
from contracts.files import ff, pick, anysweep as sweep, write

CI = "file_formats.citi:"


def citi_number(w, typ, a, b):
    """The text of a data entry and the number it stands for."""
    ta, tb = w.text(a), w.text(b)
    if typ == "MAG":
        return ta, a
    if typ == "RI":
        return ta + "," + tb, a + w.j * b
    return ta + "," + tb, a * w.exp(w.j * w.pi * b / 180)


def axis(w, name, n, k, how):
    """Declaration text and labels of one swept variable."""
    if how == "seg":
        a, b = w.real(name + "_from"), w.real(name + "_to")
        w.assume(a != b)
        lines = ["SEG_LIST_BEGIN", "SEG %s %s %d" % (w.text(a), w.text(b), n),
                 "SEG_LIST_END"]
        m = max(n - 1, 1)
        lab = [(a * w.num(m - i) + b * w.num(i)) / w.num(m)
               for i in range(n)]
    else:
        v = sweep(w, name, n) if how == "list" else \
            w.raw(name, (n,), "f")
        lab = [w.at(v, (i,)) for i in range(n)]
        lines = ["VAR_LIST_BEGIN"] + ["  " + w.text(x) for x in lab] + [
            "VAR_LIST_END"]
    return lines, lab


@contract("C18", [CI + x for x in (
    "ReadCITIFileFormat.tokenize", "ReadCITIFileFormat.parse_blocks",
    "handle_data", "read_citi")] + [
    "file_formats.readbase:" + x for x in (
        "ManyOptional", "One", "OneOf", "Optional", "Stream.push",
        "ReadFileFormat.read_file", "ReadFileFormat.do_file")],
    cases=[dict(types=t, axes=a, com=c)
           for t, c in ((("MAG",), 0), (("RI",), 1), (("MAGANGLE",), 2),
                        (("RI", "MAG", "MAGANGLE"), 3))
           for a in (("list",), ("seg",), ("list", "seg"),
                     ("seg", "list"), ("any",))] +
          [dict(types=t, axes=a, com=c) for t, c, a in (
              (("RI", "MAG"), 1, ("list", "any", "seg")),
              (("MAG", "MAGANGLE", "RI", "MAG"), 2, ("seg", "list", "list")),
              (("MAGANGLE", "RI"), 0, ("any", "list", "any")),
              (("RI",), 0, ("any", "seg")))], runs=8)
def citi_data(w, types, axes, com):
    """Every number is found at the coordinates of its position."""
    names = ["Vsweep", "Pin", "Alpha_2"][:len(axes)]
    ns = [int(w.size("n%d" % k)) if k == 0 or not w.symbolic else k + 1
          for k in range(len(axes))]
    decl, labels = [], []
    for nm, n, how in zip(names, ns, axes):
        lines, lab = axis(w, nm, n, 0, how)
        decl += lines
        labels.append(lab)
    total = 1
    for n in ns:
        total *= n
    text = ["CITIFILE A.01.00"]
    if com == 1:
        text.insert(0, "# First: 7  ")
    if com in (1, 3):
        text.append("!Temp: 21")
    text.append("NAME block")
    if com == 2:
        text += ["# remark", "COMMENT Temp: 21"]
    text += ["VAR %s MAG %d" % (nm, n) for nm, n in zip(names, ns)]
    if com == 2:
        text += ["  !First: 7"]
    dn = ["alpha", "beta", "gamma", "Delta"][:len(types)]
    text += ["DATA %s %s" % (d, t) for d, t in zip(dn, types)]
    if com in (0, 3):
        text += ["COMMENT   First: 7"]
    if com == 3:
        text += ["CONSTANT TIME 2012 10 26 08 03 12"]
    text += decl
    if com == 0:
        text += ["#Temp: 21"]
    want = {}
    for d, t in zip(dn, types):
        a = w.raw(d + "_a", (total,), "f")
        b = w.raw(d + "_b", (total,), "f")
        text.append("BEGIN")
        want[d] = []
        for i in range(total):
            s, v = citi_number(w, t, w.at(a, (i,)), w.at(b, (i,)))
            text.append(("   " if i % 2 else "") + s)
            want[d].append(v)
        text.append("END")
    fn = write(w, "t.cti", "\n".join(text) + "\n\n")
    db = ff(w).read_citi(fn)
    ds = w.ds
    w.true("block name", db.blockname == "block")
    w.true("variables in order",
           [k for k in db.vardata.keys() if k in dn] == dn)
    for d in dn:
        R = db[d]
        w.true("shape", tuple(R.shape) == tuple(ns))
        w.true("axes", [x.name for x in R.dims] == names and
               all(isinstance(x, ds.DimSweep) for x in R.dims))
        for dim, lab in zip(R.dims, labels):
            for i, v in enumerate(lab):
                w.eq("axis label", w.at(dim.data, (i,)), v)
        for i in range(total):
            idx, r = [], i
            for n in reversed(ns):
                idx.insert(0, r % n)
                r //= n
            w.eq("value", w.at(R, tuple(idx)), want[d][i])
    w.eq("comment values", w.at(db.Temp, ()), 21)
    w.eq("comment values", w.at(db.First, ()), 7)
    w.true("comments", [c for c in db.comments.fullcomments
                        if c in ("First: 7", "Temp: 21")] == (
        ["First: 7", "Temp: 21"] if com < 2 else ["Temp: 21", "First: 7"]))
    if com == 3:
        w.true("time", "Measurement time: 2012-10-26 08:03:12" in
               db.comments.fullcomments)


@contract("C18", [CI + "ReadCITIFileFormat.parse_blocks",
                  "file_formats.readbase:match_matrix_elements",
                  "file_formats.readbase:_matrix_elements",
                  "file_formats.readbase:"
                  "ReadFileFormat._make_matrix_from_block"],
          cases=[dict(pat=p, order=o) for p in ("%s[%d,%d]", "%s%d%d")
                 for o in ("rows", "columns", "reversed", "mixed", "wide",
                           "tall")] +
                [dict(pat="%s[%d,%d]", order="incomplete"),
                 dict(pat="%s%d%d", order="incomplete")], runs=8)
def citi_matrix(w, pat, order):
    """A complete set of elements becomes a matrix, others stay."""
    n = int(w.size("n"))
    ports = cols = 2 if w.symbolic else w.choice("ports", [2, 3, 4])
    if order in ("mixed", "incomplete"):
        ports = cols = 3
    if order == "wide":
        cols += 1
    if order == "tall":
        ports += 1
    nm = "S" if w.symbolic else w.choice("name", ["S", "Zab", "y_p", "gain_"])
    f = sweep(w, "f", n)
    el = [(i, j) for i in range(ports) for j in range(cols)]
    if order == "mixed":
        el = el[3:5] + el[7:] + el[:3] + el[5:7]
    if order == "columns":
        el = [(j, i) for i, j in el]
    elif order == "reversed":
        el = el[::-1]
    elif order == "incomplete":
        el.pop(2 if w.symbolic else w.choice("missing", range(9)))
    x = w.raw("x", (n, ports, cols), "c")
    text = ["CITIFILE A.01.00", "NAME DATA1", "VAR freq MAG %d" % n]
    text += ["DATA %s RI" % (pat % (nm, i + 1, j + 1)) for i, j in el]
    text += ["VAR_LIST_BEGIN"] + [w.text(w.at(f, (k,))) for k in range(n)]
    text += ["VAR_LIST_END"]
    for i, j in el:
        text.append("BEGIN")
        for k in range(n):
            v = w.at(x, (k, i, j))
            text.append("%s,%s" % (w.text(w.re(v)), w.text(w.im(v))))
        text.append("END")
    db = ff(w).read_citi(write(w, "t.cti", "\n".join(text) + "\n"))
    ds = w.ds
    if order == "incomplete":
        w.true("no matrix", nm not in db.vardata)
        for i, j in el:
            R = db[pat % (nm, i + 1, j + 1)]
            w.same_array("element", R, lambda k: w.at(x, (k, i, j)), (n,))
        return
    M = db[nm]
    w.true("matrix", tuple(M.shape) == (n, ports, cols) and
           isinstance(M.dims[1], ds.DimMatrix_i) and
           isinstance(M.dims[2], ds.DimMatrix_j))
    w.same_dim("frequency axis", M.dims[0], ds.DimSweep, "freq", f, "Hz")
    w.same_array("matrix", M, lambda *i: w.at(x, i), (n, ports, cols))
    w.true("no elements left",
           not any(k.startswith(nm) and k != nm for k in db.vardata))


@contract("C18", [CI + "save_citi", CI + "format_citi_block",
                  CI + "read_citi"],
          cases=[dict(kind=k, again=a) for k in (
              "one", "two", "swapped", "matrix", "matrix2", "rectangle",
              "three", "rotated", "matrices", "ports",
              "scalars", "comments", "texts") for a in (False, True)], runs=6)
def citi_round_trip(w, kind, again):
    """What save_citi writes is read back."""
    ds = w.ds
    n, m = int(w.size("n")), 2
    F = ds.DimSweep("freq", sweep(w, "f", n), unit="Hz")
    G = ds.DimSweep("Pin", sweep(w, "g", m))
    H = ds.DimSweep("Load", sweep(w, "h", 3))
    I, J = ds.DimMatrix_i("i", 2), ds.DimMatrix_j("j", 2)
    db = ds.DataBlock()
    db.blockname = "the block"
    src = {}

    def add(name, dims, kind):
        src[name] = (w.raw(name, [len(d.data) for d in dims], kind), dims)
        db[name] = ds.hfarray(src[name][0], dims=dims)

    if kind == "rectangle":
        J = ds.DimMatrix_j("j", 3)
        add("Z", (F, I, J), "c")
        add("beta", (F,), "f")
    elif kind in ("one", "scalars", "comments", "texts"):
        add("alpha", (F,), "f")
        add("beta", (F,), "c")
    elif kind == "two":
        add("alpha", (F, G), "c")
        add("beta", (F, G), "f")
    elif kind == "swapped":
        add("alpha", (F, G), "c")
        add("beta", (G, F), "f")
    elif kind == "three":
        add("alpha", (F, G, H), "c")
        add("beta", (F, G, H), "f")
    elif kind == "rotated":
        add("alpha", (H, F, G), "f")
        add("beta", (F, G, H), "c")
        add("gamma", (G, F, H), "f")
    elif kind == "matrices":
        add("A", (G, F, I, J), "f")
        add("beta", (F, G), "c")
        add("Z", (F, G, I, J), "c")
        add("alpha", (G, F), "f")
    elif kind == "ports":
        p = 3 if w.symbolic else w.choice("ports", [3, 4, 5])
        I, J = ds.DimMatrix_i("i", p), ds.DimMatrix_j("j", p)
        add("Z", (F, I, J), "c")
    elif kind == "matrix":
        add("Z", (F, I, J), "c")
        add("beta", (F,), "f")
    else:
        add("Z", (F, G, I, J), "c")
        add("Y", (F, G, I, J), "f")
    t = None
    if kind == "texts":
        db.label = ds.hfarray(w.np.array(["r%d" % i for i in range(n)]),
                              dims=(F,))
    if kind == "scalars":
        t = w.real("T")
        db.Temp = ds.hfarray(t)
    if kind == "comments":
        db.comments = ff(w).Comments(["Operator: någon", "no colon",
                                      "Temp: 21"])
        t = 21
    fn = os.path.join(w.tmpdir(), "t.cti")
    ff(w).save_citi(db, fn)
    for name in src:
        untouched(w, "source unchanged", db[name], src[name][0],
                  src[name][1])
    R = ff(w).read_citi(fn)
    if "Z" in src and not again:
        E = ff(w).read_citi(fn, make_matrix=False)
        Z, zd = src["Z"]
        for i in range(len(zd[-2].data)):
            for j in range(len(zd[-1].data)):
                X = E["Z%d%d" % (i + 1, j + 1)]
                at = [[d.name for d in zd].index(e.name) for e in X.dims]
                for idx in w.forall([len(d.data) for d in zd[:-2]]):
                    w.eq("element", w.at(X, [idx[k] for k in at]),
                         w.at(Z, tuple(idx) + (i, j)))
    if again:
        ff(w).save_citi(R, fn)
        R = ff(w).read_citi(fn)
    w.true("block name", R.blockname == "the block")
    w.true("order", [k for k in R.vardata.keys() if k in src] == list(src)
           or "Z" in src)
    for name in src:
        raw, dims = src[name]
        X = R[name]
        w.true("axes", sorted(d.name for d in X.dims) ==
               sorted(d.name for d in dims))
        pos = [[e.name for e in X.dims].index(d.name) for d in dims]
        for k, d in enumerate(dims):
            e = X.dims[pos[k]]
            w.true("axis class", isinstance(e, d.__class__))
            if isinstance(d, ds.DimSweep):
                w.same_seq("axis labels", e.data, d.data)
        for idx in w.forall([len(d.data) for d in dims]):
            where = [None] * len(dims)
            for k, p in enumerate(pos):
                where[p] = idx[k]
            w.eq("value", w.at(X, tuple(where)), w.at(raw, idx))
    if t is not None:
        w.eq("scalars and comment values", w.at(R.Temp, ()), t)
    if kind == "comments":
        w.true("comments", [c for c in R.comments.fullcomments if
                            not c.startswith("FILENAME")][:3] ==
               ["Operator: någon", "no colon", "Temp: 21"])


@contract("C18", [CI + "ReadCITIFileFormat.tokenize",
                  CI + "ReadCITIFileFormat.parse_blocks", CI + "handle_data"],
          cases=[dict(what=x) for x in (
              "garbage line", "data type", "short data", "long data",
              "no end", "no list", "no name", "no var end")], runs=4)
def citi_errors(w, what):
    """A file that does not hold what it declares is refused."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    x = w.raw("x", (n,), "f")
    data = [w.text(w.at(x, (i,))) for i in range(n)]
    if what == "short data":
        data = data[:-1]
    elif what == "long data":
        data = data + ["1.5"]
    text = ["CITIFILE A.01.00"] + (
        [] if what == "no name" else ["NAME DATA1"]) + [
        "VAR freq MAG %d" % n,
        "DATA alpha %s" % ("XX" if what == "data type" else "MAG")] + (
        ["GARBAGE"] if what == "garbage line" else []) + (
        [] if what == "no list" else
        ["VAR_LIST_BEGIN"] + [w.text(w.at(f, (i,))) for i in range(n)] +
        ([] if what == "no var end" else ["VAR_LIST_END"])) + [
        "BEGIN"] + data + ([] if what == "no end" else ["END"])
    with w.raises("refused: " + what, Exception):
        ff(w).read_citi(write(w, "t.cti", "\n".join(text) + "\n"))
