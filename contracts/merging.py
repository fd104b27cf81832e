"""Merging measurement blocks."""
import itertools
from engine.contract import contract
from contracts.common import make_dim, mk, untouched
from contracts.files import ff

MG = "file_formats.merge:"


def block(w, F, k, params, alpha, beta, extra=None):
    """One measurement: data over the sweep F at fixed parameters."""
    ds = w.ds
    db = ds.DataBlock()
    db.blockname = "block%d" % k
    for name, v in params:
        db[name] = ds.DimPartial(name, [v], unit="V")
    db.alpha = ds.hfarray(alpha, dims=(F,), unit="A")
    if beta is not None:
        I, J = ds.DimMatrix_i("i", 2), ds.DimMatrix_j("j", 2)
        db.beta = ds.hfarray(beta, dims=(F, I, J))
    if extra is not None:
        db.gamma = ds.hfarray(extra, unit="K")
    db.comments = ff(w).Comments(["number: %d" % k])
    return db


@contract("C22", [MG + "merge_blocks", MG + "get_partials",
                  MG + "partial_names"],
          cases=[dict(blocks=b, part=p, once=o) for b in (1, 2, 3)
                 for p in (1, 2) for o in (False, True)], runs=6)
def merge_stack(w, blocks, part, once):
    """Blocks are stacked in order along one index axis."""
    ds = w.ds
    n = w.size("n", lo=2)
    lab = w.raw("f", (n,), "f")
    a = [w.raw("a%d" % k, (n,), "f") for k in range(blocks)]
    b = [w.raw("b%d" % k, (n, 2, 2), "c") for k in range(blocks)]
    c = [w.real("c%d" % k) for k in range(blocks)]
    p = [[w.real("p%d_%d" % (k, q)) for q in range(part)]
         for k in range(blocks)]
    names = ["Vg", "Vd"][:part]
    src = []
    for k in range(blocks):
        par = list(zip(names, p[k]))
        if k == 1:
            par = par[::-1]
        F = ds.DimSweep("freq", lab, unit="Hz")
        src.append(block(w, F, k, par, a[k], b[k],
                         c[k] if k == 0 or not once else None))
    R = ff(w).merge_blocks(src)
    F = ds.DimSweep("freq", lab, unit="Hz")
    order = ["alpha", "beta", "gamma"]
    w.true("variables in order",
           [v for v in R.vardata.keys() if v in order] == order)
    w.true("block name", R.blockname == "block0")
    w.true("comments", R.comments.fullcomments ==
           ["number: %d" % k for k in range(blocks)])
    if blocks == 1:
        w.dims_are("alpha", R.alpha, [F])
        w.same_array("alpha", R.alpha, lambda i: w.at(a[0], (i,)), (n,))
        w.eq("gamma", w.at(R.gamma, ()), c[0])
        return
    X = ds.DimSweep("INDEX1", blocks)
    w.dims_are("alpha", R.alpha, [F, X])
    w.true("unit", R.alpha.unit == "A")
    w.dims_are("beta", R.beta, [F, X] + list(src[0].beta.dims[1:]))
    for i, in w.forall((n,)):
        for k in range(blocks):
            w.eq("alpha", w.at(R.alpha, (i, k)), w.at(a[k], (i,)))
            for r in range(2):
                for s in range(2):
                    w.eq("beta", w.at(R.beta, (i, k, r, s)),
                         w.at(b[k], (i, r, s)))
    for q, name in enumerate(names):
        w.dims_are(name, R[name], [X])
        w.true("parameter unit", R[name].unit == "V")
        for k in range(blocks):
            w.eq("parameter", w.at(R[name], (k,)), p[k][q])
    if once:
        w.true("single value", R.gamma.ndim == 0)
        w.eq("single value", w.at(R.gamma, ()), c[0])
    else:
        w.dims_are("gamma", R.gamma, [X])
        for k in range(blocks):
            w.eq("gamma", w.at(R.gamma, (k,)), c[k])
    w.true("unit of values", R.gamma.unit == "K")
    for k in range(blocks):
        untouched(w, "source %d" % k, src[k].alpha, a[k], [F])


@contract("C22", [MG + "merge_blocks", "dataset.dataset:DataBlock.hyper"],
          cases=[dict(order=o, part=p) for o in ("sorted", "mixed", "swapped")
                 for p in (1, 2)], runs=6)
def merge_hyper(w, order, part):
    """hyper spreads the blocks over one axis per parameter."""
    ds = w.ds
    n = w.size("n", lo=2)
    lab = w.raw("f", (n,), "f")
    if part == 1:
        pts = [(0.5,), (1.5,), (4.0,)]
    else:
        pts = [(v, u) for v in (0.5, 1.5) for u in (-2.0, 3.0, 7.0)]
    grid = [sorted(set(x[q] for x in pts)) for q in range(part)]
    if order != "sorted":
        pts = pts[2:] + pts[:2]
        pts = pts[::-1] if part == 2 else pts
    names = ["Vg", "Vd"][:part]
    a = [w.raw("a%d" % k, (n,), "f") for k in range(len(pts))]
    b = [w.raw("b%d" % k, (n, 2, 2), "c") for k in range(len(pts))]
    src = []
    for k, x in enumerate(pts):
        par = list(zip(names, x))
        if order == "swapped" and k % 2:
            par = par[::-1]
        src.append(block(w, ds.DimSweep("freq", lab, unit="Hz"), k, par,
                         a[k], b[k]))
    R = ff(w).merge_blocks(src, hyper=True)
    w.same_dim("sweep axis", R.alpha.dims[0], ds.DimSweep, "freq", lab, "Hz")
    w.true("axes", [d.name for d in R.alpha.dims[1:]] == names)
    w.true("matrix axes", [d.name for d in R.beta.dims[1:]] ==
           names + ["i", "j"])
    for q, d in enumerate(R.alpha.dims[1:]):
        have = [float(x) for x in d.data]
        w.true("labels", sorted(have) == grid[q])
        grid[q] = have
    for k, x in enumerate(pts):
        pos = tuple(g.index(v) for g, v in zip(grid, x))
        for i, in w.forall((n,)):
            w.eq("alpha", w.at(R.alpha, (i,) + pos), w.at(a[k], (i,)))
            for r in range(2):
                for s in range(2):
                    w.eq("beta", w.at(R.beta, (i,) + pos + (r, s)),
                         w.at(b[k], (i, r, s)))


@contract("C22", [MG + "merge_blocks"],
          cases=[dict(what=x, good=g) for x in (
              "labels", "unit", "length", "name", "rank") for g in (1, 2, 4)],
          runs=6)
def merge_refused(w, what, good):
    """Blocks over different axes are not merged."""
    ds = w.ds
    n = w.size("n", lo=2)
    lab = w.raw("f", (n,), "f")
    unit, name, lab2 = "Hz", "freq", lab
    if what == "labels":
        lab, lab2 = [1.5, 2.5], [1.5, 3.5]
        n = 2
    elif what == "unit":
        unit = "s"
    elif what == "name":
        name = "time"
    elif what == "length":
        m = w.size("m", lo=2)
        w.assume(m != n)
        lab2 = w.raw("g", (m,), "f")
    m = m if what == "length" else n
    a = w.raw("a", (n,), "f")
    db = [block(w, ds.DimSweep("freq", lab, unit="Hz"), k, [("Vg", -k)],
                a, None) for k in range(good)]
    F = ds.DimSweep(name, lab2, unit=unit)
    b = w.raw("b", (m,), "f")
    second = block(w, F, 1, [("Vg", 1.5)], b, None)
    if what == "rank":
        second.alpha = ds.hfarray(w.real("c"))
    with w.raises("refused: " + what,
                  w.ds.HFArrayShapeDimsMismatchError if hasattr(
                      w.ds, "HFArrayShapeDimsMismatchError") else w.mod(
                      "hftools.core.exceptions"
                      ).HFArrayShapeDimsMismatchError):
        ff(w).merge_blocks(db + [second])


@contract("C22", [MG + "merge_blocks"],
          cases=[dict(part=p) for p in (0, 1)], runs=6)
def merge_groups(w, part):
    """Blocks with different variables and parameters are kept apart."""
    ds = w.ds
    n, m = w.size("n", lo=2), w.size("m", lo=2)
    lf, lg = w.raw("f", (n,), "f"), w.raw("g", (m,), "f")
    F = ds.DimSweep("freq", lf, unit="Hz")
    G = ds.DimSweep("time", lg, unit="s")
    a = [w.raw("a%d" % k, (n,), "f") for k in range(3)]
    b = [w.raw("b%d" % k, (m,), "c") for k in range(2)]
    pa, pb = [w.real("p%d" % k) for k in range(3)], \
        [w.real("q%d" % k) for k in range(2)]
    src = []
    if part:
        for k in range(3):
            src.append(block(w, F, k, [("Vg", pa[k])], a[k], None))
    else:
        src.append(block(w, F, 0, [], a[0], None))
    for k in range(2 if part else 1):
        db = ds.DataBlock()
        if part:
            db["Vd"] = ds.DimPartial("Vd", [pb[k]])
        db.delta = ds.hfarray(b[k], dims=(G,))
        src.insert(2 * k, db)
    R = ff(w).merge_blocks(src)
    if not part:
        w.dims_are("alpha", R.alpha, [F])
        w.dims_are("delta", R.delta, [G])
        w.same_array("alpha", R.alpha, lambda i: w.at(a[0], (i,)), (n,))
        w.same_array("delta", R.delta, lambda i: w.at(b[0], (i,)), (m,))
        return
    w.true("shapes", R.alpha.ndim == 2 and R.delta.ndim == 2 and
           R.alpha.dims[0].name == "freq" and R.delta.dims[0].name == "time")
    w.true("separate index axes",
           R.alpha.dims[1].name != R.delta.dims[1].name and
           R.Vg.dims[0].name == R.alpha.dims[1].name and
           R.Vd.dims[0].name == R.delta.dims[1].name)
    for i, in w.forall((n,)):
        for k in range(3):
            w.eq("alpha", w.at(R.alpha, (i, k)), w.at(a[k], (i,)))
    for i, in w.forall((m,)):
        for k in range(2):
            w.eq("delta", w.at(R.delta, (i, k)), w.at(b[k], (i,)))
    for k in range(3):
        w.eq("Vg", w.at(R.Vg, (k,)), pa[k])
    for k in range(2):
        w.eq("Vd", w.at(R.Vd, (k,)), pb[k])


@contract("C22", [MG + "merge_blocks"],
          cases=[dict(outer=o, inner=i) for o in (2, 3) for i in (2, 3)],
          runs=6)
def merge_merged(w, outer, inner):
    """Blocks that already are merged get one more index axis."""
    ds = w.ds
    n = w.size("n", lo=2)
    lab = w.raw("f", (n,), "f")
    a, b, p, files = {}, {}, {}, []
    for q in range(outer):
        src = []
        for k in range(inner):
            a[q, k] = w.raw("a%d%d" % (q, k), (n,), "f")
            b[q, k] = w.raw("b%d%d" % (q, k), (n, 2, 2), "c")
            p[q, k] = w.real("p%d%d" % (q, k))
            src.append(block(w, ds.DimSweep("freq", lab, unit="Hz"), k,
                             [("Vg", p[q, k])], a[q, k], b[q, k]))
        m = ff(w).merge_blocks(src)
        m["FILEINDEX"] = ds.DimPartial("FILEINDEX", [q])
        files.append(m)
    R = ff(w).merge_blocks(files)
    names = [d.name for d in R.alpha.dims]
    w.true("axes", names[0] == "freq" and
           sorted(names[1:]) == ["INDEX1", "INDEX2"] and
           [d.name for d in R.beta.dims] == names + ["i", "j"])
    w.same_dim("sweep", R.alpha.dims[0], ds.DimSweep, "freq", lab, "Hz")
    w.true("sizes", all(w.size_of(d) == {"INDEX1": inner, "INDEX2": outer}
                        [d.name] for d in R.alpha.dims[1:]))
    vnames = [d.name for d in R.Vg.dims]
    w.true("parameter", sorted(vnames) == ["INDEX1", "INDEX2"] and
           R.Vg.unit == "V")
    w.true("file", [d.name for d in R.FILEINDEX.dims] == ["INDEX2"] and
           [int(x) for x in R.FILEINDEX] == list(range(outer)))
    for (q, k), A in sorted(a.items()):
        pos = {"INDEX1": k, "INDEX2": q}
        w.eq("parameter", w.at(R.Vg, tuple(pos[x] for x in vnames)), p[q, k])
        at = tuple(pos[x] for x in names[1:])
        for i, in w.forall((n,)):
            w.eq("alpha", w.at(R.alpha, (i,) + at), w.at(A, (i,)))
            for r in range(2):
                for s in range(2):
                    w.eq("beta", w.at(R.beta, (i,) + at + (r, s)),
                         w.at(b[q, k], (i, r, s)))


@contract("C22", [MG + "merge_blocks", MG + "get_partials",
                  MG + "partial_names"],
          cases=[dict(blocks=b, pats=p, part=q) for b, q in (
              (2, 1), (4, 3), (5, 2)) for p in (
                  ("fg", "f"), ("fgij", "g"), ("fr", "f"), ("fij", ""),
                  ("gf", "fgh"))], runs=4)
def merge_any_axes(w, blocks, pats, part):
    """Variables over any axes get the index axis after their first."""
    ds = w.ds
    dims = dict((c, make_dim(w, c, n=w.size("n" + c, lo=2)))
                for c in sorted(set("".join(pats))))
    names = ["Vg", "Vd", "Pin"][:part]
    kinds = "fc"
    par = [[w.real("p%d_%d" % (k, q)) for q in range(part)]
           for k in range(blocks)]
    raw, src = {}, []
    for k in range(blocks):
        db = ds.DataBlock()
        db.blockname = "blk"
        for q in range(part):
            db[names[q]] = ds.DimPartial(names[q], [par[k][q]])
        for q, p in enumerate(pats):
            A, raw[k, q] = mk(w, "v%d_%d" % (k, q), p, dims, kinds[q],
                              unit="VA"[q])
            db["v%d" % q] = A
        src.append(db)
    R = ff(w).merge_blocks(src)
    X = ds.DimSweep("INDEX1", blocks)
    w.true("variables", [v for v in R.vardata.keys() if v[0] == "v"] ==
           ["v%d" % q for q in range(len(pats))])
    for q, p in enumerate(pats):
        D = [dims[c] for c in p]
        pos = min(1, len(p))
        V = R["v%d" % q]
        w.dims_are("v%d" % q, V, D[:pos] + [X] + D[pos:])
        w.true("unit", V.unit == "VA"[q])
        w.true("type", V.dtype.kind == kinds[q])
        for idx in w.forall([w.size_of(d) for d in D]):
            for k in range(blocks):
                w.eq("element", w.at(V, idx[:pos] + (k,) + idx[pos:]),
                     w.at(raw[k, q], idx))
    for q in range(part):
        w.dims_are(names[q], R[names[q]], [X])
        for k in range(blocks):
            w.eq("parameter", w.at(R[names[q]], (k,)), par[k][q])


@contract("C22", [MG + "merge_blocks"],
          cases=[dict(blocks=b, have=h) for b, h in (
              (3, (0, 1)), (3, (0, 2)), (3, (1, 2)), (4, (0, 1, 3)))] +
          [dict(blocks=3, have="groups")], runs=6)
def merge_some(w, blocks, have):
    """A variable some blocks lack does not get the axis of them all."""
    ds = w.ds
    n = w.size("n", lo=2)
    F = ds.DimSweep("freq", w.raw("f", (n,), "f"), unit="Hz")
    src = []
    for k in range(blocks):
        name = "Vd" if have == "groups" and k == 2 else "Vg"
        src.append(block(w, F, k, [(name, w.real("p%d" % k))],
                         w.raw("a%d" % k, (n,), "f"), None))
        if have != "groups" and k in have:
            src[k].delta = ds.hfarray(w.raw("d%d" % k, (n,), "c"),
                                      dims=(F,))
    names = ["alpha"] if have == "groups" else ["alpha", "delta"]
    try:
        R = ff(w).merge_blocks(src)
    except w.mod("hftools.core.exceptions").HFArrayShapeDimsMismatchError:
        R = None
    for name in names if R is not None else []:
        V = R[name]
        w.true("values fit their axes", len(V.dims) == V.ndim and
               all(w.size_of(d) == s for d, s in zip(V.dims, V.shape)))
    for k in range(blocks):
        w.true("sources", "FILEINDEX" not in src[k])


@contract("C22", [MG + "merge_blocks"],
          cases=[dict(blocks=b, hyper=h) for b in (1, 2, 3)
                 for h in (False, True)], runs=6)
def merge_independent(w, blocks, hyper):
    """What is done to the merged block is not done to its sources."""
    ds = w.ds
    n = w.size("n", lo=2)
    lab = w.raw("f", (n,), "f")
    F = ds.DimSweep("freq", lab, unit="Hz")
    a = [w.raw("a%d" % k, (n,), "f") for k in range(blocks)]
    c, d = w.real("c"), w.raw("d", (n,), "c")
    src = []
    for k in range(blocks):
        src.append(block(w, F, k, [("Vg", k + 0.5)], a[k], None,
                         c if k == 0 else None))
    src[-1].delta = ds.hfarray(d, dims=(F,), unit="W")
    R = ff(w).merge_blocks(src, hyper=hyper)
    R.comments.add_from_comment("later: 5")
    for name in ("alpha", "gamma", "delta"):
        w.true("names", name in R)
        R[name][...] = 7
        R[name].unit = "other"
    R.rename("alpha", "new")
    R.blockname = "new"
    for k, db in enumerate(src):
        w.true("names of source", "alpha" in db.vardata and
               "new" not in db.vardata)
        w.true("comments of source", db.comments.fullcomments ==
               ["number: %d" % k] and
               list(db.comments.property) == ["number"])
        w.true("block name of source", db.blockname == "block%d" % k)
        w.true("unit of source", db.alpha.unit == "A")
        untouched(w, "source %d" % k, db.alpha, a[k], [F])
    w.eq("single value of source", w.at(src[0].gamma, ()), c)
    w.true("unit of source", src[0].gamma.unit == "K" and
           src[-1].delta.unit == "W")
    untouched(w, "source of single", src[-1].delta, d, [F])


KINDS = {"f": float, "c": complex, "i": int, "s": None}


def draw(w, shape, kind):
    r = w.rng
    n = 1
    for s in shape:
        n *= s
    x = [{"f": lambda: r.uniform(-3, 3) * 10 ** r.randint(-9, 9),
          "c": lambda: complex(r.uniform(-1, 1), r.uniform(-1, 1)),
          "i": lambda: r.randint(-10 ** 12, 10 ** 12),
          "s": lambda: r.choice(["a", "longer text", "", "\xe5\xe4\xf6"])
          }[kind]() for _ in range(n)]
    return w.np.array(x, KINDS[kind]).reshape(shape)


@contract("C22", [MG + "merge_blocks", MG + "get_partials",
                  MG + "partial_names", "dataset.dataset:DataBlock.hyper"],
          cases=[dict(groups=g) for g in (2, 3, 5)], prove=False, runs=6,
          bound="up to 5 groups of up to 8 blocks, two parameters each")
def hyper_groups(w, groups):
    """Groups with parameters of their own are spread each over its own."""
    ds, np, r = w.ds, w.np, w.rng
    freq = ds.DimSweep("freq", np.arange(3.), unit="Hz")
    todo, want = [], {}
    for g in range(groups):
        pars = ["P%d%s" % (g, c) for c in "ab"[:r.randint(1, 2)]]
        labs = [sorted(r.sample(range(-20, 20), r.randint(2, 3)))
                for p in pars]
        want[g] = (pars, labs, {})
        for at in itertools.product(*labs):
            v = np.array([r.uniform(-9, 9) for _ in range(3)])
            want[g][2][at] = v
            todo.append((g, pars, at, v))
    r.shuffle(todo)
    w._log("blocks", [(g, pars, at, v.tolist()) for g, pars, at, v in todo])
    blocks = []
    for g, pars, at, v in todo:
        db = ds.DataBlock()
        for p, x in zip(pars, at):
            db[p] = ds.DimPartial(p, [x])
        db["v%d" % g] = ds.hfarray(v, dims=(freq,))
        blocks.append(db)
    R = ff(w).merge_blocks(blocks, hyper=True)
    w.true("variables", set("v%d" % g for g in want) <= set(R.vardata))
    for g, (pars, labs, vals) in want.items():
        X = R["v%d" % g]
        names = [d.name for d in X.dims]
        w.true("axes of the group", names[0] == "freq" and
               sorted(names[1:]) == sorted(pars))
        order = [pars.index(n) for n in names[1:]]
        for d, q in zip(X.dims[1:], order):
            w.true("labels", sorted(d.data) == labs[q])
        for at, v in vals.items():
            pos = tuple(list(d.data).index(at[q])
                        for d, q in zip(X.dims[1:], order))
            w.true("values", list(np.asarray(X)[(slice(None),) + pos]) ==
                   list(v))


@contract("C22", [MG + "merge_blocks", MG + "get_partials",
                  MG + "partial_names", "dataset.dataset:DataBlock.hyper"],
          cases=[dict(hyper=h) for h in (False, True)], prove=False, runs=60,
          bound="up to 12 blocks with 5 variables, 3 parameters and 3 axes")
def any_merge(w, hyper):
    """Blocks of any kind: numbers of every kind and text, axes of every
    class, taken names, comments with and without values."""
    ds, np, r = w.ds, w.np, w.rng
    part = r.randint(1, 3)
    pars = r.sample(["Vg", "Vd", "Pin", "INDEX", "alpha1"], part)
    sizes = [r.randint(1, 3) for _ in pars]
    labs = []
    for n in sizes:
        k = r.choice("ffi")
        labs.append(sorted(set((r.uniform(-5, 5) if k == "f" else
                                r.randint(-99, 99)) for _ in range(n))))
    grid = list(itertools.product(*labs))
    if not hyper:
        grid = [r.choice(grid) for _ in range(r.randint(2, 12))]
    w.assume(len(grid) > 1)
    r.shuffle(grid)
    axes = [r.choice([ds.DimSweep, ds.DimSweep, ds.DimRep])(
        n, [float(q) for q in range(r.randint(2, 4))],
        unit=r.choice([None, "Hz"])) for n in ("freq", "time", "pos")]
    taken = r.sample(["INDEX1", "INDEX2", "INDEX3"], r.randint(0, 2))
    spec = []
    for n in ["alpha", "Beta", "x y", "gamma", "Zeta"][:r.randint(1, 5)] + \
            taken:
        a = r.sample(axes, r.randint(0, 3))
        if n == "Zeta":
            a += [ds.DimMatrix_i("i", 2), ds.DimMatrix_j("j", 3)]
        spec.append((n, a, r.choice("fciss" if not a else "fciffc"),
                     r.choice([None, "V", "A"]), r.random() < .2))
    blocks, raw, notes, props = [], [], [], {}
    for k, at in enumerate(grid):
        db = ds.DataBlock()
        db.blockname = "block%d" % k
        order = list(zip(pars, at))
        r.shuffle(order)
        for n, v in order:
            db[n] = ds.DimPartial(n, [v], unit="S")
        x = {}
        for n, a, kind, unit, mixed in spec:
            if mixed and kind in "fc" and k % 2 == 0:
                kind = "i"
            x[n] = draw(w, [len(d.data) for d in a], kind)
            db[n] = ds.hfarray(x[n].copy(), dims=tuple(a), unit=unit)
        c = r.choice([None, [], ["no value %d" % k], "property",
                      ["Val: %d" % k, "tail"], ["x: text %d" % k]])
        if c == "property":
            db.comments = ff(w).Comments(**{"key%d" % k: k})
            props["key%d" % k] = k
            c = []
        elif c is not None:
            db.comments = ff(w).Comments(list(c))
        notes += c or []
        blocks.append(db)
        raw.append(x)
        w._log("block %d" % k, repr((at, [
            (n, v.dtype.str, v.tolist()) for n, v in x.items()], c))[:800])
    R = ff(w).merge_blocks(blocks, hyper=hyper)
    w.true("comments", list(R.comments.fullcomments) == notes)
    for k, v in props.items():
        w.true("comment properties", R.comments.property.get(k) == v)
    w.true("block name", R.blockname == "block0")
    w.true("variables in order", [n for n in R.vardata.keys()
                                  if n not in pars] == [s[0] for s in spec])
    labels = dict(zip(pars, [sorted(set(at[q] for at in grid))
                             for q in range(part)]))
    for k, (db, x) in enumerate(zip(blocks, raw)):
        w.true("sources", list(db.vardata.keys()) == [s[0] for s in spec] and
               db.blockname == "block%d" % k)
        for n in x:
            w.true("sources", bool(np.all(np.asarray(db[n]) == x[n])))
    index = None
    for n, a, kind, unit, mixed in spec:
        X = R[n]
        w.true("unit", X.unit == unit)
        w.true("type", X.dtype.kind == {"s": "U"}.get(kind, kind) or
               len(grid) == 1)
        own = [d.name for d in a]
        rest = [d.name for d in X.dims if d.name not in own]
        w.true("own axes in order", [d.name for d in X.dims
                                     if d.name in own] == own)
        for d in a:
            e = X.dims[[q.name for q in X.dims].index(d.name)]
            w.true("own axes", e.__class__ is d.__class__ and
                   e.unit == d.unit and list(e.data) == list(d.data))
        if not hyper:
            w.true("one index axis", len(rest) == 1 and
                   rest[0] not in taken and index in (None, rest[0]))
            index = rest[0]
        elif n not in taken:
            w.true("axes of the parameters", set(rest) ==
                   set(p for p in pars if len(labels[p]) > 1))
        if n in taken and hyper:
            continue
        X = np.asarray(X.reorder_dimensions(*rest)) if rest else np.asarray(X)
        X = np.asarray(R[n]).transpose(
            [[d.name for d in R[n].dims].index(q) for q in rest + own])
        for k, at in enumerate(grid):
            if not hyper:
                pos = (k,)
            else:
                pos = ()
                for q in rest:
                    d = R[n].dims[[e.name for e in R[n].dims].index(q)]
                    w.true("labels", sorted(d.data) == labels[q])
                    pos += (list(d.data).index(at[pars.index(q)]),)
            w.true("values of block %d" % k,
                   bool(np.all(X[pos] == raw[k][n])))
        if a and isinstance(a[0], ds.DimSweep):
            w.true("first axis", R[n].dims[0].name == own[0])
        elif not hyper:
            w.true("first axis", R[n].dims[0].name == rest[0])
    if not hyper:
        for q, p in enumerate(pars):
            w.true("parameter " + p, [d.name for d in R[p].dims] == [index]
                   and list(np.asarray(R[p])) == [at[q] for at in grid] and
                   R[p].unit == "S" and R[p].dtype.kind == (
                       "i" if all(isinstance(at[q], int) for at in grid)
                       else "f"))
