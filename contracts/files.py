"""Reading and writing data files."""
import os
from engine.contract import contract
from contracts.common import make_dim, make_dims, mk, full, untouched
from contracts.mathfun import ascending

TS = "file_formats.touchstone:"
MULT = {"HZ": 1, "KHZ": 1e3, "MHZ": 1e6, "GHZ": 1e9, "THZ": 1e12,
        "PHZ": 1e15}


def ff(w):
    return w.mod("hftools.file_formats")


def pick(w, name, options, q):
    """The q:th option for the proof, any option for concrete runs."""
    return options[q % len(options)] if w.symbolic else \
        w.choice(name, options)


def sweep(w, name, n):
    """Strictly increasing real values."""
    r = ascending(w, name, n)
    if w.symbolic:
        for i in range(int(n) - 1):
            w.assume(w.at(r, (i,)) < w.at(r, (i + 1,)))
    return r


def anysweep(w, name, n):
    """Any real values, in any order."""
    r = w.raw(name, (n,), "f")
    if not w.symbolic and w.choice(name + " sorted", [False, True]):
        r = w.np.sort(r)
    return r


def distinct(w, name, n):
    """Real values in any order, all different."""
    n = int(n)
    if w.symbolic:
        r = w.raw(name, (n,), "f")
        for i in range(n):
            for k in range(i):
                w.assume(w.at(r, (i,)) != w.at(r, (k,)))
        return r
    r = ascending(w, name, n)
    if w.choice(name + " shuffled", [False, True]):
        r = r[w.np.array(w.rng.sample(range(n), n), int)]
        w._log(name, list(r))
    return r


def write(w, name, text, encoding="cp1252", where=None):
    fn = os.path.join(where or w.tmpdir(), name)
    with open(fn, "w", encoding=encoding, newline="") as f:
        f.write(text)
    if not w.symbolic:
        w._log("file " + name, text[:4000])
    return fn


def pair(w, fmt, x, y):
    """The complex number two columns describe."""
    if fmt == "RI":
        return x + w.j * y
    rot = w.exp(w.j * w.pi * y / 180)
    return (x if fmt == "MA" else w.pow(10, x / 20)) * rot


def port_order(ports):
    """Two-ports are stored column by column, others row by row."""
    if ports == 2:
        return [(0, 0), (1, 0), (0, 1), (1, 1)]
    return [(i, j) for i in range(ports) for j in range(ports)]


def layout(rows, how, ports):
    """Break each row of text fields into lines."""
    out = []
    for r in rows:
        if how == "one" or (ports < 2):
            out.append("\t".join(r))
        elif how == "lines":
            head, rest = r[:1], r[1:]
            step = 2 * ports
            parts = [rest[k:k + step] for k in range(0, len(rest), step)]
            out.append(" ".join(head + parts[0]) + " ! first line")
            for p in parts[1:]:
                out.append("   " + "  ".join(p))
                out.append("")
                out.append("! between")
        else:
            head, rest = r[:1], r[1:]
            parts = [rest[k:k + 8] for k in range(0, len(rest), 8)]
            out.append(" ".join(head + parts[0]))
            for p in parts[1:]:
                out.append(" ".join(p))
    return out


@contract("C17", [TS + x for x in (
    "ReadTouchstoneFileFormat.tokenize",
    "ReadTouchstoneFileFormat.parse_blocks", "process_data", "_process_data",
    "proc_data", "proc_info", "is_touchstone", "read_touchstone")],
    cases=[dict(ports=p, fmt=f, how=h, q=i + 3 * p + 7 * k)
           for p in (1, 2, 3) for i, f in enumerate(("RI", "MA", "DB"))
           for k, h in enumerate(("one", "lines"))] +
          [dict(ports=4, fmt="RI", how="eight", q=1)] +
          [dict(ports=4, fmt="MA", how="lines", q=2),
           dict(ports=5, fmt="DB", how="eight", q=3),
           dict(ports=6, fmt="RI", how="lines", q=4),
           dict(ports=11, fmt="RI", how="lines", q=6)],
    thorough=[dict(ports=p, fmt=f, how="lines", q=p) for p in (4, 5, 7)
              for f in ("RI", "MA", "DB")], runs=8)
def touchstone_matrix(w, ports, fmt, how, q):
    """Every number of the file ends up at its frequency and ports."""
    n = w.size("n", hi=3 if ports > 8 else None)
    f = sweep(w, "f", n)
    x = w.raw("x", (n, ports, ports), "f")
    y = w.raw("y", (n, ports, ports), "f")
    unit = pick(w, "unit", sorted(MULT), q)
    kind = pick(w, "kind", "SYZGH", q)
    ref = pick(w, "ref", [50, 75, 100.5, 1, None], q)
    info = pick(w, "info", ["# %s %s %s", "#%s %s %s", "#  %s\t%s   %s  "],
                q // 2) % (unit, kind, fmt)
    if ref is not None:
        info += pick(w, "R", [" R %s", "\tR   %s "], q) % ref
    if pick(w, "case", [False, False, True, True], q):
        info = info.lower()
    rows = []
    for i in range(int(n)):
        r = [w.text(w.at(f, (i,)))]
        for a, b in port_order(ports):
            r += [w.text(w.at(x, (i, a, b))), w.text(w.at(y, (i, a, b)))]
        rows.append(r)
    lines = layout(rows, how, ports)
    if pick(w, "dressed", [False, True], q):
        lines = [("  " if k % 2 else "") + x + ("!c" if k % 3 else "  ")
                 for k, x in enumerate(lines)]
        lines.insert(len(lines) // 2, "  ! Humidity: 40")
        lines += ["", "!at the end"]
    eol = pick(w, "eol", ["\n", "\r\n"], q // 3)
    text = eol.join(["! a remark", info, "! Temp: 21"] + lines) + \
        pick(w, "last", [eol, ""], q)
    fn = write(w, "t.s%dp" % ports, text)
    db = ff(w).read_touchstone(fn)
    w.true("named after the parameter type", db.vardata.keys()[0] == kind)
    M = db[kind]
    ds = w.ds
    mult = w.num(MULT[unit])
    w.true("rank", M.ndim == 3 and len(M.dims) == 3)
    w.true("shape", tuple(M.shape) == (n, ports, ports))
    w.true("axis classes", isinstance(M.dims[0], ds.DimSweep) and
           isinstance(M.dims[1], ds.DimMatrix_i) and
           isinstance(M.dims[2], ds.DimMatrix_j))
    w.true("frequency axis", M.dims[0].name == "freq" and
           M.dims[0].unit == "Hz")
    for i, in w.forall((n,)):
        w.eq("frequency", w.at(M.dims[0].data, (i,)), w.at(f, (i,)) * mult)
        for a in range(ports):
            for b in range(ports):
                w.eq("element", w.at(M, (i, a, b)),
                     pair(w, fmt, w.at(x, (i, a, b)), w.at(y, (i, a, b))))
    w.eq("reference impedance", w.at(db.Z0, ()), 1 if ref is None else
         w.num(ref))
    w.true("unit of the reference impedance", db.Z0.unit == "Ohm")
    w.true("one matrix", [k for k in db.vardata if db[k].ndim] == [kind])
    w.true("frequencies", "freq" in db.ivardata)
    w.true("comments", db.comments.fullcomments[:2] ==
           ["a remark", "Temp: 21"])
    w.eq("comment values", w.at(db.Temp, ()), 21)


def ts_text(w, info, rows):
    return "\n".join([info] + ["\t".join(r) for r in rows]) + "\n"


@contract("C17", [TS + "_process_data", TS + "proc_data", TS + "proc_info"],
          cases=[dict(fmt=f, same=s, q=q)
                 for q, f in enumerate(("RI", "MA", "DB"))
                 for s in (False, True)], runs=8)
def touchstone_noise(w, fmt, same, q):
    """Noise parameters after the two-port data."""
    n = w.size("n")
    m = n if same else w.size("m")
    f = sweep(w, "f", n)
    x = w.raw("x", (n, 2, 2), "f")
    g = f if same else sweep(w, "g", m)
    if not same:
        w.assume(w.at(g, (0,)) <= w.at(f, (int(n) - 1,)))
        if not w.symbolic:
            w.assume(len(g) != len(f) or not w.np.allclose(f * 1e9, g * 1e9))
        elif int(n) == int(m):
            w.assume(w.at(g, (0,)) > 2 * w.at(f, (0,)))
            w.assume(w.at(f, (0,)) > 1)
    else:
        w.true("noise starts below the end", True)
    v = w.raw("v", (m, 4), "f")
    y = w.raw("y", (n, 2, 2), "f")
    unit = pick(w, "unit", ["GHZ", "MHZ", "KHZ"], q)
    ref = pick(w, "ref", [50, 75, 20], q)
    rows = []
    for i in range(int(n)):
        rows.append([w.text(w.at(f, (i,)))])
        for a, b in port_order(2):
            rows[-1] += [w.text(w.at(x, (i, a, b))),
                         w.text(w.at(y, (i, a, b)))]
    for i in range(int(m)):
        rows.append([w.text(w.at(g, (i,)))] +
                    [w.text(w.at(v, (i, k))) for k in range(4)])
    db = ff(w).read_touchstone(write(w, "t.s2p", ts_text(
        w, "# %s S %s R %d" % (unit, fmt, ref), rows)))
    giga = w.num(MULT[unit])
    dim = w.ds.DimSweep("freq" if same else "freqn", g * giga, unit="Hz")
    full(w, "Fmin", db.Fmin, [dim],
         lambda i: w.pow(10, w.at(v, (i, 0)) / 10))
    full(w, "Gopt", db.Gopt, [dim],
         lambda i: pair(w, fmt, w.at(v, (i, 1)), w.at(v, (i, 2))))
    full(w, "Rn", db.Rn, [dim], lambda i: w.at(v, (i, 3)) * ref)
    w.true("two-port data", tuple(db.S.shape) == (n, 2, 2))
    for i, in w.forall((n,)):
        w.eq("frequency", w.at(db.S.dims[0].data, (i,)), w.at(f, (i,)) * giga)
        for a in range(2):
            for b in range(2):
                w.eq("element", w.at(db.S, (i, a, b)),
                     pair(w, fmt, w.at(x, (i, a, b)),
                          w.at(y, (i, a, b))))


@contract("C17", [TS + "save_touchstone", TS + "read_touchstone",
                  "file_formats.common:make_col_from_matrix"],
          cases=[dict(ports=p, com=c, again=a) for p in (1, 2, 3, 4, 5)
                 for c in (False, True) for a in (False, True)], runs=6)
def touchstone_round_trip(w, ports, com, again):
    """What is written is read back, for any number of ports."""
    ds = w.ds
    n = w.size("n")
    f = sweep(w, "f", n)
    x = w.raw("S", (n, ports, ports), "c")
    db = ds.DataBlock()
    fi = ds.DimSweep("freq", f, unit="Hz")
    dims = (fi, ds.DimMatrix_i("i", ports), ds.DimMatrix_j("j", ports))
    db.S = ds.hfarray(x, dims=dims)
    t = w.real("T")
    db.Temp = ds.hfarray(t)
    if com:
        db.comments = w.mod("hftools.file_formats").Comments(
            ["Operator: n\xe5gon \xb5", "no colon"])
    fn = os.path.join(w.tmpdir(), "t.s%dp" % ports)
    ff(w).save_touchstone(db, fn)
    untouched(w, "source unchanged", db.S, x, dims)
    R = ff(w).read_touchstone(fn)
    if again:
        ff(w).save_touchstone(R, fn)
        R = ff(w).read_touchstone(fn)
    w.true("rank", R.S.ndim == 3 and isinstance(
        R.S.dims[1], ds.DimMatrix_i) and isinstance(
        R.S.dims[2], ds.DimMatrix_j))
    w.same_dim("frequency axis", R.S.dims[0], ds.DimSweep, "freq", f, "Hz")
    w.same_array("S", R.S, lambda *i: w.at(x, i), (n, ports, ports))
    w.eq("scalars", w.at(R.Temp, ()), t)
    if com and not again:
        w.true("comments", R.comments.fullcomments[:2] ==
               ["Operator: n\xe5gon \xb5", "no colon"])


@contract("C17", [TS + "ReadTouchstoneFileFormat.tokenize",
                  TS + "ReadTouchstoneFileFormat.parse_blocks",
                  TS + "process_data", TS + "proc_info"],
          cases=[dict(what=x) for x in (
              "no info", "two infos", "bad unit", "bad type", "bad format",
              "missing field", "extra field", "values")], runs=6)
def touchstone_errors(w, what):
    """A file that is not Touchstone is refused, never misread."""
    ports = 2
    n = w.size("n", lo=2)
    f = sweep(w, "f", n)
    x = w.raw("x", (n, 8), "f")
    rows = [[w.text(w.at(f, (i,)))] +
            [w.text(w.at(x, (i, k))) for k in range(8)]
            for i in range(int(n))]
    info = "# GHz S RI R 50"
    if what == "no info":
        info = "! GHz S RI R 50"
    elif what == "two infos":
        info += "\n" + info
    elif what == "bad unit":
        info = "# GHx S RI R 50"
    elif what == "bad type":
        info = "# GHz Q RI R 50"
    elif what == "bad format":
        info = "# GHz S XX R 50"
    elif what == "missing field":
        del rows[-1][-1]
    elif what == "extra field":
        # as many as a 3-, 6-, 9-, 12-, ... port at one frequency
        w.assume(int(n) not in [2 * k * k for k in range(1, 40)])
        rows[0].append("1.0")
    elif what == "values":
        info = "# GHz S RI R 50 60"
    err = ff(w).TouchstoneError
    with w.raises("refused: " + what, err):
        ff(w).read_touchstone(write(w, "t.s2p", ts_text(w, info, rows)))
