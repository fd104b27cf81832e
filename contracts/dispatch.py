"""Reading files whose format is not known beforehand."""
import os
from engine.contract import contract
from contracts.files import ff, sweep, write
from contracts.spdata import values

FI = "file_formats:"
READ = [FI + "read_data", "file_formats.mdif:is_mdif",
        "file_formats.citi:is_citi", "file_formats.touchstone:is_touchstone",
        "file_formats.hdf5.hdf5:is_hdf5",
        "file_formats.muwave_mat:is_muwave_matlabdata",
        "file_formats.readbase:ReadFileFormat.read_file"]


# names a file may have, with the extension its format asks for
ODD = ["t%s", "x y%s~", "#a#%s", ".hidden%s", "a.hdf5.citi.s3p.mat%s.bak",
       "m\xe4tning 3%s", "-v%s", "1e5%s", "a%s.OLD"]


def name_of(w, fn, res):
    return res["blk"] if isinstance(res, dict) and "blk" in res else res


@contract("C24", READ,
          cases=[dict(fmt=f, com=c, name=m) for f in (
              "touchstone", "citi", "spdata", "mdif", "mdif swept", "hdf5 0.1",
              "hdf5 0.2") for c, m in [(0, 0), (1, 0)] + [
                  (1, k) for k in range(1, len(ODD))]], runs=4)
def saved_file(w, fmt, com, name):
    """A file written in any format is recognised and read."""
    ds = w.ds
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    F = ds.DimSweep("freq", f, unit="Hz")
    I, J = ds.DimMatrix_i("i", 2), ds.DimMatrix_j("j", 2)
    s = w.raw("s", (n, 2, 2), "c")
    a = w.raw("a", (n,), "f")
    db = ds.DataBlock()
    db.blockname = "blk"
    outer = fmt == "mdif swept"
    if outer:
        G = ds.DimSweep("Vg", [0.5, 1.5])
        a = w.raw("a", (n, 2), "f")
        db.alpha = ds.hfarray(a, dims=(F, G))
    else:
        db.S = ds.hfarray(s, dims=(F, I, J))
    if fmt not in ("touchstone",) and not outer:
        db.alpha = ds.hfarray(a, dims=(F,))
    if com:
        db.comments = ff(w).Comments(["Operator: någon", "Temp: 21",
                                      "about CITIFILE and # Hz S RI"])
    save = {"touchstone": "save_touchstone", "citi": "save_citi",
            "spdata": "save_spdata"}.get(fmt, "save_" + fmt.split()[0])
    ext = {"touchstone": ".s2p", "mdif": ".mdif"}.get(fmt, ".dat")
    odd = ODD[name]
    if fmt == "touchstone" and not odd.endswith("%s"):
        odd = odd.split("%s")[0] + "%s"     # the number of ports is there
    fn = os.path.join(w.tmpdir(), odd % ext)
    kw = {"version": fmt.split()[1]} if fmt.startswith("hdf5") else {}
    getattr(ff(w), save)(db, fn, **kw)
    kw = {"verbose": False} if "mdif" in fmt else {}
    R = name_of(w, fn, ff(w).read_data(fn, **kw))
    w.true("a block", isinstance(R, ds.DataBlock))
    if not outer:
        w.true("axes", [d.name for d in R.S.dims] == ["freq", "i", "j"] and
               tuple(R.S.shape) == (n, 2, 2))
        w.same_seq("frequencies", R.S.dims[0].data, f)
        w.same_array("matrix", R.S, lambda *i: w.at(s, i), (n, 2, 2))
        if fmt != "touchstone":
            w.same_array("vector", R.alpha, lambda *i: w.at(a, i), (n,))
    else:
        w.same_array("swept", R.alpha, lambda *i: w.at(a, i), (n, 2))


HEADS = {
    "touchstone": ["! measured at 3° and 5 µm", "", "#  gHz  s  rI  R 50"],
    "touchstone2": ["# Hz S RI", "! BEGIN nothing"],
    "citi": ["CITIFILE A.01.01", "! 3° µ"],
    "spdata": ["! VAR x: 3°", "!Text: CITIFILE"],
    "mdif": ["! 3° µ", "BEGIN blk"],
    "mdif2": ["! first", "", "VAR  Vg(real) = 3", "BEGIN blk"],
    "none": ["freq\talpha"]}


@contract("C24", READ, cases=[dict(kind=k, name=m) for k in sorted(HEADS)
                              for m in range(len(ODD))], runs=3)
def foreign_file(w, kind, name):
    """Files of other programs are recognised by their own marks."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    _, a = values(w, "a", (n,))
    _, b = values(w, "b", (n,))
    t = w.text
    text = list(HEADS[kind])
    fmt = kind.rstrip("2")
    F = lambda i: w.at(f, (i,))
    if fmt == "touchstone":
        text += ["%s %s %s" % (t(F(i)), t(a(i)), t(b(i))) for i in range(n)]
    elif fmt == "citi":
        text += ["NAME DATA", "VAR freq MAG %d" % n, "DATA alpha RI",
                 "VAR_LIST_BEGIN"] + [t(F(i)) for i in range(n)] + [
                 "VAR_LIST_END", "BEGIN"] + ["%s,%s" % (t(a(i)), t(b(i)))
                                             for i in range(n)] + ["END"]
    elif fmt == "mdif":
        text += ["% freq(real) alpha(complex)"]
        text += ["%s %s %s" % (t(F(i)), t(a(i)), t(b(i))) for i in range(n)]
        text += ["END"]
    elif kind == "spdata":
        text += ["freq\tRe(alpha)\tIm(alpha)"]
        text += ["%s\t%s\t%s" % (t(F(i)), t(a(i)), t(b(i)))
                 for i in range(n)]
    else:
        text += ["%s\t%s" % (t(F(i)), t(a(i))) for i in range(n)]
    fn = write(w, (ODD[name].split("%s")[0] + ".s1p") if fmt == "touchstone"
               else ODD[name] % ("" if kind == "none" else ".txt"),
               "\n".join(text) + "\n")
    kw = {"verbose": False} if fmt == "mdif" else {}
    R = name_of(w, fn, ff(w).read_data(fn, **kw))
    V = R["S"] if fmt == "touchstone" else R["alpha"]
    mult = w.num(1e9) if kind == "touchstone" else 1
    for i in range(n):
        w.eq("frequency", w.at(R.freq, (i,)), F(i) * mult)
        pos = (i, 0, 0) if fmt == "touchstone" else (i,)
        w.eq("value", w.at(V, pos), a(i) if kind == "none"
             else a(i) + w.j * b(i))


NAMES = {"plain": (["t1.txt", "t2.txt", "t10.txt"], "t*.txt"),
         "digits": (["1b.txt", "2a.txt", "t1.txt", "t2.txt"], "*.txt"),
         "parts": (["x2_1.txt", "x2_3.txt", "x2_12.txt", "x10_1.txt"],
                   "x*.txt"),
         "words": (["inf1.txt", "nan2.txt", "nan10.txt", "none.txt"],
                   "*.txt")}


@contract("C24", READ + ["utils:lex_order", "utils:glob", "utils:split_num",
                         "file_formats.merge:merge_blocks"],
          cases=[dict(names=k, how=h, fmt=f) for k in sorted(NAMES)
                 for h in ("pattern", "list", "lists")
                 for f in ("spdata", "touchstone")], runs=4)
def several_files(w, names, how, fmt):
    """Files are read in numeric order of their names."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    files, pat = NAMES[names]
    K = len(files)
    _, a = values(w, "a", (K, n))
    _, b = values(w, "b", (K, n))
    where = w.tmpdir()
    order = list(range(K))
    for k in order[::-1][1:] + order[::-1][:1]:
        rows = ["%s\t%s\t%s" % (w.text(w.at(f, (i,))), w.text(a(k, i)),
                                w.text(b(k, i))) for i in range(n)]
        head = "freq\tRe(S)\tIm(S)" if fmt == "spdata" else "# Hz S RI R 50"
        write(w, files[k], "\n".join(["! no: %d" % k, head] + rows) + "\n",
              where=where)
    what = os.path.join(where, pat)
    if how == "list":
        order = order[1:] + order[:1]
        what = [os.path.join(where, files[k]) for k in order]
    elif how == "lists":
        what = [os.path.join(where, files[-1]), what]
        order = order[-1:] + order
    R = ff(w).read_data(what)
    w.true("one index axis", [d.name for d in R.S.dims] ==
           ["freq", "INDEX1"] and tuple(R.S.shape) == (n, len(order)))
    for q, k in enumerate(order):
        w.true("file name", str(w.at(R.FILENAME, (q,))).endswith(files[k]))
        w.eq("its comment", w.at(R.no, (q,)), k)
        for i in range(n):
            w.eq("value", w.at(R.S, (i, q)), a(k, i) + w.j * b(k, i))


@contract("C24", READ, cases=[dict(how=h) for h in ("name", "pattern",
                                                    "list")], runs=1)
def no_file(w, how):
    """Nothing to read is an IOError."""
    fn = os.path.join(w.tmpdir(), "absent*" if how == "pattern" else "absent")
    with w.raises("no such file", IOError):
        ff(w).read_data([fn, fn] if how == "list" else fn)
    for fmt in ("touchstone", "citi", "spdata", "mdif"):
        read = getattr(w.mod("hftools.file_formats." + fmt), "read_" + fmt)
        with w.raises("no such file", IOError):
            read([fn, fn] if how == "list" else fn, verbose=False)


@contract("C24", [FI + "read_to_cache", FI + "read_from_cache"],
          cases=[dict(named=k, again=r, there=t) for k in (False, True)
                 for r in (False, True) for t in (False, True)], runs=4)
def cached(w, named, again, there):
    """The cache returns what was read until a new reading is asked for."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    _, a = values(w, "a", (2, n))
    where = w.tmpdir()
    cache = os.path.join(where, "cache")
    kw = dict(cachedir=cache, verbose=False)
    back = os.getcwd()
    if there:
        # the default is a directory of the current directory
        cache = None
        del kw["cachedir"]
        os.chdir(where)
    try:
        _cached(w, named, again, n, f, a, where, cache, kw)
        if there:
            w.true("place of the cache", os.listdir(os.path.join(
                where, "_hfcache")) == ["other.hdf5" if named else "t.hdf5"])
    finally:
        os.chdir(back)


def _cached(w, named, again, n, f, a, where, cache, kw):
    if named:
        kw["cachename"] = "other"

    def put(k):
        rows = ["%s\t%s" % (w.text(w.at(f, (i,))), w.text(a(k, i)))
                for i in range(n)]
        return write(w, "t.txt", "\n".join(["freq\talpha"] + rows) + "\n",
                     where=where)

    def check(label, db, k):
        w.dims_are(label, db.alpha, [w.ds.DimSweep("freq", f, unit="Hz")])
        w.same_array(label, db.alpha, lambda i: a(k, i), (n,))

    fn = put(0)
    with ff(w).read_to_cache(fn, **kw) as (db, new):
        w.true("first reading", new is True)
        check("first", db, 0)
        db["extra"] = w.ds.hfarray(2.0)
    fn = put(1)
    with ff(w).read_to_cache(fn, **kw) as (db, new):
        w.true("cached", new is False)
        check("cached", db, 0)
        w.eq("changes made in the first reading are cached",
             w.at(db.extra, ()), 2)
    if again:
        with ff(w).read_to_cache(fn, reread=True, **kw) as (db, new):
            w.true("read again", new is True)
            check("again", db, 1)
            db["extra"] = w.ds.hfarray(3.0)
    R = ff(w).read_from_cache("other" if named else "t", **(
        {"cachedir": cache} if cache else {}))
    check("from cache", R, 1 if again else 0)
    w.eq("changes made inside are cached", w.at(R.extra, ()),
         3 if again else 2)


def option_file(w, fmt, n, f, where=None, name=None, tag=""):
    """A file whose columns every step of the reading concerns."""
    raw, v = values(w, "v" + tag, (n, 5))
    t = lambda i, k: w.text(v(i, k))
    com = ["!Temp: 21"]
    F = lambda i: w.text(w.at(f, (i,)))
    if fmt == "spdata":
        text = com + ["\t".join(["Freq", "b1/a1", "Re(a)", "Im(a)", "M11",
                                 "M12"])]
        text += ["\t".join([F(i)] + [t(i, k) for k in range(5)])
                 for i in range(n)]
    elif fmt == "mdif":
        text = com + ["BEGIN blk",
                      "% Freq(real) b1/a1(real) Re(a)(real) Im(a)(real) "
                      "M11(real) M12(real)"]
        text += [" ".join([F(i)] + [t(i, k) for k in range(5)])
                 for i in range(n)] + ["END"]
    elif fmt == "citi":
        text = ["CITIFILE A.01.01", "!Temp: 21", "NAME DATA",
                "VAR Freq MAG %d" % n]
        text += ["DATA %s RI" % x for x in ("b1/a1", "M11", "M12")]
        text += ["VAR_LIST_BEGIN"] + [F(i) for i in range(n)]
        text += ["VAR_LIST_END"]
        for k in (0, 3, 4):
            text += ["BEGIN"] + ["%s,0" % t(i, k) for i in range(n)] + ["END"]
    else:
        text = ["!Temp: 21", "# Hz S RI R 50"]
        text += ["%s %s 0" % (F(i), t(i, 0)) for i in range(n)]
    return write(w, name or ("t.s1p" if fmt == "touchstone" else "t.txt"),
                 "\n".join(text) + "\n", where=where), v


STEPS = {"spdata": ("normalize", "make_complex", "make_matrix",
                    "property_to_vars", "guess_unit"),
         "citi": ("normalize", "make_matrix", "property_to_vars",
                  "guess_unit"),
         "mdif": ("normalize", "make_complex", "make_matrix",
                  "property_to_vars"),
         "touchstone": ("property_to_vars",)}
READERS = ["file_formats.spdata:read_spdata", "file_formats.citi:read_citi",
           "file_formats.touchstone:read_touchstone",
           "file_formats.mdif:read_mdif",
           "file_formats.mdif:ReadMDIFFileFormat.read_file"]


@contract("C24", READ + READERS,
          cases=[dict(fmt=f, off=o, via=v) for f in sorted(STEPS)
                 for o in STEPS[f] + ("none",) for v in ("data", "own")],
          runs=3)
def options(w, fmt, off, via):
    """An option given to read_data reaches the reader of the format."""
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    fn, v = option_file(w, fmt, n, f)
    fun = "read_data" if via == "data" else "read_" + fmt
    kw = {} if off == "none" else {off: False}
    if fmt == "mdif":
        kw["verbose"] = False
    R = getattr(ff(w), fun)(fn, **kw)
    if fmt == "mdif":
        w.true("block", list(R) == ["blk"])
        R = R["blk"]
    freq = "Freq" if off == "normalize" else "freq"
    want = {}
    if fmt == "touchstone":
        freq = "freq"
        want["S"] = None
        w.same_array("S", R.S, lambda i, j, k: v(i, 0), (n, 1, 1))
    else:
        want["b1/a1" if off == "normalize" else "b11"] = \
            lambda i: v(i, 0)
        if fmt != "citi":
            if off == "make_complex":
                want["Re(a)"] = lambda i: v(i, 1)
                want["Im(a)"] = lambda i: v(i, 2)
            else:
                want["a"] = lambda i: v(i, 1) + w.j * v(i, 2)
        if off == "make_matrix":
            want["M11"] = lambda i: v(i, 3)
            want["M12"] = lambda i: v(i, 4)
        else:
            want["M"] = None
            w.same_array("matrix", R.M, lambda i, j, k: v(i, 3 + k),
                         (n, 1, 2))
        unit = None if off == "guess_unit" else "Hz"
        D = w.ds.DimSweep(freq, f, unit=unit)
        for k in want:
            if want[k] is not None:
                w.dims_are(k, R[k], [D])
                w.same_array(k, R[k], want[k], (n,))
    extra = set(R.vardata.keys()) - set(want)
    w.true("comment values", ("Temp" in extra) == (off != "property_to_vars"))
    w.true("nothing else", extra <= set(
        ["Temp", "FILENAME"] + (["Z0"] if fmt == "touchstone" else [])))


@contract("C24", READ + READERS,
          cases=[dict(fmt=f, how=h) for f in ("spdata", "citi", "touchstone",
                                              "mdif")
                 for h in ("pattern", "list", "merge", "one")], runs=3)
def unmerged(w, fmt, how):
    """Without merging there is one block for each block of the files."""
    ext = ".s1p" if fmt == "touchstone" else ".txt"
    where = w.tmpdir()
    n = int(w.size("n", lo=2))
    f = sweep(w, "f", n)
    files = [option_file(w, fmt, n, f, where, "t%d%s" % (k, ext), "ab"[k])
             for k in range(2)]
    what = os.path.join(where, "t*" + ext)
    if how == "list":
        what = [x[0] for x in files[::-1]]
        files = files[::-1]
    elif how == "one":
        what, files = files[0][0], files[:1]
    name = "S" if fmt == "touchstone" else "b11"
    more = (0, 0) if fmt == "touchstone" else ()
    if fmt == "mdif":
        R = ff(w).read_data(what, verbose=False)["blk"]
        one = how == "one"
    elif how != "merge":
        R = ff(w).read_data(what, merge=False)
        w.true("a list of blocks", isinstance(R, list) and
               len(R) == len(files))
        for q, (B, (fn, v)) in enumerate(zip(R, files)):
            w.true("a block", isinstance(B, w.ds.DataBlock))
            w.same_seq("labels", B[name].dims[0].data, f)
            w.true("file", str(B.FILENAME.item()) == str(fn) and
                   int(B.ivardata["FILEINDEX"].data[0]) == q)
            for i in range(n):
                w.eq("value", w.at(B[name], (i,) + more), v(i, 0))
        return
    else:
        R = ff(w).read_data(what)
        one = len(files) == 1
        more = ()     # merging drops axes of length one
    for k, (fn, v) in enumerate(files):
        w.same_seq("labels", R[name].dims[0].data, f)
        for i in range(n):
            pos = (i,) if one else (i, k)
            w.eq("value", w.at(R[name], pos + more), v(i, 0))
        w.true("file", str(w.at(R.FILENAME, () if one else (k,))) == str(fn))


@contract("C24", READ + ["file_formats.readbase:ReadFileFormat.do_file"],
          cases=[dict(fmt=f) for f in ("spdata", "citi", "touchstone",
                                       "mdif")], runs=1)
def nothing_in_file(w, fmt):
    """A file with no data in it is an error, not an empty block."""
    E = w.mod("hftools.file_formats.readbase")
    text = {"spdata": "", "citi": "", "touchstone": "! nothing\n",
            "mdif": "! nothing\n"}[fmt]
    with w.raises("empty file", Exception):
        getattr(ff(w), "read_" + fmt)(write(
            w, "t.s2p" if fmt == "touchstone" else "t.txt", text))
