"""DataDict and DataBlock."""
import itertools

from engine.contract import contract
from contracts import anyblock
from contracts.common import make_dim, make_dims, mk, full, untouched
from contracts.networks import mdims

DS = "dataset.dataset:"
DD = DS + "DataDict."
DB = DS + "DataBlock."


# ------------------------------------------------------------- DataDict

class Val(object):
    """An arbitrary value; copies and views remember their source."""

    def __init__(self, tag, kind="value", src=None):
        self.tag, self.kind, self.src = tag, kind, src
        self.outputformat = "%.3f"

    def copy(self):
        return Val(self.tag, "copy", self)

    def view(self):
        return Val(self.tag, "view", self)


def dd_state(w, n):
    d = w.ds.DataDict()
    model = []
    for k in range(n):
        v = Val("v%d" % k)
        d["k%d" % k] = v
        model.append(("k%d" % k, v))
    return d, model


def dd_check(w, d, model, label):
    names = [k for k, _ in model]
    vals = [v for _, v in model]
    w.true(label + ": keys in order", d.keys() == names)
    w.true(label + ": iteration in order", [k for k in d] == names)
    w.true(label + ": values in order",
           len(d.values()) == len(vals) and
           all(a is b for a, b in zip(d.values(), vals)))
    w.true(label + ": items in order",
           [k for k, _ in d.items()] == names and
           all(a is b for (_, a), b in zip(d.items(), vals)))
    w.true(label + ": iteritems in order",
           [k for k, _ in d.iteritems()] == names)
    w.true(label + ": length", len(d) == len(names))
    for k, v in model:
        w.true(label + ": membership", k in d)
        w.true(label + ": item", d[k] is v)
        if isinstance(k, str) and k != "order" and not hasattr(type(d), k):
            w.true(label + ": attribute", getattr(d, k) is v)
    for k in ("zz", "k9"):
        if k not in names:
            w.true(label + ": no other key", k not in d)
            with w.raises(label + ": missing item", KeyError):
                d[k]
            with w.raises(label + ": missing attribute", AttributeError):
                getattr(d, k)


DD_OPS = ["set", "attr", "setdefault", "del", "delattr", "pop", "popitem",
          "clear", "update", "nothing", "format"]


def dd_apply(w, d, model, op, key, value=DD_OPS):
    names = [k for k, _ in model]
    new = Val("new") if value is DD_OPS else value
    if op in ("set", "attr", "update"):
        if op == "set":
            d[key] = new
        elif op == "attr":
            setattr(d, key, new)
        else:
            d.update({key: new})
        if key in names:
            model[names.index(key)] = (key, new)
        else:
            model.append((key, new))
    elif op == "setdefault":
        r = d.setdefault(key, new)
        if key in names:
            w.true("setdefault returns the value", r is dict(model)[key])
        else:
            w.true("setdefault returns the new value", r is new)
            model.append((key, new))
    elif op in ("del", "delattr"):
        if op == "del":
            del d[key]
        else:
            delattr(d, key)
        model[:] = [x for x in model if x[0] != key]
    elif op == "pop":
        if key in names:
            w.true("pop returns the value", d.pop(key) is dict(model)[key])
            model[:] = [x for x in model if x[0] != key]
        else:
            w.true("pop returns the default", d.pop(key, 7) == 7)
            with w.raises("pop of a missing key", KeyError):
                d.pop(key)
    elif op == "popitem":
        if model:
            k, v = d.popitem()
            w.true("popitem", k in names and v is dict(model)[k])
            model[:] = [x for x in model if x[0] != k]
    elif op == "clear":
        d.clear()
        del model[:]
    elif op == "format":
        d.outputformat = "%.9f"
        for k, v in model:
            w.true("output format of every value",
                   v.outputformat == "%.9f")
        w.true("output format", d.outputformat == (
            "%.9f" if model else "%.16e"))


@contract("C07", [DD + x for x in (
    "__setitem__", "__setattr__", "setdefault", "__delitem__", "__delattr__",
    "pop", "popitem", "clear", "update", "__iter__", "keys", "values",
    "items", "iteritems", "__getattr__", "outputformat")],
    cases=[dict(n=n, op=o, p=p) for n in range(5) for o in DD_OPS
           for p in range(n + 1)
           if p == 0 or o not in ("popitem", "clear", "nothing", "format")],
    runs=1)
def one_step(w, n, op, p):
    """From a state with n keys, an operation on the p:th (or a new) key."""
    d, model = dd_state(w, n)
    key = "k%d" % p if p < n else "new"
    dd_apply(w, d, model, op, key)
    dd_check(w, d, model, op)
    # the state is again such a state: assignment appends or replaces
    for key in [k for k, _ in model] + ["later"]:
        dd_apply(w, d, model, "set", key)
    dd_check(w, d, model, op + " then assignment")


@contract("C07", [DD + x for x in (
    "__setitem__", "__setattr__", "setdefault", "__delitem__", "__delattr__",
    "pop", "popitem", "update", "rename")],
    cases=[dict(v=v, op=o, p=p) for v in (None, 0, "", (), False)
           for o in DD_OPS if o not in ("clear", "format") for p in range(4)],
    runs=1)
def empty_values(w, v, op, p):
    """Values which are false are values like any other."""
    d, model = w.ds.DataDict(), []
    for k in range(3):
        for x in ("set", "setdefault"):
            dd_apply(w, d, model, x, "k%d" % k, v)
    key = "k%d" % p
    dd_apply(w, d, model, op, key, v)
    dd_check(w, d, model, op)
    dd_apply(w, d, model, "set", key, v)
    dd_apply(w, d, model, "set", "later", v)
    dd_check(w, d, model, op + " then assignment")
    d.rename("later", "last")
    model[-1] = ("last", v)
    dd_check(w, d, model, "rename")


@contract("C07", [DD + "rename"],
          cases=[dict(n=n, p=p, q=q) for n in range(1, 5) for p in range(n)
                 for q in range(n + 1)], runs=1)
def rename(w, n, p, q):
    """The renamed value keeps its position; an overwritten key goes."""
    d, model = dd_state(w, n)
    old, new = "k%d" % p, "k%d" % q if q < n else "new"
    v = dict(model)[old]
    d.rename(old, new)
    if new == old:
        pass
    elif q < n:
        model = [(k, v if k == new else x) for k, x in model if k != old]
    else:
        model = [(new, v) if k == old else (k, x) for k, x in model]
    dd_check(w, d, model, "rename")
    with w.raises("rename of a missing key", KeyError):
        d.rename("zz", "yy")
    dd_check(w, d, model, "after a failed rename")


@contract("C07", [DD + "copy", DD + "view"],
          cases=[dict(n=n, how=h) for n in (0, 1, 2, 3, 40)
                 for h in ("copy", "view")], runs=1)
def copies(w, n, how):
    d, model = dd_state(w, n)
    c = getattr(d, how)()
    w.true("type", type(c) is type(d))
    w.true("same keys in order", c.keys() == d.keys())
    for k, v in model:
        w.true("values are " + how, c[k].kind == how and c[k].src is v)
    c["more"] = Val("more")
    if n:
        del c["k0"]
    dd_check(w, d, model, "the source of a " + how)
    d["later"] = Val("later")
    w.true("the %s is independent" % how, c.keys() == ["k%d" % k for k in
                                                      range(1, n)] + ["more"])


@contract("C07", [DD + "__setitem__", DD + "__iter__"],
          cases=[dict(k=k) for k in range(20)], prove=False, runs=3)
def histories(w, k):
    """Random histories of 40 operations against an ordered list."""
    d, model = w.ds.DataDict(), []
    w.int("history", 0, 10 ** 6)
    many = k % 2 == 1
    if k % 4 > 1:
        model = [(n, Val(n)) for n in ("start", "_a", "B b", "n3", "n1")]
        d = w.ds.DataDict(model) if k % 8 > 5 else w.ds.DataDict(
            **dict(model))
        dd_check(w, d, model, "initial contents")
        d, model = w.ds.DataDict(), []
    odd = ["_x", "__y", "N1", "1", "\xe5", "a b", "", "order", "keys",
           "values", "S11", 7, ("t", 1), None]
    for step in range(40):
        op = DD_OPS[w.rng.randrange(len(DD_OPS))]
        key = "n%d" % w.rng.randrange(30 if many else 6)
        if w.rng.random() < .2:
            key = odd[w.rng.randrange(len(odd))]
            if op in ("attr", "delattr") and not (
                    isinstance(key, str) and key != "order" and
                    not hasattr(type(d), key)):
                op = "set"
        if many and op in ("clear", "popitem"):
            op = "set"
        if w.rng.random() < .2 and model:
            old, new = model[w.rng.randrange(len(model))][0], key
            v = dict(model)[old]
            d.rename(old, new)
            if new != old:
                if new in dict(model):
                    model = [(a, v if a == new else x) for a, x in model
                             if a != old]
                else:
                    model = [(new, v) if a == old else (a, x)
                             for a, x in model]
        elif op != "clear" or w.rng.random() < .1:
            dd_apply(w, d, model, op, key)
        dd_check(w, d, model, "step %d (%s %s)" % (step, op, key))


# ------------------------------------------------------------- DataBlock

def block(w, spec, names="abcdeg", kinds=None, dims=None):
    """A block with one variable per entry of spec (letters of its axes)."""
    dims = dims or make_dims(w, "".join(spec))
    db = w.ds.DataBlock()
    raws, lists = {}, {}
    for q, l in enumerate(spec):
        n = names[q]
        A, ra = mk(w, n, l, dims, (kinds or "f" * 9)[q], unit="U" + n,
                   outputformat="%.4f")
        db[n] = A
        raws[n], lists[n] = ra, [dims[c] for c in l]
    return db, dims, raws, lists


def coherent(w, label, db):
    """Every axis of every variable is registered with the same labels."""
    for k in db.vardata:
        for d in db.vardata[k].dims:
            w.true(label + ": %s of %s registered" % (d.name, k),
                   d.name in db.ivardata)
            e = db.ivardata[d.name]
            w.same_dim(label + ": registered", e, type(d), d.name, d.data,
                       d.unit)


SPECS = [("f", "f"), ("fr", "r", "f"), ("f", "g", "fg"), ("", "f")]
# variables of every rank up to four, the axis f in every place, axes of
# every class, variables without f before and after
RANKS = [("f", "g"), ("rf", ""), ("rg", "grf", "f"), ("gfr", "rf", "s"),
         ("srgf", "f", "gs"), ("rsfg", "gr", "fr"), ("fgrs", "sf"),
         ("gfrs", "f", "gf"), ("pf", "p", "xf"), ("fp", "gpf"), ("xfr", "x"),
         ("fij", "f"), ("f", "rfij", "ij"), ("g", "gfij", "fg"),
         ("ifj", "f"), ("ijf", "ji"), ("frs", "rfs", "rsf", "sr"),
         ("a", "af", "fa"), ("f", "fg", "fgr", "fgrs"),
         ("grsf", "grs", "gr", "g", "")]
WIDE = SPECS + RANKS


@contract("C08", [DB + "__setitem__", DB + "__setattr__", DB + "__getitem__",
                  DB + "__getattr__", DB + "__contains__", DB + "__delitem__",
                  DB + "allvarnames"],
          cases=[dict(spec=s, how=h) for s in WIDE
                 for h in ("item", "attr")])
def variables(w, spec, how):
    """What is stored is what is read; axes become readable variables."""
    dims = make_dims(w, "".join(spec))
    db = w.ds.DataBlock()
    got, order = {}, []
    for q, l in enumerate(spec):
        A, ra = mk(w, "v%d" % q, l, dims)
        name = "var%s" % "xyzuv"[q]
        if how == "item":
            db[name] = A
        else:
            setattr(db, name, A)
        got[name] = (A, ra, [dims[c] for c in l])
        for c in l:
            if c not in order:
                order.append(c)
    w.true("variables in order of definition",
           db.vardata.keys() == ["var%s" % "xyzuv"[q]
                                 for q in range(len(spec))])
    w.true("axes in order of appearance",
           db.ivardata.keys() == [dims[c].name for c in order])
    w.true("all names", db.allvarnames == db.ivardata.keys() +
           db.vardata.keys())
    coherent(w, "block", db)
    for name, (A, ra, dl) in got.items():
        w.true("membership", name in db)
        for X in (db[name], getattr(db, name)):
            untouched(w, "variable", X, ra, dl)
    for c in order:
        w.true("membership of an axis", dims[c].name in db)
        full(w, "axis as variable", db[dims[c].name], [dims[c]],
             lambda i: w.at(dims[c].data, (i,)))
    w.true("unknown name", "nothing" not in db)
    with w.raises("unknown item", KeyError):
        db["nothing"]
    with w.raises("unknown attribute", AttributeError):
        db.nothing
    del db["varx"]
    w.true("deleted", "varx" not in db and db.vardata.keys() ==
           ["var%s" % "xyzuv"[q] for q in range(1, len(spec))])


@contract("C08", [DB + "replace_dim", DB + "rename",
                  "dataset.arrayobj:_hfarray.replace_dim"],
          cases=[dict(spec=s, how=h, c=c) for s in WIDE
                 for h in ("object", "name", "class", "rename")
                 for c in "frgsxp" if c in "".join(s)])
def replaced_dimension(w, spec, how, c):
    """The axis changes in every variable and nowhere else."""
    ds = w.ds
    db, dims, raws, lists = block(w, spec)
    before = db.ivardata.keys()
    old = dims[c]
    if how == "rename":
        db.rename(old.name, "fresh")
        new = type(old)("fresh", old.data, unit=old.unit)
    elif how == "class":
        new = ds.DimSweep if c in "rs" else ds.DimRep
        db.replace_dim(old, new)
        new = new(old.name, old.data, unit=old.unit)
    else:
        new = ds.DimSweep("other", w.raw("newlab", (w.size_of(old),), "f"),
                          unit="W")
        db.replace_dim(old if how == "object" else old.name, new)
    w.true("position of the axis kept", db.ivardata.keys() ==
           [new.name if n == old.name else n for n in before])
    for n in raws:
        want = [new if x is old else x for x in lists[n]]
        untouched(w, "variable", db[n], raws[n], want)
        w.true("unit", db[n].unit == "U" + n)
    coherent(w, "block", db)
    with w.raises("unknown axis", KeyError):
        db.replace_dim("nothing", new)
    with w.raises("unknown axis", KeyError):
        db.replace_dim(ds.DimSweep("nothing", 3), new)
    w.true("refused without change", new.name in db.ivardata and
           "nothing" not in db.ivardata)


@contract("C08", [DB + "rename"], cases=[dict(p=p) for p in range(3)])
def renamed_variable(w, p):
    db, dims, raws, lists = block(w, ("f", "fr", "r"))
    old = "abc"[p]
    db.rename(old, "newname")
    names = ["newname" if n == old else n for n in "abc"]
    w.true("order kept", db.vardata.keys() == names)
    w.true("old name gone", old not in db)
    for n, o in zip(names, "abc"):
        untouched(w, "variable", db[n], raws[o], lists[o])
    db.rename("nothing", "other")
    w.true("unknown names are ignored", db.vardata.keys() == names)


@contract("C08", [DB + "__setitem__"],
          cases=[dict(spec=s) for s in WIDE])
def relabelled_axis(w, spec):
    """Assigning values to an axis relabels it in every variable."""
    db, dims, raws, lists = block(w, spec)
    old = dims["f"]
    lab = w.raw("newlab", (w.size_of(old),), "f")
    db[old.name] = w.ds.hfarray(lab, dims=(old,))
    for n in raws:
        w.true("rank", db[n].ndim == len(lists[n]))
        for d, e in zip(db[n].dims, lists[n]):
            w.same_dim("axis", d, type(e), e.name,
                       lab if e is old else e.data, e.unit)
        w.same_array("values", db[n], lambda *i: w.at(raws[n], i),
                     raws[n].shape)
    w.same_seq("registered labels", db.ivardata[old.name].data, lab)


@contract("C08", [DB + "__getitem__", DB + "__setitem__",
                  DS + "is_matrix_name"],
          cases=[dict(d=d, n=n) for d in ("f", "fr", "") for n in (2, 3)] +
          [dict(d=d, n=2, e=e) for d, e in [
              ("fr", "rf"), ("fr", "f"), ("fr", "r"), ("fr", ""), ("f", ""),
              ("rf", "fr"), ("rf", "f"), ("fgr", "rgf"), ("fgr", "gf"),
              ("srf", "fs"), ("srf", "r"), ("px", "xp"), ("fgrs", "sg")]] +
          [dict(d=d, n=n) for d in ("rf", "px", "srf") for n in (1, 2)] +
          [dict(d="f", n=9)])
def matrix_elements(w, d, n, e=None):
    """db.S21 reads and writes exactly that element of db.S."""
    e = d if e is None else e
    db = w.ds.DataBlock()
    dims = make_dims(w, d)
    dl = [dims[c] for c in d] + mdims(w, n)
    raw = w.raw("S", [w.size_of(x) for x in dl], "c")
    db.S = w.ds.hfarray(raw, dims=tuple(dl))
    for i in range(n):
        for j in range(n):
            full(w, "element", getattr(db, "S%d%d" % (i + 1, j + 1)),
                 dl[:-2], lambda *q: w.at(raw, q + (i, j)))
    E, re_ = mk(w, "e", e, dims, "c")
    p = (min(n, 2) - 1, 0)
    db["S%d%d" % (p[0] + 1, p[1] + 1)] = E
    for idx in w.forall([w.size_of(x) for x in dl]):
        at = dict(zip(d, idx))
        w.eq("only the named element is assigned", w.at(db.S, idx),
             w.at(re_, [at[c] for c in e]) if idx[-2:] == p
             else w.at(raw, idx))
    w.dims_are("matrix", db.S, dl)
    w.true("no separate variable", db.vardata.keys() == ["S"])
    with w.raises("element of an unknown matrix", KeyError):
        db["Z11"]
    A, ra = mk(w, "x", d, dims)
    db.V = A
    with w.raises("element of something that is no matrix", KeyError):
        db["V11"]
    B, rb = mk(w, "y", e, dims)
    db.V11 = B
    w.true("a variable of its own", db.vardata.keys() == ["S", "V", "V11"])
    untouched(w, "variable", db.V11, rb, [dims[c] for c in e])
    untouched(w, "other variable", db.V, ra, [dims[c] for c in d])


@contract("C08", [DB + "copy", DB + "view", DB + "keep_variables"],
          cases=[dict(spec=s, how=h) for s in WIDE
                 for h in ("copy", "view", "keep")])
def copied_block(w, spec, how):
    db, dims, raws, lists = block(w, spec)
    db.blockname = "name"
    db.comments = w.mod("hftools.dataset.comments").Comments(
        ["Size: 3 mm", "just a remark"])
    xname = db.xname = w.choice("xname", [None] + [x.name for x in
                                                   dims.values()])
    if how == "keep":
        c = db.keep_variables(["b", "nothing"])
        w.true("only the kept variables", c.vardata.keys() == ["b"])
    else:
        c = getattr(db, how)()
        w.true("variables in order",
               c.vardata.keys() == db.vardata.keys())
        w.true("axes in order", c.ivardata.keys() == db.ivardata.keys())
        w.true("x-axis", c.xname == xname)
        w.true("comments", c.comments.fullcomments ==
               ["Size: 3 mm", "just a remark"] and
               list(c.comments.property) == ["Size"])
    w.true("name", c.blockname == "name")
    for n in c.vardata.keys():
        untouched(w, "variable", c[n], raws[n], lists[n])
        w.true("unit", c[n].unit == "U" + n)
    coherent(w, "block", c)
    c["b"][...] = 0
    for idx in w.forall([w.size_of(x) for x in lists["b"]]):
        w.eq("copies are independent, views share the data",
             w.at(db["b"], idx),
             w.at(raws["b"], idx) if how == "copy" else 0)
    c["extra"] = w.ds.hfarray(1.)
    c["newaxis"] = w.ds.DimSweep("newaxis", 3)
    w.true("the source keeps its axes", "newaxis" not in db.ivardata)
    if how != "keep":
        first = c.ivardata.keys()[0]
        c.rename(first, "another")
        w.true("the source keeps the names of its axes",
               first in db.ivardata and "another" not in db.ivardata)
        for n in raws:
            w.dims_are("axes of the source", db[n], lists[n])
    del c["b"]
    w.true("the source keeps its variables",
           db.vardata.keys() == list(raws))
    if how == "copy":
        c.comments.add_from_comments(["Other: 4"])
        w.true("the source keeps its comments", db.comments.fullcomments ==
               ["Size: 3 mm", "just a remark"] and
               list(db.comments.property) == ["Size"])


@contract("C08", [DB + "set_outputformat", DB + "outputformat"],
          cases=[dict(spec=s, what=x) for s in WIDE[1:]
                 for x in ("var", "axis", "all", "unknown")])
def output_formats(w, spec, what):
    db, dims, raws, lists = block(w, spec)
    order = db.ivardata.keys()
    if what == "unknown":
        with w.raises("unknown name", w.mod(
                "hftools.dataset.dataset").DataBlockError):
            db.set_outputformat("nothing", "%.9f")
    elif what == "var":
        db.set_outputformat("b", "%.9f")
        for n in raws:
            w.true("format", db[n].outputformat ==
                   ("%.9f" if n == "b" else "%.4f"))
    elif what == "axis":
        db.set_outputformat(dims["f"].name, "%.9f")
        for k, d in db.ivardata.items():
            w.true("format of axes", (d.outputformat == "%.9f") ==
                   (k == dims["f"].name))
    else:
        db.outputformat = "%.9f"
        w.true("own", db.outputformat == "%.9f")
        for n in raws:
            w.true("format", db[n].outputformat == "%.9f")
        for d in db.ivardata.values():
            w.true("format of axes", d.outputformat == "%.9f")
    w.true("axes keep their order", db.ivardata.keys() == order)
    for n in raws:
        untouched(w, "variable", db[n], raws[n], lists[n])
    coherent(w, "block", db)


@contract("C08", [DB + "guess_units", "dataset.helper:guess_unit_from_varname"],
          cases=[dict(how=h) for h in ("all", "one", "list", "off")])
def guessed_units(w, how):
    ds = w.ds
    fd = ds.DimSweep("Freq", w.raw("lf", (w.size("nf"),), "f"))
    gd = ds.DimSweep("Vgs", w.raw("lg", (w.size("ng"),), "f"), unit="kV")
    db = ds.DataBlock()
    want = {"Id": "A", "Vds": "V", "Pow": None, "Ig": "mA"}
    raws = {}
    for n in want:
        raws[n] = w.raw(n, (w.size_of(fd), w.size_of(gd)), "f")
        db[n] = ds.hfarray(raws[n], dims=(fd, gd),
                           unit="mA" if n == "Ig" else None)
    db.comments = w.mod("hftools.dataset.comments").Comments([])
    prop = db.comments.property
    prop["Vce"] = ds.hfarray(3.)
    prop["Ib"] = ds.hfarray(4., unit="mA")
    prop["Vtext"] = "some text"
    prop["Id"] = ds.hfarray(2.)
    arg = {"all": True, "one": "Id", "list": ["Id", "Freq"],
           "off": False}[how]
    order = db.ivardata.keys()
    db.guess_units(arg)
    touched = {"all": ["Id", "Vds", "Freq"], "one": ["Id"],
               "list": ["Id", "Freq"], "off": []}[how]
    for n in want:
        w.true("guessed unit of " + n, db[n].unit == (
            "mA" if n == "Ig" else want[n] if n in touched else None))
        w.same_array("values", db[n], lambda *i: w.at(raws[n], i),
                     raws[n].shape)
    w.true("guessed unit of the axis", db.ivardata["Freq"].unit == (
        "Hz" if "Freq" in touched else None))
    w.true("given units are kept", db.ivardata["Vgs"].unit == "kV")
    w.true("units of comments", prop["Vce"].unit ==
           ("V" if how == "all" else None) and
           prop["Id"].unit == ("A" if how != "off" else None) and
           prop["Ib"].unit == "mA" and prop["Vtext"] == "some text")
    w.true("values of comments", float(prop["Vce"]) == 3 and
           float(prop["Ib"]) == 4)
    w.true("axes keep their order", db.ivardata.keys() == order)
    coherent(w, "block", db)


# ------------------------------------------------------------- C09

@contract("C09", [DB + "filter"],
          cases=[dict(spec=s, c=c) for s in
                 [("f", "f"), ("fr", "r", "f"), ("rf", "f"),
                  ("fg", "g", "gf"), ("gfr", "f")] + RANKS
                 for c in "frgx" if c in "".join(s)])
def filtering(w, spec, c):
    """A mask over one axis selects along it in every variable that has it."""
    db, dims, raws, lists = block(w, spec)
    db.blockname = "name"
    d = dims[c]
    m = w.raw("mask", (w.size_of(d),), "b")
    db.xname = d.name
    R = db.filter(w.ds.hfarray(m, dims=(d,)))
    w.true("x-axis", R.xname == d.name)
    w.true("variables in order", R.vardata.keys() == list(raws))
    w.true("name", R.blockname == "name")
    cnt = w.count(m)
    for n, l in zip(raws, spec):
        X = R[n]
        w.true("unit", X.unit == "U" + n)
        w.true("rank", X.ndim == len(l))
        for k, q in enumerate(l):
            e = dims[q]
            if q != c:
                w.same_dim("other axis", X.dims[k], type(e), e.name, e.data,
                           e.unit)
                continue
            w.true("class, name and unit of the axis", (
                type(X.dims[k]), X.dims[k].name, X.dims[k].unit) == (
                type(e), e.name, e.unit))
            w.true("selected length", X.shape[k] == cnt)
            for i, in w.forall((cnt,)):
                w.eq("selected labels", w.at(X.dims[k].data, (i,)),
                     w.at(e.data, (w.select(m, i),)))
        for idx in w.forall(X.shape):
            src = [w.select(m, i) if q == c else i
                   for i, q in zip(idx, l)]
            w.eq("selected element", w.at(X, idx), w.at(raws[n], src))
        untouched(w, "source unchanged", db[n], raws[n], lists[n])


@contract("C09", [DB + "filter", DB + "sort"],
          cases=[dict(what=x, c=c) for x in ("filter", "sort")
                 for c in "fgr"])
def axes_without_variables(w, what, c):
    """Axes no variable uses are selected, sorted and kept like others."""
    dims = make_dims(w, "fgrs")
    ds = w.ds
    db = ds.DataBlock()
    for x in "gfrs":
        db[dims[x].name] = dims[x]
    db.a, ra = mk(w, "a", "f", dims, "f")
    db.xname = dims["g"].name
    d = dims[c]
    if what == "filter":
        m = w.raw("mask", (w.size_of(d),), "b")
        R = db.filter(ds.hfarray(m, dims=(d,)))
        n = w.count(m)
        pos = lambda i: w.select(m, i)
    else:
        if not w.symbolic:
            w.assume(len(set(map(float, d.data))) == len(d.data))
        R = db.sort(d)
        n = w.size_of(d)
        perm = w.np.argsort(w.np.asarray(d.data))
        pos = lambda i: w.at(perm, (i,))
    w.true("x-axis", R.xname == dims["g"].name)
    w.true("axes", set(R.ivardata.keys()) == set(x.name
                                                 for x in dims.values()))
    for x in "gfrs":
        e, g = dims[x], R.ivardata[dims[x].name]
        if x != c:
            w.same_dim("other axis", g, type(e), e.name, e.data, e.unit)
            continue
        w.true("class, name and unit of the axis", (
            type(g), g.name, g.unit) == (type(e), e.name, e.unit))
        w.true("length", g.data.shape[0] == n)
        for i, in w.forall((n,)):
            w.eq("labels", w.at(g.data, (i,)), w.at(e.data, (pos(i),)))
    for i, in w.forall(R.a.shape):
        w.eq("value", w.at(R.a, (i,)), w.at(ra, (
            pos(i) if c == "f" else i,)))
    for x in "gfrs":
        e, g = dims[x], db.ivardata[dims[x].name]
        w.same_dim("source", g, type(e), e.name, e.data, e.unit)


@contract("C09", [DB + "filter"], cases=[dict(spec=s) for s in
                                         [("f",), ("fr", "r"), ("rf", "f")]],
          prove=False, runs=10)
def filtering_by_values(w, spec):
    np = w.np
    db, dims, raws, lists = block(w, spec)
    d = dims["f"]
    want = [v for v in d.data if w.rng.random() < .5] + [1e9]
    w._log("wanted", list(map(float, want)))
    keep = [k for k, v in enumerate(d.data) if v in want]
    R = db.filter(w.ds.hfarray(w.ds.DimSweep(d.name, want)))
    for n, l in zip(raws, spec):
        if "f" not in l:
            untouched(w, "other variable", R[n], raws[n], lists[n])
            continue
        k = l.index("f")
        w.true("labels", list(R[n].dims[k].data) == [d.data[q] for q in keep])
        w.true("values", bool((np.asarray(R[n]) == np.take(
            np.asarray(raws[n]), keep, axis=k)).all()))
    bad = [n for n, l in zip(raws, spec) if len(l) > 1]
    if bad and all(s > 1 for s in raws[bad[0]].shape):
        with w.raises("only one axis at a time", ValueError):
            db.filter(db[bad[0]] > 0)


@contract("C09", [DB + "sort"],
          cases=[dict(spec=s, by=b) for s in
                 [("f", "f"), ("fr", "r", "f"), ("rf", "f"),
                  ("fg", "g", "f")] + RANKS for b in ("axis", "var")
                 if b == "axis" or "f" in s])
def sorting(w, spec, by):
    """One permutation, taken from the key, for data and labels alike."""
    db, dims, raws, lists = block(w, spec)
    d = dims["f"]
    keyname = [n for n, l in zip(raws, spec) if l == "f"]
    if by == "var":
        if not keyname:
            return
        key, kr = db[keyname[0]], raws[keyname[0]]
    else:
        key, kr = d, d.data
    if not w.symbolic:
        w.assume(len(set(map(float, kr))) == len(kr))
    db.blockname, db.xname = "name", d.name
    R = db.sort(key)
    w.true("name", R.blockname == "name")
    w.true("x-axis", R.xname == d.name)
    perm = w.np.argsort(w.np.asarray(kr))
    w.true("variables in order", R.vardata.keys() == list(raws))
    for n, l in zip(raws, spec):
        X = R[n]
        w.true("rank", X.ndim == len(l))
        for k, q in enumerate(l):
            e = dims[q]
            if q != "f":
                w.same_dim("other axis", X.dims[k], type(e), e.name, e.data,
                           e.unit)
                continue
            w.true("class, name and unit of the axis", (
                type(X.dims[k]), X.dims[k].name, X.dims[k].unit) == (
                type(e), e.name, e.unit))
            for i, in w.forall((w.size_of(e),)):
                w.eq("labels move with the data", w.at(X.dims[k].data, (i,)),
                     w.at(e.data, (w.at(perm, (i,)),)))
        for idx in w.forall(X.shape):
            src = [w.at(perm, (i,)) if q == "f" else i
                   for i, q in zip(idx, l)]
            w.eq("sorted element", w.at(X, idx), w.at(raws[n], src))
        untouched(w, "source unchanged", db[n], raws[n], lists[n])
    coherent(w, "sorted block", R)
    if not w.symbolic:
        s = w.np.asarray(kr)[w.np.asarray(perm)]
        w.true("the key is ascending", bool((s[1:] >= s[:-1]).all()))


@contract("C09", [DB + "sort"],
          cases=[dict(spec=s, by=b) for s in [("f", "fr"), ("rf", "f"),
                                              ("gfr", "f", "fij")]
                 for b in ("axis", "var")], prove=False, runs=12)
def sorting_with_ties(w, spec, by):
    """Equal keys: still one permutation, and the key is ascending."""
    np = w.np
    ds = w.ds
    n = w.size("nf", lo=1)
    lab = [float(w.rng.randrange(3)) for _ in range(n)] if by == "axis" \
        else [float(q) for q in range(n)]
    w._log("labels", lab)
    dims = make_dims(w, "".join(spec).replace("f", ""))
    dims["f"] = ds.DimSweep("dimf", lab)
    db, dims, raws, lists = block(w, spec, dims=dims)
    db["mark"] = ds.hfarray(np.arange(n) * 1., dims=(dims["f"],))
    tied = [float(w.rng.randrange(3)) for _ in range(n)]
    w._log("key", tied)
    db["key"] = ds.hfarray(np.array(tied), dims=(dims["f"],))
    R = db.sort(dims["f"] if by == "axis" else db.key)
    perm = [int(x) for x in np.asarray(R.mark)]
    w.true("a permutation", sorted(perm) == list(range(n)))
    key = lab if by == "axis" else tied
    w.true("ascending", [key[q] for q in perm] == sorted(key))
    for v, l in zip(raws, spec):
        k = l.index("f")
        w.true("labels", list(R[v].dims[k].data) == [lab[q] for q in perm])
        w.true("values", bool((np.asarray(R[v]) == np.take(
            np.asarray(raws[v]), perm, axis=k)).all()))


@contract("C09", [DB + "squeeze"],
          cases=[dict(spec=s) for s in [("f", "fr"), ("fr", "r", "")] +
                 [s for s in RANKS if len(set("".join(s))) < 4]])
def squeezed_block(w, spec):
    db, dims, raws, lists = block(w, spec)
    R = db.squeeze()
    w.true("variables in order", R.vardata.keys() == list(raws))
    for n in raws:
        keep = [k for k, x in enumerate(lists[n]) if w.size_of(x) != 1]
        X = R[n]
        w.dims_are("kept axes", X, [lists[n][k] for k in keep])
        for idx in w.forall(X.shape):
            src = [0] * len(lists[n])
            for k, i in zip(keep, idx):
                src[k] = i
            w.eq("element", w.at(X, idx), w.at(raws[n], src))
    for k in db.ivardata:
        w.true("axes stay known", k in R.ivardata)


@contract("C09", [DB + "remove_rep", "dataset.arrayobj:remove_rep"],
          cases=[dict(spec=s) for s in [("fr",), ("rs",), ("frs",), ("rfs",),
                                        ("rs", "frs"), ("fr", "r", "f")]])
def repetitions_merged(w, spec):
    """All repetition axes become one; each repetition axis is a variable."""
    db, dims, raws, lists = block(w, spec)
    db.comments = w.ds.Comments(["Temp: 300", "remark"])
    R = db.remove_rep("ALL")
    w.true("comments", R.comments.fullcomments == ["Temp: 300", "remark"])
    reps = []
    for l in spec:
        reps += [c for c in l if c in "rs" and c not in reps]
    sizes = [w.size_of(dims[c]) for c in reps]
    for q, c in enumerate(reps):
        X = R[dims[c].name]
        w.true("one axis", X.ndim == 1 and X.dims[0].name == "ALL")
        w.true("unit of the repetitions", X.unit == dims[c].unit)
        for idx in w.forall(sizes):
            w.eq("repetition labels", w.at(X, (w.flat(idx, sizes),)),
                 w.at(dims[c].data, (idx[q],)))
    for n, l in zip(raws, spec):
        X = R[n]
        w.true("unit and format", (X.unit, X.outputformat) ==
               ("U" + n, "%.4f"))
        if not any(c in "rs" for c in l):
            untouched(w, "variable", X, raws[n], lists[n])
            continue
        order = [c for c in l if c not in "rs"]
        names = [d.name for d in X.dims]
        w.true("axes", sorted(names) == sorted(
            ["ALL"] + [dims[c].name for c in order]))
        for idx in w.forall([w.size_of(dims[c]) for c in l]):
            e = dict(zip(l, idx))
            rs = [c for c in l if c in "rs"]
            flat = w.flat([e[c] for c in rs],
                          [w.size_of(dims[c]) for c in rs])
            at = [flat if nm == "ALL" else
                  e[[c for c in order if dims[c].name == nm][0]]
                  for nm in names]
            w.eq("value", w.at(X, at), w.at(raws[n], idx))


@contract("C09", [DB + "remove_rep", "dataset.arrayobj:remove_rep"],
          prove=False, runs=6)
def many_repetitions(w):
    """More combinations than fit in a byte."""
    np, ds = w.np, w.ds
    r = ds.DimRep("r", w.rng.sample(range(99), 17))
    s = ds.DimRep("s", np.array([w.rng.random() for _ in range(19)]))
    x = np.array([[w.rng.random() for _ in range(19)] for _ in range(17)])
    db = ds.DataBlock()
    db.v = ds.hfarray(x, dims=(r, s), unit="V")
    R = db.remove_rep()
    w.true("all values", np.array_equal(np.asarray(R.v), x.ravel()))
    w.true("first labels", np.array_equal(np.asarray(R.r),
                                          np.repeat(r.data, 19)))
    w.true("second labels", np.array_equal(np.asarray(R.s),
                                           np.tile(s.data, 17)))
    w.true("axis", np.array_equal(R.v.dims[0].data, np.arange(17 * 19)) and
           R.v.dims[0].name == "AllReps" and R.v.unit == "V")


GRIDS = [(3,), (1,), (2, 2), (2, 3), (3, 1), (1, 2), (2, 1, 2), (2, 2, 2)]


@contract("C08", [DB + "outputformat", DB + "guess_units",
                  DB + "replace_dim", DB + "rename"],
          cases=[dict(n=n) for n in (1, 7, 13, 40)], runs=1)
def many_axes(w, n):
    """However many axes a block has, all of them are treated alike."""
    ds, np = w.ds, w.np
    db = ds.DataBlock()
    for k in range(n):
        db["v%d" % k] = ds.hfarray(np.arange(k % 3 + 1.), dims=(
            ds.DimSweep("x%d" % k, np.arange(k % 3 + 1.), unit="m"),))
    db.outputformat = "%.7f"
    names = ["x%d" % k for k in range(n)]
    w.true("axes", db.ivardata.keys() == names)
    for k in range(n):
        w.true("format of every axis",
               db.ivardata["x%d" % k].outputformat == "%.7f" and
               db["v%d" % k].dims[0].outputformat == "%.7f")
        w.true("format of every variable",
               db["v%d" % k].outputformat == "%.7f")
    for k in range(n):
        db.rename("x%d" % k, "y%d" % k)
        db.rename("v%d" % k, "u%d" % k)
    w.true("renamed", db.vardata.keys() == ["u%d" % k for k in range(n)] and
           [db["u%d" % k].dims[0].name for k in range(n)] ==
           ["y%d" % k for k in range(n)] and
           sorted(db.ivardata.keys()) == sorted("y%d" % k for k in range(n)))
    for k in range(n):
        w.true("values and unit", list(np.asarray(db["u%d" % k])) == list(
            range(k % 3 + 1)) and db["u%d" % k].dims[0].unit == "m")


@contract("C09", [DB + "hyper"],
          cases=[dict(grid=g, l=l, idx=bool((q + p) % 2), shuffle=(q + p) // 2)
                 for q, g in enumerate(GRIDS)
                 for p, l in enumerate(("x", "xr", "rx", "rxs", "rsx", "xrs",
                                        "xij", "grx"))],
          bound="grids of at most 8 points, parameter values fixed", runs=6)
def hypercube(w, grid, l, idx, shuffle):
    """A flat sweep becomes a grid over the values of its parameters."""
    import random
    np = w.np
    ds = w.ds
    rng = random.Random(repr((grid, l, shuffle)))
    val = w.rng.uniform if not w.symbolic else rng.uniform
    names = "ABC"[:len(grid)]
    vals = [[val(-5, 5) for _ in range(n)] for n in grid]
    pts = list(itertools.product(*vals))
    if shuffle:
        rng.shuffle(pts)
    x = ds.DimSweep("x", np.arange(len(pts)) * 1.)
    dims = make_dims(w, "".join(sorted(set(l + "rsg") - set("x"))))
    dims["x"] = x
    r = dims["r"]
    db = ds.DataBlock()
    db.blockname = "name"
    db.comments = ds.Comments(["Temp: 300", "remark"])
    for q, n in enumerate(names):
        db[n] = ds.hfarray(np.array([p[q] for p in pts]), dims=(x,),
                           unit="V" + n, outputformat="%%.%df" % (q + 2))
    V, raw = mk(w, "val", l, dims, "f", unit="Q", outputformat="%.7f")
    db.val = V
    O, ro = mk(w, "other", "r", dims, unit="O")
    db.other = O
    G, rg = mk(w, "large", "grs", dims)
    db.large = G
    db["alone"] = ds.DimSweep("alone", 3)
    db["single"] = ds.DimRep("single", 1)
    R = db.hyper(list(names), "x" if idx else x, indexed=idx)
    w.true("name", R.blockname == "name")
    w.true("comments", list(R.comments.fullcomments) == [
        "Temp: 300", "remark"] and R.comments.property["Temp"] == 300)
    suf = "_index" if idx else ""
    k = l.index("x")
    want = [n + suf for n in names]
    w.true("axes replace the sweep in place", [
        d.name for d in R.val.dims] == [dims[c].name for c in l[:k]] + want +
        [dims[c].name for c in l[k + 1:]])
    w.true("parameters are the first axes",
           R.ivardata.keys()[:len(names)] == want)
    new = [R.ivardata[n] for n in want]
    for q, d in enumerate(new):
        w.true("labels", sorted(map(float, d.data)) == sorted(vals[q]))
        w.true("unit and format of a parameter", (
            d.unit, d.outputformat) == ("V" + names[q], "%%.%df" % (q + 2)))
        w.true("class", type(d) is ds.DimSweep)
    w.true("unit and format", (R.val.unit, R.val.outputformat) ==
           ("Q", "%.7f"))
    w.dims_are("value", R.val, [dims[c] for c in l[:k]] + new +
               [dims[c] for c in l[k + 1:]])
    w.true("axes", set(R.ivardata) == set(
        want + ["alone", "single"] + [dims[c].name for c in "grs"] + [dims[c].name for c in l if c != "x"]))
    full(w, "other variables are kept", R.other, [r],
         lambda i: w.at(ro, (i,)), unit="O")
    full(w, "other variables are kept", R.large, [dims[c] for c in "grs"],
         lambda *i: w.at(rg, i))
    sizes = [w.size_of(dims[c]) for c in l]
    for q, pt in enumerate(pts):
        at = tuple([float(v) for v in d.data].index(a)
                   for d, a in zip(new, pt))
        for i in w.forall(sizes[:k] + sizes[k + 1:]):
            w.eq("value at its parameters",
                 w.at(R.val, i[:k] + at + i[k:]),
                 w.at(raw, i[:k] + (q,) + i[k:]))
        if idx:
            for n, a in zip(names, pt):
                w.eq("parameter", w.at(R[n], at), a)
    w.true("the sweep is gone", "x" not in R.ivardata)
    w.true("the source keeps its shape", db.val.ndim == len(l) and
           db.val.dims[k].name == "x")
    Q = db.hyper(list(names), x, all=False)
    w.true("only swept variables", "other" not in Q.vardata and
           "val" in Q.vardata)


@contract("C09", [DB + "interpolate", DS + "interpolate"],
          cases=[dict(l=l, mode=m) for l in ("f", "fr", "rf")
                 for m in (None, "none", "linear")], prove=False, runs=10)
def interpolated_block(w, l, mode):
    np = w.np
    n = w.size("nf", lo=2)
    x = np.array([.1 + w.rng.random() for _ in range(n)]).cumsum()
    if w.rng.random() < .5:
        w.rng.shuffle(x)
    f = w.ds.DimSweep("dimf", x, unit="Hz")
    dims = {"f": f, "r": make_dim(w, "r")}
    db = w.ds.DataBlock()
    A, ra = mk(w, "a", l, dims, unit="V")
    db.a = A
    O, ro = mk(w, "o", "r", dims)
    db.o = O
    m = w.size("m")
    if mode == "linear":
        xi = np.array([w.rng.uniform(x.min(), x.max())
                       for _ in range(m)])
    else:
        xi = np.array([x[w.rng.randrange(n)] for _ in range(m)])
    w._log("x", list(x)), w._log("xi", list(xi))
    new = w.ds.DimSweep("dimf", xi, unit="Hz")
    how = w.rng.choice(["dim", "array"])
    R = db.interpolate(new if how == "dim" else w.ds.hfarray(new), mode)
    untouched(w, "variables without the axis", R.o, ro, [dims["r"]])
    w.dims_are("axes", R.a, [new if c == "f" else dims[c] for c in l])
    w.true("unit", R.a.unit == "V")
    for idx in w.forall(R.a.shape):
        e = dict(zip(l, idx))
        col = np.array([ra[tuple(q if c == "f" else e[c] for c in l)]
                        for q in range(n)])
        w.eq("value on the line between neighbours", w.at(R.a, idx),
             np.interp(xi[e["f"]], np.sort(x), col[np.argsort(x)]))
    with w.raises("outside the range", ValueError):
        db.interpolate(w.ds.DimSweep("dimf", [x.min(), x.max() + 1]), mode)
    if mode != "linear":
        with w.raises("missing values", ValueError):
            db.interpolate(w.ds.DimSweep("dimf", [x[0], x[0] - 1]), mode)
    with w.raises("unknown mode", ValueError):
        db.interpolate(new, "cubic-ish")


@contract("C09", [DS + "convert_matrices_to_elements"],
          cases=[dict(d=d, n=n) for d in ("f", "fr", "", "fgr")
                 for n in (1, 2, 3)] +
          [dict(d=d, n=m, m=n) for d in ("f", "", "rs")
           for m, n in ((1, 2), (2, 1), (2, 3), (3, 2), (4, 4))])
def matrices_to_elements(w, d, n, m=None):
    m = m or n
    dims = make_dims(w, d)
    dl = [dims[c] for c in d] + [mdims(w, n)[0], mdims(w, m)[1]]
    raw = w.raw("S", [w.size_of(x) for x in dl], "c")
    db = w.ds.DataBlock()
    db.blockname = "name"
    db.S = w.ds.hfarray(raw, dims=tuple(dl))
    A, ra = mk(w, "v", d, dims)
    db.V = A
    mod = w.mod("hftools.dataset.dataset")
    for fmt, name in ((None, "S%d%d"),
                      (lambda v, i, j: "%s[%d,%d]" % (v, i, j), "S[%d,%d]")):
        R = mod.convert_matrices_to_elements(db, fmt)
        w.true("names in row order", R.vardata.keys() == [
            name % (i + 1, j + 1) for i in range(n)
            for j in range(m)] + ["V"])
        w.true("block name", R.blockname == "name")
        for i in range(n):
            for j in range(m):
                full(w, "element", R.vardata[name % (i + 1, j + 1)], dl[:-2],
                     lambda *q: w.at(raw, q + (i, j)))
        untouched(w, "plain variable", R.V, ra, dl[:-2])
        w.true("source", db.vardata.keys() == ["S", "V"])


@contract("C09", [DS + "yield_dim_consistent_datablocks",
                  DS + "subset_datablock_by_dims"],
          cases=[dict(spec=s) for s in [("f", "f"), ("fr", "r", "f"),
                                        ("fg", "g", "f", "h"),
                                        ("f", "g", "h", "fg", "fgh")]],
          prove=False, runs=4)
def consistent_blocks(w, spec):
    """Every variable ends up in some block whose axes include its own."""
    db, dims, raws, lists = block(w, spec)
    mod = w.mod("hftools.dataset.dataset")
    seen = []
    for dl, sub in mod.yield_dim_consistent_datablocks(db):
        for n in sub.vardata.keys():
            seen.append(n)
            untouched(w, "variable", sub[n], raws[n], lists[n])
            w.true("only axes of the block", all(
                d.name in [x.name for x in dl] for d in lists[n]))
            w.true("all axes or all but the first", [
                d.name for d in lists[n]] in (
                [x.name for x in dl], [x.name for x in dl[1:]]))
    w.true("no variable is lost", set(seen) == set(raws))


@contract("C09", [DB + "sort", DB + "filter"],
          cases=[dict(what=x) for x in ("sort", "filter", "values")])
def unrelated_axis(w, what):
    """Sorting or filtering along an axis the block lacks changes nothing."""
    import warnings
    db, dims, raws, lists = block(w, ("fr", "f", "r"))
    db.blockname = "name"
    g = make_dim(w, "g", n=3)
    K = w.ds.hfarray(w.raw("key", (3,), "f"), dims=(g,))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if what == "sort":
            R = db.sort(K)
        elif what == "filter":
            R = db.filter(w.ds.hfarray(w.np.array([True, False, True]),
                                       dims=(g,)))
        else:
            R = db.filter(K)
    w.true("name", R.blockname == "name")
    w.true("variables", R.vardata.keys() == list(raws))
    for n in raws:
        untouched(w, "variable", R[n], raws[n], lists[n])
    coherent(w, "block", R)


@contract("C09", [DB + "sort", DB + "filter"], prove=False, runs=10)
def sort_filter_formats(w):
    """Unit and output format survive, keys may have axes of length one."""
    np = w.np
    ds = w.ds
    n = w.size("n", lo=2)
    f = ds.DimSweep("f", w.raw("f", (n,), "f"))
    r = ds.DimRep("r", 1)
    raw = w.raw("a", (n, 1), "f")
    db = ds.DataBlock()
    db.a = ds.hfarray(raw, dims=(f, r), unit="V", outputformat="%.4f")
    db.comments = w.mod("hftools.dataset.comments").Comments(["Size: 3"])
    x = np.asarray(raw)[:, 0]
    w.assume(len(set(x)) == n)
    R = db.sort(db.a)
    w.true("sorted by the key", list(np.asarray(R.a)[:, 0]) == sorted(x))
    w.true("labels follow", list(R.a.dims[0].data) ==
           [f.data[k] for k in np.argsort(x)])
    w.true("format", (R.a.unit, R.a.outputformat) == ("V", "%.4f"))
    w.true("comments", R.comments.fullcomments == ["Size: 3"])
    m = ds.hfarray(x > x.mean(), dims=(f,))
    R = db.filter(m)
    w.true("filtered", list(np.asarray(R.a)[:, 0]) == list(x[x > x.mean()]))
    w.true("format", (R.a.unit, R.a.outputformat) == ("V", "%.4f"))
    w.true("comments", R.comments.fullcomments == ["Size: 3"])
    g = ds.DimRep("g", 2)
    two = ds.hfarray(np.zeros((n, 2)), dims=(f, g))
    with w.raises("two axes", ValueError):
        db.sort(two)
    with w.raises("two axes", ValueError):
        db.filter(two > 0)


# ------------------------------------------ blocks of any kind (bounded)

@contract("C08", [DB + x for x in ("__setitem__", "copy", "view", "rename",
                                   "replace_dim", "set_outputformat",
                                   "guess_units", "keep_variables",
                                   "__delitem__", "outputformat")],
          cases=[dict(op=o) for o in (
              "copy", "view", "keep", "rename", "rename axis", "relabel",
              "replace", "class", "format", "axis format", "all formats",
              "units", "delete", "element", "filename", "axes first")],
          prove=False, runs=14)
def any_block(w, op):
    np, ds, rng = w.np, w.ds, w.rng
    m = anyblock.draw(w)
    m.name = rng.choice([None, "blk", "My Block"])
    db = m.build(w, register=op == "axes first")
    anyblock.agrees(w, "as built", db, m)
    w.true("block name", db.blockname == m.name)
    names = [n for n, _ in m.vars]
    if op in ("copy", "view"):
        c = getattr(db, op)()
        anyblock.agrees(w, op, c, m)
        w.true("block name of the " + op, c.blockname == m.name)
        for n, v in m.vars:
            if v.data.dtype.kind in "fc" and v.data.size:
                c[n][...] = 5
                if op == "view":
                    v.data = np.full_like(v.data, 5)
        anyblock.agrees(w, "source after a %s was written" % op, db, m)
    elif op == "keep":
        keep = [n for n in names if rng.random() < .5]
        rng.shuffle(keep)
        c = db.keep_variables(keep + ["nosuch"])
        k = anyblock.Model(m.axes, [(n, dict(m.vars)[n]) for n in keep])
        k.axes = [m.ax(a) for a in k.used()]
        anyblock.agrees(w, "kept", c, k)
        anyblock.agrees(w, "source", db, m)
    elif op == "rename":
        old = rng.choice(names)
        new = rng.choice(["Fresh", "_new", "n u", "Q77", "\xf6"])
        db.rename(old, new)
        m.vars = [(new if n == old else n, v) for n, v in m.vars]
        anyblock.agrees(w, "renamed", db, m)
    elif op == "delete":
        for n in rng.sample(names, rng.randint(1, len(names))):
            if rng.random() < .5:
                del db[n]
            else:
                delattr(db, n)
            m.vars = [x for x in m.vars if x[0] != n]
            anyblock.agrees(w, "deleted " + n, db, m)
    elif op in ("rename axis", "relabel", "replace", "class", "axis format"):
        if not m.axes:
            return
        old = rng.choice(m.axes)
        n = len(old.labels)
        if op == "rename axis":
            new = old.but(name=rng.choice(["Fresh", "_new", "n u", "\xf6"]))
            db.rename(old.name, new.name)
        elif op == "relabel":
            lab = anyblock.labels(rng, np, rng.choice("fie"), n)
            new = old.but(labels=lab)
            db[old.name] = ds.hfarray(lab, dims=(old.dim(),))
        elif op == "replace":
            lab = anyblock.labels(rng, np, rng.choice("fies" if n < 5
                                                      else "fie"), n)
            new = anyblock.Ax(ds.DimRep, rng.choice([old.name, "Fresh"]),
                              lab, "Wb", "%.1f")
            db.replace_dim(rng.choice([old.name, old.dim()]), new.dim())
        elif op == "class":
            new = old.but(cls=rng.choice([ds.DimSweep, ds.DimRep,
                                          ds.DimPartial]))
            db.replace_dim(old.name, new.cls)
        else:
            new = old.but(fmt="%.9f")
            db.set_outputformat(old.name, "%.9f")
        m.axes = [new if x is old else x for x in m.axes]
        m.vars = [(k, v.but(axes=[new.name if a == old.name else a
                                  for a in v.axes])) for k, v in m.vars]
        anyblock.agrees(w, op, db, m)
    elif op == "format":
        n = rng.choice(names)
        db.set_outputformat(n, "%.9f")
        m.vars = [(k, v.but(fmt="%.9f") if k == n else v)
                  for k, v in m.vars]
        anyblock.agrees(w, op, db, m)
    elif op == "all formats":
        db.outputformat = "%.9f"
        m.vars = [(k, v.but(fmt="%.9f")) for k, v in m.vars]
        m.axes = [x.but(fmt="%.9f") for x in m.axes]
        anyblock.agrees(w, op, db, m)
    elif op == "units":
        some = rng.random() < .5
        if some:
            pick = rng.sample(names + [x.name for x in m.axes], 1) + ["none"]
            db.guess_units(pick)
        else:
            pick = names + [x.name for x in m.axes]
            db.guess_units()
        g = lambda n, u: anyblock.GUESS.get(n) if u is None and n in pick \
            else u
        m.vars = [(k, v.but(unit=g(k, v.unit))) for k, v in m.vars]
        m.axes = [x.but(unit=g(x.name, x.unit)) for x in m.axes]
        anyblock.agrees(w, op, db, m)
    elif op == "element":
        mat = m.matrix()
        if mat is None:
            return
        v = dict(m.vars)[mat]
        i, j = rng.randrange(v.data.shape[-2]), rng.randrange(
            v.data.shape[-1])
        el = anyblock.values(rng, np, "f", v.data[..., i, j].size).reshape(
            v.data.shape[:-2])
        E = ds.hfarray(el, dims=tuple(m.ax(a).dim() for a in v.axes[:-2]),
                       unit="Pa", outputformat="%.1f")
        db["%s%d%d" % (mat, i + 1, j + 1)] = E
        v.data = v.data.copy()
        v.data[..., i, j] = el
        anyblock.agrees(w, op, db, m)
        R = db["%s%d%d" % (mat, i + 1, j + 1)]
        w.true("element read", anyblock.same(np, R, el) and R.unit == v.unit
               and [d.name for d in R.dims] == v.axes[:-2])
    elif op == "filename":
        for text in ("File_1.txt", "/a/b c/\xc5.S2P"):
            db.blockname = None
            db["FILENAME"] = ds.hfarray(np.array([text]), dims=(
                ds.DimSweep("FILEINDEX", 1),))
            w.true("the file names the block", db.blockname == text)
            db.blockname = "own"
            w.true("own name", db.blockname == "own")


@contract("C09", [DB + x for x in ("filter", "sort", "squeeze",
                                   "interpolate")] + [
    DS + "convert_matrices_to_elements",
    DS + "yield_dim_consistent_datablocks"],
    cases=[dict(op=o) for o in ("filter", "values", "sort", "sort by",
                                "squeeze", "select", "elements", "split")],
    prove=False, runs=20)
def any_selection(w, op):
    np, ds, rng = w.np, w.ds, w.rng
    mod = w.mod("hftools.dataset.dataset")
    m = anyblock.draw(w, reps=True)
    m.name = rng.choice([None, "blk"])
    if rng.random() < .4:
        for x in m.axes:
            if x.labels.dtype.kind == "f":
                x.labels = x.labels * rng.choice([1e-12, 1e-9, 1e9])
        w._log("axes scaled", [(x.name, x.labels.tolist()) for x in m.axes])
    db = m.build(w, register=rng.random() < .4)
    if not m.axes:
        return
    d = rng.choice([x for x in m.axes])
    n = len(d.labels)
    if op == "filter":
        mask = np.array([rng.random() < rng.choice([0, .5, 1])
                         for _ in range(n)])
        R = db.filter(ds.hfarray(mask, dims=(d.dim(),)))
        want = anyblock.along(m, d.name, np.nonzero(mask)[0], np)
    elif op == "values":
        keep = [k for k in range(n) if rng.random() < .5]
        if d.labels.dtype.kind != "f":
            keep = keep or [0]
        lab = d.labels[keep]
        R = db.filter(ds.hfarray(ds.DimSweep(d.name, lab)))
        want = anyblock.along(m, d.name, keep, np)
    elif op == "sort":
        R = db.sort(d.dim())
        want = anyblock.along(m, d.name, np.argsort(d.labels), np)
    elif op == "sort by":
        kind = rng.choice("fices")
        key = anyblock.labels(rng, np, kind if n < 5 else "f", n)
        if len(key) != n:
            return
        R = db.sort(ds.hfarray(key, dims=(d.dim(),)))
        want = anyblock.along(m, d.name, np.argsort(key), np)
    elif op == "squeeze":
        R = db.squeeze()
        want = anyblock.Model(m.axes, [])
        for k, v in m.vars:
            gone = [a for a in v.axes if len(m.ax(a).labels) == 1]
            want.vars.append((k, v.but(
                axes=[a for a in v.axes if a not in gone],
                data=v.data.reshape([s for s in v.data.shape if s != 1]))))
    elif op == "select":
        pos = [rng.randrange(n) for _ in range(rng.randint(1, 5))]
        R = db.interpolate(d.but(labels=d.labels[pos]).dim(), None)
        want = anyblock.along(m, d.name, pos, np)
        want.axes = [want.ax(a) for a in want.used()]
        anyblock.agrees(w, op, R, want, order=False)
        anyblock.agrees(w, "source", db, m)
        return
    elif op == "elements":
        R = mod.convert_matrices_to_elements(db)
        want = anyblock.Model(m.axes, [])
        for k, v in m.vars:
            if k != m.matrix():
                want.vars.append((k, v))
                continue
            for i in range(v.data.shape[-2]):
                for j in range(v.data.shape[-1]):
                    want.vars.append(("%s%d%d" % (
                        k, i + 1, j + 1), v.but(
                        axes=v.axes[:-2], data=v.data[..., i, j])))
        want.axes = [m.ax(a) for a in want.used()]
    else:
        seen = []
        for dl, sub in mod.yield_dim_consistent_datablocks(db):
            names = [x.name for x in dl]
            s = anyblock.Model(m.axes, [
                (k, v) for k, v in m.vars if set(v.axes) == set(names) or
                set(v.axes) == set(names[1:])])
            s.axes = [m.ax(a) for a in s.used()]
            anyblock.agrees(w, "block over %s" % names, sub, s, order=False)
            seen += [k for k, v in s.vars]
        w.true("no variable is lost", set(seen) == set(
            k for k, v in m.vars))
        anyblock.agrees(w, "source", db, m)
        return
    w.true("block name", R.blockname == m.name)
    anyblock.agrees(w, op, R, want, order=False)
    anyblock.agrees(w, "source", db, m)
