"""Data blocks of any kind against a model in plain python.

Bounded stand-in: concrete blocks drawn at random, with odd names, many
variables, values and labels of every type and axes of every class; the
model is a list of axes and a list of variables."""
import copy
import datetime

NAMES = ["a", "B", "var_1", "x y", "_u", "\xe5r", "T21", "S", "Vds", "vgs",
         "ID", "Freq", "n10", "n9", "Z_", "long" * 9, "1st", "a.b", "keys2",
         "H1", "VDS_SET", "is", "q'", "Data", "data2", "V-I", "m/s", "__v",
         "Y", "C3x", "iG", "Vds_set", "FReq"]
GUESS = {"Vds": "V", "vgs": "V", "ID": "A", "Freq": "Hz", "VDS_SET": "V",
         "is": "A"}
AXES = ["Time", "w", "f 1", "_rep", "R\xf6r", "Nr", "x.y", "axis" * 5, "K",
        "frequency", "IB"]
GUESS.update(frequency="Hz", IB="A")
FORMATS = ["%.3f", "%.6e", "%r", "%g"]


class Ax(object):
    def __init__(self, cls, name, labels, unit, fmt):
        self.cls, self.name, self.labels = cls, name, labels
        self.unit, self.fmt = unit, fmt

    def dim(self):
        return self.cls(self.name, self.labels, unit=self.unit,
                        outputformat=self.fmt)

    def but(self, **kw):
        x = copy.copy(self)
        x.__dict__.update(kw)
        return x


class Var(object):
    def __init__(self, axes, data, unit, fmt):
        self.axes, self.data, self.unit, self.fmt = axes, data, unit, fmt

    def but(self, **kw):
        x = copy.copy(self)
        x.__dict__.update(kw)
        return x


def values(rng, np, kind, n):
    if kind == "f":
        return np.array([rng.uniform(-3, 3) for _ in range(n)])
    if kind == "e":                       # engineering magnitudes
        return np.array([rng.uniform(1, 9) * 10. ** rng.randint(-12, 11)
                         for _ in range(n)])
    if kind == "c":
        return np.array([complex(rng.uniform(-2, 2), rng.uniform(-2, 2))
                         for _ in range(n)])
    if kind == "i":
        return np.array([rng.randint(-2 ** 33, 2 ** 33) for _ in range(n)])
    if kind == "4":
        return np.array([rng.uniform(-3, 3) for _ in range(n)], np.float32)
    if kind == "b":
        return np.array([rng.random() < .5 for _ in range(n)])
    if kind == "s":
        return np.array([rng.choice(["a", "Bb", "ab", "z z", "10", "9",
                                     "\xe5"]) for _ in range(n)])
    if kind == "z":                       # zeros and ties
        return np.array([float(rng.randint(-1, 1)) for _ in range(n)])
    if kind == "n":
        return np.array([rng.choice([1., 2., float("nan"), float("inf")])
                         for _ in range(n)])
    return np.array([np.datetime64(datetime.datetime(
        rng.randint(1970, 2040), rng.randint(1, 12), rng.randint(1, 28),
        rng.randint(0, 23), 0, 7, rng.randint(0, 999999)))
        for _ in range(n)], "datetime64[us]")


def labels(rng, np, kind, n):
    """Different labels."""
    while True:
        v = values(rng, np, kind, n + (3 if kind == "s" else 0))
        if kind == "s":
            v = np.array(sorted(set(v), key=lambda x: rng.random())[:n])
            n = min(n, len(v))
        if len(set(v.tolist())) == n and len(v) == n:
            return v


def draw(w, kinds="feciabsdz4", most=12, matrices=True, lab="fisde",
         reps=True):
    """axes, variables."""
    ds, np, rng = w.ds, w.np, w.rng
    names = rng.sample(AXES, rng.randint(1, 4))
    axes = []
    for n in names:
        cls = rng.choice([ds.DimSweep, ds.DimSweep, ds.DimPartial] +
                         ([ds.DimRep] if reps else []))
        v = labels(rng, np, rng.choice(lab), rng.choice([1, 2, 3, 3, 4, 7]))
        axes.append(Ax(cls, n, v, rng.choice([None, None, "Hz", "mV", ""]),
                       rng.choice([None] + FORMATS)))
    out = []
    for n in rng.sample(NAMES, rng.randint(1, most)):
        if n in names:
            continue
        k = rng.randint(0, len(axes))
        ax = rng.sample(axes, k)
        shape = [len(x.labels) for x in ax]
        size = 1
        for s in shape:
            size *= s
        kind = rng.choice([k for k in kinds if k != "a"])
        out.append((n, Var([x.name for x in ax],
                           values(rng, np, kind, size).reshape(shape),
                           rng.choice([None, None, "A", "W/mm", ""]),
                           rng.choice([None] + FORMATS))))
    if matrices and rng.random() < .5:
        mat = rng.choice(["Mat", "S_", "_m", "A1b", "Cov_S"])
        p, q = rng.randint(1, 4), rng.randint(1, 4)
        i = Ax(ds.DimMatrix_i, "i", np.arange(p), None, None)
        j = Ax(ds.DimMatrix_j, "j", np.arange(q), None, None)
        k = rng.randint(0, len(axes))
        ax = rng.sample(axes, k)
        shape = [len(x.labels) for x in ax] + [p, q]
        size = 1
        for s in shape:
            size *= s
        out.append((mat, Var([x.name for x in ax] + ["i", "j"],
                               values(rng, np, rng.choice("cf"),
                                      size).reshape(shape),
                               rng.choice([None, "Ohm"]), "%.5f")))
        axes += [i, j]
    w._log("axes", [(x.name, x.cls.__name__, str(x.labels.tolist()), x.unit,
                     x.fmt) for x in axes])
    w._log("variables", [(n, v.axes, str(v.data.tolist()), v.unit, v.fmt)
                         for n, v in out])
    return Model(axes, out)


class Model(object):
    def __init__(self, axes, vars):
        self.axes, self.vars = list(axes), list(vars)
        self.name = None

    def matrix(self):
        """The name of the matrix, if there is one."""
        return ([n for n, v in self.vars if "i" in v.axes] or [None])[0]

    def ax(self, name):
        return [x for x in self.axes if x.name == name][0]

    def used(self):
        """Axes in order of first use."""
        out = []
        for n, v in self.vars:
            for a in v.axes:
                if a not in out:
                    out.append(a)
        return out

    def build(self, w, register=False):
        """The block; register: define all axes first."""
        ds, np = w.ds, w.np
        db = ds.DataBlock()
        dims = dict((x.name, x.dim()) for x in self.axes)
        if register:
            for x in self.axes:
                db[x.name] = dims[x.name]
        else:
            u = self.used()
            self.axes = [self.ax(a) for a in u]
        for n, v in self.vars:
            kw = dict(outputformat=v.fmt) if v.fmt else {}
            db[n] = ds.hfarray(v.data, dims=tuple(dims[a] for a in v.axes),
                               unit=v.unit, **kw)
        if self.name is not None:
            db.blockname = self.name
        return db


def default_format(w, a):
    return {"i": "%d", "b": "%s", "U": "%s", "M": "%s"}.get(
        a.dtype.kind, "%.16e")


def same(np, a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return False
    if not a.size:
        return True
    if a.dtype.kind in "fc" and b.dtype.kind in "fc":
        return bool(((a == b) | ((a != a) & (b != b))).all())
    return bool(np.all(a == b))


def agrees(w, label, db, m, order=True, axis_formats=True, formats=True):
    np = w.np
    w.true(label + ": variables", db.vardata.keys() == [n for n, _ in m.vars])
    have, want = db.ivardata.keys(), [x.name for x in m.axes]
    w.true(label + ": axes", have == want if order else
           sorted(have) == sorted(want) and len(set(have)) == len(have))
    for x in m.axes:
        one_axis(w, label + ": registered axis", db.ivardata[x.name], x,
                 axis_formats)
    for n, v in m.vars:
        A = db[n]
        w.true("%s: axes of %s" % (label, n), [d.name for d in A.dims] ==
               v.axes and A.ndim == len(v.axes))
        for d in A.dims:
            one_axis(w, "%s: axis of %s" % (label, n), d, m.ax(d.name),
                     axis_formats)
        w.true("%s: values of %s" % (label, n), same(np, A, v.data))
        w.true("%s: type of %s" % (label, n), A.dtype == v.data.dtype)
        w.true("%s: unit of %s" % (label, n), A.unit == v.unit)
        if formats:
            w.true("%s: format of %s" % (label, n), A.outputformat ==
                   (v.fmt or default_format(w, v.data)))


def one_axis(w, label, d, x, fmt=True):
    w.true(label + ": class", type(d) is x.cls)
    w.true(label + ": name", d.name == x.name)
    w.true(label + ": labels", same(w.np, d.data, x.labels))
    w.true(label + ": unit", d.unit == x.unit)
    if fmt and x.fmt:
        w.true(label + ": format", d.outputformat == x.fmt)


def along(m, name, pos, np):
    """The rows pos of the axis, in every variable that has it."""
    out = Model([x.but(labels=x.labels[pos]) if x.name == name else x
                 for x in m.axes], [])
    for n, v in m.vars:
        if name in v.axes:
            v = v.but(data=np.take(v.data, pos, axis=v.axes.index(name)))
        out.vars.append((n, v))
    return out
