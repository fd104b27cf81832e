"""Reading sweeps saved by the muwave MATLAB toolbox."""
import datetime
import os

import numpy

from engine.contract import contract
from contracts.common import full
from contracts.files import ff

MW = "file_formats.muwave_mat:"


class Struct(object):
    """A MATLAB 1x1 structure, as scipy.io.loadmat presents it."""
    size = 1

    def __init__(self, **kw):
        self.__dict__["f"] = kw

    def __getitem__(self, k):
        if k == (0, 0):
            return self
        if k not in self.f:
            raise ValueError("no field of name %s" % k)
        return Slot(self.f[k])


class Slot(object):
    """The value of a field: a 1x1 object array."""
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        if k == (0, 0):
            return self.v
        return self.v[k]


class Row(object):
    size = 1

    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        if k == 0:
            return Slot1(self.v)
        raise IndexError(k)


class Slot1(object):
    def __init__(self, v):
        self.v = v

    def __getitem__(self, k):
        return [self.v] if k == "mtrx" else None


def words(xs):
    return [[[x] for x in xs]]


class Text(str):
    ndim = 0


class Word(list):
    """A text as loadmat presents it: an array of one (or no) string."""
    @property
    def size(self):
        return len(self)

    @property
    def flat(self):
        return self


BIAS = ["V2", "V1_SET", "V2_SET", "I1", "I2", "I1_SET", "x_V1"]


def vals(w, xs):
    out = []
    for x in xs:
        if isinstance(x, str):
            out.append(Word([Text(x)] if x else []))
        elif isinstance(x, float):
            out.append(numpy.array([[x]]))
        else:
            out.append(x)
    return [out]


@contract("C27", [MW + "build_data", MW + "build_meas_state",
                  MW + "build_measmnt"],
          cases=[dict(p=p, type=t, cov=c, what=x) for p, t in
                 ((2, "S"), (2, "Z"), (3, "S")) for c in (True, False)
                 for x in ("all", "no conditions")] +
          [dict(p=2, type="S", cov=False, what="real")], runs=5)
def one_point(w, p, type, cov, what):
    """One measurement of a sweep becomes one block."""
    ds = w.ds
    n = w.size("n")
    kind = "f" if what == "real" else "c"
    M = w.raw("m", (p, p, n), kind)
    C = w.raw("cov", (p, p, n), "c")
    F = w.raw("f", (n, 1), "f")
    V, X = w.raw("v", (1, 1), "f"), w.raw("x", (1, 1), "f")
    v = w.at(V, (0, 0))
    d = dict(measstate=Struct(
        props=words(["V1", "I2_SET", "Index", "Temp", "Name"] + BIAS),
        values=vals(w, [V, -V, X, 0.0, "hej"] +
                    [(q + 2) * V for q in range(len(BIAS))])))
    if what != "no conditions":
        d["measmnt"] = Struct(
            props=words(["Date", "Operator", "Empty", "Zero"]),
            values=vals(w, ["18-Nov-2013 10:11:12", "me", "", 0.0]))
    d["data"] = Struct(type=[type], reference=[[75.0]], freq=F,
                       data=Row(M), datacov=Row(C) if cov else
                       numpy.zeros((0, 0)))
    R = w.mod("hftools.file_formats.muwave_mat").build_data(Struct(**d))
    f = ds.DimSweep("freq", F[:, 0], unit="Hz")
    I, J = ds.DimMatrix_i("i", p), ds.DimMatrix_j("j", p)
    full(w, "matrix", R[type], [f, I, J],
         lambda k, i, j: w.at(M, (i, j, k)))
    names = set([type, "V1", "I2_SET", "Temp", "Name", "Z0"] + BIAS)
    for q, k in enumerate(BIAS):
        full(w, k, R[k], [], lambda: (q + 2) * v,
             unit={"V": "V", "I": "A"}.get(k[0]))
    if cov:
        full(w, "covariance", R[type + "cov"], [f, I, J],
             lambda k, i, j: w.at(C, (i, j, k)))
        names.add(type + "cov")
    for k, x, u in (("V1", v, "V"), ("I2_SET", -v, "A"),
                    ("Temp", 0.0, None), ("Z0", 75.0, "Ohm")):
        full(w, k, R[k], [], lambda: x, unit=u)
    w.true("Name", str(numpy.asarray(R["Name"])[()]) == "hej")
    ix = R.ivardata["Index"]
    w.same_dim("Index", ix, ds.DimPartial, "Index", X[0])
    if what != "no conditions":
        names |= set(["Date", "Operator", "Empty", "Zero"])
        w.true("Date", R["Date"].dtype.kind == "M" and
               numpy.asarray(R["Date"]).astype("M8[us]").item() ==
               datetime.datetime(2013, 11, 18, 10, 11, 12))
        w.true("Operator", str(numpy.asarray(R["Operator"])[()]) == "me")
        w.true("Empty", str(numpy.asarray(R["Empty"])[()]) == "")
        full(w, "Zero", R["Zero"], [], lambda: 0.0)
    w.true("nothing else", set(R.vardata.keys()) == names)


def cell(xs):
    a = numpy.empty((1, len(xs)), object)
    for k, x in enumerate(xs):
        a[0, k] = x
    return a


@contract("C27", [MW + "read_muwave_matlabdata",
                  MW + "read_single_muwave_matlabdata",
                  MW + "is_muwave_matlabdata", MW + "make_real"],
          cases=[dict(files=f, how=h, type=t) for f, h, t in
                 ((1, "name", "S"), (1, "list", "S"), (2, "list", "S"),
                  (2, "glob", "S"), (3, "glob", "Z"), (1, "name", "Z"),
                  (12, "glob", "S"))],
          prove=False, runs=6)
def whole_files(w, files, how, type):
    """A file is a sweep over its points, several files one more."""
    import scipy.io as sio
    n, m, p = w.int("n", 2, 4), w.int("m", 1, 3), 2 + w.int("p", 0, 1)
    if files > 1:
        m = max(m, 2)
    cov = w.choice("cov", [True, False])
    cond = w.choice("cond", [True, False])
    freq = numpy.arange(1., n + 1).reshape(n, 1) * 1e9
    S = w.raw("s", (files, m, p, p, n), w.choice("kind", "cf"))
    V = w.raw("v", (files, m), "f")
    V[0, 0] = 0.0
    top = w.tmpdir()
    names = []
    for q in range(files):
        pts = []
        for k in range(m):
            d = {"measstate": {"props": cell(["Index", "V1", "I1"]),
                               "values": cell([float(k + 1), V[q, k],
                                               -V[q, k]])},
                 "data": {"type": type, "reference": 50.0, "freq": freq,
                          "data": {"mtrx": S[q, k]},
                          "datacov": {"mtrx": S[q, k] * 2} if cov else
                          numpy.zeros((0, 0))}}
            if cond:
                d["measmnt"] = {
                    "props": cell(["Date", "Operator", "Empty", "T", "Note"]),
                    "values": cell(["18-Nov-2013 10:11:%02d" % (q + 20 * k),
                                    "me", "", 0.0,
                                    "" if k or q % 2 else "note %d" % q])}
            pts.append(d)
        names.append(os.path.join(top, "run_%d.mat" % q))
        sio.savemat(names[-1], {"swp": {"data": cell(pts)}})
    src = {"name": names[0], "list": names,
           "glob": os.path.join(top, "*.mat")}[how]
    ds = w.ds
    R = ff(w).read_data(src)
    f = ds.DimSweep("freq", freq[:, 0], unit="Hz")
    dims, par = [f], []
    idx = "INDEX1"
    if m > 1:
        par.append(("INDEX1", m))
    if files > 1:
        par.append(("INDEX2", files))
    A = R[type]
    w.true("axes", sorted(d.name for d in A.dims[:-2]) ==
           sorted(["freq"] + [x[0] for x in par]) and
           [x.name for x in A.dims[-2:]] == ["i", "j"])
    w.true("frequencies", list(R.freq.data) == list(freq[:, 0]) and
           R.freq.unit == "Hz")
    order = [d.name for d in A.dims]
    got = numpy.asarray(A)
    want = S                                 # file, point, i, j, freq
    ax = {"INDEX2": 0, "INDEX1": 1, "i": 2, "j": 3, "freq": 4}
    for name in ("INDEX1", "INDEX2"):
        if name not in order:
            want = want.take([0], axis=ax[name])
    def arrange(x, have):
        keep = [ax[c] for c in have]
        rest = [a for a in range(5) if a not in keep]
        x = x.transpose(keep + rest)
        return x.reshape(x.shape[:len(keep)])
    w.true("matrix", got.shape == arrange(want, order).shape and
           bool(numpy.all(got == arrange(want, order))))
    if cov:
        B = R[type + "cov"]
        w.true("covariance", bool(numpy.all(
            numpy.asarray(B) == arrange(2 * want,
                                        [d.name for d in B.dims]))))
    for name, sign, unit in (("V1", 1, "V"), ("I1", -1, "A")):
        B = R[name]
        bo = [d.name for d in B.dims]
        w.true(name, sorted(bo) == sorted(x[0] for x in par) and
               B.unit == unit and bool(numpy.all(
                   numpy.asarray(B) == sign * (V if bo == ["INDEX2", "INDEX1"]
                                               else V.T if len(bo) == 2
                                               else V.ravel()
                                               if bo else V[0, 0]))))
    w.true("Z0", bool(numpy.all(numpy.asarray(R["Z0"]) == 50)) and
           R["Z0"].unit == "Ohm")
    if cond:
        w.true("conditions", "Empty" not in R and
               bool(numpy.all(numpy.asarray(R["T"]) == 0)) and
               bool(numpy.all(numpy.asarray(R["Operator"]) == "me")) and
               bool(numpy.all(numpy.asarray(R["Operator"]) == "me")))
        for name in ("Date", "Note"):
            B = R[name]
            bo = [d.name for d in B.dims]
            w.true("axes of " + name, sorted(bo) == sorted(x[0] for x in par))
            for q in range(files):
                for k in range(m):
                    got = numpy.asarray(B)[tuple(
                        {"INDEX1": k, "INDEX2": q}[c] for c in bo)]
                    w.true(name, got == (
                        numpy.datetime64("2013-11-18T10:11:%02d" %
                                         (q + 20 * k)) if name == "Date"
                        else "" if k or q % 2 else "note %d" % q))
    if files > 1:
        w.true("files", [d.name for d in R["Index2"].dims] == ["INDEX2"] and
               [int(x) for x in R["Index2"]] == list(range(files)))
    if m > 1:
        w.true("points", [d.name for d in R["Index"].dims][-1:] ==
               ["INDEX1"] or files > 1)
    fn = os.path.join(top, "other.mat")
    sio.savemat(fn, {"foo": 1.0})
    with w.raises("another MATLAB file", ff(w).HFToolsIOError):
        ff(w).read_data(fn)
