"""Labelled arrays of any rank and kind against plain numpy.

Bounded stand-in next to the proofs of contracts/arrays.py: ranks up to seven,
numbers of every type with nan and inf, empty axes, odd labels and names, any
memory layout."""
import operator

from engine.contract import contract
from contracts.anyblock import values, labels, AXES, FORMATS

AR = "dataset.arrayobj:"
NUM = ["f", "c", "i", "4", "z", "n", "e"]
ANY = NUM + ["b", "s", "d"]


class Axis(object):
    def __init__(self, cls, name, lab, unit, fmt):
        self.cls, self.name, self.lab = cls, name, lab
        self.unit, self.fmt = unit, fmt

    def dim(self):
        return self.cls(self.name, self.lab, unit=self.unit,
                        outputformat=self.fmt)


def axis(w, name, n, cls=None):
    ds, r = w.ds, w.rng
    if n == 0:
        lab = w.np.zeros(0)
    else:
        lab = labels(r, w.np, r.choice("fffise" if n < 4 else "fffie"), n)
    return Axis(cls or r.choice([ds.DimSweep, ds.DimSweep, ds.DimRep,
                                 ds.DimPartial]), name, lab,
                r.choice([None, None, "Hz", "mV", ""]),
                r.choice([None, None] + FORMATS))


def pool(w, most, empty=False, matrix=.4, big=400):
    """Axes to build arrays from, matrix axes last."""
    ds, r = w.ds, w.rng
    names = r.sample(AXES, r.randint(0, most))
    out, size = [], 1
    for n in names:
        k = r.choice([1, 1, 2, 2, 3, 4, 9] + ([0] if empty else []))
        k = min(k, max(1, big // size))
        out.append(axis(w, n, k))
        size *= k or 1
    if r.random() < matrix:
        for n, c in (("i", ds.DimMatrix_i), ("j", ds.DimMatrix_j)):
            k = r.choice([1, 2, 2, 3])
            out.append(Axis(c, n, w.np.arange(k), None, None))
    return out


def layout(w, x):
    """The same values in some memory layout."""
    np, r = w.np, w.rng
    k = r.randrange(5)
    if k == 0 and x.ndim:
        return np.asfortranarray(x)
    if k == 1 and x.ndim:
        big = np.concatenate([x, x], axis=-1)
        big[..., x.shape[-1]:] = x[..., :]
        return big[..., :x.shape[-1]]
    if k == 2 and x.ndim:
        return x[..., ::-1].copy()[..., ::-1]
    x = x.copy()
    if k == 3:
        x.flags.writeable = False
    return x


class Arr(object):
    def __init__(self, axes, x, unit, fmt):
        self.axes, self.x, self.unit, self.fmt = axes, x, unit, fmt


def array(w, axes, kinds, name="A"):
    """(labelled array, model)."""
    np, r = w.np, w.rng
    shape = [len(a.lab) for a in axes]
    n = 1
    for s in shape:
        n *= s
    kind = r.choice(kinds)
    x = values(r, np, kind, n)
    if kind == "i":
        x = (x % r.choice([7, 100, 251])).astype(
            r.choice(["i8", "i8", "i4", "i2", "u1", "u4"]))
    if kind == "b":
        x = x.astype(bool)
    x = x.reshape(shape)
    unit = r.choice([None, "A", "W/mm", ""])
    fmt = r.choice([None] + FORMATS)
    w._log(name, (str([(a.cls.__name__, a.name, a.lab.tolist(), a.unit,
                        a.fmt) for a in axes]), str(x.dtype), x.shape,
                  str(x.tolist())[:3000], unit, fmt))
    A = w.ds.hfarray(layout(w, x), dims=tuple(a.dim() for a in axes),
                     unit=unit, outputformat=fmt, copy=False)
    if fmt is None:
        fmt = "%d" if x.dtype.kind == "i" else \
            "%.16e" if x.dtype.kind in "fc" else A.outputformat
    return A, Arr(list(axes), x, unit, fmt)


def numbers_same(np, a, b, rel=0, off=0):
    if a.dtype.kind in "fc" or b.dtype.kind in "fc":
        with np.errstate(all="ignore"):
            ok = (a == b) | ((a != a) & (b != b))
            if rel:
                ok = ok | (abs(a - b) <= rel * abs(b) + off)
        return bool(np.all(ok))
    return bool(np.all(a == b))


def axes_same(w, what, dims, axes, fmt=True):
    np = w.np
    w.true("%s: axes %r instead of %r" % (what, [d.name for d in dims],
                                          [a.name for a in axes]),
           [d.name for d in dims] == [a.name for a in axes])
    for d, a in zip(dims, axes):
        w.true("%s: class of axis %s" % (what, a.name),
               type(d) is a.cls)
        w.true("%s: labels of axis %s: %r instead of %r" % (
            what, a.name, list(d.data), list(a.lab)),
            d.data.shape == a.lab.shape and
            (a.lab.size == 0 or bool(np.all(d.data == a.lab))))
        w.true("%s: unit of axis %s" % (what, a.name), d.unit == a.unit)
        if fmt and a.fmt is not None:
            w.true("%s: format of axis %s" % (what, a.name),
                   d.outputformat == a.fmt)


def same(w, what, X, axes, x, unit=None, fmt=None, rel=0, dimfmt=True,
         dtype=True, off=0):
    np = w.np
    w.true(what + ": a labelled array", isinstance(X, w.ds.hfarray))
    axes_same(w, what, X.dims, axes, dimfmt)
    w.true("%s: shape %r instead of %r" % (what, X.shape, x.shape),
           X.shape == x.shape)
    if dtype:
        w.true("%s: type %s instead of %s" % (what, X.dtype, x.dtype),
               X.dtype == x.dtype)
    w.true("%s: values %r instead of %r" % (
        what, np.asarray(X).tolist(), x.tolist()),
        numbers_same(np, np.asarray(X), x, rel, off))
    if unit is not None:
        w.true("%s: unit %r instead of %r" % (what, X.unit, unit[0]),
               X.unit == unit[0])
    if fmt is not None:
        w.true("%s: format %r instead of %r" % (what, X.outputformat, fmt),
               X.outputformat == fmt)


def unchanged(w, A, a):
    same(w, "the source", A, a.axes, a.x, (a.unit,), a.fmt)


# ---------------------------------------------------------------- C01

@contract("C01", [AR + "_hfarray.__new__", AR + "hfarray.__new__",
                  AR + "_hfarray.copy", AR + "_hfarray.view",
                  AR + "_hfarray.verify_dimension"],
          cases=[dict(part=p) for p in range(4)], prove=False, runs=40,
          bound="up to 7 axes, 9 labels each")
def any_construction(w, part):
    """Arrays of any kind, made from any source."""
    ds, np, r = w.ds, w.np, w.rng
    A, a = array(w, pool(w, 5, True), ANY)
    unchanged(w, A, a)
    how = r.choice(["array", "list", "labelled", "labelled dtype", "copy",
                    "view", "nocopy", "given", "dims given", "wrong",
                    "default", "order"])
    w._log("how", how)
    dims = tuple(x.dim() for x in a.axes)
    if how == "array":
        X = ds.hfarray(a.x.copy(), dims=list(dims))
        same(w, how, X, a.axes, a.x, (None,))
    elif how == "list":
        w.assume(a.x.size > 0 and a.x.dtype.kind in "fciU" and
                 a.x.dtype.itemsize >= 8)
        X = ds.hfarray(a.x.tolist(), dims=dims, unit="m")
        same(w, how, X, a.axes, a.x, ("m",), dtype=False)
        w.true("default format", X.outputformat == {
            "i": "%d", "f": "%.16e", "c": "%.16e", "U": "%s"}[
                a.x.dtype.kind])
    elif how in ("labelled", "copy"):
        X = ds.hfarray(A) if how == "labelled" else A.copy()
        same(w, how, X, a.axes, a.x, (a.unit,), a.fmt)
        w.true("a copy has its own data", not np.shares_memory(X, A))
        w.true("which can be written", X.flags.writeable)
    elif how == "labelled dtype":
        w.assume(a.x.dtype.kind in "if")
        t = r.choice(["f8", "c16", "f4"])
        X = ds.hfarray(A, dtype=t)
        same(w, how, X, a.axes, a.x.astype(t), (a.unit,), a.fmt)
    elif how in ("view", "nocopy"):
        X = A.view() if how == "view" else ds.hfarray(A, copy=False)
        same(w, how, X, a.axes, a.x, (a.unit,), a.fmt)
        w.true("a view shares the data", a.x.size == 0 or
               np.shares_memory(X, A))
        w.true("write protection is kept",
               X.flags.writeable == A.flags.writeable)
    elif how == "given":
        X = ds.hfarray(A, unit="new", outputformat="%.1f")
        same(w, how, X, a.axes, a.x, ("new",), "%.1f")
    elif how == "dims given":
        ax = [Axis(x.cls, "new" + x.name, x.lab, "u", None) for x in a.axes]
        X = ds.hfarray(A, dims=tuple(x.dim() for x in ax))
        same(w, how, X, ax, a.x, (a.unit,), a.fmt)
    elif how == "order":
        o = r.choice("CF")
        X = ds.hfarray(A, order=o)
        same(w, how, X, a.axes, a.x, (a.unit,), a.fmt)
        w.true("order in memory", X.flags.c_contiguous if o == "C" else
               X.flags.f_contiguous)
    elif how == "wrong":
        k = r.choice([-1, 1, 2])
        w.assume(len(dims) + k >= 0)
        new = dims[:k] if k < 0 else dims + tuple(
            ds.DimSweep("more%d" % i, 1) for i in range(k))
        err = w.mod("hftools.core.exceptions").HFArrayShapeDimsMismatchError
        for q in (a.x, A):
            with w.raises("another number of dimensions", err):
                ds.hfarray(q, dims=new)
    else:
        if a.x.ndim > 2:
            with w.raises("dimensions have to be given", w.mod(
                    "hftools.core.exceptions").DimensionMismatchError):
                ds.hfarray(a.x)
        else:
            X = ds.hfarray(a.x)
            same(w, how, X, [Axis(c, n, np.arange(k) if k else np.zeros(0),
                                  None, None)
                             for c, n, k in zip((ds.DimSweep, ds.DimRep),
                                                ("freq", "rep"),
                                                a.x.shape)], a.x, (None,))
    unchanged(w, A, a)


# ---------------------------------------------------------------- C02

PRIO = {"DimSweep": 0, "DimPartial": 0, "DimRep": 1, "DimMatrix_i": 2,
        "DimMatrix_j": 3}


def subset(w, axes):
    """Some of the axes in some order, matrix axes where they are."""
    r = w.rng
    out = r.sample(axes, r.randint(0, len(axes)))
    if r.random() < .5:
        out.sort(key=lambda x: PRIO[x.cls.__name__])
    return out


def aligned(np, a, axes):
    """The values of the model over these axes, missing ones of length one."""
    names = [x.name for x in a.axes]
    order = [names.index(x.name) for x in axes if x.name in names]
    x = a.x.transpose(order)
    return x.reshape([len(q.lab) if q.name in names else 1 for q in axes])


OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul,
       "/": operator.truediv, "**": operator.pow, "&": operator.and_,
       "|": operator.or_, "^": operator.xor, "==": operator.eq}


@contract("C02", [AR + "check_instance", AR + "dims_union",
                  AR + "make_same_dims", AR + "change_shape"],
          cases=[dict(op=o) for o in OPS], prove=False, runs=40,
          bound="up to 7 axes, 9 labels each")
def any_operator(w, op):
    """Arrays of any rank and kind, also with numbers and with powers."""
    ds, np, r = w.ds, w.np, w.rng
    f = OPS[op]
    axes = pool(w, 7, op != "**", .3)
    kinds = ["b", "i"] if op in "&|^" else NUM
    A, a = array(w, subset(w, axes), kinds)
    B, b = array(w, subset(w, axes), kinds, "B")
    if op == "**":
        w.assume(b.x.dtype.kind not in "iu")
    # 0-d plain results are numpy scalars
    u = list(a.axes) + [x for x in b.axes
                        if x.name not in [q.name for q in a.axes]]
    u.sort(key=lambda x: PRIO[x.cls.__name__])
    with np.errstate(all="ignore"):
        x = np.asarray(f(aligned(np, a, u), aligned(np, b, u)))
        X = f(A, B)
        same(w, "two arrays", X, u, x, rel=1e-13, dimfmt=False)
        unchanged(w, A, a)
        unchanged(w, B, b)
        n = r.choice([0, 1, -3, 2, True] + ([] if op in "&|^" else
                                            [0.5, -2.5, 1j, 1e3, 0.]))
        if op == "**":
            n = r.choice([2, 3, 0.5, 1, 0])
        if isinstance(n, bool) and (op in "&|^") and a.x.dtype.kind in "iu":
            n = 5
        if a.x.dtype.kind == "u" and n.real < 0:
            n = 2
        w._log("number", n)
        if a.axes:
            X = f(A, n)
            same(w, "array with number", X, a.axes, f(a.x, n))
            if a.x.dtype.kind in "iu" and op == "**":
                n = r.choice([1.5, 2.])
            X = f(n, A)
            same(w, "number with array", X, a.axes, f(n, a.x), rel=1e-13)
            if a.x.dtype.kind != "b":
                same(w, "negated", -A, a.axes, -a.x)
                same(w, "absolute", abs(A), a.axes, abs(a.x))
    unchanged(w, A, a)


# ---------------------------------------------------------------- C03

def positions(w, n):
    r = w.rng
    k = r.randrange(7)
    if k < 2 and n:
        i = r.randrange(-n, n)
        return w.np.int64(i) if r.random() < .3 else i
    if k == 2:
        return slice(None)

    def end():
        return r.choice([None, r.randint(-n - 2, n + 2)])
    return slice(end(), end(), r.choice([None, 1, 2, -1, -2, 3, -5]))


@contract("C03", [AR + "_hfarray.__getitem__"],
          cases=[dict(part=p) for p in range(4)], prove=False, runs=60,
          bound="up to 6 axes, 9 labels each")
def any_index(w, part):
    """Any combination of integers, slices, one Ellipsis and one list."""
    ds, np, r = w.ds, w.np, w.rng
    A, a = array(w, pool(w, 6, True), ANY)
    k = r.randint(0, len(a.axes))
    at = r.randint(0, k)
    dots = r.random() < .4
    sel = [positions(w, len(x.lab)) for x in a.axes[:at]]
    rest = a.axes[len(a.axes) - (k - at):] if dots else a.axes[at:k]
    sel2 = [positions(w, len(x.lab)) for x in rest]
    full = sel + [slice(None)] * (len(a.axes) - len(sel + sel2)) + sel2 \
        if dots else sel + sel2
    ix = sel + ([Ellipsis] if dots else []) + sel2
    fancy = None
    if r.random() < .3 and not dots and ix:
        c = [q for q, i in enumerate(ix) if isinstance(i, slice) and
             a.x.shape[q] and all(isinstance(j, slice) for j in ix)]
        if c:
            fancy = r.choice(c)
            n = a.x.shape[fancy]
            p = [r.randrange(-n, n) for _ in range(r.randint(1, 5))]
            ix[fancy] = p if r.random() < .5 else np.array(p)
            full[fancy] = np.array(p)
    ix = tuple(ix)
    if len(ix) == 1 and r.random() < .5:
        ix = ix[0]
    w._log("index", repr(ix))
    full = full + [slice(None)] * (len(a.axes) - len(full))
    want = a.x[ix]
    axes = [Axis(x.cls, x.name, x.lab[i], x.unit, x.fmt)
            for x, i in zip(a.axes, full) if isinstance(i, (slice,
                                                            np.ndarray))]
    X = A[ix]
    w.true("array or number", isinstance(X, np.ndarray) ==
           isinstance(want, np.ndarray))
    if not isinstance(want, np.ndarray):
        w.true("value", numbers_same(np, np.asarray(X), np.asarray(want)))
        return
    same(w, "selection", X, axes, want, (a.unit,), a.fmt)
    if fancy is None and want.size:
        w.true("a basic selection is a view", np.shares_memory(X, A))
    unchanged(w, A, a)
    if fancy is None and A.flags.writeable and want.size and \
            a.x.dtype.kind in "fc" and a.x.dtype.itemsize >= 8:
        v = r.choice([5., -1.])
        X[...] = v
        a.x = a.x.copy()
        a.x[ix] = v
        unchanged(w, A, a)


@contract("C03", [AR + "_hfarray.__getitem__", AR + "get_new_anonymous_dim"],
          cases=[dict(part=p) for p in range(2)], prove=False, runs=60,
          bound="up to 5 axes, 9 labels each")
def any_mask(w, part):
    """Masks over one or several neighbouring axes, in any position."""
    ds, np, r = w.ds, w.np, w.rng
    axes = pool(w, 5)
    w.assume(axes)
    if r.random() < .3:
        for x, k in zip(axes, r.sample([1, 2, 3], 3)):
            if x.name not in "ij" and r.random() < .6:
                x.name, x.cls = "ANON%d" % k, ds.dim.DimAnonymous
    A, a = array(w, axes, ANY)
    i = r.randrange(len(axes))
    n = 1 if r.random() < .6 else r.randint(1, len(axes) - i)
    m = axes[i:i + n]
    p = r.choice([.5, .5, 0, 1])
    mask = np.array([r.random() < p for _ in range(int(np.prod(
        [len(x.lab) for x in m])))], bool).reshape([len(x.lab) for x in m])
    w._log("mask", (i, mask.tolist()))
    M = ds.hfarray(mask, dims=tuple(x.dim() for x in m))
    X = A[M]
    want = a.x[(slice(None),) * i + (mask,)]
    if n == 1:
        new = Axis(m[0].cls, m[0].name, m[0].lab[mask], m[0].unit, None)
        if not mask.any():
            new.lab = np.zeros(0)
    else:
        k = int(mask.sum())
        new = Axis(ds.dim.DimAnonymous, X.dims[i].name,
                   np.arange(k) if k else np.zeros(0), None, None)
        w.true("name of the new axis", new.name not in [
            x.name for x in axes] and new.name.startswith("ANON"))
    same(w, "masked", X, axes[:i] + [new] + axes[i + n:], want, (a.unit,),
         a.fmt, dimfmt=False)
    unchanged(w, A, a)


# ---------------------------------------------------------------- C04

@contract("C04", [AR + "_hfarray.transpose", AR + "_hfarray.T",
                  AR + "_hfarray.t", AR + "_hfarray.reorder_dimensions",
                  AR + "_hfarray.squeeze", AR + "_hfarray.add_dim",
                  AR + "_hfarray.replace_dim", AR + "_hfarray.take",
                  AR + "change_shape", AR + "remove_tail",
                  AR + "remove_rep"],
          cases=[dict(how=h) for h in (
              "transpose", "T", "t", "reorder", "squeeze", "squeeze some",
              "add", "replace", "take", "change", "tail", "rep")],
          prove=False, runs=40, bound="up to 7 axes, 9 labels each")
def any_rearrangement(w, how):
    ds, np, r = w.ds, w.np, w.rng
    axes = pool(w, 6, how not in ("take", "tail", "rep"),
                1. if how == "t" else .4)
    if how == "t" and r.random() < .5:
        r.shuffle(axes)
    if how == "rep" and r.random() < .6:
        for x in axes:
            if x.name not in "ij" and r.random() < .7:
                x.cls = ds.DimRep
    A, a = array(w, axes, ANY)
    n = len(axes)
    names = [x.name for x in axes]
    ar = w.mod("hftools.dataset.arrayobj")
    unit, fmt, dimfmt = (a.unit,), a.fmt, True
    shares = how not in ("add", "take", "tail", "rep")
    if how in ("transpose", "T"):
        o = list(range(n))[::-1]
        if how == "T":
            X = A.T if r.random() < .5 else A.transpose()
        else:
            r.shuffle(o)
            w.assume(n > 0)
            X = A.transpose(*o)
        want, new = a.x.transpose(o), [axes[i] for i in o]
    elif how == "t":
        i, j = names.index("i"), names.index("j")
        o = list(range(n))
        o[i], o[j] = j, i
        X = A.t
        want, new = a.x.transpose(o), list(axes)
        new[i] = Axis(axes[i].cls, "i", axes[j].lab, None, None)
        new[j] = Axis(axes[j].cls, "j", axes[i].lab, None, None)
    elif how == "reorder":
        o = r.sample(range(n), r.randint(0, n))
        X = A.reorder_dimensions(*[A.dims[i] if r.random() < .5 else
                                   axes[i].dim() for i in o])
        o += [i for i in range(n) if i not in o]
        want, new = a.x.transpose(o), [axes[i] for i in o]
    elif how == "squeeze":
        X = A.squeeze()
        want, new = a.x.squeeze(), [x for x in axes if len(x.lab) != 1]
    elif how == "squeeze some":
        one = [i for i in range(n) if len(axes[i].lab) == 1]
        w.assume(one)
        o = r.sample(one, r.randint(1, len(one)))
        arg = [r.choice([i, axes[i].name, A.dims[i]]) for i in o]
        X = A.squeeze(axis=arg[0] if len(arg) == 1 else tuple(arg))
        want = a.x.squeeze(axis=tuple(o))
        new = [x for i, x in enumerate(axes) if i not in o]
    elif how == "add":
        x = axis(w, "new axis", r.choice([1, 2, 3, 9]))
        at = r.randint(0, n)
        X = A.add_dim(x.dim(), at) if at or r.random() < .5 else \
            A.add_dim(x.dim())
        want = np.repeat(np.expand_dims(a.x, at), len(x.lab), at)
        new = axes[:at] + [x] + axes[at:]
        w.true("nothing to add", A.add_dim(None) is A and (
            n == 0 or A.add_dim(A.dims[0]) is A))
    elif how == "replace":
        w.assume(n)
        i = r.randrange(n)
        x = axis(w, r.choice(["new axis", names[i]]), len(axes[i].lab))
        X = A.copy()
        old = r.choice([names[i], A.dims[i],
                        axes[i].cls(names[i], len(axes[i].lab))])
        w._log("replaced", (str(old), x.name))
        X.replace_dim(old, x.dim())
        want, new = a.x, axes[:i] + [x] + axes[i + 1:]
        shares = False
    elif how == "take":
        w.assume(n)
        i = r.randrange(n)
        k = len(axes[i].lab)
        p = [r.randrange(-k, k) for _ in range(r.randint(1, 6))]
        mode = r.choice(["raise", "wrap", "clip"])
        if mode != "raise" and r.random() < .5:
            p.append(k + 1)
        X = A.take(p, r.choice([i, i - n, names[i], A.dims[i]]), mode=mode)
        want = np.take(a.x, p, i, mode=mode)
        x = axes[i]
        new = list(axes)
        new[i] = Axis(x.cls, x.name, np.take(x.lab, p, mode=mode), x.unit,
                      x.fmt)
        with w.raises("positions outside", IndexError):
            A.take([k], i)
    elif how == "change":
        x = axis(w, "new axis", r.choice([1, 3]))
        new = axes + [x] * (r.random() < .7)
        r.shuffle(new)
        X = ar.change_shape(A, ds.DimensionList([q.dim() for q in new])
                            if hasattr(ds, "DimensionList") else
                            ar.Dims([q.dim() for q in new]))
        want = aligned(np, a, new)
    elif how == "tail":
        w.assume(n > 1 and (names[-1] != "j" or n > 2))
        mat = names[-1] == "j"
        X = ds.remove_tail(A)
        m = int(np.prod(a.x.shape[1:n - 2 * mat]))
        want = a.x.reshape((a.x.shape[0], m) + a.x.shape[n - 2 * mat:])
        new = [axes[0], Axis(ds.DimRep, "Tail", np.arange(m), None, None)] + \
            axes[n - 2 * mat:]
        fmt = None
    else:
        rep = [i for i in range(n) if axes[i].cls is ds.DimRep]
        kw = r.choice([{}, {"newdimname": "the reps"}])
        X = ar.remove_rep(A, **kw)
        want, new = a.x, list(axes)
        if rep:
            o = list(range(rep[0])) + rep + [
                i for i in range(rep[0], n) if i not in rep]
            m = int(np.prod([a.x.shape[i] for i in rep]))
            want = a.x.transpose(o)
            want = want.reshape(want.shape[:rep[0]] + (m,) +
                                want.shape[rep[0] + len(rep):])
            new = axes[:rep[0]] + [
                Axis(ds.DimRep, kw.get("newdimname", "AllReps"),
                     np.arange(m), None, None)] + [
                axes[i] for i in range(rep[0], n) if i not in rep]
    same(w, how, X, new, want, unit, fmt)
    if shares and a.x.size and A.flags.writeable:
        w.true("the same data", np.shares_memory(X, A))
    unchanged(w, A, a)


# ---------------------------------------------------------------- C05

@contract("C05", [AR + "_hfarray." + f for f in (
    "sum", "mean", "min", "max", "std", "var", "rss", "cumsum", "cumprod")] +
    [AR + "multiple_axis_handler", AR + "axis_handler"],
    cases=[dict(fn=f) for f in ("sum", "mean", "min", "max", "std", "var",
                                "rss", "cumsum", "cumprod")],
    prove=False, runs=40, bound="up to 7 axes, 9 labels each")
def any_reduction(w, fn):
    ds, np, r = w.ds, w.np, w.rng
    axes = pool(w, 6)
    w.assume(axes)
    A, a = array(w, axes, NUM + ["b"])
    n = len(axes)
    names = [x.name for x in axes]

    def named(i):
        c = [i, i - n, names[i], A.dims[i], axes[i].dim()]
        if [x for x in axes if issubclass(x.cls, axes[i].cls)] == [axes[i]]:
            c.append(axes[i].cls)
        return r.choice(c)
    with np.errstate(all="ignore"):
        import warnings
        warnings.simplefilter("ignore")
        if fn in ("cumsum", "cumprod"):
            i = r.randrange(n)
            X = getattr(A, fn)(named(i))
            same(w, fn, X, axes, getattr(a.x, fn)(axis=i))
            unchanged(w, A, a)
            return
        o = r.sample(range(n), r.randint(1, n))
        arg = [named(i) for i in o]
        if len(o) == 1 and r.random() < .7:
            arg = arg[0]
        elif r.random() < .5:
            arg = tuple(arg)
        if r.random() < .15:
            arg, o = None, list(range(n))
        w._log("axis", repr(arg))
        keep = r.random() < .4 and fn != "rss"
        kw = {"keepdims": True} if keep else {}
        ref = dict(kw)
        if fn in ("std", "var") and r.random() < .6:
            ref["ddof"] = kw["ddof"] = r.choice([0, 1, 2, 3])
        if fn in ("sum", "mean") and r.random() < .2:
            ref["dtype"] = kw["dtype"] = "c16"
        X = getattr(A, fn)(arg, **kw)
        if fn == "rss":
            want = (abs(a.x) ** 2).sum(axis=tuple(o)) ** .5
        else:
            want = getattr(a.x, fn)(axis=tuple(o), **ref)
        want = np.asarray(want)
        # sums may be taken in another order
        z = abs(a.x[np.isfinite(a.x)]) if a.x.dtype.kind in "fc" else \
            np.zeros(0)
        off = float(z.max()) * a.x.size if z.size else 0.
        if fn == "var":
            off = off * off
        if fn == "std":
            off = off * 1e4
        rel = 1e-12
        if a.x.dtype in ("f4", "c8"):
            rel = 1e-5
        off = 0. if fn in ("min", "max") else off * rel
    if keep:
        w.true("shape", X.shape == want.shape and
               [d.name for d in X.dims] == names)
        w.true("values", numbers_same(np, np.asarray(X), want, rel, off))
    else:
        same(w, fn, ds.hfarray(X), [x for i, x in enumerate(axes)
                                    if i not in o], want, rel=rel, off=off,
             dtype=fn != "rss")
    unchanged(w, A, a)


# ---------------------------------------------------------------- C06

@contract("C06", [AR + "make_fullcomplex_array", AR + "expand_diagonals",
                  AR + "diagonal_view"],
          cases=[dict(how=h) for h in ("complex", "diagonal")], prove=False,
          runs=40, bound="up to 5 axes, 9 labels each")
def any_expansion(w, how):
    ds, np, r = w.ds, w.np, w.rng
    ar = w.mod("hftools.dataset.arrayobj")
    axes = pool(w, 4 if how == "complex" else 3, matrix=.2, big=60)
    if how == "complex":
        A, a = array(w, axes, NUM)
        X = ar.make_fullcomplex_array(A)
        x = a.x.astype(complex)
        y = np.asarray(X)
        w.true("shape", y.shape == a.x.shape + (2, 2))
        w.true("real part", numbers_same(np, y[..., 0, 0], x.real))
        w.true("imaginary part", numbers_same(np, y[..., 1, 0], x.imag))
        if a.x.dtype.kind == "c":
            w.true("real part", numbers_same(np, y[..., 1, 1], x.real))
            w.true("imaginary part", numbers_same(np, y[..., 0, 1], -x.imag))
        axes_same(w, how, X.dims[:-2], axes)
        return
    w.assume(axes and axes[-1].name != "j")
    A, a = array(w, axes, ["f", "c", "i"])
    some = [i for i in range(len(axes)) if r.random() < .6]
    X = ar.expand_diagonals(A, [])
    w.true("no axis to expand", X.shape == a.x.shape and
           numbers_same(np, np.asarray(X), a.x))
    axes_same(w, "no axis to expand", X.dims, axes)
    w.assume(some)
    X = ar.expand_diagonals(A, [A.dims[i] for i in some])
    y = np.asarray(X)
    names, want = [], a.x
    at = 0
    for i, x in enumerate(axes):
        names.append(x.name)
        if i in some:
            names.append(x.name)
            k = len(x.lab)
            e = np.eye(k).astype(want.dtype)
            want = np.expand_dims(want, at + 1) * e.reshape(
                (k, k) + (1,) * (want.ndim - at - 1))
            at += 1
        at += 1
    w.true("values", want.shape == y.shape and numbers_same(np, y, want))
    w.true("names", [d.name for d in X.dims] == names)
    pos = 0
    for i, x in enumerate(axes):
        for _ in range(2 if i in some else 1):
            d = X.dims[pos]
            w.true("labels", bool(np.all(d.data == x.lab)) and
                   d.unit == x.unit)
            pos += 1
    unchanged(w, A, a)
