"""Helpers shared by the contracts."""
import itertools

RANK = {"f": 0, "g": 0, "h": 0, "p": 0, "x": 0, "a": 0, "r": 1, "s": 1,
        "q": 1, "i": 2, "j": 3}
USER = {}


def dim_class(w, c):
    """f, g, h sweeps; p, x subclasses of sweeps (of the library and of the
    user); a anonymous; r, s, q repetitions; i, j matrix axes."""
    ds = w.ds
    if c == "x":
        if ds.DimSweep not in USER:
            USER[ds.DimSweep] = type("DimUser", (ds.DimSweep,), {})
        return USER[ds.DimSweep]
    return {"f": ds.DimSweep, "g": ds.DimSweep, "h": ds.DimSweep,
            "p": ds.DimPartial, "a": ds.dim.DimAnonymous,
            "r": ds.DimRep, "s": ds.DimRep, "q": ds.DimRep,
            "i": ds.DimMatrix_i, "j": ds.DimMatrix_j}[c]


def make_dim(w, c, tag="", n=None, unit=True, labels="f", **kw):
    """A dimension by letter; q is a repetition with the name of f."""
    if n is None:
        n = w.size("n" + c)
    lab = w.labels("lab_" + c + tag, n) if labels == "any" else \
        w.raw("lab_" + c + tag, (n,), labels)
    return dim_class(w, c)("dim" + ("f" if c == "q" else c), lab,
                           unit="U" + c if unit else None, **kw)


def ordered_subsets(letters, most, keep=None):
    """All ordered selections of at most so many letters."""
    out = []
    for n in range(most + 1):
        for t in itertools.permutations(letters, n):
            out.append("".join(t))
    return out


def spread(items, n):
    """n of the items, evenly spread, always the same ones."""
    items = list(items)
    if len(items) <= n:
        return items
    return [items[k * len(items) // n] for k in range(n)]


def make_dims(w, letters, tag="", **kw):
    return dict((c, make_dim(w, c, tag, **kw)) for c in sorted(set(letters)))


def union(a, b):
    """The documented order: sweeps, repetitions, matrix axes; stable."""
    u = list(a) + [x for x in b if x not in a]
    return sorted(u, key=lambda x: RANK[x])


def mk(w, name, letters, dims, kind="f", **kw):
    ds = w.ds
    d = [dims[c] for c in letters]
    a = w.raw(name, [w.size_of(x) for x in d], kind)
    return ds.hfarray(a, dims=tuple(d), **kw), a


def full(w, label, R, dims, f, unit=0, cls=None):
    """R is a labelled array with these dims and R[idx] = f(idx)."""
    w.true(label + ": is a labelled array",
           isinstance(R, cls or w.ds.hfarray))
    w.dims_are(label, R, dims)
    for idx in w.forall([w.size_of(d) for d in dims]):
        w.eq(label + ": element", w.at(R, idx), f(*idx))
    if unit != 0:
        w.true(label + ": unit", R.unit == unit)


def untouched(w, label, A, ra, dims):
    """A still holds ra with these dims."""
    w.dims_are(label, A, dims)
    w.same_array(label, A, lambda *i: w.at(ra, i), ra.shape)
