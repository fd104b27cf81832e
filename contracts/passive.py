"""Passivity and reciprocity enforcement."""
from engine.contract import contract
from contracts.common import make_dims, untouched
from contracts.networks import mdims, SP

# -------------------------------------------------------------- C15


def smat(w, d, big, cls=None, ports=2, z0=None):
    """Matrices over the axes d, some of them active."""
    dims = make_dims(w, d)
    dl = [dims[c] for c in d] + list(mdims(w, ports))
    sizes = [w.size_of(x) for x in dl]
    S = w.raw("S", sizes, "c")
    if not w.symbolic:
        for q in w.forall(sizes[:-2]):
            S[q] = S[q] * (big if w.rng.random() < .6 else .2)
    cls = cls or w.mod("hftools.networks.multiports").SArray
    kw = {} if z0 is None else dict(Z0=z0)
    return cls(S.copy(), dims=tuple(dl), **kw), S, dl


def kept(w, R, X, dl, z0=None):
    """Type, dimensions and reference impedance; the order of the outer axes
    is free.  Gives the coordinates of the result from those of X."""
    w.true("type", type(R) is type(X))
    names = [d.name for d in R.dims]
    old = [d.name for d in dl]
    w.true("axes", sorted(names) == sorted(old) and
           names[-2:] == old[-2:])
    order = [old.index(n) for n in names]
    w.dims_are("dimensions", R, [dl[k] for k in order])
    if z0 is not None:
        w.eq("reference impedance", R.Z0, z0)
    return lambda q: tuple(q[k] for k in order[:-2])


OUTER = ("f", "fr", "", "rf", "gfr", "p")


@contract("C15", [SP + "make_passive_svd"],
          cases=[dict(ports=p, cls=c, d=d) for p in (1, 2)
                 for c in ("S", "hf") for d in OUTER],
          thorough=[dict(ports=3, cls="S", d=d) for d in OUTER], runs=10)
def passive_svd(w, ports, cls, d):
    """Exactly the excess of the singular values over one is removed."""
    mod = w.mod("hftools.networks.spar_functions")
    np = w.np
    z0 = w.pos("z0") if cls == "S" else None
    X, S, dl = smat(w, d, 2., None if cls == "S" else w.ds.hfarray, ports,
                    z0)
    R = mod.make_passive_svd(X)
    to = kept(w, R, X, dl, z0)
    for q in w.forall([w.size_of(x) for x in dl[:-2]]):
        u, s, v = np.linalg.svd(np.asarray(S[q]))
        exc = []
        for k in range(ports):
            x = w.at(s, (k,)) - 1
            exc.append(0 if x < 0 else x)
        for i in range(ports):
            for j in range(ports):
                e = 0
                for k in range(ports):
                    e = e + w.at(u, (i, k)) * exc[k] * w.at(v, (k, j))
                w.eq("singular values are clipped at one, vectors kept",
                     w.at(S, q + (i, j)) - e, w.at(R, to(q) + (i, j)))
    untouched(w, "argument unchanged", X, S, dl)


@contract("C15", [SP + "make_passive_svd"],
          cases=[dict(ports=p, cls=c, d=d) for p in (1, 2, 3)
                 for c in ("S", "hf") for d in OUTER], prove=False, runs=6)
def passive_result(w, ports, cls, d):
    mod = w.mod("hftools.networks.spar_functions")
    np = w.np
    X, S, dl = smat(w, d, 2., None if cls == "S" else w.ds.hfarray, ports)
    for q in w.forall(S.shape[:-2]):    # also just above one
        if w.rng.random() < .5 and abs(S[q]).max() > 1e-3:
            S[q] *= (1 + 10. ** w.rng.randint(-8, -2)) / \
                np.linalg.svd(S[q])[1].max()
    X[...] = S
    R = mod.make_passive_svd(X)
    to = kept(w, R, X, dl)
    for q in w.forall(S.shape[:-2]):
        r = np.asarray(R)[to(q)]
        sv = np.linalg.svd(r)[1]
        w.true("no gain larger than one", bool((sv <= 1 + 1e-11).all()))
        if np.linalg.svd(S[q])[1].max() <= 1 - 1e-9:
            w.true("a passive matrix is left alone",
                   bool(np.allclose(r, S[q], atol=1e-10)))


@contract("C15", [SP + "make_passive_eig", SP + "check_passive"],
          cases=[dict(delta=e, ports=p, d=d) for e in (None, "any")
                 for p in (1, 2) for d in OUTER],
          thorough=[dict(delta=e, ports=3, d=d) for e in (None, "any")
                    for d in OUTER], runs=10)
def passive_eig(w, delta, ports, d):
    """Active matrices are scaled to spectral radius 1 - delta."""
    mod = w.mod("hftools.networks.spar_functions")
    np = w.np
    z0 = w.pos("z0")
    X, S, dl = smat(w, d, 2., ports=ports, z0=z0)
    if delta:
        delta = w.pos("delta")
        if not w.symbolic:
            delta = delta / 10
    C = mod.check_passive(X)
    w.dims_are("check", C, dl[:-2])
    R = mod.make_passive_eig(X) if delta is None else \
        mod.make_passive_eig(X, delta)
    dv = w.num(1e-6) if delta is None else delta
    to = kept(w, R, X, dl, z0)
    for q in w.forall([w.size_of(x) for x in dl[:-2]]):
        e = np.linalg.eigvals(np.asarray(S[q]))
        lam = w.absv(w.at(e, (0,)))
        for k in range(1, ports):
            a = w.absv(w.at(e, (k,)))
            if a > lam:
                lam = a
        w.eq("largest eigenvalue magnitude", w.at(C, q), lam)
        if not w.symbolic:
            w.assume(abs(lam - 1) > 1e-6)
        active = bool(lam > 1)
        for i in range(ports):
            for j in range(ports):
                s = w.at(S, q + (i, j))
                w.eq("scaled to just below one only when active",
                     w.at(R, to(q) + (i, j)),
                     s / lam * (1 - dv) if active else s)
    untouched(w, "argument unchanged", X, S, dl)


@contract("C15", [SP + "make_reciprocal"],
          cases=[dict(d=d) for d in OUTER + ("x", "srf", "fgrs")], runs=4)
def reciprocal_mean(w, d):
    mod = w.mod("hftools.networks.spar_functions")
    dims = make_dims(w, d)
    dl = [dims[c] for c in d] + mdims(w, 2)
    S = w.raw("S", [w.size_of(x) for x in dl], "c")
    if not w.symbolic:
        w.assume(bool((abs(S[..., 0, 1]) > 1e-2).all()))
    z0 = w.pos("z0")
    X = w.mod("hftools.networks.multiports").SArray(S.copy(),
                                                    dims=tuple(dl), Z0=z0)
    R = mod.make_reciprocal(X)
    to = kept(w, R, X, dl, z0)
    untouched(w, "argument unchanged", X, S, dl)
    for idx in w.forall([w.size_of(x) for x in dl[:-2]]):
        r = w.at(R, to(idx) + (0, 1))
        w.eq("S12 equals S21", r, w.at(R, to(idx) + (1, 0)))
        w.eq("the common value is the geometric mean", r * r,
             w.at(S, idx + (0, 1)) * w.at(S, idx + (1, 0)))
        for k in (0, 1):
            w.eq("reflections are kept", w.at(R, to(idx) + (k, k)),
                 w.at(S, idx + (k, k)))


@contract("C15", [SP + "make_reciprocal"],
          cases=[dict(d=d) for d in (1, 2, 0)], prove=False, runs=20)
def reciprocal_branch(w, d):
    mod = w.mod("hftools.networks.spar_functions")
    np = w.np
    dims = [w.ds.DimSweep("freq", w.raw("fl", (w.size("n"),), "f")),
            w.ds.DimRep("rep", w.size("m"))][:d] + mdims(w, 2)
    S = w.raw("S", [w.size_of(x) for x in dims], "c")
    w.assume(bool((abs(S[..., 0, 1]) > 1e-2).all() and
                  (abs(S[..., 1, 0]) > 1e-2).all()))
    a = abs(np.angle(S[..., 1, 0] / S[..., 0, 1]))
    w.assume(bool((abs(a - np.pi) > 1e-3).all()))
    X = w.mod("hftools.networks.multiports").SArray(S.copy(),
                                                    dims=tuple(dims))
    R = mod.make_reciprocal(X)
    w.dims_are("dimensions", R, dims)
    r = np.asarray(R)
    w.true("S12 equals S21", bool(np.allclose(r[..., 0, 1], r[..., 1, 0])))
    w.true("the common value is the geometric mean", bool(np.allclose(
        r[..., 0, 1] ** 2, S[..., 0, 1] * S[..., 1, 0])))
    w.true("on the branch between S12 and S21", bool(
        (np.real(r[..., 0, 1] / S[..., 0, 1]) > -1e-9).all() and
        (np.real(r[..., 0, 1] / S[..., 1, 0]) > -1e-9).all()))
    w.true("reflections are kept", bool(
        (r[..., 0, 0] == S[..., 0, 0]).all() and
        (r[..., 1, 1] == S[..., 1, 1]).all()))
