"""The two worlds a contract is run in.

A contract is an ordinary Python function c(w, **case): it obtains arbitrary
inputs from w (preconditions), calls the real code of /repo, and states the
postconditions through w.eq / w.true / w.same_dims ...

SymWorld: inputs are symbolic (values and axis sizes unbounded unless
`bounded`), every statement becomes an obligation discharged by the ring
normal form and z3.  ConcWorld: inputs are drawn from a seeded generator and
the statements are evaluated on real numpy; it replays counter-models, and it
is the bounded stand-in where a case leaves the modelled fragment.
"""
import cmath
import datetime
import importlib
import itertools
import math
import os
import random
import shutil
import tempfile
import traceback


class Fail(Exception):
    """A postcondition is false on a concrete run."""

    def __init__(self, label, detail):
        Exception.__init__(self, "%s: %s" % (label, detail))
        self.label = label
        self.detail = detail


class Skip(Exception):
    """The drawn input does not satisfy the precondition."""


class Expect(object):
    def __init__(self, w, label, exc):
        self.w, self.label, self.exc = w, label, exc

    def __enter__(self):
        return self

    def __exit__(self, t, v, tb):
        if t is None:
            self.w.true(self.label + ": raises " + names(self.exc), False)
            return False
        if issubclass(t, self.exc):
            self.w.true(self.label + ": raises " + names(self.exc), True)
            return True
        return False


def names(exc):
    if isinstance(exc, tuple):
        return "/".join(e.__name__ for e in exc)
    return exc.__name__


class World(object):
    symbolic = False

    def mod(self, name):
        return importlib.import_module(name)

    @property
    def ds(self):
        return self.mod("hftools.dataset")

    def raises(self, label, exc):
        return Expect(self, label, exc)

    # -- derived statements
    def same_dim(self, label, d, cls, name, data, unit=None):
        """d is a dimension of class cls with the name and these labels."""
        self.true(label + ": class of %s" % name, type(d) is cls)
        self.true(label + ": name of %s" % name, d.name == name)
        self.same_seq(label + ": labels of %s" % name, self.data(d), data)
        if unit is not False:
            self.true(label + ": unit of %s" % name, d.unit == unit)

    def dims_are(self, label, arr, dims):
        self.true(label + ": number of dimensions",
                  len(arr.dims) == len(dims) == arr.ndim)
        for k, (d, e) in enumerate(zip(arr.dims, dims)):
            if d is e:
                self.true(label + ": dimension %d" % k, True)
            else:
                self.same_dim(label + ": dimension %d" % k, d, type(e),
                              e.name, self.data(e), e.unit)
            self.true(label + ": length of dimension %d" % k,
                      arr.shape[k] == self.size_of(d))

    def data(self, d):
        return d.data

    def same_seq(self, label, a, b):
        self.true(label + " (length)", a.shape[0] == b.shape[0])
        for i, in self.forall((b.shape[0],)):
            self.eq(label, self.at(a, (i,)), self.at(b, (i,)))

    def same_array(self, label, a, f, shape):
        """a has this shape and a[idx] == f(idx) everywhere."""
        self.true(label + ": rank", len(a.shape) == len(shape))
        for k, (s, t) in enumerate(zip(a.shape, shape)):
            self.true(label + ": axis %d" % k, s == t)
        for idx in self.forall(shape):
            self.eq(label, self.at(a, idx), f(*idx))


# -------------------------------------------------------------------- symbolic

class SymWorld(World):
    symbolic = True

    def __init__(self, path, np, sizes=None, rng=None):
        self.p = path
        self.np = np
        self.sizes = sizes          # not None: bounded mode
        self.only = None            # not None: bound only these sizes
        self.rng = rng
        self.obl = []
        self.drawn = {}
        self.tmp = []

    # inputs
    def size(self, name, lo=1, hi=None):
        from engine.core import SInt
        import z3
        if self.sizes is not None and (self.only is None or
                                       name in self.only):
            v = self.sizes.setdefault(name, self.rng.randint(
                lo, min(lo + 2, hi if hi is not None else lo + 2)))
            if v < lo or (hi is not None and v > hi):
                from engine.core import Infeasible
                raise Infeasible()
            return v
        v = SInt.var(name)
        self.p.add(v.z3() >= lo)
        if hi is not None:
            self.p.add(v.z3() <= hi)
        self.drawn[name] = "size>=%d" % lo
        return v

    def int(self, name, lo=None, hi=None):
        from engine.core import SInt, iz3
        if self.sizes is not None and self.only is None and \
                lo is not None and hi is not None and \
                not isinstance(lo, SInt) and not isinstance(hi, SInt):
            return self.sizes.setdefault(name, self.rng.randint(lo, hi))
        v = SInt.var(name)
        if lo is not None:
            self.p.add(v.z3() >= iz3(lo))
        if hi is not None:
            self.p.add(v.z3() <= iz3(hi))
        self.drawn[name] = "int"
        return v

    def assume(self, cond):
        from engine.core import SBool, Infeasible
        if isinstance(cond, SBool):
            self.p.add(cond.e)
            if self.p.check() == __import__("z3").unsat:
                raise Infeasible()
            if not __import__("engine.core", fromlist=["x"]).pure_int(cond.e):
                self.p.nonint = True
        elif not cond:
            raise Infeasible()

    def choice(self, name, options):
        options = list(options)
        for k, o in enumerate(options[:-1]):
            import z3
            b = z3.Bool("choice!%s!%d" % (name, k))
            if self.p.decide(b):
                return o
        return options[-1]

    def real(self, name):
        from engine import num
        return num.sym(name)

    def pos(self, name):
        from engine import num
        return num.sym(name, pos=True)

    def cplx(self, name):
        from engine import num
        return num.sym(name, real=False)

    def raw(self, name, shape, kind="f"):
        from engine import num, symnp
        import z3
        if kind == "b":
            fun = z3.Function("m!" + name, *([z3.IntSort()] * len(shape) +
                                             [z3.BoolSort()]))
            from engine.core import SBool, iz3

            def fn(i):
                e = fun(*[iz3(x) for x in i]) if i else z3.Bool("m!" + name)
                return SBool(e)
            return symnp.mkarray(shape, fn, self.np.dtype(bool))
        dt = {"f": float, "c": complex, "p": float, "i": int,
              "g": complex}[kind]
        return symnp.mkarray(
            shape, lambda i: num.elem(name, i, real=kind not in "cg",
                                      pos=kind == "p"), self.np.dtype(dt))

    def numpy_int(self, v):
        """The same integer, as any type of integer."""
        return v

    def positions(self, name, m, n):
        """m positions on an axis of length n."""
        import z3
        from engine import symnp
        from engine.core import SInt, iz3
        fun = z3.Function("at!" + name, z3.IntSort(), z3.IntSort())
        memo = {}

        def fn(i):
            k = i[0].key() if isinstance(i[0], SInt) else i[0]
            if k not in memo:
                v = memo[k] = SInt.fresh(name)
                self.p.add(z3.And(v.z3() == fun(iz3(i[0])), v.z3() >= 0,
                                  v.z3() < iz3(n)))
            return memo[k]
        return symnp.mkarray((m,), fn, self.np.dtype(int))

    def labels(self, name, n):
        return self.raw(name, (n,), "f")

    def text(self, x, fmt="%r"):
        """Text standing for the real number x."""
        return fmt % float(x)

    # access
    def at(self, a, idx):
        from engine import symnp
        if not isinstance(a, symnp.ndarray):
            if idx == ():
                return a
            a = symnp.asarray(a)
        return a._get(tuple(idx))

    def size_of(self, d):
        return d.data.shape[0]

    def forall(self, sizes):
        from engine.core import SInt
        sizes = tuple(sizes)
        rngs = []
        for s in sizes:
            if isinstance(s, SInt):
                if not (s >= 1):
                    return
                i = SInt.var(self.p.fresh("ix"))
                import z3
                self.p.add(z3.And(i.z3() >= 0, i.z3() < s.z3()))
                rngs.append([i])
            else:
                rngs.append(range(int(s)))
        for ix in itertools.product(*rngs):
            yield ix

    def count(self, mask):
        from engine import symnp
        return symnp.selection(symnp.asarray(mask))[0]

    def select(self, mask, j):
        """Position of the j-th selected entry of a 1-D mask."""
        from engine import symnp
        r = symnp.selection(symnp.asarray(mask))[1](j)
        return r[0] if isinstance(r, tuple) else r

    def flat(self, idx, sizes):
        """Row-major position."""
        from engine import core
        idx, sizes = tuple(idx), tuple(sizes)
        if len(idx) == 1:
            return idx[0]
        if not any(isinstance(x, core.SInt) for x in idx + sizes):
            r = 0
            for i, s in zip(idx, sizes):
                r = r * s + i
            return r
        return core.merged_index(idx, sizes)

    def both(self, a, b):
        from engine.core import SBool, mkbool
        import z3
        if not isinstance(a, SBool) and not isinstance(b, SBool):
            return bool(a) and bool(b)
        return mkbool(z3.And(self._b(a), self._b(b)))

    def neg(self, a):
        from engine.core import SBool, mkbool
        import z3
        if not isinstance(a, SBool):
            return not a
        return mkbool(z3.Not(a.e))

    def eq_if(self, label, cond, a, b):
        """cond implies a == b"""
        from engine.core import SBool
        if not isinstance(cond, SBool):
            if cond:
                self.eq(label, a, b)
            return
        if self.p.check(cond.e) == __import__("z3").unsat:
            self._record(label, "proved", "z3")
            return
        with self.p.scope() as sc:
            self.p.add(cond.e)
            self.eq(label, a, b)

    def iff(self, a, b):
        from engine.core import tobool, mkbool, SBool
        import z3
        if not isinstance(a, SBool) and not isinstance(b, SBool):
            return bool(a) == bool(b)
        return mkbool(self._b(a) == self._b(b))

    def _b(self, a):
        from engine.core import SBool
        import z3
        return a.e if isinstance(a, SBool) else z3.BoolVal(bool(a))

    # mathematics for specifications
    def re(self, x):
        return self.num(x).real

    def im(self, x):
        return self.num(x).imag

    def sqrt(self, x):
        from engine import num
        return num.sqrt(num.coerce(x))

    def num(self, x):
        from engine import num
        return num.coerce(x)

    def conj(self, x):
        from engine import num
        return num.coerce(x).conj()

    def absv(self, x):
        return abs(self.num(x))

    def exp(self, x):
        from engine import num
        return num.app("exp", [num.coerce(x)])

    def log10(self, x):
        from engine import num
        return num.app("log10", [num.coerce(x)])

    def angle(self, x):
        from engine import num
        return num.app("angle", [num.coerce(x)])

    def pow(self, x, y):
        from engine import num
        return num.coerce(x) ** num.coerce(y)

    @property
    def pi(self):
        from engine import num
        return num.PI()

    @property
    def j(self):
        from engine import num
        return num.imag_unit()

    def sum(self, sizes, f):
        from engine import num
        return num.reduction("sum", tuple(sizes),
                             lambda i: num.coerce(f(*i)))

    def prod(self, sizes, f):
        from engine import num
        return num.reduction("prod", tuple(sizes),
                             lambda i: num.coerce(f(*i)))

    def min(self, sizes, f):
        from engine import num
        return num.reduction("min", tuple(sizes),
                             lambda i: num.coerce(f(*i)))

    def max(self, sizes, f):
        from engine import num
        return num.reduction("max", tuple(sizes),
                             lambda i: num.coerce(f(*i)))

    # statements
    def _record(self, label, status, backend, detail=None):
        definite = self.p.imprecise is None and not self.p.nonint
        self.obl.append((label, status, backend, detail, definite))

    def eq(self, label, a, b, **kw):
        from engine import num
        from engine.core import Unsupported, Undecided
        if isinstance(a, (str, bytes, type(None))) or \
                isinstance(b, (str, bytes, type(None))):
            return self.true(label, a == b)
        from engine.core import SBool
        if isinstance(a, SBool) or isinstance(b, SBool):
            return self.true(label, self.iff(a, b))
        try:
            st, info = num.prove_eq(a, b)
        except (Unsupported, Undecided) as e:
            st, info = "unknown", str(e)
        if st == "proved":
            self._record(label, "proved", info)
        elif st == "refuted":
            self._record(label, "refuted", "evaluation", info)
        else:
            self._record(label, "unknown", "none", info)

    def true(self, label, cond):
        from engine.core import SBool
        from engine import num
        import z3
        if isinstance(cond, SBool):
            r = self.p.check(z3.Not(cond.e))
            if r == z3.unsat:
                self._record(label, "proved", "z3")
            elif r == z3.sat:
                env = {}
                m = self.p.solver.model()
                for n, v in self.p.vars.items():
                    env[n] = m.eval(v, model_completion=True).as_long()
                core = __import__("engine.core", fromlist=["x"])
                d = core.pure_int(cond.e)
                if not d:
                    self.p.nonint = True
                self._record(label, "refuted", "z3",
                             {"ints": env, "goal": str(cond.e)[:300]})
            else:
                self._record(label, "unknown", "z3", "solver unknown")
        elif cond:
            self._record(label, "proved", "execution")
        else:
            env = num.model_env(self.p) or num.model_env(self.p, False)
            self._record(label, "refuted", "execution", {"ints": env or {}})

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="vp_")
        self.tmp.append(d)
        return d

    def close(self):
        from engine import symh5
        symh5.STORE.clear()
        for d in self.tmp:
            shutil.rmtree(d, ignore_errors=True)
        self.tmp = []


# -------------------------------------------------------------------- concrete

class ConcWorld(World):
    wide = False
    long = None

    def __init__(self, seed, np, ints=None):
        self.rng = random.Random(seed)
        self.np = np
        self.ints = ints or {}
        self.checks = 0
        self.inputs = {}
        self.tmp = []

    def _log(self, name, v):
        self.inputs[name] = v
        return v

    def size(self, name, lo=1, hi=None):
        if name in self.ints and self.ints[name] >= lo and \
                (hi is None or self.ints[name] <= hi) and \
                self.ints[name] <= 40:
            return self._log(name, self.ints[name])
        if self.long and hi is None:
            (a, b), self.long = self.long, False
            return self._log(name, max(lo, self.rng.randint(a, b)))
        top = lo + (3 if self.long is None else 1)
        top = top if hi is None else min(hi, top)
        v = self.rng.randint(lo, top)
        if self.long is not None:
            return self._log(name, v)
        if hi is None and name in ("n", "m", "n0") and \
                self.rng.random() < .1:
            v = self.rng.randint(lo + 4, lo + 40)
        return self._log(name, v)

    def int(self, name, lo=None, hi=None):
        l = -4 if lo is None else lo
        h = 4 if hi is None else hi
        if lo is None and h < l:
            l = h - 4
        if hi is None and h < l:
            h = l + 4
        if name in self.ints and l <= self.ints[name] <= h:
            return self._log(name, self.ints[name])
        if l > h:
            raise Skip()
        return self._log(name, self.rng.randint(l, h))

    def assume(self, cond):
        if not cond:
            raise Skip()

    def choice(self, name, options):
        return self._log(name, self.rng.choice(list(options)))

    def _value(self, kind):
        r = self.rng
        k = r.random()
        if kind == "i":
            return r.randint(-5, 5)
        if kind == "p":
            return r.choice([0.5, 1.0, 2.0, 3.25, r.uniform(0.1, 4)])
        if kind == "f":
            if k < 0.25:
                return float(r.randint(-3, 3))
            return r.uniform(-3, 3)
        if kind == "g":          # generic: no special values
            return complex(r.uniform(-2, 2), r.uniform(-2, 2))
        if kind == "c":
            if k < 0.2:
                return complex(r.randint(-2, 2), r.randint(-2, 2))
            return complex(r.uniform(-2, 2), r.uniform(-2, 2))
        if kind == "b":
            return k < 0.5

    def real(self, name):
        v = self._value("f")
        if self.wide and self.rng.random() < 0.25:
            v *= 10.0 ** self.rng.choice([-12, -9, -6, -3, 2])
        return self._log(name, v)

    def pos(self, name):
        return self._log(name, self._value("p"))

    def cplx(self, name):
        return self._log(name, self._value("c"))

    def text(self, x, fmt="%r"):
        return fmt % float(x)

    def raw(self, name, shape, kind="f"):
        n = 1
        for s in shape:
            n *= s
        r = self.rng
        pool = None
        if kind in "fip" and r.random() < 0.2:
            # few distinct values: ties, zeros, constant arrays
            pool = [self._value(kind) for _ in range(r.randint(1, 3))]
            vals = [r.choice(pool) for _ in range(n)]
        else:
            vals = [self._value(kind) for _ in range(n)]
        if self.wide and kind in "fcp" and r.random() < 0.25:
            scale = 10.0 ** r.choice([-12, -9, -6, -3, 2])
            vals = [v * scale for v in vals]
        dt = {"f": float, "c": complex, "p": float, "i": int,
              "b": bool, "g": complex}[kind]
        a = self.np.array(vals, dtype=dt).reshape(tuple(shape))
        a = self.layout(a)
        self._log(name, {"shape": list(shape), "values": vals})
        return a

    def layout(self, a):
        """The same array, stored in another way."""
        k = self.rng.random()
        if not a.ndim or k < 0.55:
            return a
        if k < 0.7:
            return self.np.asfortranarray(a)
        if k < 0.8:
            return a[::-1].copy()[::-1]
        b = self.np.zeros(tuple(2 * x for x in a.shape), a.dtype)
        b = b[tuple(slice(None, None, 2) for _ in a.shape)]
        b[...] = a
        return b

    def numpy_int(self, v):
        np = self.np
        return self.rng.choice([int, int, np.int64, np.int32])(v)

    def positions(self, name, m, n):
        v = [self.rng.randrange(n) for _ in range(m)]
        self._log(name, v)
        return self.np.array(v, dtype=int)

    def labels(self, name, n):
        """Axis labels of any kind."""
        kind = self.rng.choice("fffist")
        if kind in "fi":
            return self.raw(name, (n,), kind)
        pool = ["a", "bb", "Ccc", "d e", "1", "-", "\xe5"]
        if kind == "s":
            vals = [self.rng.choice(pool) for _ in range(n)]
        else:
            vals = [datetime.datetime(2014, self.rng.randint(1, 12), 2, 3,
                                      self.rng.randint(0, 59), 5,
                                      self.rng.randint(0, 999999))
                    for _ in range(n)]
        self._log(name, [str(x) for x in vals])
        return self.np.array(vals, None if kind == "s" else "datetime64[us]")

    def at(self, a, idx):
        np = self.np
        if isinstance(a, np.ndarray):
            return np.asarray(a)[tuple(idx)]
        if idx == ():
            return a
        return np.asarray(a)[tuple(idx)]

    def size_of(self, d):
        return d.data.shape[0]

    def forall(self, sizes):
        return itertools.product(*[range(int(s)) for s in sizes])

    def count(self, mask):
        return int(self.np.sum(self.np.asarray(mask)))

    def select(self, mask, j):
        return int(self.np.nonzero(self.np.asarray(mask))[0][j])

    def flat(self, idx, sizes):
        r = 0
        for i, s in zip(idx, sizes):
            r = r * s + i
        return r

    def both(self, a, b):
        return bool(a) and bool(b)

    def neg(self, a):
        return not a

    def eq_if(self, label, cond, a, b):
        if cond:
            self.eq(label, a, b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def re(self, x):
        return complex(x).real

    def im(self, x):
        return complex(x).imag

    def sqrt(self, x):
        if isinstance(x, complex) or x < 0:
            return cmath.sqrt(x)
        return math.sqrt(x)

    def num(self, x):
        return x

    def conj(self, x):
        return complex(x).conjugate()

    def absv(self, x):
        return abs(x)

    def exp(self, x):
        return cmath.exp(x) if isinstance(x, complex) else math.exp(x)

    def log10(self, x):
        return math.log10(x)

    def angle(self, x):
        return cmath.phase(x)

    def pow(self, x, y):
        return x ** y

    pi = math.pi
    j = 1j

    def sum(self, sizes, f):
        return sum((f(*i) for i in self.forall(sizes)), 0)

    def prod(self, sizes, f):
        r = 1
        for i in self.forall(sizes):
            r = r * f(*i)
        return r

    def min(self, sizes, f):
        return min(f(*i) for i in self.forall(sizes))

    def max(self, sizes, f):
        return max(f(*i) for i in self.forall(sizes))

    def eq(self, label, a, b, tol=1e-8):
        self.checks += 1
        if isinstance(a, (str, bytes, type(None), bool)) or \
                isinstance(b, (str, bytes, type(None), bool)):
            if a == b:
                return
            raise Fail(label, "%r != %r" % (a, b))
        try:
            x, y = complex(a), complex(b)
        except (TypeError, ValueError):
            if a == b:
                return
            raise Fail(label, "%r != %r" % (a, b))
        if x == y:
            return
        if cmath.isnan(x) and cmath.isnan(y):
            return
        if abs(x) > 1e12 or abs(y) > 1e12 or cmath.isnan(y):
            if abs(y) > 1e12 or cmath.isnan(y):
                raise Skip()
        floor = 1e-7 if self.wide else 1
        if abs(x - y) <= tol * (floor + max(abs(x), abs(y))):
            return
        raise Fail(label, "%r != %r" % (a, b))

    def true(self, label, cond):
        self.checks += 1
        if not cond:
            raise Fail(label, "does not hold")

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="vp_")
        self.tmp.append(d)
        return d

    def close(self):
        for d in self.tmp:
            shutil.rmtree(d, ignore_errors=True)
        self.tmp = []
