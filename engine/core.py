"""Path exploration, symbolic integers and booleans.

The verifier executes the real Python code natively; a branch on a symbolic
condition asks z3 which outcomes are feasible under the path condition and the
explorer re-executes the code once per feasible outcome (decision traces), so
that the union of the paths covers every input allowed by the precondition.
"""
import time
from fractions import Fraction

import z3

z3.set_param("smt.random_seed", 1)


class Unsupported(BaseException):
    """The code left the modelled fragment: nothing is concluded from it."""


class Infeasible(BaseException):
    """The path condition became unsatisfiable (assume(False))."""


class Undecided(BaseException):
    """Solver unknown / resource limit: nothing is concluded."""


STATS = {"z3_checks": 0, "z3_time": 0.0, "ring_checks": 0, "ring_time": 0.0}


class Path(object):
    def __init__(self, prefix=()):
        self.solver = z3.Solver()
        self.solver.set("timeout", 20000)
        self.prefix = list(prefix)
        self.pos = 0
        self.pending = []
        self.trail = []
        self.cache = {}
        self.vars = {}
        self.counter = {}
        self.result = None
        self.defs = {}
        self.merged = {}
        self.products = {}
        self.memo = {}
        self.binder = 0
        self.obligations = []
        self.failures = []
        self.undecided = []
        self.assumed = []
        self.deadline = None
        self.imprecise = None
        self.nonint = False

    def fresh(self, base):
        n = self.counter.get(base, 0)
        self.counter[base] = n + 1
        return "%s!%d" % (base, n)

    def intvar(self, name):
        v = self.vars.get(name)
        if v is None:
            v = self.vars[name] = z3.Int(name)
        return v

    def add(self, expr):
        self.solver.add(expr)

    def check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise Undecided("time limit of the case")
        t = time.time()
        r = self.solver.check(*extra)
        STATS["z3_checks"] += 1
        STATS["z3_time"] += time.time() - t
        return r

    def decide(self, expr):
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return False
        key = expr.get_id()
        c = self.cache.get(key)
        if c is not None and c[1].eq(expr):
            return c[0]
        can_t = self.check(expr) != z3.unsat
        can_f = self.check(z3.Not(expr)) != z3.unsat
        if can_t and can_f:
            if self.binder:
                raise Unsupported("branch under a binder on %s" % expr)
            if self.pos < len(self.prefix):
                val = self.prefix[self.pos]
            else:
                val = True
                self.pending.append(self.prefix[:self.pos] + [False])
                self.prefix.append(True)
            self.pos += 1
            self.trail.append((val, str(expr)[:200]))
            if not pure_int(expr):
                self.nonint = True
            self.solver.add(expr if val else z3.Not(expr))
        elif can_t:
            val = True
        elif can_f:
            val = False
        else:
            raise Infeasible()
        self.cache[key] = (val, expr)
        return val

    def scope(self):
        return Scope(self)

    def entails(self, expr):
        expr = z3.simplify(expr)
        if z3.is_true(expr):
            return True
        if z3.is_false(expr):
            return self.check() == z3.unsat
        return self.check(z3.Not(expr)) == z3.unsat


class Scope(object):
    """Temporary assumptions under a binder; leaves no trace in the path."""

    def __init__(self, p):
        self.p = p

    def __enter__(self):
        p = self.p
        p.solver.push()
        p.binder += 1
        self.cache = dict(p.cache)
        self.memo = dict((k, list(v) if isinstance(v, list) else v)
                         for k, v in p.memo.items())
        self.imprecise = p.imprecise
        return p

    def __exit__(self, *k):
        p = self.p
        p.cache, p.memo = self.cache, self.memo
        p.imprecise = self.imprecise
        p.binder -= 1
        p.solver.pop()
        return False


def pure_int(e):
    """Only linear facts about integer variables (no reals, no functions)."""
    todo = [e]
    seen = set()
    while todo:
        x = todo.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and \
                    (x.num_args() or not z3.is_int(x)):
                return False
        todo.extend(x.children())
    return True


class _Cur(object):
    path = None


CUR = _Cur()


def path():
    if CUR.path is None:
        CUR.path = Path()
    return CUR.path


# --------------------------------------------------------------------------
# symbolic booleans

class SBool(object):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return path().decide(self.e)

    def __and__(self, o):
        o = tobool(o)
        if o is NotImplemented:
            return o
        return mkbool(z3.And(self.e, o))
    __rand__ = __and__

    def __or__(self, o):
        o = tobool(o)
        if o is NotImplemented:
            return o
        return mkbool(z3.Or(self.e, o))
    __ror__ = __or__

    def __xor__(self, o):
        o = tobool(o)
        if o is NotImplemented:
            return o
        return mkbool(z3.Xor(self.e, o))
    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        o = tobool(o)
        if o is NotImplemented:
            return False
        return mkbool(self.e == o)

    def __ne__(self, o):
        o = tobool(o)
        if o is NotImplemented:
            return True
        return mkbool(self.e != o)

    def __hash__(self):
        return hash(str(self.e))

    def __repr__(self):
        return "SBool(%s)" % self.e

    def item(self):
        return self

    def any(self):
        return self

    def all(self):
        return self

    shape = ()
    ndim = 0


def tobool(o):
    if isinstance(o, SBool):
        return o.e
    if isinstance(o, bool):
        return z3.BoolVal(o)
    if type(o).__name__ == "bool_":
        return z3.BoolVal(bool(o))
    return NotImplemented


def mkbool(e):
    if isinstance(e, bool):
        return e
    e = z3.simplify(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def band(*xs):
    out = []
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if isinstance(x, SBool):
            out.append(x.e)
        elif not x:
            return False
    if not out:
        return True
    return mkbool(z3.And(*out)) if len(out) > 1 else SBool(out[0])


def bnot(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.e))
    return not x


# --------------------------------------------------------------------------
# symbolic integers, linear normal form

def _isint(x):
    if isinstance(x, bool):
        return True
    if isinstance(x, int):
        return True
    return hasattr(x, "__index__") and not isinstance(x, SInt) and \
        getattr(x, "ndim", 0) == 0


class SInt(object):
    __slots__ = ("terms", "const")

    def __init__(self, terms, const):
        self.terms = terms
        self.const = const

    # -- construction
    @staticmethod
    def mk(d, const):
        terms = tuple(sorted((k, v) for k, v in d.items() if v))
        if not terms:
            return const
        return SInt(terms, const)

    @staticmethod
    def var(name):
        path().intvar(name)
        return SInt(((name, 1),), 0)

    @staticmethod
    def fresh(base):
        return SInt.var(path().fresh(base))

    def key(self):
        return (self.terms, self.const)

    def z3(self):
        p = path()
        e = None
        for n, c in self.terms:
            v = p.intvar(n)
            t = v if c == 1 else c * v
            e = t if e is None else e + t
        if self.const:
            e = e + self.const
        return e

    # -- arithmetic
    def _lin(self, o, s):
        if isinstance(o, SInt):
            d = dict(self.terms)
            for n, c in o.terms:
                d[n] = d.get(n, 0) + s * c
            return SInt.mk(d, self.const + s * o.const)
        if _isint(o):
            return SInt(self.terms, self.const + s * int(o))
        return NotImplemented

    def __add__(self, o):
        return self._lin(o, 1)
    __radd__ = __add__

    def __sub__(self, o):
        return self._lin(o, -1)

    def __rsub__(self, o):
        return (-self)._lin(o, 1)

    def __neg__(self):
        return SInt(tuple((n, -c) for n, c in self.terms), -self.const)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, SInt):
            return product([self, o])
        if _isint(o):
            o = int(o)
            if o == 0:
                return 0
            return SInt(tuple((n, c * o) for n, c in self.terms),
                        self.const * o)
        return NotImplemented
    __rmul__ = __mul__

    def _divmod(self, o):
        if not (_isint(o) and int(o) > 0):
            raise Unsupported("integer division by %r" % (o,))
        o = int(o)
        if o == 1:
            return self, 0
        if all(c % o == 0 for _, c in self.terms):
            q = SInt(tuple((n, c // o) for n, c in self.terms),
                     self.const // o)
            return q, self.const % o
        p = path()
        mk = ("div", self.key(), o)
        r = p.memo.get(mk)
        if r is None:
            me = self
            q = depvar("div%d[%s]" % (o, ikstr(me)),
                       lambda x: divmod(x, o)[0], (me,),
                       lambda x: x // o)
            e = self.z3()
            p.add(z3.And(o * q.z3() <= e, e < o * q.z3() + o))
            r = p.memo[mk] = q
        return r, self - r * o

    def __floordiv__(self, o):
        return self._divmod(o)[0]

    def __mod__(self, o):
        return self._divmod(o)[1]

    def __divmod__(self, o):
        return self._divmod(o)

    def __rfloordiv__(self, o):
        raise Unsupported("symbolic divisor")

    __rmod__ = __rfloordiv__

    def _num(self):
        from engine.num import SNum
        return SNum.from_int(self)

    def __truediv__(self, o):
        return self._num() / o

    def __rtruediv__(self, o):
        return o / self._num()

    def __pow__(self, o):
        return self._num() ** o

    def __rpow__(self, o):
        return o ** self._num()

    def __abs__(self):
        return self if self >= 0 else -self

    # -- comparison
    def _cmp(self, o, op):
        if o is None or isinstance(o, (str, slice, tuple, list)):
            if op == "eq":
                return False
            if op == "ne":
                return True
            return NotImplemented
        if not isinstance(o, SInt) and not _isint(o):
            if isinstance(o, float) or hasattr(o, "_is_snum"):
                return getattr(self._num(), "__%s__" % op)(o)
            return NotImplemented
        d = self - o
        if isinstance(d, int):
            return {"eq": d == 0, "ne": d != 0, "lt": d < 0, "le": d <= 0,
                    "gt": d > 0, "ge": d >= 0}[op]
        e = d.z3()
        return SBool({"eq": lambda: e == 0, "ne": lambda: e != 0,
                      "lt": lambda: e < 0, "le": lambda: e <= 0,
                      "gt": lambda: e > 0, "ge": lambda: e >= 0}[op]())

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        return self._cmp(o, "ne")

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __hash__(self):
        return hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        e = Unsupported("symbolic integer used as a concrete index")
        e.sizes = [t for t, _ in self.terms]
        raise e

    def __int__(self):
        e = Unsupported("symbolic integer made concrete")
        e.sizes = [t for t, _ in self.terms]
        raise e

    def __float__(self):
        raise Unsupported("symbolic integer formatted")

    def __repr__(self):
        s = "+".join("%s%s" % ("" if c == 1 else c, n) for n, c in self.terms)
        return s + ("%+d" % self.const if self.const else "")

    # numpy-scalar face
    shape = ()
    ndim = 0

    def tolist(self):
        return self

    def item(self):
        return self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    def conj(self):
        return self
    conjugate = conj

    @property
    def dtype(self):
        from engine import symnp
        return symnp.dtype(int)


def ikey(i):
    """Canonical key of an index."""
    if isinstance(i, SInt):
        return i.key()
    return int(i)


def iz3(i):
    return i.z3() if isinstance(i, SInt) else z3.IntVal(int(i))


def ikstr(i):
    return repr(i)


def depvar(name, rebuild, args, evalfn=None):
    """Integer variable that is a function of the given integer terms."""
    p = path()
    v = SInt.var(name)
    p.defs[name] = (rebuild, tuple(args), evalfn)
    return v


def depends(name, names, p=None):
    """Does variable `name` depend on one of `names`?"""
    if name in names:
        return True
    p = p or path()
    d = p.defs.get(name)
    if d is None:
        return False
    return any(isinstance(a, SInt) and any(depends(n, names, p)
                                           for n, _ in a.terms)
               for a in d[1])


def product(factors):
    """Product of sizes; symbolic products are opaque with monotone bounds."""
    const = 1
    sym = []
    p = path()
    for f in factors:
        if isinstance(f, SInt):
            if len(f.terms) == 1 and f.const == 0 and f.terms[0][1] == 1 and \
                    f.terms[0][0] in p.products:
                c, fs = p.products[f.terms[0][0]]
                const *= c
                sym.extend(fs)
            else:
                sym.append(f)
        else:
            const *= int(f)
    if not sym:
        return const
    if const == 0:
        return 0
    if len(sym) == 1:
        return sym[0] * const
    sk = tuple(sorted((f.key() for f in sym)))
    mk = ("prod", const, sk)
    r = p.memo.get(mk)
    if r is None:
        def ev(*v):
            x = const
            for y in v:
                x *= y
            return x
        r = depvar("prod[%d|%s]" % (const, "*".join(map(repr, sk))),
                   lambda *v: product((const,) + v), tuple(sym), ev)
        p.products[r.terms[0][0]] = (const, list(sym))
        for f in sym:
            # sizes are nonnegative; a product of positive sizes bounds each
            p.add(z3.Implies(z3.And(*[g.z3() >= 1 for g in sym]),
                             r.z3() >= f.z3() * const))
            p.add(z3.Implies(f.z3() == 0, r.z3() == 0))
        p.memo[mk] = r
    return r


def merged_index(comps, sizes):
    """Row-major flat index of comps in a box of the given sizes."""
    if all(not isinstance(s, SInt) for s in sizes[1:]):
        flat = 0
        for c, s in zip(comps, sizes):
            flat = flat * int(s) + c if not isinstance(s, SInt) else flat + c
        return flat
    p = path()
    comps, sizes = tuple(comps), tuple(sizes)
    mk = ("merge", tuple(map(ikey, comps)), tuple(map(ikey, sizes)))
    r = p.memo.get(mk)
    if r is None:
        k = len(comps)

        def ev(*v):
            flat = 0
            for c, n in zip(v[:k], v[k:]):
                flat = flat * n + c
            return flat
        r = depvar("flat[%s|%s]" % (",".join(map(ikstr, comps)),
                                    ",".join(map(ikstr, sizes))),
                   lambda *v: merged_index(v[:k], v[k:]), comps + sizes, ev)
        p.merged[r.terms[0][0]] = (comps, sizes)
        p.add(r.z3() >= 0)
        tot = product(sizes)
        if isinstance(tot, SInt):
            p.add(r.z3() < tot.z3())
        p.memo[mk] = r
    return r


def split_index(k, sizes):
    """Components of the flat index k in a box of the given sizes."""
    p = path()
    sizes = tuple(sizes)
    if len(sizes) == 1:
        return (k,)
    if isinstance(k, SInt) and len(k.terms) == 1 and k.const == 0 and \
            k.terms[0][1] == 1 and k.terms[0][0] in p.merged:
        comps, msz = p.merged[k.terms[0][0]]
        if tuple(map(ikey, msz)) == tuple(map(ikey, sizes)):
            return comps
    if all(not isinstance(s, SInt) for s in sizes[1:]):
        out = []
        for s in reversed(sizes[1:]):
            if isinstance(k, SInt):
                k, r = k._divmod(s)
            else:
                k, r = divmod(int(k), int(s))
            out.append(r)
        out.append(k)
        return tuple(reversed(out))
    if not isinstance(k, SInt) and int(k) == 0:
        return (0,) * len(sizes)
    mk = ("split", ikey(k), tuple(map(ikey, sizes)))
    r = p.memo.get(mk)
    if r is None:
        r = []

        def ev(c):
            def f(kk, *sz):
                out = []
                for n in reversed(sz[1:]):
                    if n == 0:
                        return 0
                    kk, m = divmod(kk, n)
                    out.append(m)
                out.append(kk)
                return out[::-1][c]
            return f
        for c, s in enumerate(sizes):
            v = depvar("comp%d[%s|%s]" % (c, ikstr(k),
                                          ",".join(map(ikstr, sizes))),
                       (lambda c: lambda kk, *sz: split_index(kk, sz)[c])(c),
                       (k,) + sizes, ev(c))
            p.add(z3.And(v.z3() >= 0, v.z3() < iz3(s)))
            r.append(v)
        r = p.memo[mk] = tuple(r)
    return r


# --------------------------------------------------------------------------
# explorer

class Result(object):
    def __init__(self):
        self.paths = 0
        self.obligations = []      # (label, status, backend, detail)
        self.error = None


def explore(fn, max_paths=400, seconds=60.0, on_path=None):
    """Run fn() once per feasible decision sequence."""
    stack = [[]]
    n = 0
    t0 = time.time()
    while stack:
        if n >= max_paths or time.time() - t0 > seconds:
            raise Undecided("path/time limit (%d paths)" % n)
        prefix = stack.pop()
        p = CUR.path = Path(prefix)
        p.deadline = t0 + seconds * 1.5
        from engine import num
        num.reset()
        try:
            fn(p)
            n += 1
            if on_path:
                on_path(p)
        except Infeasible:
            pass
        stack.extend(p.pending)
    CUR.path = None
    return n
