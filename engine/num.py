"""Exact symbolic numbers: rational functions with Gaussian-rational
coefficients over atoms (array elements, their conjugates, roots,
uninterpreted applications and reductions), with a decision procedure for
equality (ring normal form; index equalities are asked from z3)."""
import cmath
import hashlib
import itertools
import math
import random
import time
from fractions import Fraction

import z3

from engine import core
from engine.core import SInt, SBool, Unsupported, Undecided, path, ikey, \
    mkbool, STATS

BITS = 10
MASK = (1 << BITS) - 1


class Atom(object):
    __slots__ = ("id", "kind", "name", "args", "real", "partner", "pos",
                 "key", "extra")

    def __repr__(self):
        if self.kind == "elem":
            return "%s%s%s" % (self.name, "" if self.extra else "~",
                               list(self.args))
        if self.kind in ("app", "red"):
            return "%s(%s)" % (self.name, ",".join(map(repr, self.args)))
        return self.name


class Table(object):
    def __init__(self):
        self.atoms = []
        self.keys = {}
        self.factors = []
        self.factor_keys = {}
        self.mono_cache = {}
        self.apps = {}
        self.placeholders = {}
        self.nplace = 0
        i = self.new(("I",), "I", "I", (), False)
        assert i.id == 0

    def new(self, key, kind, name, args, real, pos=False, extra=None):
        a = self.keys.get(key)
        if a is None:
            a = Atom()
            a.id = len(self.atoms)
            a.kind, a.name, a.args, a.real = kind, name, args, real
            a.partner, a.pos, a.key, a.extra = a if real else None, pos, \
                key, extra
            self.atoms.append(a)
            self.keys[key] = a
        return a

    def factor(self, poly):
        """poly is normalised; returns factor id."""
        k = frozenset(poly.items())
        f = self.factor_keys.get(k)
        if f is None:
            f = len(self.factors)
            self.factors.append(poly)
            self.factor_keys[k] = f
        return f

    def mono(self, m):
        r = self.mono_cache.get(m)
        if r is None:
            out = []
            i = 0
            mm = m
            while mm:
                e = mm & MASK
                if e:
                    out.append((i, e))
                mm >>= BITS
                i += 1
            r = self.mono_cache[m] = tuple(out)
        return r


T = Table()


def reset():
    global T
    T = Table()


# ---------------------------------------------------------------- polynomials

def padd(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def pneg(a):
    return {m: -c for m, c in a.items()}


def pscale(a, k):
    if k == 0:
        return {}
    return {m: c * k for m, c in a.items()}


LIMIT = 200000


def pmul(a, b):
    r = {}
    if len(a) * len(b) > LIMIT * 20:
        raise Undecided("polynomial blow-up %dx%d" % (len(a), len(b)))
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m1 + m2
            c = c1 * c2
            if (m & MASK) >= 2:
                m -= 2
                c = -c
            s = r.get(m, 0) + c
            if s:
                r[m] = s
            else:
                r.pop(m, None)
    if len(r) > LIMIT:
        raise Undecided("polynomial blow-up %d terms" % len(r))
    return r


def ppow(a, n):
    r = {0: 1}
    while n:
        if n & 1:
            r = pmul(r, a)
        n >>= 1
        if n:
            a = pmul(a, a)
    return r


def pdivide(a, b):
    """Exact division a/b (lex order on packed monomials) or None."""
    if not a:
        return {}
    if 0 in (len(b),):
        return None
    lb = max(b)
    cb = b[lb]
    if any((m & MASK) for m in b):
        return None
    r = dict(a)
    q = {}
    steps = 0
    lbm = T.mono(lb)
    while r:
        steps += 1
        if steps > 400:
            return None
        lr = max(r)
        for i, e in lbm:
            if ((lr >> (BITS * i)) & MASK) < e:
                return None
        m = lr - lb
        c = Fraction(r[lr]) / cb
        q[m] = c
        for mb, cbb in b.items():
            mm = m + mb
            cc = r.get(mm, 0) - c * cbb
            if (mm & MASK) >= 2:
                return None
            if cc:
                r[mm] = cc
            else:
                r.pop(mm, None)
    return q


def matoms(poly):
    out = set()
    for m in poly:
        for i, _ in T.mono(m):
            out.add(i)
    return out


# ------------------------------------------------------------------- numbers

def simplest(x):
    """Simplest rational that rounds to the float x."""
    if x == int(x) and abs(x) < 2 ** 53:
        return Fraction(int(x))
    r = repr(x)
    if len(r.split("e")[0].strip("-0.").replace(".", "")) <= 6:
        return Fraction(r)
    x0 = Fraction(x)
    ulp = Fraction(math.ulp(x))
    lo, hi = x0 - ulp / 2, x0 + ulp / 2
    if x < 0:
        return -_simp(-hi, -lo)
    return _simp(lo, hi)


def _simp(lo, hi):
    fl = lo.numerator // lo.denominator
    if fl == lo:
        return Fraction(fl)
    if fl + 1 <= hi:
        return Fraction(fl + 1)
    r = _simp(1 / (hi - fl), 1 / (lo - fl))
    return fl + 1 / r


def const_num(x):
    """SNum of a python/numpy number."""
    if isinstance(x, bool) or type(x).__name__ == "bool_":
        return SNum({0: 1} if x else {}, ())
    if isinstance(x, int):
        return SNum({0: x} if x else {}, ())
    if isinstance(x, Fraction):
        return SNum({0: x} if x else {}, ())
    if isinstance(x, float):
        x = float(x)
        if x != x or x in (float("inf"), float("-inf")):
            raise Unsupported("non-finite constant %r" % x)
        ph = T.placeholders.get(x)
        if ph is not None:
            return ph
        s = simplest(x)
        if s.denominator > 10 ** 5:
            q = simplest_ratio_pi(x)
            if q is not None:
                return PI() * const_num(q)
        return SNum({0: s} if s else {}, ())
    if isinstance(x, complex):
        x = complex(x)
        return const_num(x.real) + const_num(x.imag) * imag_unit()
    if hasattr(x, "dtype") and getattr(x, "shape", None) == ():
        k = x.dtype.kind
        if k in "iu":
            return const_num(int(x))
        if k == "f":
            return const_num(float(x))
        if k == "c":
            return const_num(complex(x))
        if k == "b":
            return const_num(bool(x))
    raise TypeError("not a number: %r" % (x,))


def simplest_ratio_pi(x):
    r = x / math.pi
    f = Fraction(r).limit_denominator(1000)
    if f != 0 and abs(f.numerator) <= 100000 and \
            abs(float(f) * math.pi - x) <= 4 * math.ulp(x):
        return f
    return None


def PI():
    a = T.new(("pi",), "sym", "pi", (), True, pos=True)
    return from_atom(a)


def imag_unit():
    return SNum({1: 1}, ())


def from_atom(a):
    return SNum({1 << (BITS * a.id): 1}, ())


def denmul(d1, d2):
    r = dict(d1)
    for f, e in d2:
        r[f] = r.get(f, 0) + e
    return tuple(sorted(r.items()))


def denpoly(d):
    r = {0: 1}
    for f, e in d:
        r = pmul(r, ppow(T.factors[f], e))
    return r


def cancel(num, den):
    if not num:
        return {}, ()
    if not den:
        return num, den
    out = []
    for f, e in den:
        fp = T.factors[f]
        while e:
            if len(fp) == 1:
                (m, _), = fp.items()
                (i, _), = T.mono(m)
                sh = BITS * i
                if all((mm >> sh) & MASK for mm in num):
                    num = {mm - m: c for mm, c in num.items()}
                    e -= 1
                    continue
            elif len(num) >= len(fp) and len(num) <= 3000:
                q = pdivide(num, fp)
                if q is not None:
                    num = q
                    e -= 1
                    continue
            break
        if e:
            out.append((f, e))
    return num, tuple(out)


def reduce_roots(num, den):
    """Replace squares of root atoms by their radicand."""
    ids = [i for i in matoms(num) if T.atoms[i].kind == "app" and
           T.atoms[i].name == "sqrt"]
    for i in ids:
        sh = BITS * i
        if any(((m >> sh) & MASK) >= 2 for m in num):
            arg = T.atoms[i].args[0]
            parts = {}
            for m, c in num.items():
                e = (m >> sh) & MASK
                parts.setdefault(e // 2, {})[m - ((e - e % 2) << sh)] = c
            tot = SNum({}, ())
            for e, poly in parts.items():
                tot = tot + SNum(poly, den) * (arg ** e)
            return tot
    return None


def mk(num, den):
    r = reduce_roots(num, den) if T.apps.get("sqrt") else None
    if r is not None:
        return r
    num, den = cancel(num, den)
    return SNum(num, den)


def coerce(x):
    if isinstance(x, SNum):
        return x
    if isinstance(x, SInt):
        return SNum.from_int(x)
    if isinstance(x, SBool):
        raise Unsupported("symbolic boolean used as a number")
    if isinstance(x, (int, float, complex, Fraction)):
        return const_num(x)
    if hasattr(x, "dtype") and getattr(x, "shape", None) == () and \
            not hasattr(x, "_st"):
        try:
            return const_num(x)
        except TypeError:
            return None
    return None


class SNum(object):
    __slots__ = ("num", "den", "_k")
    _is_snum = True
    __array_priority__ = -1000.0
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, num, den):
        self.num = num
        self.den = den
        self._k = None

    @staticmethod
    def from_int(i):
        if not isinstance(i, SInt):
            return const_num(int(i))
        r = {0: i.const} if i.const else {}
        for n, c in i.terms:
            a = T.new(("int", n), "int", n, (), True)
            r[1 << (BITS * a.id)] = c
        return SNum(r, ())

    # ---- structure
    def key(self):
        if self._k is None:
            self._k = (frozenset(self.num.items()), self.den)
        return self._k

    def isconst(self):
        return not self.den and all(m in (0, 1) for m in self.num)

    def iszero(self):
        return not self.num

    def const(self):
        """Python Fraction (real) or None."""
        if self.den:
            return None
        if not self.num:
            return Fraction(0)
        if len(self.num) == 1 and 0 in self.num:
            return Fraction(self.num[0])
        return None

    def atomids(self):
        s = matoms(self.num)
        for f, _ in self.den:
            s |= matoms(T.factors[f])
        return s

    def isreal(self):
        if any(not T.atoms[i].real for i in self.atomids()):
            return (self - self.conj()).iszero()
        return True

    # ---- arithmetic
    def __add__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        if not o.num:
            return self
        if not self.num:
            return o
        if self.den == o.den:
            return mk(padd(self.num, o.num), self.den)
        d1, d2 = dict(self.den), dict(o.den)
        l = dict(d1)
        for f, e in d2.items():
            l[f] = max(l.get(f, 0), e)
        n1, n2 = self.num, o.num
        for f, e in l.items():
            k = e - d1.get(f, 0)
            if k:
                n1 = pmul(n1, ppow(T.factors[f], k))
            k = e - d2.get(f, 0)
            if k:
                n2 = pmul(n2, ppow(T.factors[f], k))
        return mk(padd(n1, n2), tuple(sorted(l.items())))
    __radd__ = __add__

    def __neg__(self):
        return SNum(pneg(self.num), self.den)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return self + (-o)

    def __rsub__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return o + (-self)

    def __mul__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        if not self.num or not o.num:
            return SNum({}, ())
        n1, den2 = cancel(self.num, o.den) if o.den and self.num else \
            (self.num, o.den)
        n2, den1 = cancel(o.num, self.den) if self.den and o.num else \
            (o.num, self.den)
        return mk(pmul(n1, n2), denmul(den1, den2))
    __rmul__ = __mul__

    def inverse(self):
        if not self.num:
            raise ZeroDivisionError("symbolic division by zero")
        # rationalise a constant / pure-I denominator
        num = self.num
        extra = {0: 1}
        if any(m & MASK for m in num):
            if all(m in (0, 1) for m in num):
                a = Fraction(num.get(0, 0))
                b = Fraction(num.get(1, 0))
                n = a * a + b * b
                r = {}
                if a:
                    r[0] = a / n
                if b:
                    r[1] = -b / n
                return mk(pmul(r, denpoly(self.den)), ())
        den = []
        # common monomial
        ms = list(num)
        common = None
        for m in ms:
            d = {i: e for i, e in T.mono(m) if i}
            common = d if common is None else \
                {i: min(e, d[i]) for i, e in common.items() if i in d}
        cm = 0
        for i, e in (common or {}).items():
            cm += e << (BITS * i)
            den.append((T.factor({1 << (BITS * i): 1}), e))
        rest = {m - cm: c for m, c in num.items()}
        lead = rest[max(rest)]
        k = Fraction(1) / lead
        if len(rest) == 1 and 0 in rest:
            extra = {0: k}
        else:
            rest = {m: c * k for m, c in rest.items()}
            den.append((T.factor(rest), 1))
            extra = {0: k}
        return mk(pmul(extra, denpoly(self.den)), tuple(sorted(den)))

    def __truediv__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return self * o.inverse()

    def __rtruediv__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return o * self.inverse()

    def __floordiv__(self, o):
        o = coerce(o)
        if o is not None and self.const() is not None and \
                o.const() is not None:
            return const_num(self.const() // o.const())
        raise Unsupported("floor division of symbolic numbers")

    def __mod__(self, o):
        o = coerce(o)
        if o is not None and self.const() is not None and \
                o.const() is not None:
            return const_num(self.const() % o.const())
        raise Unsupported("remainder of symbolic numbers")

    def __rfloordiv__(self, o):
        return coerce(o) // self

    def __rmod__(self, o):
        return coerce(o) % self

    def __pow__(self, o):
        if isinstance(o, SInt):
            return app("pow", [self, coerce(o)])
        oc = coerce(o)
        if oc is None:
            return NotImplemented
        c = oc.const()
        if c is not None:
            if c.denominator == 1:
                n = int(c)
                if n < 0:
                    return self.inverse() ** (-n)
                r = const_num(1)
                for _ in range(n):
                    r = r * self
                return r
            if c.denominator == 2:
                return sqrt(self) ** int(c.numerator)
        return app("pow", [self, oc])

    def __rpow__(self, o):
        o = coerce(o)
        if o is None:
            return NotImplemented
        return o ** self

    def __abs__(self):
        return sqrt(self * self.conj())

    def conj(self):
        if all(T.atoms[i].real for i in self.atomids()):
            return self
        r = conj_poly(self.num)
        for f, e in self.den:
            d = conj_poly(T.factors[f])
            r = r * (d.inverse() ** e)
        return r
    conjugate = conj

    @property
    def flat(self):
        return (self,)

    @property
    def real(self):
        if all(T.atoms[i].real for i in self.atomids()):
            return self
        return (self + self.conj()) * Fraction(1, 2)

    @property
    def imag(self):
        if all(T.atoms[i].real for i in self.atomids()):
            return SNum({}, ())
        d = (self - self.conj()) * Fraction(-1, 2)
        return d * imag_unit()

    @property
    def dtype(self):
        from engine import symnp
        return symnp.dtype(float) if self.isreal() else symnp.dtype(complex)

    def item(self):
        return self

    def tolist(self):
        return self

    def copy(self):
        return self

    # ---- comparison
    def _cmp(self, o, op):
        o = coerce(o)
        if o is None:
            return NotImplemented
        d = self - o
        c = d.const()
        if c is not None:
            return {"lt": c < 0, "le": c <= 0, "gt": c > 0, "ge": c >= 0}[op]
        if sign_known(d) > 0:
            return op in ("gt", "ge")
        if sign_known(d) < 0:
            return op in ("lt", "le")
        if not d.isreal():
            # numpy orders complex numbers by real part, then imaginary part
            strict = {"lt": "lt", "le": "lt", "gt": "gt", "ge": "gt"}[op]
            re = d.real
            zero = const_num(0)
            if bool(getattr(re, "__%s__" % strict)(zero)):
                return True
            if bool(re == zero):
                return getattr(d.imag, "__%s__" % op)(zero)
            return False
        v = closed_value(d)
        if v is not None and abs(v) > 1e-6:
            return v < 0 if op in ("lt", "le") else v > 0
        e = to_z3(d)
        return mkbool({"lt": e < 0, "le": e <= 0, "gt": e > 0,
                       "ge": e >= 0}[op])

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        if o is None or isinstance(o, (str, tuple, list, type)):
            return False
        o = coerce(o)
        if o is None:
            return NotImplemented
        d = self - o
        if d.iszero():
            return True
        if d.isconst():
            return False
        if sign_known(d):
            return False
        try:
            if d.isreal():
                return mkbool(to_z3(d) == 0)
            return mkbool(z3.And(to_z3(d.real) == 0, to_z3(d.imag) == 0))
        except Unsupported:
            # of the two outcomes nothing is assumed
            memo = path().memo.setdefault("ceq", {})
            return mkbool(memo.setdefault(d.key(), z3.Bool("ceq!%d" %
                                                           len(memo))))

    def __ne__(self, o):
        r = self.__eq__(o)
        if r is NotImplemented:
            return r
        return core.bnot(r)

    def __hash__(self):
        c = self.const()
        return hash(c) if c is not None else hash(self.key())

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        c = self.const()
        if c is not None:
            return float(c)
        return placeholder(self)

    def __int__(self):
        c = self.const()
        if c is not None:
            return int(c)
        v = closed_value(self)
        if v is not None and abs(v - round(v)) > 1e-6:
            return int(v)
        raise Unsupported("symbolic number made a concrete int")

    def __complex__(self):
        raise Unsupported("symbolic number made a concrete complex")

    def __index__(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        raise Unsupported("symbolic number used as index")

    def __str__(self):
        if self.isreal():
            return repr(float(self))
        return "(%r+%rj)" % (float(self.real), float(self.imag))

    def __repr__(self):
        def p(poly):
            out = []
            for m, c in list(poly.items())[:8]:
                s = "*".join("%r%s" % (T.atoms[i], "^%d" % e if e > 1 else "")
                             for i, e in T.mono(m))
                out.append("%s%s" % (c if c != 1 or not s else "",
                                     ("*" if c != 1 and s else "") + s))
            return " + ".join(out) + (" + ..." if len(poly) > 8 else "") \
                if out else "0"
        s = p(self.num)
        if self.den:
            s = "(%s)/%s" % (s, "".join("(%s)%s" % (p(T.factors[f]),
                             "^%d" % e if e > 1 else "") for f, e in self.den))
        return s[:600]


def conj_poly(poly):
    tot = SNum({}, ())
    acc = {}
    for m, c in poly.items():
        mm = 0
        hard = []
        for i, e in T.mono(m):
            a = T.atoms[i]
            if i == 0:
                c = -c
                mm += 1
                continue
            if a.real:
                mm += e << (BITS * i)
                continue
            p = conj_atom(a)
            if isinstance(p, Atom):
                mm += e << (BITS * p.id)
            else:
                hard.append((p, e))
        if hard:
            t = SNum({mm: c}, ())
            for p, e in hard:
                t = t * (p ** e)
            tot = tot + t
        else:
            s = acc.get(mm, 0) + c
            if s:
                acc[mm] = s
            else:
                acc.pop(mm, None)
    return tot + SNum(acc, ())


def conj_atom(a):
    if a.partner is not None:
        return a.partner
    if a.kind in ("elem", "sym"):
        b = T.new(a.key + ("~",), a.kind, a.name, a.args, False,
                  extra=not a.extra)
        a.partner, b.partner = b, a
        return b
    if a.kind == "app":
        if a.name in CONJ_APPS:
            return app(a.name, [x.conj() for x in a.args])
        return conj_app(a)
    if a.kind == "red":
        op, sizes, bvars = a.extra
        if op in ("sum", "prod"):
            return reduce_atom(op, sizes, bvars, a.args[0].conj())
        return conj_app(a)
    raise Unsupported("conj of %r" % a)


def conj_app(a):
    r = app("conj", [from_atom(a)], real=False)
    b = single_atom(r)
    a.partner, b.partner = b, a
    return b


REAL_APPS = {"angle", "arctan2", "abs", "log10r", "median", "floor", "sign"}
CONJ_APPS = {"exp", "sqrt", "log10", "log", "sin", "cos", "pow"}


def elem(name, idx, real=True, pos=False):
    key = ("elem", name) + tuple(ikey(i) for i in idx)
    a = T.new(key, "elem", name, tuple(idx), real, pos=pos, extra=True)
    return from_atom(a)


def sym(name, real=True, pos=False):
    a = T.new(("sym", name), "sym", name, (), real, pos=pos, extra=True)
    return from_atom(a)


def app(name, args, real=None):
    args = [coerce(x) for x in args]
    if name == "exp":
        if args[0].iszero():
            return const_num(1)
        # exp(i*pi*q) for multiples of 1/2
        q = pi_multiple(args[0])
        if q is not None:
            q = q % 2
            return const_num({0: 1, 1: 0, 2: -1, 3: 0}[int(q * 2)]) + \
                imag_unit() * {0: 0, 1: 1, 2: 0, 3: -1}[int(q * 2)]
        r = split_exp(args[0])
        if r is not None:
            return r
    if name in ("cos", "sin", "tan"):
        # Euler: every trigonometric function in terms of exp
        e = app("exp", [imag_unit() * args[0]])
        f = e.inverse()
        if name == "cos":
            return (e + f) * Fraction(1, 2)
        if name == "sin":
            return (e - f) * imag_unit() * Fraction(-1, 2)
        return (e - f) * imag_unit() * -1 / (e + f)
    if name == "pow" and args[1].const() is not None and \
            args[1].const().denominator == 1:
        return args[0] ** int(args[1].const())
    if name == "pow" and args[1].iszero():
        return const_num(1)
    if name == "log10":
        c = args[0].const()
        if c == 1:
            return SNum({}, ())
        a = single_atom(args[0])
        if a is not None and a.kind == "app" and a.name == "pow" and \
                a.args[0].const() == 10 and a.args[1].isreal():
            return a.args[1]
        if len(args[0].num) == 1:
            (m, c), = args[0].num.items()
            k = power_of_ten(c)
            if k:
                t = const_num(k)
                if c == Fraction(10) ** k and args[0].isconst():
                    return t
                return t + app("log10", [args[0] / const_num(
                    Fraction(10) ** k)])
    if name == "floor":
        r = floor(args[0])
        if r is not None:
            return r
    if name == "sign":
        if args[0].iszero():
            return const_num(0)
        if args[0].isreal():
            if bool(args[0] > 0):
                return const_num(1)
            return const_num(-1 if bool(args[0] < 0) else 0)
    if name == "pow" and args[0].const() == 10:
        a = single_atom(args[1])
        if a is not None and a.kind == "app" and a.name == "log10":
            return a.args[0]
    lst = T.apps.setdefault(name, [])
    keys = tuple(x.key() for x in args)
    for k, a in lst:
        if k == keys:
            return from_atom(a)
    for k, a in lst:
        if len(a.args) == len(args) and \
                all((x - y).iszero() for x, y in zip(a.args, args)):
            return from_atom(a)
    if real is None:
        if name in REAL_APPS:
            real = True
        else:
            real = all(x.isreal() for x in args)
    pos = (name == "exp" and real) or (
        name == "pow" and real and sign_known(args[0]) > 0)
    a = T.new(("app", name, len(lst)), "app", name, tuple(args), real, pos)
    lst.append((keys, a))
    return from_atom(a)


def power_of_ten(c):
    """k with c == 10**k, or None."""
    c = Fraction(c)
    if c <= 0:
        return None
    k = 0
    while c >= 10 and c.denominator == 1 and c.numerator % 10 == 0:
        c, k = c / 10, k + 1
    while c < 1 and c.denominator % 10 == 0:
        c, k = c * 10, k - 1
    return k if c == 1 else None


def floor(x):
    """floor(k + t), t known to lie in [0, 1); None if that is not known."""
    c = x.const()
    if c is not None:
        return const_num(c.numerator // c.denominator)
    k = 0
    t = x
    if 0 in x.num and not x.den:
        k = Fraction(x.num[0])
        k = k.numerator // k.denominator
        t = x - const_num(k)
    a = single_atom(t)
    if a is not None and a.kind == "app" and a.name == "log10" and \
            a.args[0].isreal():
        u = a.args[0]
        c = u.const()
        if c is not None and c > 0:
            e = 0
            while Fraction(10) ** (e + 1) <= c:
                e += 1
            while Fraction(10) ** e > c:
                e -= 1
            return const_num(k + e)
        if bool(u >= 1) and bool(u < 10):
            return const_num(k)
    return None


def single_atom(x):
    """The atom x consists of, or None."""
    if x.den or len(x.num) != 1:
        return None
    (m, c), = x.num.items()
    mono = T.mono(m)
    if c != 1 or len(mono) != 1 or mono[0][1] != 1:
        return None
    return T.atoms[mono[0][0]]


def split_exp(x):
    """exp of a sum as a product of exps of single terms with a normal sign;
    exp(i*angle(z)) = z/|z|.  None if x is already a single normal term."""
    if x.den:
        if len(x.num) == 1:
            (m, c), = x.num.items()
            if c < 0:
                return const_num(1) / app("exp", [-x])
        return None
    if len(x.num) == 0:
        return const_num(1)
    if len(x.num) > 1:
        r = const_num(1)
        for m, c in sorted(x.num.items()):
            r = r * app("exp", [SNum({m: c}, ())])
        return r
    (m, c), = x.num.items()
    mono = dict(T.mono(m))
    kinds = [T.atoms[i] for i in mono]
    if len(mono) == 2 and c in (1, -1) and all(e == 1 for e in
                                               mono.values()):
        k = [a.kind for a in kinds]
        if "I" in k:
            o = kinds[1 - k.index("I")]
            if o.kind == "app" and o.name == "angle":
                z = o.args[0]
                r = z / abs(z)
                return r if c == 1 else r.conj()
    if c < 0:
        return const_num(1) / app("exp", [SNum({m: -c}, ())])
    if c.denominator == 1 and c > 1:
        return app("exp", [SNum({m: type(c)(1)}, ())]) ** int(c)
    return None


def pi_multiple(x):
    """q with x == i*pi*q, 2q integer; else None."""
    if x.den or len(x.num) != 1:
        return None
    a = T.keys.get(("pi",))
    if a is None:
        return None
    (m, c), = x.num.items()
    if m == 1 + (1 << (BITS * a.id)) and (2 * Fraction(c)).denominator == 1:
        return Fraction(c)
    return None


def isqrt_frac(c):
    if c < 0:
        return None
    n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
    if n * n == c.numerator and d * d == c.denominator:
        return Fraction(n, d)
    return None


def sqrt(x):
    x = coerce(x)
    c = x.const()
    if c is not None:
        if c < 0:
            return sqrt(-x) * imag_unit()
        r = isqrt_frac(c)
        if r is not None:
            return const_num(r)
        # sqrt(n/d) = sqrt(n*d)/d, squarefree part
        n = c.numerator * c.denominator
        out = Fraction(1, c.denominator)
        f = 2
        while f * f <= n and f < 2000:
            while n % (f * f) == 0:
                n //= f * f
                out *= f
            f += 1
        return app("sqrt", [const_num(n)], real=True) * out
    # monomial over positive atoms
    if len(x.num) == 1 and all(len(T.factors[f]) == 1 for f, _ in x.den):
        (m, c), = x.num.items()
        ok = Fraction(c) > 0 and all(T.atoms[i].pos for i, _ in T.mono(m))
        dens = []
        for f, e in x.den:
            (dm, dc), = T.factors[f].items()
            (i, de), = T.mono(dm)
            dens.append((i, e * de))
            ok = ok and T.atoms[i].pos
        if ok:
            r = sqrt(const_num(Fraction(c)))
            for i, e in list(T.mono(m)) + [(i, -e) for i, e in dens]:
                a = from_atom(T.atoms[i])
                r = r * (a ** (e // 2))
                if e % 2:
                    s = app("sqrt", [a], real=True)
                    T.atoms[max(s.atomids())].pos = True
                    r = r * s
            return r
    if len(x.num) == 1 and not x.den and x.isreal():
        # sqrt(c*p^2): only when it is the square of a known nonnegative
        pass
    return app("sqrt", [x])


def sign_known(d):
    """+1 / -1 when syntactically strictly positive / negative, else 0."""
    def s(poly):
        sg = 0
        for m, c in poly.items():
            for i, e in T.mono(m):
                a = T.atoms[i]
                if i == 0 or not (a.pos or (a.real and e % 2 == 0 and False)):
                    return 0
            t = 1 if c > 0 else -1
            if sg and t != sg:
                return 0
            sg = t
        return sg
    r = s(d.num)
    for f, e in d.den:
        x = s(T.factors[f])
        if not x:
            return 0
        if e % 2:
            r *= x
    return r


# ------------------------------------------------------------- reductions

BV = "bv!%d"


def bound_vars(n):
    p = path()
    out = []
    for _ in range(n):
        out.append(SInt.var(BV % p.binder))
        p.binder += 1
    return out


def has_bound(atom_or_num, names):
    if isinstance(atom_or_num, SNum):
        return any(has_bound(T.atoms[i], names)
                   for i in atom_or_num.atomids())
    a = atom_or_num
    if a.kind == "int":
        return core.depends(a.name, names)
    if a.kind == "elem":
        return any(isinstance(i, SInt) and any(core.depends(n, names)
                                               for n, _ in i.terms)
                   for i in a.args)
    if a.kind == "app":
        return any(has_bound(x, names) for x in a.args)
    if a.kind == "red":
        op, sizes, bvars = a.extra
        if any(isinstance(s, SInt) and any(core.depends(n, names)
                                           for n, _ in s.terms)
               for s in sizes):
            return True
        return has_bound(a.args[0], names)
    return False


def reduction(op, sizes, body):
    """op over the box `sizes` of body(idx)."""
    p = path()
    if all(not isinstance(s, SInt) for s in sizes):
        tot = 1
        for s in sizes:
            tot *= int(s)
        if tot <= 64:
            vals = [body(ix) for ix in
                    itertools.product(*[range(int(s)) for s in sizes])]
            return fold(op, vals)
    syms = list(sizes)
    with p.scope():
        bv = bound_vars(len(syms))
        try:
            for b, s in zip(bv, syms):
                p.add(z3.And(b.z3() >= 0, b.z3() < core.iz3(s)))
            val = coerce(body(tuple(bv)))
        finally:
            p.binder -= len(syms)
    touch(val, set(b.terms[0][0] for b in bv))
    names = set(b.terms[0][0] for b in bv)
    if op == "sum":
        if any(has_bound(SNum(T.factors[f], ()), names) for f, _ in val.den):
            return reduce_atom(op, syms, bv, val)
        tot = SNum({}, ())
        groups = {}
        for m, c in val.num.items():
            ins = outs = 0
            for i, e in T.mono(m):
                if i and has_bound(T.atoms[i], names):
                    ins += e << (BITS * i)
                else:
                    outs += e << (BITS * i)
            groups.setdefault(ins, {})[outs] = c
        for ins, outs in groups.items():
            if ins == 0:
                r = SNum.from_int(core.product(syms)) \
                    if isinstance(core.product(syms), SInt) \
                    else const_num(core.product(syms))
            else:
                r = reduce_atom(op, syms, bv, SNum({ins: 1}, ()))
            tot = tot + mk(outs, val.den) * r
        return tot
    return reduce_atom(op, syms, bv, val)


def int_names(x, out, seen=None):
    seen = set() if seen is None else seen
    for i in x.atomids():
        if i in seen:
            continue
        seen.add(i)
        a = T.atoms[i]
        if a.kind == "int":
            out.add(a.name)
        elif a.kind == "elem":
            for k in a.args:
                if isinstance(k, SInt):
                    out.update(n for n, _ in k.terms)
        elif a.kind == "app":
            for y in a.args:
                int_names(y, out, seen)
        elif a.kind == "red":
            for k in a.extra[1]:
                if isinstance(k, SInt):
                    out.update(n for n, _ in k.terms)
            int_names(a.args[0], out, seen)


def touch(val, bound):
    """Re-assert the defining facts of the variables of val that were made
    under a binder but do not depend on it."""
    p = path()
    names = set()
    int_names(val, names)
    for n in names:
        d = p.defs.get(n)
        if d is not None and not core.depends(n, bound):
            d[0](*d[1])


def fold(op, vals):
    if op == "sum":
        r = SNum({}, ())
        for v in vals:
            r = r + v
        return r
    if op == "prod":
        r = const_num(1)
        for v in vals:
            r = r * v
        return r
    if op in ("min", "max"):
        if not vals:
            raise ValueError("zero-size array to reduction operation")
        r = vals[0]
        for v in vals[1:]:
            if op == "min":
                r = v if v < r else r
            else:
                r = v if v > r else r
        return r
    raise Unsupported("fold " + op)


def reduce_atom(op, sizes, bvars, body):
    lst = T.apps.setdefault("red:" + op, [])
    sk = tuple(ikey(s) for s in sizes)
    bk = tuple(b.terms[0][0] for b in bvars)
    for (sk2, bk2), a in lst:
        if len(sk2) != len(sk):
            continue
        for perm in itertools.permutations(range(len(sk))):
            if tuple(sk[i] for i in perm) != sk2:
                continue
            m = {bk[i]: SInt.var(bk2[j]) for j, i in enumerate(perm)}
            if subst_int(body, m).key() == a.args[0].key():
                return from_atom(a)
    a = T.new(("red", op, len(lst)), "red", op, (body,), body.isreal(),
              extra=(op, tuple(sizes), tuple(bvars)))
    lst.append(((sk, bk), a))
    return from_atom(a)


# ------------------------------------------------------------ substitution

def sub_sint(i, m):
    if not isinstance(i, SInt):
        return i
    if not any(core.depends(n, m) for n, _ in i.terms):
        return i
    p = path()
    r = i.const
    for n, c in i.terms:
        if n in m:
            v = m[n]
        elif core.depends(n, m):
            f, args, _ = p.defs[n]
            v = f(*[sub_sint(a, m) for a in args])
        else:
            v = SInt.var(n)
        r = r + v * c
    return r


def subst_int(x, m):
    """Simultaneous substitution of integer variables."""
    return rebuild(x, lambda a: sub_atom(a, m))


def sub_atom(a, m):
    if a.kind == "elem":
        idx = tuple(sub_sint(i, m) for i in a.args)
        if all(ikey(i) == ikey(j) for i, j in zip(idx, a.args)):
            return None
        e = elem(a.name, idx, a.real, a.pos)
        if not a.extra:
            e = e.conj()
        return e
    if a.kind == "int":
        if core.depends(a.name, m):
            return coerce(sub_sint(SInt.var(a.name), m))
        return None
    if a.kind == "app":
        args = [subst_int(x, m) for x in a.args]
        if all(x.key() == y.key() for x, y in zip(args, a.args)):
            return None
        return sqrt(args[0]) if a.name == "sqrt" else app(a.name, args)
    if a.kind == "red":
        op, sizes, bvars = a.extra
        m2 = {k: v for k, v in m.items()
              if k not in [b.terms[0][0] for b in bvars]}
        ns = tuple(sub_sint(s, m2) for s in sizes)
        nb = subst_int(a.args[0], m2)
        if nb.key() == a.args[0].key() and \
                all(ikey(i) == ikey(j) for i, j in zip(ns, sizes)):
            return None
        return reduce_atom(op, ns, bvars, nb)
    return None


def rebuild(x, f):
    """Rebuild x replacing atoms a by f(a) (None: keep)."""
    ids = x.atomids()
    rep = {}
    for i in ids:
        if i == 0:
            continue
        r = f(T.atoms[i])
        if r is not None:
            rep[i] = r
    if not rep:
        return x

    def poly(p):
        tot = SNum({}, ())
        keep = {}
        for m, c in p.items():
            mm = 0
            hard = []
            for i, e in T.mono(m):
                if i in rep:
                    hard.append((rep[i], e))
                else:
                    mm += e << (BITS * i)
            if hard:
                t = SNum({mm: c}, ())
                for r, e in hard:
                    t = t * (r ** e)
                tot = tot + t
            else:
                keep[mm] = c
        return tot + SNum(keep, ())
    r = poly(x.num)
    for fid, e in x.den:
        r = r * (poly(T.factors[fid]).inverse() ** e)
    return r


# ------------------------------------------------------------------- z3 view

def to_z3(x):
    def atom(a):
        p = path()
        if a.kind == "int":
            return z3.ToReal(p.intvar(a.name))
        if a.kind == "elem":
            nm = a.name + ("" if a.extra else "~")
            if not a.args:
                v = z3.Real(nm)
            else:
                f = z3.Function("f!" + nm, *([z3.IntSort()] * len(a.args) +
                                             [z3.RealSort()]))
                v = f(*[core.iz3(i) for i in a.args])
        else:
            v = z3.Real("%s!a%d" % (a.name, a.id))
        mkk = ("z3atom", a.id)
        if mkk not in p.memo:
            p.memo[mkk] = True
            if a.pos:
                p.add(v > 0)
            if a.kind == "app" and a.name == "sqrt" and a.real:
                arg = a.args[0]
                e = to_z3(arg)
                p.add(v >= 0)
                p.add(v * v == e)
            if a.kind == "sym" and a.name == "pi":
                p.add(z3.And(v > z3.RealVal("3.14159265358979"),
                             v < z3.RealVal("3.1415926535898")))
        return v

    def poly(pl):
        e = z3.RealVal(0)
        for m, c in pl.items():
            if m & MASK:
                raise Unsupported("complex number in an order comparison")
            t = z3.RealVal(str(Fraction(c)))
            for i, k in T.mono(m):
                v = atom(T.atoms[i])
                for _ in range(k):
                    t = t * v
            e = e + t
        return e
    r = poly(x.num)
    if x.den:
        r = r / poly(denpoly(x.den))
    return z3.simplify(r)


# --------------------------------------------------------------- equality

def collect_elems(x, out, seen):
    for i in x.atomids():
        if i in seen:
            continue
        seen.add(i)
        a = T.atoms[i]
        if a.kind in ("elem", "int"):
            out.append(a)
        elif a.kind == "app":
            for y in a.args:
                collect_elems(y, out, seen)
        elif a.kind == "red":
            collect_elems(a.args[0], out, seen)


def merge_indices(d):
    """Rewrite element atoms whose indices are provably equal."""
    p = path()
    els = []
    collect_elems(d, els, set())
    groups = {}
    for a in els:
        if a.kind == "elem":
            groups.setdefault((a.name, a.extra, len(a.args)), []).append(a)
    mapping = {}
    for g in groups.values():
        reps = []
        for a in g:
            for b in reps:
                diffs = [(i, j) for i, j in zip(a.args, b.args)
                         if ikey(i) != ikey(j)]
                if any(not isinstance(i, SInt) and not isinstance(j, SInt)
                       for i, j in diffs):
                    continue
                if p.entails(z3.And(*[core.iz3(i) == core.iz3(j)
                                      for i, j in diffs])):
                    mapping[a.id] = b
                    break
            else:
                reps.append(a)
    if not mapping:
        return d

    def f(a):
        if a.id in mapping:
            return from_atom(mapping[a.id])
        if a.kind == "app":
            args = [rebuild(x, f) for x in a.args]
            if any(x.key() != y.key() for x, y in zip(args, a.args)):
                return sqrt(args[0]) if a.name == "sqrt" else \
                    app(a.name, args)
        if a.kind == "red":
            nb = rebuild(a.args[0], f)
            if nb.key() != a.args[0].key():
                op, sizes, bvars = a.extra
                return reduce_atom(op, sizes, bvars, nb)
        return None
    return rebuild(d, f)


def reds_in(d, out=None, seen=None):
    out = [] if out is None else out
    seen = set() if seen is None else seen
    for i in d.atomids():
        if i in seen:
            continue
        seen.add(i)
        a = T.atoms[i]
        if a.kind == "red":
            out.append(a)
            reds_in(a.args[0], out, seen)
        elif a.kind == "app":
            for y in a.args:
                reds_in(y, out, seen)
    return out


def unfold_sums(d):
    """Sums over one axis: a sum of one more element than another sum is that
    sum and the last element; sums of no or one element are written out."""
    p = path()
    reds = [a for a in reds_in(d) if a.extra[0] == "sum" and
            len(a.extra[1]) == 1]
    if not reds:
        return d
    mapping = {}
    for a in reds:
        size, bv = a.extra[1][0], a.extra[2][0].terms[0][0]
        if not isinstance(size, SInt):
            continue
        z = core.iz3(size)
        if p.entails(z == 0):
            mapping[a.id] = const_num(0)
        elif p.entails(z == 1):
            mapping[a.id] = subst_int(a.args[0], {bv: 0})
        else:
            for b in reds:
                last = b.extra[1][0]
                if b is not a and isinstance(last, SInt) and p.entails(
                        z3.And(z == core.iz3(last) + 1,
                               core.iz3(last) >= 0)):
                    mapping[a.id] = reduce_atom(
                        "sum", (last,), a.extra[2], a.args[0]) + \
                        subst_int(a.args[0], {bv: last})
                    break
    if not mapping:
        return d
    return rebuild(d, lambda a: mapping.get(a.id))


def prove_eq(a, b):
    """('proved', backend) | ('refuted', model-dict) | ('unknown', why)"""
    t = time.time()
    z = STATS["z3_time"]
    try:
        return _prove_eq(a, b)
    finally:
        STATS["ring_checks"] += 1
        STATS["ring_time"] += (time.time() - t) - (STATS["z3_time"] - z)


def _prove_eq(a, b):
    ca, cb = coerce(a), coerce(b)
    if ca is None or cb is None:
        return ("proved", "concrete") if a == b else \
            ("refuted", {"values": (repr(a), repr(b))})
    d = ca - cb
    if d.iszero():
        return "proved", "ring"
    if d.isconst():
        return "refuted", find_model(d) or {"values": (repr(a), repr(b))}
    d2 = merge_indices(d)
    if d2.iszero():
        return "proved", "ring+z3"
    d3 = unfold_sums(d2)
    if d3 is not d2:
        d2 = merge_indices(d3)
        if d2.iszero():
            return "proved", "ring+z3"
    m = find_model(d2)
    if m is not None:
        return "refuted", m
    if len(d2.num) < 60 and all(T.atoms[i].real for i in d2.atomids()):
        try:
            if path().entails(to_z3(SNum(d2.num, ())) == 0):
                return "proved", "z3"
        except Unsupported:
            pass
    return "unknown", "cannot decide %r = 0" % d2


def rnd_value(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    x = int.from_bytes(h[:8], "big") / 2.0 ** 64
    y = int.from_bytes(h[8:16], "big") / 2.0 ** 64
    return x, y


class NumFail(Exception):
    pass


def closed_value(x):
    """Numeric value of a real constant such as sqrt(3), else None."""
    def closed(y, seen):
        for i in y.atomids():
            a = T.atoms[i]
            if i in seen:
                continue
            seen.add(i)
            if a.kind in ("elem", "int", "red"):
                return False
            if a.kind == "sym" and a.name != "pi":
                return False
            if a.kind == "app" and not all(closed(z, seen) for z in a.args):
                return False
        return True
    if not closed(x, set()):
        return None
    try:
        v = complex(evalnum(x, {}, 0))
    except NumFail:
        return None
    return v.real if abs(v.imag) < 1e-9 * max(1, abs(v)) else None


def evalnum(x, env, salt):
    """Numeric value of x for integer environment env (name -> int)."""
    memo = {}

    def ev_i(i):
        if not isinstance(i, SInt):
            return int(i)
        r = i.const
        for n, c in i.terms:
            r += c * ev_name(n)
        return r

    def ev_name(n):
        if n in env:
            return env[n]
        d = path().defs.get(n)
        if d is None or d[2] is None:
            raise NumFail(n)
        return d[2](*[ev_i(a) for a in d[1]])

    def ev_atom(a):
        if a.kind == "I":
            return 1j
        if a.kind == "int":
            return ev_name(a.name)
        if a.kind == "elem":
            k = (a.name,) + tuple(ev_i(i) for i in a.args)
            u, v = rnd_value(salt, *k)
            if a.pos:
                return 0.5 + u
            if a.real:
                return 4 * u - 2
            z = complex(4 * u - 2, 4 * v - 2)
            return z if a.extra else z.conjugate()
        if a.kind == "sym":
            if a.name == "pi":
                return math.pi
            u, v = rnd_value(salt, a.name)
            if a.pos:
                return 0.5 + u
            if a.real:
                return 4 * u - 2
            z = complex(4 * u - 2, 4 * v - 2)
            return z if a.extra else z.conjugate()
        if a.kind == "app":
            args = [ev(y) for y in a.args]
            n = a.name
            if n == "sqrt":
                return cmath.sqrt(args[0])
            if n == "exp":
                return cmath.exp(args[0])
            if n == "log10":
                return cmath.log10(args[0])
            if n == "log":
                return cmath.log(args[0])
            if n == "angle":
                return cmath.phase(args[0])
            if n == "conj":
                return complex(args[0]).conjugate()
            if n == "pow":
                return complex(args[0]) ** args[1]
            if n == "abs":
                return abs(args[0])
            if n == "sign":
                r = complex(args[0]).real
                return (r > 0) - (r < 0)
            if n == "floor":
                return math.floor(complex(args[0]).real + 1e-12)
            if n in ("sin", "cos", "tan"):
                return getattr(cmath, n)(args[0])
            path().imprecise = "uninterpreted " + n
            u, v = rnd_value(salt, n, tuple(
                (round(complex(y).real, 8), round(complex(y).imag, 8))
                for y in args))
            return 4 * u - 2
        if a.kind == "red":
            op, sizes, bvars = a.extra
            sz = [ev_i(s) for s in sizes]
            tot = 1
            for s in sz:
                tot *= s
            if tot > 5000:
                raise NumFail("big")
            vals = []
            names = [b.terms[0][0] for b in bvars]
            for ix in itertools.product(*[range(s) for s in sz]):
                e2 = dict(env)
                e2.update(zip(names, ix))
                vals.append(evalnum(a.args[0], e2, salt))
            if op == "sum":
                return sum(vals)
            if op == "prod":
                r = 1
                for v in vals:
                    r *= v
                return r
            if not vals:
                raise NumFail("empty")
            vals = [complex(v).real for v in vals]
            return min(vals) if op == "min" else max(vals)
        raise NumFail(a.kind)

    def _fail(n):
        raise NumFail(n)

    def poly(p):
        r = 0
        for m, c in p.items():
            t = complex(float(c))
            for i, e in T.mono(m):
                if i not in memo:
                    memo[i] = ev_atom(T.atoms[i])
                t = t * memo[i] ** e
            r = r + t
        return r

    def ev(y):
        if y is x:
            return evx()
        return evalnum(y, env, salt)

    def evx():
        r = poly(x.num)
        for f, e in x.den:
            d = poly(T.factors[f])
            if abs(d) < 1e-9:
                raise NumFail("singular")
            r = r / d ** e
        return r
    try:
        return evx()
    except (ZeroDivisionError, OverflowError, ValueError):
        raise NumFail("arith")


def model_env(p, small=True):
    """Integer assignment satisfying the path condition (small if possible)."""
    ints = list(p.vars.items())
    p.solver.push()
    try:
        if small:
            for n, v in ints:
                p.solver.add(z3.And(v >= -6, v <= 6))
        r = p.check()
        if r != z3.sat:
            return None
        m = p.solver.model()
        env = {}
        for n, v in ints:
            if n.startswith("bv!") or (n in p.defs and (
                    p.defs[n][2] is not None or "bv!" in n)):
                continue
            env[n] = m.eval(v, model_completion=True).as_long()
        return env
    finally:
        p.solver.pop()


def find_model(d):
    p = path()
    for small in (True, False):
        env = model_env(p, small)
        if env is None:
            continue
        for salt in range(4):
            try:
                v = evalnum(d, env, salt)
            except NumFail:
                continue
            if abs(v) > 1e-7:
                return {"ints": env, "difference": repr(v), "term": repr(d)}
    return None


# ----------------------------------------------------------- placeholders

def placeholder(x):
    """A unique concrete float standing for x in formatted text."""
    for f, y in T.placeholders.items():
        if y.key() == x.key():
            return f
    n = T.nplace
    T.nplace += 1
    rng = random.Random(n * 7919 + 13)
    e = [0, 3, -7, 9, -1, 12, -15, 1, 100, -120][n % 10]
    s = -1 if n % 3 == 1 else 1
    f = s * (1.0 + rng.random() * 8.9) * 10.0 ** e
    f = float("%.16e" % f)
    T.placeholders[f] = x
    return f
