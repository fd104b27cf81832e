"""A symbolic model of the part of numpy that hftools uses.

Arrays are functions from an index box (sizes may be symbolic) to exact
symbolic numbers; views alias a shared storage through affine index maps, as
numpy's strided views do; the ndarray subclass protocol (view, new-from-
template, __array_finalize__) follows numpy.  Whatever is not modelled raises
Unsupported, from which the engine concludes nothing.
"""
import functools
import itertools
import math
import sys
import types
from fractions import Fraction

import z3

import numpy as real  # the real numpy, used for dtypes and constants only

from engine import core, num
from engine.core import SInt, SBool, Unsupported, Undecided, path, ikey, \
    iz3, mkbool, band, bnot, product, merged_index, split_index
from engine.num import SNum, coerce, const_num

THIS = sys.modules[__name__]

# dtypes and scalar types are numpy's own
for _n in ("integer", "number", "floating", "complexfloating", "inexact",
           "float64", "float32", "complex128", "complex64", "int64", "int32",
           "int16", "int8", "uint8", "uint16", "uint32", "uint64", "bool_",
           "str_", "unicode_", "bytes_", "object_", "datetime64",
           "timedelta64", "generic", "iinfo", "finfo", "void", "character",
           "flexible", "float_", "complex_", "int_", "intp", "nditer",
           "VisibleDeprecationWarning", "ComplexWarning"):
    if hasattr(real, _n):
        setattr(THIS, _n, getattr(real, _n))
newaxis = None
pi = math.pi
e = math.e
inf = float("inf")
nan = float("nan")
__version__ = real.__version__
pyint = int
pyfloat = float


def realtype(t):
    """Undo the loader's stand-ins for builtin types."""
    return getattr(t, "_vp_real", t)


def dtype(d=None):
    if isinstance(d, real.dtype):
        return d
    if d is None:
        return real.dtype(pyfloat)
    return real.dtype(realtype(d))


def issubdtype(a, b):
    a = realtype(a)
    b = realtype(b)
    return real.issubdtype(a, b)


def issubclass_(a, b):
    return real.issubclass_(realtype(a), realtype(b))


# ------------------------------------------------------------------ helpers

def isz(i):
    return isinstance(i, SInt)


def known_eq(a, b):
    """True/False when syntactically or provably decided, else decided by
    forking."""
    if not isz(a) and not isz(b):
        return pyint(a) == pyint(b)
    if isz(a) and isz(b) and a.key() == b.key():
        return True
    return _truth(a == b)


def _truth(x):
    return True if x else False


def prov(cond):
    """Is cond entailed by the path condition (no fork)?"""
    if isinstance(cond, SBool):
        return path().entails(cond.e)
    return _truth(cond)


def scalar_dtype(x):
    if isinstance(x, SNum):
        return real.dtype(pyfloat) if x.isreal() else real.dtype(complex)
    if isinstance(x, SInt):
        return real.dtype(pyint)
    if isinstance(x, SBool):
        return real.dtype(bool)
    if isinstance(x, Spread):
        return x.arr._dt
    return real.asarray(x).dtype


def castv(v, dt):
    k = dt.kind
    if k in "fc":
        if isinstance(v, SBool):
            raise Unsupported("symbolic bool as number")
        if isinstance(v, real.str_) or isinstance(v, (str, bytes)):
            v = parse_float(v)
        c = coerce(v)
        if c is None:
            raise Unsupported("cast of %r to %s" % (type(v), dt))
        if k == "f" and not c.isreal():
            return c.real
        return c
    if k in "iu":
        if isinstance(v, (SInt, pyint)) and not isinstance(v, bool):
            return v
        if isinstance(v, bool):
            return pyint(v)
        if isinstance(v, SNum):
            return v
        if isinstance(v, (real.integer,)):
            return pyint(v)
        if isinstance(v, pyfloat) and v == pyint(v):
            return pyint(v)
        raise Unsupported("cast of %r to int" % (v,))
    if k == "b":
        if isinstance(v, (bool, SBool)):
            return v
        if isinstance(v, (SInt, SNum)):
            return v != 0
        return _truth(v)
    return v


def casting(f, a, dt):
    """Element function of a cast; a text that is no number raises now."""
    if a._dt.kind in "USO" and dt.kind in "fciu" and \
            all(isinstance(n, pyint) for n in a._shp):
        for i in itertools.product(*[range(n) for n in a._shp]):
            castv(f(i), dt)
    return lambda i: castv(f(i), dt)


def parse_float(s):
    if isinstance(s, bytes):
        s = s.decode()
    return pyfloat(s)


class Spread(object):
    """All elements, in order, of a one-dimensional symbolic array: the single
    item that a list or tuple built from such an array contains."""
    __slots__ = ("arr",)
    _is_spread = True

    def __init__(self, arr):
        self.arr = arr

    def size(self):
        return self.arr._shp[0]

    def __eq__(self, o):
        if self is o:
            return True
        if not isinstance(o, Spread):
            if o is None or isinstance(o, str):
                return False
            raise Unsupported("comparison of a symbolic sequence with %r"
                              % type(o))
        return seq_equal(self.arr, o.arr)

    def __ne__(self, o):
        return not (self == o)

    def __hash__(self):
        return 0

    def __lt__(self, o):
        raise Unsupported("order of symbolic sequences")
    __gt__ = __le__ = __ge__ = __lt__

    def __repr__(self):
        return "Spread(%r)" % (self.arr._shp[0],)


def spread_len(seq):
    n = 0
    for x in seq:
        if type(x) is Spread:
            n = n + x.size()
        else:
            n = n + 1
    return n


def generic_index(p, n):
    i = SInt.var("gen!seq")
    return i


def seq_equal(a, b):
    """Equality of two one-dimensional arrays as sequences (python bool)."""
    p = path()
    if not known_eq(a._shp[0], b._shp[0]):
        return False
    n = a._shp[0]
    if not isz(n):
        for i in range(pyint(n)):
            if not _truth(a._get((i,)) == b._get((i,))):
                return False
        return True
    key = ("seqeq", a._seqkey(), b._seqkey())
    if key[1] == key[2]:
        return True
    r = p.memo.get(key)
    if r is None:
        i = SInt.fresh("gen")
        with p.scope():
            p.add(z3.And(i.z3() >= 0, i.z3() < iz3(n)))
            try:
                x, y = a._get((i,)), b._get((i,))
                st, why = num.prove_eq(x, y)
            except Unsupported:
                st = "unknown"
        if st == "proved":
            r = True
        else:
            if p.binder:
                raise Unsupported("sequence equality under a binder")
            v = z3.Bool(p.fresh("seqeq"))
            if p.decide(v):
                p.imprecise = "assumed equality of two symbolic sequences"
                r = True
                if prov(n >= 1) and not _truth(OPS["eq"](a._get((0,)),
                                                         b._get((0,)))):
                    raise core.Infeasible()
            else:
                r = False
        p.memo[key] = p.memo[("seqeq", key[2], key[1])] = r
    return r


# ------------------------------------------------------------------ storage

class Storage(object):
    __slots__ = ("fn", "shape", "memo", "dt", "ro", "name")
    count = 0

    def __init__(self, shape, fn, dt):
        self.shape = tuple(shape)
        self.fn = memoized(fn)
        self.dt = dt
        self.ro = None


def memoized(fn):
    memo = {}

    def f(idx):
        k = tuple(map(ikey, idx))
        r = memo.get(k, memo)
        if r is memo:
            r = fn(idx)
            if not path().binder:
                memo[k] = r
        return r
    return f


class Stride(object):
    """Memory step of a view axis: combination of storage axis steps."""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = dict((k, v) for k, v in d.items() if v)

    def __add__(self, o):
        if not isinstance(o, Stride):
            if o == 0:
                return self
            raise Unsupported("stride arithmetic")
        d = dict(self.d)
        for k, v in o.d.items():
            d[k] = d.get(k, 0) + v
        return Stride(d)
    __radd__ = __add__

    def __eq__(self, o):
        return isinstance(o, Stride) and self.d == o.d

    def __hash__(self):
        return hash(tuple(sorted(self.d.items())))


CONST, AX = 0, 1


def identity_map(n):
    return tuple((AX, a, 0, 1) for a in range(n))


class ArrayType(type):
    pass


class ndarray(object, metaclass=ArrayType):
    __slots__ = ("_st", "_map", "_shp", "_dt", "_base", "__weakref__")
    __array_priority__ = 0.0

    def __new__(cls, shape, dtype=None, *k, **kw):
        return mkarray(shape, None, THIS.dtype(dtype), cls)

    def __init__(self, *k, **kw):
        pass

    # -- element access
    def _get(self, idx):
        return self._st.fn(map_index(self._map, idx))

    def _seqkey(self):
        return (id(self._st.fn), tuple(
            (m[0],) + tuple(map(ikey, m[1:])) for m in self._map),
            tuple(map(ikey, self._shp)))

    def _snapshot(self):
        fn, mp = self._st.fn, self._map
        return lambda idx: fn(map_index(mp, idx))

    # -- attributes
    @property
    def shape(self):
        return self._shp

    @shape.setter
    def shape(self, value):
        new = self.reshape_base(value)
        setf(self, new._st, new._map, new._shp, self._dt)

    @property
    def ndim(self):
        return len(self._shp)

    @property
    def size(self):
        return product(self._shp)

    @property
    def dtype(self):
        return self._dt

    @property
    def itemsize(self):
        return self._dt.itemsize

    @property
    def strides(self):
        out = []
        for a in range(len(self._shp)):
            d = {}
            for k, m in enumerate(self._map):
                if m[0] == AX and m[1] == a:
                    d[k] = m[3]
            out.append(Stride(d))
        return tuple(out)

    @property
    def base(self):
        return self._base

    @property
    def __array_interface__(self):
        return {"shape": self._shp, "strides": self.strides, "vparr": self,
                "data": (0, False), "version": 3}

    @property
    def flags(self):
        raise Unsupported("flags")

    @property
    def T(self):
        return self.transpose()

    @property
    def flat(self):
        return Flat(self)

    @property
    def real(self):
        if self._dt.kind == "c":
            f = self._snapshot()
            return wraplike(self, mkarray(self._shp, lambda i: f(i).real,
                                          fdt(self._dt), ro="real part"))
        return self.view() if False else wraplike(self, alias(self))

    @real.setter
    def real(self, v):
        if self._dt.kind != "c":
            write(self, v)
            return
        f = self._snapshot()
        g = bget(asarray(v), self._shp)
        broadcast_to_shape(asarray(v)._shp, self._shp)
        write(self, mkarray(self._shp, lambda i: coerce(g(i)) +
                            num.imag_unit() * f(i).imag, self._dt))

    @property
    def imag(self):
        f = self._snapshot()
        if self._dt.kind == "c":
            return wraplike(self, mkarray(self._shp, lambda i: f(i).imag,
                                          fdt(self._dt), ro="imag part"))
        return wraplike(self, zeros(self._shp, self._dt))

    @imag.setter
    def imag(self, v):
        if self._dt.kind != "c":
            raise TypeError("array does not have imaginary part to set")
        f = self._snapshot()
        g = bget(asarray(v), self._shp)
        broadcast_to_shape(asarray(v)._shp, self._shp)
        write(self, mkarray(self._shp, lambda i: f(i).real +
                            num.imag_unit() * coerce(g(i)), self._dt))

    # -- subclass protocol
    def __array_finalize__(self, obj):
        pass

    def __array_wrap__(self, arr, context=None):
        return wraplike(self, arr)

    def view(self, dtype=None, type=None):
        if isinstance(dtype, builtins_type) and issubclass(dtype, ndarray):
            dtype, type = None, dtype
        if dtype is not None and THIS.dtype(dtype) != self._dt:
            raise Unsupported("view with another dtype")
        cls = self.__class__ if type is None else type
        return astype_view(self, cls)

    # -- copying
    def copy(self, order="C"):
        f = self._snapshot()
        return wraplike(self, mkarray(self._shp, f, self._dt))

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, copy=True, **kw):
        dt = THIS.dtype(dt)
        return wraplike(self, mkarray(
            self._shp, casting(self._snapshot(), self, dt), dt))

    def tolist(self):
        if not self._shp:
            return self._get(())
        return nested(self, ())

    def item(self, *k):
        if k:
            return self[k if len(k) > 1 else k[0]]
        if self.size != 1:
            raise ValueError("can only convert an array of size 1")
        return self._get((0,) * self.ndim)

    def fill(self, v):
        ndarray.__setitem__(self, Ellipsis, v)

    # -- shape changes
    def transpose(self, *order, **kw):
        if kw:
            order = (kw.pop("axes"),)
        if len(order) == 1 and (order[0] is None or
                                isinstance(order[0], (tuple, list))):
            order = order[0] or ()
        n = self.ndim
        if not order:
            order = tuple(range(n))[::-1]
        order = [o.__index__() for o in order]
        order = [o + n if o < 0 else o for o in order]
        if sorted(order) != list(range(n)):
            raise ValueError("axes don't match array")
        pos = {o: a for a, o in enumerate(order)}
        mp = tuple((AX, pos[m[1]], m[2], m[3]) if m[0] == AX else m
                   for m in self._map)
        return wraplike(self, mkview(self, mp,
                                     tuple(self._shp[o] for o in order)))

    def swapaxes(self, a, b):
        o = list(range(self.ndim))
        o[a], o[b] = o[b], o[a]
        return ndarray.transpose(self, *o)

    def squeeze(self, axis=None):
        n = self.ndim
        if axis is None:
            drop = [a for a in range(n) if known_eq(self._shp[a], 1)]
        else:
            if not isinstance(axis, (tuple, list)):
                axis = (axis,)
            drop = []
            for a in axis:
                a = a.__index__()
                if a < -n or a >= n:
                    raise AxisError(a, n)
                a = a % n
                if not known_eq(self._shp[a], 1):
                    raise ValueError("cannot select an axis to squeeze out "
                                     "which has size not equal to one")
                drop.append(a)
            if len(set(drop)) != len(drop):
                raise ValueError("duplicate value in 'axis'")
        return wraplike(self, drop_axes(self, drop))

    def reshape(self, *shape, **kw):
        if kw.get("order", "C") not in ("C", None):
            raise Unsupported("reshape order")
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return wraplike(self, self.reshape_base(shape))

    def reshape_base(self, shape):
        if not isinstance(shape, (tuple, list)):
            shape = (shape,)
        return reshape_view(self, tuple(shape))

    def ravel(self, order="C"):
        return self.reshape((-1,), order=order)

    def flatten(self, order="C"):
        return self.copy().reshape((-1,), order=order)

    def repeat(self, n, axis=None):
        if axis is None:
            raise Unsupported("repeat without axis")
        if isinstance(n, ndarray):
            raise Unsupported("repeat with counts")
        axis = normaxis(axis, self.ndim)
        f = self._snapshot()
        size = self._shp[axis]
        if not isz(size) and pyint(size) == 1:
            g = lambda idx: f(idx[:axis] + (0,) + idx[axis + 1:])
        elif not isz(n):
            g = lambda idx: f(idx[:axis] + (idx[axis] // n,) + idx[axis + 1:])
        else:
            raise Unsupported("repeat of a symbolic axis")
        shp = self._shp[:axis] + (size * n,) + self._shp[axis + 1:]
        return wraplike(self, mkarray(shp, g, self._dt))

    def take(self, indices, axis=None, out=None, mode="raise"):
        if out is not None or mode != "raise":
            raise Unsupported("take out/mode")
        ind = asarray(indices)
        if ind._dt.kind not in "iu":
            raise TypeError("Cannot cast array data to int")
        a = self
        if axis is None:
            a = alias(self).reshape((-1,))
            axis = 0
        axis = normaxis(axis, a.ndim)
        f = a._snapshot()
        g = ind._snapshot()
        n = a._shp[axis]
        k = ind.ndim

        def fn(idx):
            j = toindex(g(idx[axis:axis + k]), n)
            return f(idx[:axis] + (j,) + idx[axis + k:])
        shp = a._shp[:axis] + ind._shp + a._shp[axis + 1:]
        check_range(ind, n)
        return wraplike(self, mkarray(shp, fn, self._dt))

    def conj(self):
        return ufunc1(self, lambda x: x.conj() if isinstance(x, SNum) else x,
                      self._dt)
    conjugate = conj

    # -- reductions
    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(self, axis, "sum", keepdims, out, dtype)

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(self, axis, "prod", keepdims, out, dtype)

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        return reduce_(self, axis, "mean", keepdims, out, dtype)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
            **kw):
        return reduce_(self, axis, "var", keepdims, out, dtype, ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False,
            **kw):
        return reduce_(self, axis, "std", keepdims, out, dtype, ddof)

    def min(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, axis, "min", keepdims, out)

    def max(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, axis, "max", keepdims, out)

    def any(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, axis, "any", keepdims, out)

    def all(self, axis=None, out=None, keepdims=False, **kw):
        return reduce_(self, axis, "all", keepdims, out)

    def argmin(self, *k, **kw):
        raise Unsupported("argmin")
    argmax = argmin

    def cumsum(self, axis=None, dtype=None, out=None):
        return cumulative(self, axis, "sum", out, dtype)

    def cumprod(self, axis=None, dtype=None, out=None):
        return cumulative(self, axis, "prod", out, dtype)

    def dot(self, o):
        return dot(self, o)

    def argsort(self, axis=-1, kind=None, order=None):
        return argsort(self, axis, kind)

    def sort(self, *k, **kw):
        raise Unsupported("in-place sort")

    def nonzero(self):
        raise Unsupported("nonzero")

    def tobytes(self, *k):
        raise Unsupported("tobytes")

    def round(self, *k):
        raise Unsupported("round")

    # -- indexing
    def __getitem__(self, idx):
        return getitem(self, idx)

    def __setitem__(self, idx, value):
        setitem(self, idx, value)

    def __len__(self):
        if not self._shp:
            raise TypeError("len() of unsized object")
        n = self._shp[0]
        if isz(n):
            raise Unsupported("len() of a symbolic axis")
        return pyint(n)

    def _symlen(self):
        if not self._shp:
            raise TypeError("len() of unsized object")
        return self._shp[0]

    def __iter__(self):
        if not self._shp:
            raise TypeError("iteration over a 0-d array")
        n = self._shp[0]
        if isz(n):
            if self.ndim == 1 and called_outside_loop():
                return iter([Spread(alias(self))])
            e = Unsupported("iteration over a symbolic axis")
            e.sizes = [t for t, _ in n.terms]
            raise e
        return iter([self[i] for i in range(pyint(n))])

    def __contains__(self, x):
        return _truth((self == x).any())

    # -- truth / conversion
    def __bool__(self):
        n = self.size
        if not known_eq(n, 1):
            if known_eq(n, 0):
                return False
            raise ValueError("The truth value of an array with more than one "
                             "element is ambiguous.")
        return _truth(self._get((0,) * self.ndim))

    def __float__(self):
        if self.size != 1:
            raise TypeError("only size-1 arrays can be converted")
        return self._get((0,) * self.ndim).__float__()

    def _vp_scalar(self):
        if not known_eq(self.size, 1):
            raise TypeError("only size-1 arrays can be converted to Python "
                            "scalars")
        return self._get((0,) * self.ndim)

    def __int__(self):
        return self._vp_scalar().__int__()

    def __complex__(self):
        return self._vp_scalar().__complex__()

    def __index__(self):
        if self._shp == () and self._dt.kind in "iu":
            return self._get(()).__index__()
        raise TypeError("only integer scalar arrays can be converted to a "
                        "scalar index")

    def __repr__(self):
        return "symarray(%r, %s)" % (self._shp, self._dt)

    def __format__(self, spec):
        raise Unsupported("formatting of an array")

    __hash__ = None

    # -- arithmetic
    def __add__(self, o):
        return binop(self, o, "add")

    def __radd__(self, o):
        return binop(o, self, "add")

    def __sub__(self, o):
        return binop(self, o, "sub")

    def __rsub__(self, o):
        return binop(o, self, "sub")

    def __mul__(self, o):
        return binop(self, o, "mul")

    def __rmul__(self, o):
        return binop(o, self, "mul")

    def __truediv__(self, o):
        return binop(self, o, "div")

    def __rtruediv__(self, o):
        return binop(o, self, "div")

    def __floordiv__(self, o):
        return binop(self, o, "floordiv")

    def __rfloordiv__(self, o):
        return binop(o, self, "floordiv")

    def __mod__(self, o):
        return binop(self, o, "mod")

    def __rmod__(self, o):
        return binop(o, self, "mod")

    def __pow__(self, o, m=None):
        return binop(self, o, "pow")

    def __rpow__(self, o):
        return binop(o, self, "pow")

    def __and__(self, o):
        return binop(self, o, "and")

    def __rand__(self, o):
        return binop(o, self, "and")

    def __or__(self, o):
        return binop(self, o, "or")

    def __ror__(self, o):
        return binop(o, self, "or")

    def __xor__(self, o):
        return binop(self, o, "xor")

    def __rxor__(self, o):
        return binop(o, self, "xor")

    def __eq__(self, o):
        return binop(self, o, "eq")

    def __ne__(self, o):
        return binop(self, o, "ne")

    def __lt__(self, o):
        return binop(self, o, "lt")

    def __le__(self, o):
        return binop(self, o, "le")

    def __gt__(self, o):
        return binop(self, o, "gt")

    def __ge__(self, o):
        return binop(self, o, "ge")

    def __neg__(self):
        return ufunc1(self, lambda x: -x, self._dt)

    def __pos__(self):
        return ufunc1(self, lambda x: x, self._dt)

    def __abs__(self):
        return ufunc1(self, abs, fdt(self._dt) if self._dt.kind == "c"
                      else self._dt)

    def __invert__(self):
        if self._dt.kind != "b":
            raise Unsupported("bitwise invert of integers")
        return ufunc1(self, bnot, self._dt)

    def __matmul__(self, o):
        return matmul(self, o)

    def _inplace(self, o, op):
        r = binop(astype_view(self, ndarray), o, op)
        r = asarray(r)
        if not all(prov(a == b) if isz(a) or isz(b) else a == b
                   for a, b in zip(r._shp, self._shp)) or \
                len(r._shp) != len(self._shp):
            raise ValueError("non-broadcastable output operand")
        write(self, r)
        return self

    def __iadd__(self, o):
        return self._inplace(o, "add")

    def __isub__(self, o):
        return self._inplace(o, "sub")

    def __imul__(self, o):
        return self._inplace(o, "mul")

    def __itruediv__(self, o):
        return self._inplace(o, "div")

    def __ior__(self, o):
        return self._inplace(o, "or")

    def __iand__(self, o):
        return self._inplace(o, "and")

    def __getattr__(self, name):
        if name.startswith("__") or name in ("dims", "unit", "outputformat",
                                             "Z0", "_dims", "tostring"):
            raise AttributeError(name)
        if hasattr(real.ndarray, name):
            raise Unsupported("ndarray.%s" % name)
        raise AttributeError("'ndarray' object has no attribute %r" % name)


builtins_type = type


class AxisError(ValueError, IndexError):
    def __init__(self, a, n):
        ValueError.__init__(self, "axis %s is out of bounds for array of "
                            "dimension %s" % (a, n))


matrix = ndarray


def called_outside_loop():
    """False when __iter__ was reached from a for statement/comprehension."""
    f = sys._getframe(2)
    code = f.f_code.co_code
    import dis
    op = dis.opname[code[f.f_lasti]]
    return op != "GET_ITER"


LOOPS = {}


def only_names_elements(frame):
    """Frame condition of the loop the frame is about to enter: it writes
    nothing but local names and self._attrfuns (the element names a matrix
    answers to) and calls nothing but functions building those.  Such a loop
    over an axis that is no matrix axis has no effect on values, dimensions
    or units, and is left out."""
    import ast
    code = frame.f_code
    key = (code.co_filename, frame.f_lineno)
    if key in LOOPS:
        return LOOPS[key]
    ok = False
    try:
        import tokenize
        with tokenize.open(code.co_filename) as f:
            tree = ast.parse(f.read())
        loops = [n for n in ast.walk(tree) if isinstance(n, ast.For) and
                 n.iter.lineno <= frame.f_lineno <= n.iter.end_lineno]
        pure = set(n.name for n in tree.body if isinstance(
            n, ast.FunctionDef) and not any(isinstance(
                x, (ast.Subscript, ast.Attribute)) and isinstance(
                    x.ctx, (ast.Store, ast.Del)) or isinstance(
                        x, (ast.Global, ast.Nonlocal))
                for y in n.body for x in ast.walk(y)
                if not (isinstance(x, ast.Attribute) and
                        x.attr == "__doc__")))
        pure |= {"range", "len", "str", "make_accessor"}
        stored = []
        if len(loops) == 1:
            ok = True
            for n in ast.walk(loops[0]):
                if isinstance(n, (ast.Raise, ast.Return, ast.Break, ast.With,
                                  ast.Delete, ast.AugAssign, ast.Try,
                                  ast.Yield, ast.Global, ast.Nonlocal,
                                  ast.NamedExpr)):
                    ok = False
                elif isinstance(n, ast.Call):
                    ok = ok and (isinstance(n.func, ast.Name) and
                                 n.func.id in pure or
                                 isinstance(n.func, ast.Attribute) and
                                 n.func.attr in ("ndindex", "product"))
                elif isinstance(n, ast.Attribute):
                    ok = ok and isinstance(n.ctx, ast.Load)
                elif isinstance(n, ast.Subscript) and isinstance(
                        n.ctx, ast.Store):
                    ok = ok and isinstance(n.value, ast.Attribute) and \
                        n.value.attr == "_attrfuns"
                elif isinstance(n, ast.Name) and isinstance(
                        n.ctx, ast.Store):
                    stored.append(n.id)
            fun = [n for n in ast.walk(tree) if isinstance(
                n, ast.FunctionDef) and n.lineno <= frame.f_lineno <=
                n.end_lineno]
            fun = max(fun, key=lambda n: n.lineno)
            for n in ast.walk(fun):     # the locals are not used afterwards
                if isinstance(n, ast.Name) and isinstance(
                        n.ctx, ast.Load) and n.id in stored and \
                        n.lineno > loops[0].end_lineno:
                    ok = False
    except Exception:
        ok = False
    LOOPS[key] = ok
    return ok


class SymRange(object):
    def __init__(self, n, start=0):
        self.n = n
        self.start = start

    def _arr(self):
        s = self.start
        return mkarray((self.n,), lambda i: i[0] + s, real.dtype(pyint))

    def __iter__(self):
        if not called_outside_loop():
            if only_names_elements(sys._getframe(1)):
                return iter(())
            e = Unsupported("loop over a symbolic range")
            e.sizes = [t for t, _ in self.n.terms] \
                if isinstance(self.n, SInt) else []
            raise e
        return iter([Spread(self._arr())])

    def _symlen(self):
        return self.n

    def __getitem__(self, i):
        if isinstance(i, slice):
            raise Unsupported("slice of a symbolic range")
        return self._arr()[i]

    def __eq__(self, o):
        if isinstance(o, SymRange):
            return _truth(self.n == o.n) and _truth(self.start == o.start)
        return NotImplemented

    __hash__ = None


def sym_range(*k):
    if any(isinstance(x, (SInt, ndarray)) for x in k):
        k = [x._get(()) if isinstance(x, ndarray) else x for x in k]
        if len(k) == 1:
            n = k[0]
            return SymRange(n if _truth(n >= 0) else 0) if isz(n) \
                else range(n)
        if len(k) == 2:
            n = k[1] - k[0]
            return SymRange(n if _truth(n >= 0) else 0, k[0])
        raise Unsupported("range with step over symbolic bounds")
    return range(*k)


class Flat(object):
    def __init__(self, a):
        self.a = a

    def __getitem__(self, k):
        a = self.a
        if isinstance(k, slice):
            return asarray(a).reshape((-1,))[k]
        return a._get(split_index(k, a._shp)) if a._shp else a._get(())

    def __setitem__(self, k, v):
        raise Unsupported("assignment through .flat")

    def __iter__(self):
        a = self.a
        n = a.size
        if isz(n):
            if called_outside_loop():
                return iter([Spread(asarray(a).reshape((-1,)))])
            raise Unsupported("iteration over a symbolic array")
        return iter([a._get(split_index(k, a._shp)) if a._shp else a._get(())
                     for k in range(n)])

    def _symlen(self):
        return self.a.size


def fdt(dt):
    if dt.kind == "c":
        return real.dtype("f%d" % (dt.itemsize // 2))
    return dt


def setf(a, st, mp, shp, dt):
    s = object.__setattr__
    s(a, "_st", st)
    s(a, "_map", mp)
    s(a, "_shp", tuple(pyint(x) if not isz(x) else x for x in shp))
    s(a, "_dt", dt)


def raw(cls, st, mp, shp, dt, base=None):
    a = object.__new__(cls)
    setf(a, st, mp, shp, dt)
    object.__setattr__(a, "_base", base)
    return a


def normshape(shape):
    if isinstance(shape, ndarray):
        shape = shape.tolist()
    if isinstance(shape, (tuple, list)):
        out = []
        for s in shape:
            if isinstance(s, SNum):
                s = s.__index__()
            if type(s) is Spread:
                raise Unsupported("shape of symbolic rank")
            out.append(s if isz(s) else s.__index__())
        return tuple(out)
    return (shape if isz(shape) else shape.__index__(),)


def mkarray(shape, fn, dt, cls=None, ro=None):
    shape = normshape(shape)
    if fn is None:
        fn = undefined
    st = Storage(shape, fn, dt)
    st.ro = ro
    a = raw(ndarray, st, identity_map(len(shape)), shape, dt)
    if cls is not None and cls is not ndarray:
        return astype_view(a, cls)
    return a


def undefined(idx):
    raise Unsupported("read of uninitialised memory")


def map_index(mp, idx):
    out = []
    for m in mp:
        if m[0] == CONST:
            out.append(m[1])
        else:
            i = idx[m[1]]
            if m[3] != 1:
                i = i * m[3]
            if isz(m[2]) or m[2]:
                i = i + m[2]
            out.append(i)
    return tuple(out)


def mkview(a, mp, shp):
    return raw(ndarray, a._st, mp, shp, a._dt, a)


def alias(a):
    return raw(ndarray, a._st, a._map, a._shp, a._dt, a)


def astype_view(a, cls):
    r = raw(cls, a._st, a._map, a._shp, a._dt, a)
    if cls is not ndarray:
        r.__array_finalize__(a)
    return r


def wraplike(template, base):
    """base (a plain ndarray) as an instance of template's class."""
    cls = template.__class__
    if cls is ndarray:
        return base
    r = raw(cls, base._st, base._map, base._shp, base._dt, base)
    r.__array_finalize__(template)
    return r


def drop_axes(a, drop):
    keep = [x for x in range(a.ndim) if x not in drop]
    pos = {o: n for n, o in enumerate(keep)}
    mp = []
    for m in a._map:
        if m[0] == AX and m[1] in drop:
            mp.append((CONST, m[2]))
        elif m[0] == AX:
            mp.append((AX, pos[m[1]], m[2], m[3]))
        else:
            mp.append(m)
    return mkview(a, tuple(mp), tuple(a._shp[k] for k in keep))


def insert_axis(a, pos):
    mp = tuple((AX, m[1] + (m[1] >= pos), m[2], m[3]) if m[0] == AX else m
               for m in a._map)
    return mkview(a, mp, a._shp[:pos] + (1,) + a._shp[pos:])


def normaxis(axis, n):
    axis = axis.__index__()
    if axis < -n or axis >= n:
        raise AxisError(axis, n)
    return axis % n if n else axis


def nested(a, pre):
    d = len(pre)
    n = a._shp[d]
    if isz(n):
        if d == a.ndim - 1:
            shp = (n,)
            f = a._snapshot()
            return [Spread(mkarray(shp, lambda i: f(pre + i), a._dt))]
        raise Unsupported("tolist of a symbolic axis")
    if d == a.ndim - 1:
        return [a._get(pre + (i,)) for i in range(n)]
    return [nested(a, pre + (i,)) for i in range(n)]


# ------------------------------------------------------------------ reshape

def reshape_view(a, shape):
    shape = list(shape)
    old = list(a._shp)
    if any((not isz(s)) and s == -1 for s in shape):
        k = [i for i, s in enumerate(shape) if not isz(s) and s == -1]
        if len(k) > 1:
            raise ValueError("can only specify one unknown dimension")
        rest = [s for i, s in enumerate(shape) if i != k[0]]
        shape[k[0]] = divide_sizes(old, rest)
    shape = [s if isz(s) else s.__index__() for s in shape]
    # only unit axes added or removed: still a strided view
    o1 = [x for x in range(len(old)) if isz(old[x]) or old[x] != 1]
    n1 = [x for x in range(len(shape)) if isz(shape[x]) or shape[x] != 1]
    if len(o1) == len(n1) and all(
            ikey(old[x]) == ikey(shape[y]) for x, y in zip(o1, n1)):
        b = drop_axes(a, [x for x in range(len(old)) if x not in o1])
        mp = tuple((AX, n1[m[1]], m[2], m[3]) if m[0] == AX else m
                   for m in b._map)
        return mkview(a, mp, tuple(shape))
    groups = match_groups(old, shape)
    f = a._snapshot()

    def fn(idx):
        src = [0] * len(old)
        for og, ng in groups:
            osz = [old[i] for i in og]
            nsz = [shape[i] for i in ng]
            nix = [idx[i] for i in ng]
            if not og:
                continue
            if not ng:
                continue
            if len(ng) == 1:
                k = nix[0]
            else:
                k = merged_index(nix, nsz)
            for i, c in zip(og, split_index(k, osz)):
                src[i] = c
        return f(tuple(src))
    return mkarray(shape, fn, a._dt, ro="reshaped copy/view")


def divide_sizes(num_, den):
    n = [x for x in num_]
    c = 1
    for d in den:
        if isz(d):
            for i, x in enumerate(n):
                if isz(x) and x.key() == d.key():
                    del n[i]
                    break
            else:
                raise Unsupported("reshape(-1) of symbolic sizes")
        else:
            c *= pyint(d)
    r = product(n)
    if c == 1:
        return r
    if isz(r):
        q, m = r._divmod(c)
        if not prov(m == 0):
            raise Unsupported("reshape(-1) divisibility")
        return q
    if c == 0 or r % c:
        raise ValueError("cannot reshape")
    return r // c


def same_product(a, b):
    pa, pb = product(a), product(b)
    return ikey(pa) == ikey(pb) or ((isz(pa) or isz(pb)) and
                                    prov(pa == pb)) 


def match_groups(old, new):
    """Partition both shapes into groups with equal products."""
    groups = []
    i = j = 0
    while i < len(old) or j < len(new):
        if i < len(old) and not isz(old[i]) and old[i] == 1:
            groups.append(([i], []))
            i += 1
            continue
        if j < len(new) and not isz(new[j]) and new[j] == 1:
            groups.append(([], [j]))
            j += 1
            continue
        done = False
        for a in range(1, len(old) - i + 1):
            for b in range(1, len(new) - j + 1):
                if same_product(old[i:i + a], new[j:j + b]):
                    groups.append((list(range(i, i + a)),
                                   list(range(j, j + b))))
                    i += a
                    j += b
                    done = True
                    break
            if done:
                break
        if not done:
            po, pn = product(old[i:]), product(new[j:])
            if not isz(po) and not isz(pn):
                raise ValueError("cannot reshape array of size %s into shape"
                                 " %s" % (po, tuple(new)))
            raise Unsupported("reshape %r -> %r" % (old, new))
    return groups


# ----------------------------------------------------------------- indexing

def norm_slice(s, n):
    """(start, step, length) of slice s on an axis of size n."""
    step = 1 if s.step is None else s.step
    if isz(step):
        raise Unsupported("symbolic slice step")
    step = step.__index__()
    if step == 0:
        raise ValueError("slice step cannot be zero")
    start, stop = toint(s.start), toint(s.stop)
    if not isz(n) and not isz(start) and not isz(stop):
        a, b, c = slice(start, stop, step).indices(n)
        ln = len(range(a, b, c))
        return a, c, ln

    def clip(v, lo, hi):
        if _truth(v < lo):
            return lo
        if _truth(v > hi):
            return hi
        return v
    if step > 0:
        if start is None:
            a = 0
        else:
            if _truth(start < 0):
                start = start + n
            a = clip(start, 0, n)
        if stop is None:
            b = n
        else:
            if _truth(stop < 0):
                stop = stop + n
            b = clip(stop, 0, n)
        if _truth(b <= a):
            return a, step, 0
        ln = b - a if step == 1 else (b - a + (step - 1)) // step
        return a, step, ln
    if start is None:
        a = n - 1
    else:
        if _truth(start < 0):
            start = start + n
        a = clip(start, -1, n - 1)
    if stop is None:
        b = -1
    else:
        if _truth(stop < 0):
            stop = stop + n
        b = clip(stop, -1, n - 1)
    if _truth(a <= b):
        return a, step, 0
    st = -step
    ln = a - b if st == 1 else (a - b + (st - 1)) // st
    return a, step, ln


def toint(x):
    if x is None or isinstance(x, SInt):
        return x
    if isinstance(x, ndarray) and x._shp == ():
        return toint(x._get(()))
    return x.__index__()


def toindex(v, n):
    """An element of an integer array as an index into an axis of size n."""
    if isinstance(v, SNum):
        c = v.const()
        if c is not None and c.denominator == 1:
            v = pyint(c)
        elif len(v.num) >= 1 and not v.den and all(
                c.denominator == 1 if isinstance(c, Fraction) else True
                for c in v.num.values()):
            r = 0
            for m, c in v.num.items():
                mono = num.T.mono(m)
                if not mono:
                    r = r + pyint(c)
                elif len(mono) == 1 and mono[0][1] == 1 and \
                        num.T.atoms[mono[0][0]].kind == "int":
                    r = r + SInt.var(num.T.atoms[mono[0][0]].name) * pyint(c)
                else:
                    raise Unsupported("symbolic number as index")
            v = r
        else:
            raise Unsupported("symbolic number as index")
    if not isz(v):
        v = v.__index__()
    if isz(v) or isz(n):
        if prov(v >= 0):
            return v
        if path().binder:
            raise Unsupported("index sign under a binder")
        return v if _truth(v >= 0) else v + n
    return v if v >= 0 else v + n


def check_range(ind, n):
    if not any(isz(s) for s in ind._shp) and not isz(n):
        for ix in itertools.product(*[range(s) for s in ind._shp]):
            v = ind._get(ix)
            if isinstance(v, pyint) and not (-n <= v < n):
                raise IndexError("index %s is out of bounds" % v)


class Mask(object):
    pass


def expand_index(a, idx):
    if not isinstance(idx, tuple):
        idx = (idx,)
    out = []
    nell = 0
    used = 0
    for x in idx:
        if x is Ellipsis:
            nell += 1
        elif x is None:
            pass
        elif isinstance(x, ndarray) and x._dt.kind == "b":
            used += x.ndim
        elif isinstance(x, (bool,)):
            raise Unsupported("boolean scalar index")
        else:
            used += 1
    if nell > 1:
        raise IndexError("an index can only have a single ellipsis ('...')")
    if used > a.ndim:
        raise IndexError("too many indices for array")
    fill = [slice(None)] * (a.ndim - used)
    for x in idx:
        if x is Ellipsis:
            out.extend(fill)
        else:
            out.append(x)
    if not nell:
        out.extend(fill)
    return out, nell


def isbasic(x):
    if isinstance(x, (slice, pyint, SInt, real.integer)) or x is None:
        return not isinstance(x, bool)
    if isinstance(x, ndarray):
        return x._shp == () and x._dt.kind in "iu"
    if isinstance(x, SNum):
        return x.const() is not None and x.const().denominator == 1
    return False


def basic_view(a, parts):
    """View for slices/ints/newaxis, one part per axis."""
    shp = []
    axmap = {}
    ax = 0
    n = 0
    for x in parts:
        if x is None:
            shp.append(1)
            n += 1
            continue
        size = a._shp[ax]
        if isinstance(x, slice):
            st, step, ln = norm_slice(x, size)
            axmap[ax] = (AX, n, st, step)
            shp.append(ln)
            n += 1
        else:
            i = toint(x) if not isinstance(x, SNum) else x.__index__()
            if isz(i) or isz(size):
                if _truth(i < 0):
                    i = i + size
                if not _truth(band(i >= 0, i < size)):
                    raise IndexError("index %s is out of bounds for axis %d"
                                     % (i, ax))
            else:
                if not -size <= i < size:
                    raise IndexError("index %d is out of bounds for axis %d "
                                     "with size %d" % (i, ax, size))
                i = i % size
            axmap[ax] = (CONST, i)
        ax += 1
    mp = []
    for m in a._map:
        if m[0] == CONST:
            mp.append(m)
            continue
        q = axmap[m[1]]
        if q[0] == CONST:
            mp.append((CONST, m[2] + q[1] * m[3] if m[3] != 1
                       else m[2] + q[1]))
        else:
            mp.append((AX, q[1], m[2] + q[2] * m[3], m[3] * q[3]))
    return mkview(a, tuple(mp), tuple(shp))


def getitem(a, idx):
    if isinstance(idx, str):
        raise IndexError("only integers, slices (`:`), ellipsis (`...`), "
                         "numpy.newaxis (`None`) and integer or boolean "
                         "arrays are valid indices")
    parts, nell = expand_index(a, idx)
    if all(isbasic(x) for x in parts):
        v = basic_view(a, parts)
        if v._shp == () and not nell and not (
                not isinstance(idx, tuple) and isinstance(idx, slice)) and \
                not any(isinstance(x, slice) or x is None for x in parts):
            return element(v._get(()))
        return wraplike(a, v)
    return wraplike(a, fancy(a, parts))


def element(v):
    return v


def selection(mask):
    """Number of selected positions and the index function of a mask."""
    p = path()
    sizes = mask._shp
    if not any(isz(s) for s in sizes):
        hits = [ix for ix in itertools.product(*[range(s) for s in sizes])
                if _truth(mask._get(ix))]
        return len(hits), (lambda j: hits[j] if not isz(j) else
                           symbolic_pick(hits, j))
    sels = p.memo.setdefault("selections", [])
    for m2, n, fn in sels:
        if tuple(map(ikey, m2._shp)) != tuple(map(ikey, sizes)):
            continue
        if masks_equal(mask, m2):
            return n, fn
    if p.binder:
        raise Unsupported("mask selection under a binder")
    name = p.fresh("sel")
    n = SInt.var(name + "#")
    tot = product(sizes)
    p.add(n.z3() >= 0)
    p.add(n.z3() <= iz3(tot))
    fns = [z3.Function("%s.%d" % (name, a), z3.IntSort(), z3.IntSort())
           for a in range(len(sizes))]
    frozen = mkarray(sizes, mask._snapshot(), mask._dt)

    def fn(j):
        key = ("selidx", name, ikey(j))
        r = p.memo.get(key)
        if r is None:
            out = []
            for a, s in enumerate(sizes):
                v = core.depvar("%s.%d[%r]" % (name, a, j),
                                (lambda a: lambda x: fn(x)[a])(a), (j,))
                e_ = fns[a](iz3(j))
                p.add(v.z3() == e_)
                p.add(z3.Implies(z3.And(iz3(j) >= 0, iz3(j) < n.z3()),
                                 z3.And(e_ >= 0, e_ < iz3(s))))
                out.append(v)
            r = tuple(out)
            if not p.binder:
                p.memo[key] = r
                try:
                    mv = frozen._get(r)
                    if isinstance(mv, SBool):
                        p.add(z3.Implies(z3.And(iz3(j) >= 0,
                                                iz3(j) < n.z3()), mv.e))
                except (Unsupported, Undecided):
                    pass
        return r
    sels.append((frozen, n, fn))
    return n, fn


def symbolic_pick(hits, j):
    for k, h in enumerate(hits):
        if _truth(j == k):
            return h
    raise IndexError("selection index")


def masks_equal(a, b):
    p = path()
    if a._seqkey() == b._seqkey():
        return True
    ix = tuple(SInt.fresh("gen") for _ in a._shp)
    with p.scope():
        try:
            for i, s in zip(ix, a._shp):
                p.add(z3.And(i.z3() >= 0, i.z3() < iz3(s)))
            x, y = core.tobool(a._get(ix)), core.tobool(b._get(ix))
            return p.check(x != y) == z3.unsat
        except Unsupported:
            return False


def fancy(a, parts):
    arrs = []
    axes = []
    ax = 0
    pos = 0
    spec = []          # per axis of a: ('s', view axis...) later
    outpos = None
    contiguous = True
    last = None
    simple = []
    for x in parts:
        if x is None:
            raise Unsupported("newaxis with array index")
        if isinstance(x, slice):
            simple.append(("s", ax, x))
            ax += 1
            continue
        if isinstance(x, range):
            x = list(x)
        if isinstance(x, (list, tuple)):
            x = asarray(x) if len(x) else mkarray((0,), None,
                                                  real.dtype(pyint))
        if isbasic(x) and not isinstance(x, ndarray):
            x = asarray(x)
        if not isinstance(x, ndarray):
            raise Unsupported("index of type %r" % type(x))
        if x._dt.kind == "b":
            if x.ndim == 0:
                raise Unsupported("0-d boolean index")
            for k in range(x.ndim):
                if not known_eq(a._shp[ax + k], x._shp[k]):
                    raise IndexError("boolean index did not match indexed "
                                     "array")
            n, fn = selection(x)
            for k in range(x.ndim):
                arrs.append((ax + k, mkarray(
                    (n,), (lambda fn, k: lambda i: fn(i[0])[k])(fn, k),
                    real.dtype(pyint))))
                simple.append(("f", ax + k, None))
            ax += x.ndim
        elif x._dt.kind in "iu":
            check_range(x, a._shp[ax])
            arrs.append((ax, x))
            simple.append(("f", ax, None))
            ax += 1
        else:
            raise IndexError("arrays used as indices must be of integer (or "
                             "boolean) type")
    fpos = [i for i, s in enumerate(simple) if s[0] == "f"]
    contiguous = fpos == list(range(fpos[0], fpos[-1] + 1))
    bshape = broadcast_shape([x._shp for _, x in arrs])
    nb = len(bshape)
    pre = [s for s in simple[:fpos[0]]] if contiguous else []
    post = [s for s in simple[fpos[-1] + 1:]] if contiguous else \
        [s for s in simple if s[0] == "s"]
    shp = []
    maps = {}
    n = 0
    for s in pre:
        st, step, ln = norm_slice(s[2], a._shp[s[1]])
        maps[s[1]] = (n, st, step)
        shp.append(ln)
        n += 1
    bpos = n
    shp.extend(bshape)
    n += nb
    for s in post:
        st, step, ln = norm_slice(s[2], a._shp[s[1]])
        maps[s[1]] = (n, st, step)
        shp.append(ln)
        n += 1
    f = a._snapshot()
    fa = [(k, bget(x, bshape), a._shp[k]) for k, x in arrs]

    def fn(idx):
        src = [None] * a.ndim
        for k, (m, st, step) in maps.items():
            src[k] = idx[m] * step + st if step != 1 else idx[m] + st
        b = idx[bpos:bpos + nb]
        for k, g, size in fa:
            src[k] = toindex(g(b), size)
        return f(tuple(src))
    return mkarray(shp, fn, a._dt)


def setitem(a, idx, value):
    if isinstance(idx, (bool, SBool)) or (isinstance(idx, ndarray) and
                                          idx._dt.kind == "b" and
                                          idx.ndim == 0):
        m = idx._get(()) if isinstance(idx, ndarray) else idx
        if _truth(m):
            write(a, value)
        return
    parts, _ = expand_index(a, idx)
    if all(isbasic(x) for x in parts):
        v = basic_view(a, parts)
        write(v, value)
        return
    arrs = [x for x in parts if not isinstance(x, slice)]
    if len(arrs) == 1 and isinstance(arrs[0], ndarray) and \
            arrs[0]._dt.kind == "b":
        k = [i for i, x in enumerate(parts) if x is arrs[0]][0]
        m = arrs[0]
        for j in range(m.ndim):
            if not known_eq(a._shp[k + j], m._shp[j]):
                raise IndexError("boolean index did not match indexed array")
        if all(p == slice(None) for i, p in enumerate(parts) if i != k):
            mf = m._snapshot()
            if isinstance(value, ndarray) and value._shp != ():
                raise Unsupported("masked assignment of an array")
            val = value._get(()) if isinstance(value, ndarray) else value
            old = a._snapshot()
            val = castv(val, a._dt)
            new = mkarray(a._shp, lambda ix: val
                          if _truth(mf(ix[k:k + m.ndim])) else old(ix), a._dt)
            write(a, new)
            return
    if len(arrs) == 1 and isinstance(arrs[0], (ndarray, list)):
        k = [i for i, x in enumerate(parts) if x is arrs[0]][0]
        m = asarray(arrs[0])
        if m._dt.kind in "iu" and m.ndim == 1 and not isz(m._shp[0]):
            val = asarray(value)
            for j in range(m._shp[0]):
                q = list(parts)
                q[k] = m._get((j,))
                tgt = basic_view(a, q)
                if val.ndim > k:
                    vv = val[(slice(None),) * (val.ndim - (a.ndim - k))
                             + (j,)] if True else None
                else:
                    vv = val
                write(tgt, vv)
            return
    raise Unsupported("assignment through an array index")


def write(v, value):
    """Assign value (broadcast) to every element of the view v."""
    st = v._st
    if st.ro:
        raise Unsupported("write through a %s" % st.ro)
    val = asarray(value)
    bs = broadcast_to_shape(val._shp, v._shp)
    g = bget(val, v._shp)
    dt = st.dt
    mp = v._map
    shp = v._shp
    old = st.fn
    naxes = len(shp)
    full = all(m[0] == AX and m[2] == 0 and m[3] == 1 and
               not isz(m[2]) for m in mp) and \
        len(set(m[1] for m in mp)) == len(mp) and \
        all(ikey(shp[m[1]]) == ikey(st.shape[k]) for k, m in enumerate(mp))

    def new(s):
        idx = [0] * naxes
        seen = set()
        if not full:
            for k, m in enumerate(mp):
                if m[0] == CONST:
                    if not _eqi(s[k], m[1]):
                        return old(s)
        for k, m in enumerate(mp):
            if m[0] != AX:
                continue
            d = s[k] - m[2]
            step = m[3]
            if step == 1:
                i = d
            elif step == -1:
                i = -d
            else:
                if step < 0:
                    d, step = -d, -step
                i, r = divmod(d, step)
                if not _eqi(r, 0):
                    return old(s)
            if m[1] in seen:
                if not _eqi(idx[m[1]], i):
                    return old(s)
            else:
                if not full and not (
                        not isz(m[2]) and m[2] == 0 and step == 1 and
                        ikey(shp[m[1]]) == ikey(st.shape[k])):
                    if not _truth(band(i >= 0, i < shp[m[1]])):
                        return old(s)
                idx[m[1]] = i
                seen.add(m[1])
        return castv(g(tuple(idx)), dt)
    st.fn = memoized(new)


def _eqi(a, b):
    if isz(a) or isz(b):
        return _truth(a == b)
    return a == b


# ------------------------------------------------------------- broadcasting

def broadcast_size(a, b):
    if not isz(a) and a == 1:
        return b
    if not isz(b) and b == 1:
        return a
    if ikey(a) == ikey(b):
        return a
    if _truth(a == b):
        return b if isz(a) and not isz(b) else a
    if _truth(a == 1):
        return b
    if _truth(b == 1):
        return a
    raise ValueError("operands could not be broadcast together")


def broadcast_shape(shapes):
    n = max([len(s) for s in shapes] + [0])
    out = []
    for k in range(n):
        size = 1
        for s in shapes:
            j = k - (n - len(s))
            if j >= 0:
                size = broadcast_size(size, s[j])
        out.append(size)
    return tuple(out)


def broadcast_to_shape(shp, target):
    if len(shp) > len(target):
        extra = shp[:len(shp) - len(target)]
        for e_ in extra:
            if not known_eq(e_, 1):
                raise ValueError("could not broadcast input array from shape "
                                 "%r into shape %r" % (shp, target))
        shp = shp[len(extra):]
    off = len(target) - len(shp)
    for k, s in enumerate(shp):
        t = target[k + off]
        if not isz(s) and s == 1:
            continue
        if ikey(s) == ikey(t):
            continue
        if not _truth(s == t):
            if not _truth(s == 1):
                raise ValueError("could not broadcast input array from shape "
                                 "%r into shape %r" % (shp, target))


def bget(x, shape):
    """Element function of x broadcast to shape."""
    if not isinstance(x, ndarray):
        return lambda idx: x
    f = x._snapshot()
    off = len(shape) - len(x._shp)
    one = []
    for k, s in enumerate(x._shp):
        t = shape[k + off] if k + off >= 0 else 1
        if not isz(s) and s == 1:
            one.append(True)
        elif ikey(s) == ikey(t):
            one.append(False)
        else:
            one.append(prov(s == 1) and not prov(t == 1))
    if off < 0:
        pad = (0,) * (-off)
        one = one[-off:]
        return lambda idx: f(pad + tuple(0 if o else i
                                         for o, i in zip(one, idx)))
    if not any(one) and off == 0:
        return f
    return lambda idx: f(tuple(0 if o else i
                               for o, i in zip(one, idx[off:])))


def broadcast_arrays(*arrs, **kw):
    arrs = [asanyarray(a) for a in arrs]
    shape = broadcast_shape([a._shp for a in arrs])
    out = []
    for a in arrs:
        b = asarray(a)
        off = len(shape) - b.ndim
        axmap = {}
        mp = []
        ones = [(not isz(b._shp[m[1]]) and b._shp[m[1]] == 1) or
                (ikey(b._shp[m[1]]) != ikey(shape[m[1] + off]) and
                 prov(b._shp[m[1]] == 1)) if m[0] == AX else False
                for m in b._map]
        for m, one in zip(b._map, ones):
            if m[0] == AX and one:
                mp.append((CONST, m[2]))
            elif m[0] == AX:
                mp.append((AX, m[1] + off, m[2], m[3]))
            else:
                mp.append(m)
        out.append(mkview(b, tuple(mp), shape))
    return out


def broadcast_to(a, shape, **kw):
    a = asarray(a)
    b, = [broadcast_arrays(a, mkarray(shape, None, a._dt))[0]]
    return b


# ------------------------------------------------------------------- ufuncs

def numeric_pow(x, y):
    if isinstance(x, pyint) and isinstance(y, pyint) and y >= 0:
        return x ** y
    x = coerce(x)
    return x ** (coerce(y) if not isinstance(y, SNum) else y)


def bool_op(name):
    def f(x, y):
        bx, by = core.tobool(x), core.tobool(y)
        if bx is NotImplemented or by is NotImplemented:
            if isinstance(x, pyint) and isinstance(y, pyint):
                return {"and": x & y, "or": x | y, "xor": x ^ y}[name]
            raise Unsupported("bitwise operation on numbers")
        return mkbool({"and": z3.And, "or": z3.Or, "xor": z3.Xor}[name](
            bx, by))
    return f


def safe_div(x, y):
    x, y = coerce(x), coerce(y)
    if y.iszero():
        raise Unsupported("division by zero")
    return x / y


def cmp_(op):
    def f(x, y):
        if isinstance(x, (bool, SBool)) and isinstance(y, (bool, SBool)) and \
                op in ("eq", "ne"):
            r = mkbool(core.tobool(x) == core.tobool(y))
            return r if op == "eq" else bnot(r)
        if isinstance(x, (SInt, SNum)) or isinstance(y, (SInt, SNum)):
            if not isinstance(x, (SInt, SNum)) or (isinstance(y, SNum) and
                                                   isinstance(x, SInt)):
                if coerce(x) is None:
                    return op == "ne"
                x = coerce(x)
            r = getattr(x, "__%s__" % op)(y)
            if r is NotImplemented:
                if op in ("eq", "ne"):
                    return op == "ne"
                raise TypeError("cannot compare")
            return r
        import operator
        return _truth(getattr(operator, op)(x, y))
    return f


def int_op(op):
    def f(x, y):
        if isinstance(x, (SInt, pyint)) and isinstance(y, (SInt, pyint)):
            return x // y if op == "floordiv" else x % y
        raise Unsupported("%s of symbolic numbers" % op)
    return f


OPS = {
    "add": lambda x, y: addv(x, y),
    "sub": lambda x, y: subv(x, y),
    "mul": lambda x, y: mulv(x, y),
    "div": safe_div, "pow": numeric_pow,
    "floordiv": int_op("floordiv"), "mod": int_op("mod"),
    "and": bool_op("and"), "or": bool_op("or"), "xor": bool_op("xor"),
}
for _op in ("eq", "ne", "lt", "le", "gt", "ge"):
    OPS[_op] = cmp_(_op)


def nn(x):
    if isinstance(x, bool):
        return pyint(x)
    if isinstance(x, (SNum, SInt, pyint)):
        return x
    c = coerce(x)
    if c is None:
        raise Unsupported("arithmetic on %r" % type(x))
    return c


def addv(x, y):
    return nn(x) + nn(y)


def subv(x, y):
    return nn(x) - nn(y)


def mulv(x, y):
    return nn(x) * nn(y)


def result_dtype(op, a, b):
    if op in ("eq", "ne", "lt", "le", "gt", "ge"):
        return real.dtype(bool)
    da = a._dt if isinstance(a, ndarray) else scalar_dtype(a)
    db = b._dt if isinstance(b, ndarray) else scalar_dtype(b)
    if op in ("and", "or", "xor"):
        if da.kind not in "biu" or db.kind not in "biu":
            raise TypeError("ufunc 'bitwise' not supported for the input "
                            "types")
        return real.result_type(da, db)
    for d in (da, db):
        if d.kind in "USOV":
            raise Unsupported("arithmetic on dtype %s" % d)
        if d.kind in "Mm":
            raise Unsupported("arithmetic on datetimes")
    if op == "sub" and da.kind == "b" and db.kind == "b":
        raise TypeError("numpy boolean subtract")
    r = real.result_type(da, db)
    if op == "div" and r.kind in "iub":
        r = real.dtype(pyfloat)
    return r


def prepare(o):
    if isinstance(o, (ndarray, SNum, SInt, SBool, pyint, pyfloat, complex,
                      bool)):
        return o
    if isinstance(o, real.generic):
        return o.item() if o.dtype.kind in "biufc" else o
    if isinstance(o, (list, tuple, real.ndarray, SymRange)):
        return asarray(o)
    if isinstance(o, (str, bytes)):
        return o
    return None


def pick_wrapper(args):
    best = None
    for a in args:
        if isinstance(a, ndarray) and a.__class__ is not ndarray:
            if best is None or a.__array_priority__ > best.__array_priority__:
                best = a
    return best


def binop(a, b, op):
    a2, b2 = prepare(a), prepare(b)
    if a2 is None or b2 is None:
        if op in ("eq", "ne"):
            if a is None or b is None or isinstance(a, builtins_type) or \
                    isinstance(b, builtins_type):
                arr = a if isinstance(a, ndarray) else b
                return wraplike(arr, mkarray(arr._shp, lambda i: op == "ne",
                                             real.dtype(bool)))
            return NotImplemented
        return NotImplemented
    a, b = a2, b2
    # deferral to a more specific operand, as numpy does
    dt = result_dtype(op, a, b)
    sa = a._shp if isinstance(a, ndarray) else ()
    sb = b._shp if isinstance(b, ndarray) else ()
    shape = broadcast_shape([sa, sb])
    fa, fb = bget(a, shape), bget(b, shape)
    f = OPS[op]
    kind = dt.kind

    def fn(idx):
        return castv(f(fa(idx), fb(idx)), dt)
    return finish([a, b], mkarray(shape, fn, dt))


def finish(inputs, res):
    w = pick_wrapper(inputs)
    if w is not None:
        return wraplike(w, res)
    if res._shp == ():
        return element(res._get(()))
    return res


def ufunc1(a, f, dt):
    if not isinstance(a, ndarray):
        p = prepare(a)
        if p is None:
            raise TypeError("loop of ufunc does not support argument %r"
                            % type(a))
        a = p
        if not isinstance(a, ndarray):
            return castv(f(nn(a) if not isinstance(a, SBool) else a), dt)
    g = a._snapshot()
    return finish([a], mkarray(a._shp, lambda i: castv(f(g(i)), dt), dt))


def dt_of(a):
    return a._dt if isinstance(a, ndarray) else scalar_dtype(a)


def floatish(dt):
    return dt if dt.kind in "fc" else real.dtype(pyfloat)


def with_out(f):
    """A ufunc that accepts out=; other options are outside the model."""
    def u(*k, **kw):
        out = kw.pop("out", None)
        if kw:
            raise Unsupported("ufunc options")
        r = f(*k)
        if out is None:
            return r
        if isinstance(out, tuple):
            out, = out
        write(out, asarray(r))
        return out
    return u


def math_ufunc(f, keep=True):
    @with_out
    def u(x, *k):
        if k:
            raise Unsupported("ufunc options")
        if isinstance(x, (list, tuple)):
            x = asarray(x)
        return ufunc1(x, lambda v: f(coerce(v)), floatish(dt_of(x)))
    return u


def _sqrt(v):
    c = v.const()
    if c is not None and c < 0:
        raise Unsupported("sqrt of a negative real")
    return num.sqrt(v)


exp = math_ufunc(lambda v: num.app("exp", [v]))
log10 = math_ufunc(lambda v: num.app("log10", [v]))
log = math_ufunc(lambda v: num.app("log", [v]))
sin = math_ufunc(lambda v: num.app("sin", [v]))
cos = math_ufunc(lambda v: num.app("cos", [v]))
tan = math_ufunc(lambda v: num.app("tan", [v]))
sqrt = math_ufunc(_sqrt)
sinh = math_ufunc(lambda v: (num.app("exp", [v]) - num.app("exp", [-v])) / 2)
cosh = math_ufunc(lambda v: (num.app("exp", [v]) + num.app("exp", [-v])) / 2)
expm1 = math_ufunc(lambda v: num.app("exp", [v]) - 1)
floor = math_ufunc(lambda v: num.app("floor", [realonly(v)]))
sign = math_ufunc(lambda v: num.app("sign", [v]))


@with_out
def abs_(x):
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    if isinstance(x, ndarray):
        return x.__abs__() if x.__class__ is ndarray else ndarray.__abs__(x)
    return abs(x)


absolute = abs_


@with_out
def conj(x):
    return x.conj() if hasattr(x, "conj") else coerce(x).conj()


conjugate = conj


def real_(x):
    return x.real


def imag_(x):
    return x.imag


def angle(z, deg=False):
    z = asanyarray(z)
    fac = None
    if deg:
        fac = const_num(180) / num.PI()
    f = z._snapshot()

    def fn(i):
        r = num.app("angle", [coerce(f(i))])
        return r * fac if fac is not None else r
    # numpy: arctan2 ufunc (keeps subclass), then multiplied
    return finish([z], mkarray(z._shp, fn, real.dtype(pyfloat)))


def isinf(x):
    if isinstance(x, pyfloat):
        return real.isinf(x)
    return ufunc1(x, lambda v: False, real.dtype(bool))


def isnan(x):
    if isinstance(x, pyfloat):
        return real.isnan(x)
    return ufunc1(x, lambda v: False, real.dtype(bool))


def isfinite(x):
    return ufunc1(x, lambda v: True, real.dtype(bool))


class BinU(object):
    def __init__(self, op, red=None):
        self.op = op
        self.red = red

    def __call__(self, a, b, *k, **kw):
        out = kw.pop("out", None)
        if k or kw:
            raise Unsupported("ufunc options")
        if out is not None:
            return with_out(self)(a, b, out=out)
        if isinstance(a, (list, tuple)):
            a = asarray(a)
        if isinstance(b, (list, tuple)):
            b = asarray(b)
        if not isinstance(a, ndarray) and not isinstance(b, ndarray):
            return OPS[self.op](a, b)
        r = binop(a, b, self.op)
        if r is NotImplemented:
            raise TypeError("ufunc operands")
        return r

    def reduce(self, a, axis=0, **kw):
        if kw:
            raise Unsupported("reduce options")
        a = asanyarray(a) if not isinstance(a, (tuple, list)) or True else a
        if a.ndim == 1 and not isz(a._shp[0]) and self.red == "prod":
            return product([a._get((i,)) for i in range(a._shp[0])]) \
                if a._dt.kind in "iu" or a._shp[0] == 0 else \
                num.fold("prod", [coerce(a._get((i,)))
                                  for i in range(a._shp[0])])
        return reduce_(a, axis, self.red, False)

    def accumulate(self, a, axis=0, **kw):
        if kw:
            raise Unsupported("accumulate options")
        return wraplike_u(a, cumulative(asarray(a), axis, self.red))

    def outer(self, a, b, **kw):
        if kw:
            raise Unsupported("outer options")
        a, b = asanyarray(a), asanyarray(b)
        if type(a) is not ndarray or type(b) is not ndarray:
            raise Unsupported("outer of labelled arrays")
        return self(a[(Ellipsis,) + (None,) * b.ndim], b)


def wraplike_u(a, r):
    return wraplike(a, asarray(r)) if isinstance(a, ndarray) else r


add = BinU("add", "sum")
subtract = BinU("sub")
multiply = BinU("mul", "prod")
divide = true_divide = BinU("div")
power = BinU("pow")
bitwise_and = BinU("and")
bitwise_or = BinU("or")


class LogU(BinU):
    """Logical operations take numbers as true when they are not zero."""

    def __call__(self, a, b, *k, **kw):
        return BinU.__call__(self, istrue(a), istrue(b), *k, **kw)


def istrue(x):
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    if isinstance(x, ndarray):
        return x if x._dt.kind == "b" else x != 0
    return x if isinstance(x, (bool, SBool)) else x != 0


logical_and = LogU("and")
logical_or = LogU("or")
equal = BinU("eq")
not_equal = BinU("ne")
less = BinU("lt")
greater = BinU("gt")
less_equal = BinU("le")
greater_equal = BinU("ge")


@with_out
def minimum(a, b):
    return where_like(a, b, lambda x, y: x if _truth(x <= y) else y)


@with_out
def maximum(a, b):
    return where_like(a, b, lambda x, y: x if _truth(x >= y) else y)


maximum.reduce = lambda a, axis=0: asanyarray(a).max(axis)
minimum.reduce = lambda a, axis=0: asanyarray(a).min(axis)
fmax, fmin = maximum, minimum


def where_like(a, b, f):
    if not isinstance(a, ndarray) and not isinstance(b, ndarray):
        return f(coerce(a), coerce(b))
    sa = a._shp if isinstance(a, ndarray) else ()
    sb = b._shp if isinstance(b, ndarray) else ()
    shape = broadcast_shape([sa, sb])
    fa, fb = bget(a, shape), bget(b, shape)
    dt = real.result_type(dt_of(a), dt_of(b))
    return finish([a, b], mkarray(shape, lambda i: castv(
        f(coerce(fa(i)), coerce(fb(i))), dt), dt))


# --------------------------------------------------------------- reductions

def norm_axes(axis, n):
    if axis is None:
        return tuple(range(n))
    if not isinstance(axis, (tuple, list)):
        axis = (axis,)
    out = [normaxis(a, n) for a in axis]
    if len(set(out)) != len(out):
        raise ValueError("duplicate value in 'axis'")
    return tuple(out)


def reduce_(a, axis, op, keepdims, out=None, dt=None, ddof=0):
    if out is not None:
        raise Unsupported("reduction with out=")
    axes = norm_axes(axis, a.ndim)
    keep = [x for x in range(a.ndim) if x not in axes]
    f = a._snapshot()
    k = a._dt.kind
    if op in ("any", "all"):
        rdt = real.dtype(bool)
    elif op in ("mean", "var", "std"):
        rdt = floatish(a._dt)
        if op != "mean":
            rdt = fdt(rdt)
    elif op in ("sum", "prod") and k == "b":
        rdt = real.dtype(pyint)
    else:
        rdt = a._dt
    if dt is not None:
        rdt = THIS.dtype(dt)
    if k not in "biufc":
        raise Unsupported("reduction of dtype %s" % a._dt)
    sizes = tuple(a._shp[x] for x in axes)
    count = product(sizes)
    if op in ("min", "max") and not isz(count) and count == 0:
        raise ValueError("zero-size array to reduction operation")
    if op in ("min", "max") and isz(count) and not prov(count >= 1):
        if _truth(count == 0):
            raise ValueError("zero-size array to reduction operation")

    def fn(kidx):
        def body(bidx):
            idx = [None] * a.ndim
            for x, i in zip(keep, kidx):
                idx[x] = i
            for x, i in zip(axes, bidx):
                idx[x] = i
            return f(tuple(idx))
        if op in ("any", "all"):
            return reduce_bool(op, sizes, body)
        if k == "b" and op == "sum":
            if keep:
                raise Unsupported("partial count of a mask")
            return selection(mkarray(sizes, body, a._dt))[0]
        cb = lambda i: coerce(body(i))
        if op in ("sum", "prod", "min", "max"):
            r = num.reduction(op, sizes, cb)
            return castv(r, rdt) if rdt.kind in "fc" else intify(r)
        nn_ = coerce(count)
        m = num.reduction("sum", sizes, cb) / nn_
        if op == "mean":
            return castv(m, rdt)

        def dev(i):
            d = cb(i) - m
            return d * d.conj()
        v = num.reduction("sum", sizes, dev) / (nn_ - coerce(ddof))
        if op == "var":
            return v
        return num.sqrt(v)
    shp = tuple(a._shp[x] for x in keep)
    res = mkarray(shp, fn, rdt)
    if keepdims:
        for x in sorted(axes):
            res = insert_axis(res, x)
        return wraplike(a, res)
    if res._shp == () and a.__class__ is ndarray:
        return element(res._get(()))
    return wraplike(a, res)


def intify(r):
    c = r.const()
    if c is not None and c.denominator == 1:
        return pyint(c)
    return r


def reduce_bool(op, sizes, body):
    if not any(isz(s) for s in sizes):
        r = op == "all"
        exprs = []
        for ix in itertools.product(*[range(s) for s in sizes]):
            v = body(ix)
            if isinstance(v, (SNum, SInt)):
                v = v != 0
            exprs.append(core.tobool(v) if isinstance(v, (SBool, bool))
                         else z3.BoolVal(_truth(v)))
        return mkbool(z3.And(*exprs) if op == "all" else z3.Or(*exprs)) \
            if exprs else r
    p = path()
    ix = tuple(SInt.fresh("gen") for _ in sizes)
    with p.scope():
        for i, s in zip(ix, sizes):
            p.add(z3.And(i.z3() >= 0, i.z3() < iz3(s)))
        v = body(ix)
        ev = core.tobool(v)
        if ev is NotImplemented:
            raise Unsupported("any/all of numbers")
        always = p.check(z3.Not(ev)) == z3.unsat
        never = p.check(ev) == z3.unsat
    if op == "all" and always:
        return True
    if op == "any" and never:
        return False
    key = ("redb", op, str(ev), tuple(map(ikey, sizes)))
    r = p.memo.get(key)
    if r is None:
        r = p.memo[key] = z3.Bool(p.fresh(op))
        p.imprecise = "%s over a symbolic axis" % op
    return SBool(r)


def cumulative(a, axis, op, out=None, dt=None):
    if out is not None or dt is not None:
        raise Unsupported("cumulative out/dtype")
    if axis is None:
        a = a.reshape((-1,))
        axis = 0
    axis = normaxis(axis, a.ndim)
    f = a._snapshot()

    def fn(idx):
        k = idx[axis]

        def body(b):
            return coerce(f(idx[:axis] + (b[0],) + idx[axis + 1:]))
        r = num.reduction(op, (k + 1,), body)
        return castv(r, a._dt) if a._dt.kind in "fc" else intify(r)
    return wraplike(a, mkarray(a._shp, fn, a._dt))


# ---------------------------------------------------------------- creation

def from_nested(x):
    """Array of nested sequences of scalars/arrays; Spread for symbolic."""
    if isinstance(x, SymRange):
        return x._arr()
    if isinstance(x, Spread):
        raise Unsupported("array of a bare symbolic element")
    if isinstance(x, ndarray):
        return alias(x)
    if hasattr(x, "_vp_array"):
        return x._vp_array()
    if isinstance(x, real.ndarray):
        arr = x
        return mkarray(arr.shape, lambda i: pyval(arr[i]), arr.dtype)
    if isinstance(x, (list, tuple)):
        if any(type(y) is Spread for y in x):
            return concat_spread(x)
        items = [from_nested(y) for y in x]
        if not items:
            return mkarray((0,), None, real.dtype(pyfloat))
        shp = items[0]._shp
        for it in items[1:]:
            if len(it._shp) != len(shp):
                raise Unsupported("ragged array")
            for s, t in zip(it._shp, shp):
                if not known_eq(s, t):
                    raise Unsupported("ragged array")
        dt = real.result_type(*[it._dt for it in items]) \
            if not any(it._dt.kind in "OUSM" for it in items) else None
        if dt is None:
            try:
                dt = real.array([real.zeros((), it._dt) for it in items]
                                ).dtype
            except Exception:
                dt = real.dtype(object)
            if any(it._dt.kind in "US" for it in items):
                dt = real.result_type(*[it._dt for it in items])
        fs = [it._snapshot() for it in items]

        def fn(idx):
            i = idx[0]
            if isz(i):
                for j in range(len(fs)):
                    if _truth(i == j):
                        i = j
                        break
                else:
                    raise Unsupported("index out of a concrete axis")
            return castv(fs[i](idx[1:]), dt)
        return mkarray((len(items),) + shp, fn, dt)
    if isinstance(x, (range, types.GeneratorType)):
        return from_nested(list(x)) if isinstance(x, range) else \
            mkarray((), lambda i: x, real.dtype(object))
    if hasattr(x, "__array__") and not isinstance(x, (SNum, SInt, SBool,
                                                      real.generic)):
        return from_nested(x.__array__())
    if hasattr(x, "__array_interface__") and \
            "vparr" in getattr(x, "__array_interface__"):
        return from_interface(x.__array_interface__)
    v = x
    dt = scalar_dtype(x)
    v = pyval(v) if isinstance(x, real.generic) else v
    return mkarray((), lambda i: castv(v, dt), dt)


def pyval(v):
    if isinstance(v, (real.bool_,)):
        return _truth(v)
    if isinstance(v, real.integer):
        return pyint(v)
    if isinstance(v, real.floating):
        return pyfloat(v)
    if isinstance(v, real.complexfloating):
        return complex(v)
    return v


def concat_spread(x):
    parts = []
    cur = []
    for y in x:
        if type(y) is Spread:
            if cur:
                parts.append(from_nested(cur))
                cur = []
            parts.append(y.arr)
        else:
            cur.append(y)
    if cur:
        parts.append(from_nested(cur))
    if len(parts) == 1:
        a = parts[0]
        return mkarray(a._shp, a._snapshot(), a._dt)
    return concatenate(parts)


def from_interface(itf):
    a = itf["vparr"]
    return strided(a, itf["shape"], itf["strides"])


def strided(a, shape, strides):
    shape = tuple(shape)
    used = {}
    for ax, s in enumerate(strides):
        if not isinstance(s, Stride):
            if s == 0:
                continue
            raise Unsupported("numeric strides")
        for k, step in s.d.items():
            if k in used:
                raise Unsupported("storage axis used by two view axes")
            used[k] = (ax, step)
    mp = []
    for k, m in enumerate(a._map):
        base = m[1] if m[0] == CONST else m[2]
        if k in used:
            ax, step = used[k]
            size = shape[ax]
            ext = a._st.shape[k]
            if step < 1 or not prov(band(
                    (size - 1) * step + base < ext, base >= 0)
                    if isz(size) or isz(ext) or isz(base) else
                    (size == 0 or (size - 1) * step + base < ext)):
                raise Unsupported("strided view may leave the array")
            mp.append((AX, ax, base, step))
        else:
            mp.append((CONST, base))
    return mkview(a, tuple(mp), shape)


def as_strided(x, shape=None, strides=None, subok=False, writeable=True):
    x = asarray(x)
    return strided(x, x._shp if shape is None else shape,
                   x.strides if strides is None else strides)


class DummyArray(object):
    def __init__(self, interface, base=None):
        self.__array_interface__ = interface
        self.base = base


def array(x, dtype=None, copy=True, order=None, subok=False, ndmin=0):
    if isinstance(x, ndarray):
        src = x
        if copy or (dtype is not None and THIS.dtype(dtype) != x._dt):
            f = x._snapshot()
            dt = x._dt if dtype is None else target_dtype(dtype, x._dt)
            r = mkarray(x._shp, casting(f, x, dt) if dt != x._dt else f, dt)
        else:
            r = alias(x)
        if not copy and x.__class__ is ndarray and r._st is x._st:
            r = x
        if subok and x.__class__ is not ndarray:
            if not copy and r._st is x._st and ndmin <= x.ndim:
                return x
            r = wraplike(x, r)
    elif isinstance(x, Spread):
        # a generic element: only its dtype may be asked
        r = mkarray((), None, x.arr._dt)
    else:
        r = from_nested(x)
        if dtype is not None:
            dt = target_dtype(dtype, r._dt)
            if dt != r._dt:
                r = mkarray(r._shp, casting(r._snapshot(), r, dt), dt)
    while r.ndim < ndmin:
        r = insert_axis(r, 0) if r.__class__ is ndarray else \
            wraplike(r, insert_axis(r, 0))
    return r


def target_dtype(d, src):
    d = THIS.dtype(d)
    if d.kind in "US" and d.itemsize == 0 and src.kind in "US":
        return src
    return d


def asarray(x, dtype=None, order=None):
    if isinstance(x, ndarray) and (dtype is None or
                                   THIS.dtype(dtype) == x._dt):
        return x if x.__class__ is ndarray else alias(x)
    return array(x, dtype=dtype, copy=False)


def asanyarray(x, dtype=None, order=None):
    return array(x, dtype=dtype, copy=False, subok=True)


def ascontiguousarray(x, dtype=None):
    r = asarray(x, dtype=dtype)
    if r.ndim == 0:
        r = insert_axis(r, 0)
    return r


def full(shape, v, dtype=None):
    dt = THIS.dtype(dtype) if dtype is not None else scalar_dtype(v)
    v = castv(v, dt)
    return mkarray(shape, lambda i: v, dt)


def zeros(shape, dtype=pyfloat, order=None):
    dt = THIS.dtype(dtype)
    return mkarray(shape, lambda i: castv(0, dt), dt)


def ones(shape, dtype=pyfloat, order=None):
    dt = THIS.dtype(dtype)
    return mkarray(shape, lambda i: castv(1, dt), dt)


def empty(shape, dtype=pyfloat, order=None):
    return mkarray(shape, None, THIS.dtype(dtype))


def zeros_like(a, dtype=None, **kw):
    a = asanyarray(a)
    return wraplike(a, zeros(a._shp, a._dt if dtype is None else dtype))


def ones_like(a, dtype=None, **kw):
    a = asanyarray(a)
    return wraplike(a, ones(a._shp, a._dt if dtype is None else dtype))


def empty_like(a, dtype=None, **kw):
    a = asanyarray(a)
    return wraplike(a, empty(a._shp, a._dt if dtype is None else dtype))


def identity(n, dtype=pyfloat):
    dt = THIS.dtype(dtype)
    return mkarray((n, n), lambda i: castv(1 if _eqi(i[0], i[1]) else 0, dt),
                   dt)


def eye(n, *k, **kw):
    if k or set(kw) - {"dtype"}:
        raise Unsupported("eye options")
    return identity(n, kw.get("dtype", pyfloat))


def arange(*k, **kw):
    dt = kw.pop("dtype", None)
    if kw:
        raise Unsupported("arange options")
    if all(isinstance(x, (pyint, SInt)) for x in k):
        if any(isz(x) for x in k):
            if len(k) == 1:
                n, s = k[0], 0
            elif len(k) == 2:
                n, s = k[1] - k[0], k[0]
            else:
                raise Unsupported("arange step")
            n = n if _truth(n >= 0) else 0
            r = mkarray((n,), lambda i: i[0] + s, real.dtype(pyint))
        else:
            vals = list(range(*k))
            r = from_nested(vals) if vals else mkarray((0,), None,
                                                       real.dtype(pyint))
    else:
        if any(isinstance(x, (SNum, SInt)) for x in k):
            raise Unsupported("arange of symbolic floats")
        r = from_nested(real.arange(*k))
    return r if dt is None else r.astype(dt)


def linspace(a, b, n=50, **kw):
    if kw:
        raise Unsupported("linspace options")
    a, b = coerce(a), coerce(b)
    if not isz(n) and n == 1:
        return mkarray((1,), lambda i: a, real.dtype(pyfloat))
    d = (b - a) / coerce(n - 1)
    return mkarray((n,), lambda i: a + d * coerce(i[0]), real.dtype(pyfloat))


def concatenate(seq, axis=0):
    arrs = [asarray(x) for x in seq]
    if axis is None:
        arrs, axis = [x.ravel() for x in arrs], 0
    if not arrs:
        raise ValueError("need at least one array to concatenate")
    n = arrs[0].ndim
    axis = normaxis(axis, n)
    for a in arrs[1:]:
        if a.ndim != n:
            raise ValueError("all the input array dimensions must match")
        for k in range(n):
            if k != axis and not known_eq(a._shp[k], arrs[0]._shp[k]):
                raise ValueError("all the input array dimensions except for "
                                 "the concatenation axis must match exactly")
    dt = real.result_type(*[a._dt for a in arrs])
    bounds = [0]
    for a in arrs:
        bounds.append(bounds[-1] + a._shp[axis])
    fs = [a._snapshot() for a in arrs]

    def fn(idx):
        i = idx[axis]
        for j in range(len(fs)):
            if j == len(fs) - 1 or _truth(i < bounds[j + 1]):
                return castv(fs[j](idx[:axis] + (i - bounds[j],) +
                                   idx[axis + 1:]), dt)
    shp = arrs[0]._shp[:axis] + (bounds[-1],) + arrs[0]._shp[axis + 1:]
    r = mkarray(shp, fn, dt)
    w = pick_wrapper([x for x in seq if isinstance(x, ndarray)])
    return wraplike(w, r) if w is not None else r


def vstack(seq):
    return concatenate([atleast_2d(x) for x in seq], 0)


def hstack(seq):
    seq = [asarray(x) for x in seq]
    return concatenate(seq, 0 if seq[0].ndim == 1 else 1)


def column_stack(seq):
    out = []
    for x in seq:
        x = asarray(x)
        out.append(insert_axis(x, 1) if x.ndim == 1 else x)
    return concatenate(out, 1)


def stack(seq, axis=0):
    arrs = [asarray(x) for x in seq]
    if not arrs:
        raise ValueError("need at least one array to stack")
    axis = normaxis(axis, arrs[0].ndim + 1)
    return concatenate([insert_axis(x, axis) for x in arrs], axis)


def atleast_1d(x):
    x = asanyarray(x)
    return wraplike(x, insert_axis(x, 0)) if x.ndim == 0 else x


def atleast_2d(x):
    x = asanyarray(x)
    while x.ndim < 2:
        x = wraplike(x, insert_axis(x, 0))
    return x


def bmat(rows):
    rows = [[atleast_2d(x) for x in r] for r in rows]
    return concatenate([concatenate(r, -1) for r in rows], 0)


def diag(v):
    a = asanyarray(v)
    if a.ndim == 1:
        n = a._shp[0]
        f = a._snapshot()
        dt = a._dt
        return mkarray((n, n), lambda i: f((i[0],)) if _eqi(i[0], i[1])
                       else castv(0, dt), dt)
    if a.ndim == 2:
        n, m = a._shp
        if isz(n) or isz(m):
            if not known_eq(n, m):
                raise Unsupported("diag of a symbolic matrix")
            k = n
        else:
            k = min(n, m)
        f = a._snapshot()
        return mkarray((k,), lambda i: f((i[0], i[0])), a._dt)
    raise ValueError("Input must be 1- or 2-d.")


def where(c, a=None, b=None):
    if a is None and b is None:
        raise Unsupported("where with one argument")
    c, a, b = asarray(c), asarray(a), asarray(b)
    shape = broadcast_shape([c._shp, a._shp, b._shp])
    fc, fa, fb = bget(c, shape), bget(a, shape), bget(b, shape)
    dt = real.result_type(a._dt, b._dt)
    return mkarray(shape, lambda i: castv(fa(i) if _truth(fc(i)) else fb(i),
                                          dt), dt)


# --------------------------------------------------------------- functions

def _m(name):
    def f(a, *k, **kw):
        if not isinstance(a, ndarray):
            a = asanyarray(a)
        return getattr(a, name)(*k, **kw)
    return f


def np_sum(a, axis=None, dtype=None, out=None, **kw):
    a = asanyarray(a)
    return a.sum(axis=axis, dtype=dtype, out=out, **kw)


def mean(a, axis=None, dtype=None, out=None, **kw):
    a = asanyarray(a)
    return a.mean(axis=axis, dtype=dtype, out=out, **kw)


def std(a, axis=None, dtype=None, out=None, ddof=0, **kw):
    a = asanyarray(a)
    return a.std(axis=axis, dtype=dtype, out=out, ddof=ddof, **kw)


def var(a, axis=None, dtype=None, out=None, ddof=0, **kw):
    a = asanyarray(a)
    return a.var(axis=axis, dtype=dtype, out=out, ddof=ddof, **kw)


def prod(a, axis=None, **kw):
    return asanyarray(a).prod(axis=axis, **kw)


np_any = _m("any")
np_all = _m("all")
transpose = _m("transpose")
squeeze = _m("squeeze")
reshape = _m("reshape")
ravel = _m("ravel")
take = _m("take")
repeat = _m("repeat")
cumsum = _m("cumsum")
cumprod = _m("cumprod")
amin = _m("min")
amax = _m("max")
shape = lambda a: asanyarray(a).shape
ndim = lambda a: asanyarray(a).ndim
size = lambda a: asanyarray(a).size


def copy(a):
    return array(a, copy=True)


def iscomplexobj(x):
    return dt_of(asanyarray(x)).kind == "c"


def result_type(*args):
    ds = []
    for a in args:
        if isinstance(a, ndarray):
            ds.append(a.dtype)
        elif isinstance(a, (SNum, SInt)):
            ds.append(scalar_dtype(a))
        else:
            ds.append(a)
    return real.result_type(*ds)


promote_types = real.promote_types
can_cast = real.can_cast


def isrealobj(x):
    return not iscomplexobj(x)


def iscomplex(x):
    raise Unsupported("iscomplex")


def isscalar(x):
    return not isinstance(x, ndarray) and isinstance(
        x, (SNum, SInt, pyint, pyfloat, complex, str, bytes, real.generic))


def dot(a, b):
    a, b = asanyarray(a), asanyarray(b)
    if a.ndim == 2 and b.ndim == 2:
        return einsum("ij,jk->ik", a, b)
    if a.ndim == 1 and b.ndim == 1:
        return einsum("i,i->", a, b)
    if a.ndim == 2 and b.ndim == 1:
        return einsum("ij,j->i", a, b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    l = "abcdefg"[:a.ndim - 1]
    if b.ndim == 1:
        return einsum(l + "z,z->" + l, a, b)
    r = "opqrstu"[:b.ndim - 1]
    return einsum("%sz,%sz%s->%s%s" % (l, r[:-1], r[-1], l, r), a, b)


def matmul(a, b):
    a, b = asanyarray(a), asanyarray(b)
    r = einsum("...ij,...jk->...ik", a, b)
    return finish([a, b], asarray(r))


def einsum(spec, *ops, **kw):
    if kw:
        raise Unsupported("einsum options")
    spec = spec.replace(" ", "")
    if "->" not in spec:
        raise Unsupported("implicit einsum")
    lhs, rhs = spec.split("->")
    terms = lhs.split(",")
    arrs = [asarray(o) for o in ops]
    if len(terms) != len(arrs):
        raise ValueError("einsum operands")
    ells = []
    sizes = {}
    parts = []
    for t, a in zip(terms, arrs):
        if "..." in t:
            pre, post = t.split("...")
            ne = a.ndim - len(pre) - len(post)
            if ne < 0:
                raise ValueError("einstein sum subscripts string contains too"
                                 " many subscripts for operand")
            labels = list(pre) + [("e", k - ne) for k in range(ne)] + \
                list(post)
            ells.append(a._shp[len(pre):len(pre) + ne])
        else:
            labels = list(t)
            if len(labels) != a.ndim:
                raise ValueError("operand has wrong number of dimensions")
        for l, s in zip(labels, a._shp):
            if isinstance(l, tuple):
                continue
            sizes[l] = s if l not in sizes else broadcast_size(sizes[l], s)
        parts.append(labels)
    eshape = broadcast_shape(ells) if ells else ()
    ne = len(eshape)
    if "..." in rhs:
        pre, post = rhs.split("...")
        out = list(pre) + [("e", k - ne) for k in range(ne)] + list(post)
    else:
        out = list(rhs)
        if ne:
            raise ValueError("output has no ellipsis")
    for k in range(ne):
        sizes[("e", k - ne)] = eshape[k]
    contracted = []
    for labels in parts:
        for l in labels:
            if l not in out and l not in contracted:
                contracted.append(l)
    fs = [a._snapshot() for a in arrs]
    ones_ = [[(not isz(s) and s == 1) or (ikey(s) != ikey(sizes[l]) and
                                          prov(s == 1))
              for l, s in zip(labels, a._shp)]
             for labels, a in zip(parts, arrs)]
    dt = real.result_type(*[a._dt for a in arrs])
    csz = tuple(sizes[l] for l in contracted)

    def fn(idx):
        env = dict(zip(out, idx))

        def body(b):
            env2 = dict(env)
            env2.update(zip(contracted, b))
            r = None
            for f, labels, one in zip(fs, parts, ones_):
                v = f(tuple(0 if o else env2[l]
                            for l, o in zip(labels, one)))
                r = v if r is None else mulv(r, v)
            return coerce(r)
        if not contracted:
            r = body(())
        else:
            r = num.reduction("sum", csz, body)
        return castv(r, dt) if dt.kind in "fc" else intify(r)
    res = mkarray(tuple(sizes[l] for l in out), fn, dt)
    return element(res._get(())) if res._shp == () else res


def allclose(a, b, *k, **kw):
    p = path()
    a, b = asarray(a), asarray(b)
    shape = broadcast_shape([a._shp, b._shp])
    fa, fb = bget(a, shape), bget(b, shape)
    if not any(isz(s) for s in shape):
        for ix in itertools.product(*[range(s) for s in shape]):
            d = coerce(fa(ix)) - coerce(fb(ix))
            if d.iszero():
                continue
            if d.isconst():
                c = d.const()
                if c is None or abs(c) > Fraction(1, 10 ** 8) + \
                        abs(coerce(fb(ix)).const() or 0) * \
                        Fraction(1, 10 ** 5):
                    return False
                continue
            rt = kw.get("rtol", k[0] if k else 1e-5)
            at = kw.get("atol", k[1] if len(k) > 1 else 1e-8)
            if not (abs(d) <= coerce(at) + coerce(rt) *
                    abs(coerce(fb(ix)))):
                return False
        return True
    raise Unsupported("allclose over symbolic axes")


# ------------------------------------- functions composed from the ones above

def array_equal(a, b, equal_nan=False):
    a, b = asarray(a), asarray(b)
    if a.ndim != b.ndim:
        return False
    for x, y in zip(a._shp, b._shp):
        if not known_eq(x, y):
            return False
    if a._seqkey() == b._seqkey():
        return True
    if a.ndim == 1:
        return seq_equal(a, b)
    return _truth(asarray(a == b).all())


def swapaxes(a, x, y):
    return asanyarray(a).swapaxes(x, y)


def moveaxis(a, src, dst):
    a = asanyarray(a)
    src = [normaxis(x, a.ndim) for x in
           (src if isinstance(src, (list, tuple)) else [src])]
    dst = [normaxis(x, a.ndim) for x in
           (dst if isinstance(dst, (list, tuple)) else [dst])]
    order = [x for x in range(a.ndim) if x not in src]
    for d, s in sorted(zip(dst, src)):
        order.insert(d, s)
    return a.transpose(order)


def rollaxis(a, axis, start=0):
    a = asanyarray(a)
    axis = normaxis(axis, a.ndim)
    start = start + a.ndim if start < 0 else start
    if axis < start:
        start -= 1
    order = [x for x in range(a.ndim) if x != axis]
    order.insert(start, axis)
    return a.transpose(order)


def expand_dims(a, axis):
    a = asanyarray(a)
    if isinstance(axis, (list, tuple)):
        raise Unsupported("expand_dims of several axes")
    n = a.ndim + 1
    pos = normaxis(axis, n)
    return a[(slice(None),) * pos + (None,)]


@with_out
def square(x):
    return multiply(x, x)


@with_out
def negative(x):
    return -asanyarray(x) if isinstance(x, (list, tuple, ndarray)) else -x


@with_out
def positive(x):
    return +asanyarray(x) if isinstance(x, (list, tuple, ndarray)) else +x


@with_out
def reciprocal(x):
    return divide(1.0, x)



def realonly(x):
    if (isinstance(x, ndarray) or isinstance(x, SNum)) and \
            dt_of(x).kind == "c":
        raise TypeError("ufunc not supported for the input types")
    return x


def fabs(x, **kw):
    return abs_(realonly(x), **kw)


@with_out
def logical_not(x):
    if isinstance(x, (list, tuple)):
        x = asarray(x)
    return ufunc1(x, lambda v: bnot(v) if isinstance(v, SBool) else
                  (v == 0 if isinstance(v, (SInt, SNum)) else not v),
                  real.dtype(bool))


mod = remainder = BinU("mod")
floor_divide = BinU("floordiv")
bitwise_xor = BinU("xor")
logical_xor = LogU("xor")


def deg2rad(x):
    return multiply(realonly(x), num.PI() / const_num(180))


def rad2deg(x):
    return multiply(realonly(x), const_num(180) / num.PI())


radians, degrees = deg2rad, rad2deg


def full_like(a, v, dtype=None, **kw):
    a = asanyarray(a)
    return wraplike(a, full(a._shp, v, a._dt if dtype is None else dtype))


def trace(a, *k, **kw):
    return np_sum(diagonal(a, *k, **kw), axis=-1)


def diagonal(a, offset=0, axis1=0, axis2=1):
    a = asarray(a)
    if offset:
        raise Unsupported("offset of a diagonal")
    p, q = normaxis(axis1, a.ndim), normaxis(axis2, a.ndim)
    if p == q:
        raise ValueError("axis1 and axis2 cannot be the same")
    if not known_eq(a._shp[p], a._shp[q]):
        if isz(a._shp[p]) or isz(a._shp[q]):
            raise Unsupported("diagonal of a symbolic matrix")
        n = min(a._shp[p], a._shp[q])
    else:
        n = a._shp[p]
    rest = [k for k in range(a.ndim) if k not in (p, q)]
    f = a._snapshot()

    def fn(i):
        ix = [None] * a.ndim
        for k, j in zip(rest, i):
            ix[k] = j
        ix[p] = ix[q] = i[-1]
        return f(tuple(ix))
    return mkarray(tuple(a._shp[k] for k in rest) + (n,), fn, a._dt)


def vdot(a, b):
    return dot(conj(asarray(a).ravel()), asarray(b).ravel())


def tensordot(a, b, axes=2):
    a, b = asarray(a), asarray(b)
    if isinstance(axes, pyint):
        axes = (list(range(a.ndim - axes, a.ndim)), list(range(axes)))
    p, q = [[x] if isinstance(x, pyint) else list(x) for x in axes]
    p = [normaxis(x, a.ndim) for x in p]
    q = [normaxis(x, b.ndim) for x in q]
    l = list("abcdefgh"[:a.ndim])
    r = list("opqrstuv"[:b.ndim])
    for x, y in zip(p, q):
        r[y] = l[x]
    out = [c for k, c in enumerate(l) if k not in p] + \
        [c for k, c in enumerate(r) if k not in q]
    return einsum("%s,%s->%s" % ("".join(l), "".join(r), "".join(out)), a, b)


def tile(a, reps):
    a = asarray(a)
    reps = (reps,) if isinstance(reps, pyint) else tuple(reps)
    while a.ndim < len(reps):
        a = insert_axis(a, 0)
    reps = (1,) * (a.ndim - len(reps)) + reps
    for k, n in enumerate(reps):
        if n != 1:
            a = concatenate([a] * n, k)
    return a


def roll(a, shift, axis=None):
    a = asanyarray(a)
    if axis is None:
        return asarray(roll(a.ravel(), shift, 0)).reshape(a._shp)
    axis = normaxis(axis, a.ndim)
    n = a._shp[axis]
    if isz(n) or isz(shift):
        raise Unsupported("roll of a symbolic axis")
    f = a._snapshot()
    return wraplike(a, mkarray(a._shp, lambda i: f(
        i[:axis] + ((i[axis] - shift) % n,) + i[axis + 1:]), a._dt))


def ptp(a, axis=None):
    a = asanyarray(a)
    return a.max(axis) - a.min(axis)


def average(a, axis=None, weights=None):
    if weights is not None:
        raise Unsupported("weighted average")
    return asanyarray(a).mean(axis)


def dstack(seq):
    out = []
    for x in seq:
        x = atleast_2d(asarray(x))
        out.append(insert_axis(x, 2) if x.ndim == 2 else x)
    return concatenate(out, 2)


def array_split(a, n, axis=0):
    a = asanyarray(a)
    axis = normaxis(axis, a.ndim)
    size = a._shp[axis]
    if isz(size) or isz(n):
        raise Unsupported("split of a symbolic axis")
    pre = (slice(None),) * axis
    if isinstance(n, pyint):
        k, extra = divmod(size, n)
        cuts = [0]
        for j in range(n):
            cuts.append(cuts[-1] + k + (j < extra))
    else:
        cuts = [0] + [pyint(x) for x in n] + [size]
    return [a[pre + (slice(x, y),)] for x, y in zip(cuts, cuts[1:])]


def split(a, n, axis=0):
    a = asanyarray(a)
    size = a._shp[normaxis(axis, a.ndim)]
    if isinstance(n, pyint) and not isz(size) and size % n:
        raise ValueError("array split does not result in an equal division")
    return array_split(a, n, axis)


def vsplit(a, n):
    return split(a, n, 0)


def hsplit(a, n):
    return split(a, n, 0 if asarray(a).ndim == 1 else 1)


def block(rows):
    if not isinstance(rows, list):
        return asarray(rows)
    if isinstance(rows[0], list):
        return bmat(rows)
    return hstack([atleast_1d(x) for x in rows])


def meshgrid(*xs, **kw):
    ij = kw.pop("indexing", "xy") == "ij"
    if kw:
        raise Unsupported("meshgrid options")
    xs = [asarray(x).ravel() for x in xs]
    order = list(range(len(xs)))
    if not ij and len(xs) > 1:
        order[0], order[1] = 1, 0
    shp = [None] * len(xs)
    for x, k in zip(xs, order):
        shp[k] = x._shp[0]

    def one(x, k):
        f = x._snapshot()
        return mkarray(tuple(shp), lambda i: f((i[k],)), x._dt)
    return [one(x, k) for x, k in zip(xs, order)]


def fromiter(it, dtype, count=-1):
    return array(list(it), dtype=dtype)


def iterable(x):
    return hasattr(x, "__iter__")


def ediff1d(a):
    return diff(asarray(a).ravel())


class _Cat(object):
    def __init__(self, columns):
        self.columns = columns

    def __getitem__(self, key):
        parts = key if isinstance(key, tuple) else (key,)
        if any(isinstance(x, (slice, str)) for x in parts):
            raise Unsupported("ranges in r_ or c_")
        if self.columns:
            return column_stack([atleast_1d(x) for x in parts])
        return concatenate([atleast_1d(x) for x in parts])


r_ = _Cat(False)
c_ = _Cat(True)


@with_out
def arctan2(y, x):
    return angle_of(asanyarray(x), asanyarray(y))


def angle_of(x, y):
    for v in (x, y):
        if v._dt.kind == "c":
            raise TypeError("ufunc 'arctan2' not supported for the input "
                            "types")
    z = x + y * 1j
    f = z._snapshot()
    return wraplike(z, mkarray(z._shp, lambda i: num.app(
        "angle", [coerce(f(i))]), real.dtype(pyfloat)))


def outer(a, b):
    a, b = asarray(a).ravel(), asarray(b).ravel()
    return a[:, None] * b[None, :]


def inner(a, b):
    a, b = asarray(a), asarray(b)
    if a.ndim == b.ndim == 1:
        return dot(a, b)
    return tensordot(a, b, axes=(-1, -1))


def diff(a, n=1, axis=-1):
    a = asanyarray(a)
    if n != 1:
        raise Unsupported("repeated diff")
    axis = normaxis(axis, a.ndim)
    pre = (slice(None),) * axis
    return a[pre + (slice(1, None),)] - a[pre + (slice(None, -1),)]


def count_nonzero(a):
    a = asarray(a)
    return np_sum(a if a._dt.kind == "b" else a != 0)


def flip(a, axis=None):
    a = asanyarray(a)
    axes = norm_axes(axis, a.ndim)
    return a[tuple(slice(None, None, -1) if x in axes else slice(None)
                   for x in range(a.ndim))]


def fliplr(a):
    return flip(a, 1)


def flipud(a):
    return flip(a, 0)


@with_out
def hypot(a, b):
    return sqrt(add(square(realonly(a)), square(realonly(b))))


def broadcast_shapes(*shapes):
    return tuple(broadcast_shape([normshape(s) for s in shapes]))


def append(a, b, axis=None):
    if axis is None:
        return concatenate([asarray(a).ravel(), asarray(b).ravel()])
    return concatenate([a, b], axis)


@with_out
def isreal(x):
    return equal(imag_(asanyarray(x)), 0)


def clip(a, lo, hi):
    if lo is not None:
        a = maximum(a, lo)
    return a if hi is None else minimum(a, hi)


def ndenumerate(a):
    a = asarray(a)
    if any(isz(s) for s in a._shp):
        raise Unsupported("ndenumerate over symbolic axes")
    return [(ix, a._get(ix)) for ix in
            itertools.product(*[range(s) for s in a._shp])]


def ndindex(*shape):
    if len(shape) == 1 and isinstance(shape[0], tuple):
        shape = shape[0]
    if any(isz(s) for s in shape):
        if only_names_elements(sys._getframe(1)):
            return iter(())
        raise Unsupported("ndindex over symbolic axes")
    return itertools.product(*[range(s) for s in shape])


def median(a, axis=None, **kw):
    a = asarray(a)
    if a.size == 1 and axis is None:
        return a._get((0,) * a.ndim)
    raise Unsupported("median")


def argsort(a, axis=-1, kind=None, order=None):
    a = asarray(a)
    if a.ndim != 1:
        raise Unsupported("argsort of %d-d" % a.ndim)
    n = a._shp[0]
    if not isz(n):
        vals = [a._get((i,)) for i in range(n)]
        idx = []
        for i in range(n):      # stable insertion with forking comparisons
            j = len(idx)
            while j > 0 and _truth(OPS["lt"](vals[i], vals[idx[j - 1]])):
                j -= 1
            idx.insert(j, i)
        return from_nested(idx) if idx else mkarray((0,), None,
                                                    real.dtype(pyint))
    p = path()
    sorts = p.memo.setdefault("argsorts", [])
    for b, r in sorts:
        if b._seqkey() == a._seqkey() or (
                ikey(b._shp[0]) == ikey(n) and values_equal(a, b)):
            return alias(r)
    if p.binder:
        raise Unsupported("argsort under a binder")
    name = p.fresh("perm")
    fun = z3.Function(name, z3.IntSort(), z3.IntSort())
    frozen = mkarray(a._shp, a._snapshot(), a._dt)

    def fn(i):
        i = i[0]
        v = core.depvar("%s[%r]" % (name, i), lambda x: fn((x,)), (i,))
        p.add(v.z3() == fun(iz3(i)))
        p.add(z3.Implies(z3.And(iz3(i) >= 0, iz3(i) < iz3(n)),
                         z3.And(v.z3() >= 0, v.z3() < iz3(n))))
        return v
    r = mkarray((n,), fn, real.dtype(pyint))
    sorts.append((frozen, r))
    return alias(r)


def values_equal(a, b):
    p = path()
    i = SInt.fresh("gen")
    with p.scope():
        try:
            p.add(z3.And(i.z3() >= 0, i.z3() < iz3(a._shp[0])))
            return num.prove_eq(a._get((i,)), b._get((i,)))[0] == "proved"
        except Unsupported:
            return False


def sort(a, *k, **kw):
    a = asarray(a)
    return a[argsort(a)]


def searchsorted(x, v, side="left", sorter=None):
    """First position at which v could be inserted keeping x sorted."""
    if sorter is not None:
        raise Unsupported("searchsorted sorter")
    x, v = asarray(x), asanyarray(v)
    n = x._shp[0]
    g = v._snapshot()
    p = path()
    f = x._snapshot()
    if not isz(n):
        def fn(idx):
            val = g(idx)
            for k in range(n):
                c = OPS["le" if side == "left" else "lt"](val, f((k,)))
                if _truth(c):
                    return k
            return n
    else:
        memo = {}

        def fn(idx):
            if p.binder:
                raise Unsupported("searchsorted under a binder")
            val = g(idx)
            key = ("search", x._seqkey(), coerce(val).key(), side)
            r = p.memo.get(key)
            if r is None:
                r = SInt.fresh("pos")
                p.add(z3.And(r.z3() >= 0, r.z3() <= iz3(n)))
                le = "le" if side == "left" else "lt"
                if _truth(r < n):
                    c = OPS[le](val, f((r,)))
                    if not _truth(c):
                        raise core.Infeasible()
                if _truth(r > 0):
                    c = OPS[le](val, f((r - 1,)))
                    if _truth(c):
                        raise core.Infeasible()
                p.memo[key] = r
            return r
    r = mkarray(v._shp, fn, real.dtype(pyint))
    return element(r._get(())) if r._shp == () else r


def unique(*k, **kw):
    raise Unsupported("unique")


def round_(*k):
    raise Unsupported("round")


def seterr(**kw):
    return {}


class errstate(object):
    def __init__(self, **kw):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *k):
        return False


def vectorize(*k, **kw):
    raise Unsupported("vectorize")


# ------------------------------------------------------------------ linalg

class LinAlgError(Exception):
    pass


def matdet(m):
    n = len(m)
    if n == 0:
        return const_num(1)
    if n == 1:
        return m[0][0]
    if n == 2:
        return m[0][0] * m[1][1] - m[0][1] * m[1][0]
    # expand along the row with most zeros
    best = max(range(n), key=lambda r: len([1 for x in m[r] if x.iszero()]))
    r = const_num(0)
    for j in range(n):
        if m[best][j].iszero():
            continue
        minor = [row[:j] + row[j + 1:] for i, row in enumerate(m)
                 if i != best]
        d = m[best][j] * matdet(minor)
        r = r - d if (best + j) % 2 else r + d
    return r


def matinv(m):
    n = len(m)
    d = matdet(m)
    if d.iszero():
        raise LinAlgError("Singular matrix")
    di = d.inverse()
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            minor = [r[:i] + r[i + 1:] for k, r in enumerate(m) if k != j]
            c = matdet(minor)
            row.append((-c if (i + j) % 2 else c) * di)
        out.append(row)
    return out


def get_matrix(f, pre, n, m):
    return [[coerce(f(pre + (i, j))) for j in range(m)] for i in range(n)]


def matdims(a):
    if a.ndim < 2:
        raise LinAlgError("%d-dimensional array given. Array must be at "
                          "least two-dimensional" % a.ndim)
    n, m = a._shp[-2:]
    if isz(n) or isz(m):
        raise Unsupported("matrix of symbolic order")
    return n, m


def pick(table, i, j):
    i = i if not isz(i) else concretise(i, len(table))
    j = j if not isz(j) else concretise(j, len(table[0]))
    return table[i][j]


def concretise(i, n):
    for k in range(n):
        if _truth(i == k):
            return k
    raise core.Infeasible()


def linalg_inv(A):
    a = asanyarray(A)
    n, m = matdims(a)
    if n != m:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    f = a._snapshot()
    cache = {}

    def fn(idx):
        pre = idx[:-2]
        k = tuple(map(ikey, pre))
        t = cache.get(k)
        if t is None:
            t = matinv(get_matrix(f, pre, n, n))
            if not path().binder:
                cache[k] = t
        return pick(t, idx[-2], idx[-1])
    r = mkarray(a._shp, fn, floatish(a._dt))
    if not any(isz(s) for s in a._shp):
        pass
    # a singular matrix raises at the call in numpy, not at the read
    probe(a, lambda pre: fn(pre + (0, 0)) if n else None)
    return wraplike(a, r)


def probe(a, f):
    """Evaluate f at the first matrix so that errors surface at the call."""
    pre = tuple(0 for _ in a._shp[:-2])
    if all(not isz(s) and s >= 1 or isz(s) for s in a._shp[:-2]) \
            if False else True:
        try:
            f(pre)
        except Unsupported:
            pass


def linalg_det(A):
    a = asarray(A)
    n, m = matdims(a)
    if n != m:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    f = a._snapshot()
    r = mkarray(a._shp[:-2], lambda idx: matdet(get_matrix(f, idx, n, n)),
                floatish(a._dt))
    return element(r._get(())) if r._shp == () else r


def opaque_matrix(name, a, shape, real_=False, pos=False):
    """An assumed contract: some function of the entries of one matrix,
    applied to every matrix of a stack."""
    n, m = matdims(a)
    lead = a._shp[:-2]
    nl = len(lead)
    g = a._snapshot()

    def fn(idx):
        pre, idx = tuple(idx[:nl]), idx[nl:]
        ent = [x for r in get_matrix(g, pre, n, m) for x in r]
        k = ["%d" % concretise(i, s) if isz(i) else "%d" % i
             for i, s in zip(idx, shape)]
        r = num.app("%s%d.%s" % (name, n, ".".join(k)), ent, real=real_)
        if pos:
            at = num.single_atom(r)
            if at is not None:
                at.pos = True
        return r
    return mkarray(tuple(lead) + tuple(shape), fn,
                   real.dtype(pyfloat if real_ else complex))


def linalg_eigvals(A):
    a = asarray(A)
    n, m = matdims(a)
    if n != m:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    return opaque_matrix("eigvals", a, (n,))


def linalg_svd(A):
    a = asarray(A)
    n, m = matdims(a)
    return (opaque_matrix("svdu", a, (n, n)),
            opaque_matrix("svds", a, (min(n, m),), True, True),
            opaque_matrix("svdv", a, (m, m)))


def linalg_solve(A, B):
    a, b = asarray(A), asanyarray(B)
    n, m = matdims(a)
    if n != m:
        raise LinAlgError("Last 2 dimensions of the array must be square")
    vec = b.ndim == a.ndim - 1
    if vec:
        b2 = insert_axis(asarray(b), b.ndim)
    else:
        b2 = asarray(b)
    q = b2._shp[-1]
    if not known_eq(b2._shp[-2], n):
        raise ValueError("solve: mismatch in core dimension")
    outer = broadcast_shape([a._shp[:-2], b2._shp[:-2]])
    fa = bget(a, outer + a._shp[-2:])
    fb = bget(b2, outer + b2._shp[-2:])
    dt = real.result_type(floatish(a._dt), floatish(b._dt))

    def fn(idx):
        pre = idx[:-2]
        inv = matinv(get_matrix(fa, pre, n, n))
        i = idx[-2] if not isz(idx[-2]) else concretise(idx[-2], n)
        r = const_num(0)
        for k in range(n):
            r = r + inv[i][k] * coerce(fb(pre + (k, idx[-1])))
        return r
    r = mkarray(outer + (n, q), fn, dt)
    if vec:
        r = drop_axes(r, [r.ndim - 1])
    return wraplike(b, r)


def unsupported_fn(name):
    def f(*k, **kw):
        raise Unsupported(name)
    return f


linalg = types.ModuleType("numpy.linalg")
linalg.inv = linalg_inv
linalg.det = linalg_det
linalg.eigvals = linalg_eigvals
linalg.svd = linalg_svd
linalg.solve = linalg_solve
linalg.LinAlgError = LinAlgError
for _n in ("eig", "lstsq", "norm", "pinv", "eigh", "qr"):
    setattr(linalg, _n, unsupported_fn("linalg." + _n))

random = types.ModuleType("numpy.random")
for _n in ("normal", "rand", "random", "uniform", "randint", "randn"):
    setattr(random, _n, unsupported_fn("random." + _n))

lib = types.ModuleType("numpy.lib")
lib.stride_tricks = types.ModuleType("numpy.lib.stride_tricks")
lib.stride_tricks.DummyArray = DummyArray
lib.stride_tricks.as_strided = as_strided
lib.stride_tricks.broadcast_arrays = broadcast_arrays
char = types.ModuleType("numpy.char")


def _char(name):
    def f(a, *k):
        a = asarray(a)
        g = a._snapshot()
        if any(isz(s) for s in a._shp):
            raise Unsupported("char.%s of a symbolic axis" % name)
        vals = real.array([g(ix) for ix in
                           itertools.product(*[range(s) for s in a._shp])])
        r = getattr(real.char, name)(vals, *k).reshape(a._shp)
        return from_nested(r)
    return f


char.encode = _char("encode")
char.decode = _char("decode")


class NumpyModule(types.ModuleType):
    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if hasattr(real, name):
            raise Unsupported("numpy.%s" % name)
        raise AttributeError("module 'numpy' has no attribute %r" % name)


RENAME = {"np_sum": "sum", "np_any": "any", "np_all": "all", "abs_": "abs",
          "real_": "real", "imag_": "imag", "amin": "min", "amax": "max"}
HIDDEN = {"real", "core", "num", "path", "product", "coerce", "SInt", "SNum",
          "SBool", "Unsupported", "z3", "sys", "math", "itertools", "types",
          "functools", "element", "prepare", "finish", "prov", "write",
          "pick", "probe", "raw", "alias", "strided", "selection"}


def build_module():
    m = NumpyModule("numpy")
    m.__path__ = []
    for k, v in globals().items():
        if k.startswith("_") or k in HIDDEN or k in RENAME or \
                not hasattr(real, k):
            continue
        setattr(m, k, v)
    for k, v in RENAME.items():
        setattr(m, v, globals()[k])
        if hasattr(real, k):
            setattr(m, k, globals()[k])
    m.int, m.float, m.complex, m.object, m.bool, m.str = \
        pyint, pyfloat, complex, object, bool, str
    m.__version__ = real.__version__
    m._vp_symbolic = True
    return m
