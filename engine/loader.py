"""Import of the unmodified /repo modules, for proving or for running.

prepare_symbolic(): the modules of /repo are compiled from their source as it
is; `numpy` resolves to the symbolic model, and the module globals get a
builtins dictionary in which len/range/isinstance/int/float/complex know the
symbolic values.  prepare_concrete(): ordinary import with the real numpy.
"""
import builtins
import importlib.machinery
import importlib.util
import os
import sys
import types

REPO = os.environ.get("VERIF_REPO", "/repo")


class NoCache(importlib.machinery.SourceFileLoader):
    extra = None

    def set_data(self, *k, **kw):
        pass

    def path_stats(self, p):
        raise OSError("no cached bytecode")

    def exec_module(self, module):
        if self.extra is not None:
            module.__dict__["__builtins__"] = self.extra
        super().exec_module(module)


class Finder(object):
    def __init__(self, extra, skip=()):
        self.extra = extra
        self.skip = skip
        self.loaded = {}

    def find_spec(self, name, pth=None, target=None):
        if name != "hftools" and not name.startswith("hftools."):
            return None
        base = os.path.join(REPO, *name.split("."))
        init = os.path.join(base, "__init__.py")
        if os.path.isfile(init):
            fn, pk = init, [base]
        elif os.path.isfile(base + ".py"):
            fn, pk = base + ".py", None
        else:
            return None
        ld = NoCache(name, fn)
        ld.extra = self.extra
        self.loaded[name] = fn
        return importlib.util.spec_from_file_location(
            name, fn, loader=ld, submodule_search_locations=pk)


class Stub(types.ModuleType):
    """Module whose use is outside the model."""

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        s = Stub(self.__name__ + "." + name)
        return s

    def __call__(self, *k, **kw):
        from engine.core import Unsupported
        raise Unsupported(self.__name__)

    def __mro_entries__(self, bases):
        return (object,)


class TypeProxy(object):
    def __init__(self, t, call):
        self.__dict__["_vp_real"] = t
        self.__dict__["_vp_call"] = call
        self.__dict__["__name__"] = t.__name__

    def __call__(self, *k, **kw):
        return self._vp_call(*k, **kw)

    def __instancecheck__(self, x):
        return isinstance(x, self._vp_real)

    def __subclasscheck__(self, c):
        return issubclass(c, self._vp_real)

    def __eq__(self, o):
        return getattr(o, "_vp_real", o) is self._vp_real

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self._vp_real)

    def __mro_entries__(self, bases):
        return (self._vp_real,)

    def __getattr__(self, n):
        return getattr(self._vp_real, n)

    def __repr__(self):
        return repr(self._vp_real)

    def __reduce__(self):
        return self._vp_real.__name__


def symbolic_builtins():
    from engine import symnp, num
    from engine.core import SInt, SBool, Unsupported
    from engine.num import SNum
    b = dict(builtins.__dict__)
    real_isinstance, real_len = isinstance, len

    def flat(t):
        if type(t) is tuple:
            out = []
            for x in t:
                out.extend(flat(x))
            return out
        return [getattr(t, "_vp_real", t)]

    def vp_isinstance(x, t):
        tx = type(x)
        if tx in (SInt, SNum, SBool, symnp.Spread):
            if tx is symnp.Spread:
                k = x.arr._dt.kind
                face = {"i": int, "u": int, "f": float, "c": complex,
                        "b": bool, "U": str}.get(k, object)
            elif tx is SInt:
                face = int
            elif tx is SBool:
                face = bool
            else:
                face = float if x.isreal() else complex
            for y in flat(t):
                if y is tx:
                    return True
                if real_isinstance(y, type) and issubclass(face, y):
                    return True
            return False
        return real_isinstance(x, tuple(flat(t)))

    def vp_len(x):
        f = getattr(type(x), "_symlen", None)
        if f is not None:
            return f(x)
        if real_isinstance(x, (list, tuple)) and \
                any(type(y) is symnp.Spread for y in x):
            return symnp.spread_len(x)
        return real_len(x)

    def vp_int(*k, **kw):
        if k and real_isinstance(k[0], (SInt, SNum, symnp.ndarray)):
            x = k[0]
            if real_isinstance(x, symnp.ndarray):
                x = x._vp_scalar()
            if real_isinstance(x, SInt):
                return x
            if real_isinstance(x, SNum):
                try:
                    return symnp.toindex(x, 0) if not x.den else int(x)
                except Unsupported:
                    return int(x)
            return int(x)
        return int(*k, **kw)

    def vp_float(*k):
        if k:
            x = k[0]
            if real_isinstance(x, symnp.ndarray):
                x = x._vp_scalar()
            if real_isinstance(x, SNum):
                return x.real if not x.isreal() else x
            if real_isinstance(x, SInt):
                return SNum.from_int(x)
        f = float(*k)
        return num.T.placeholders.get(f, f)

    def vp_complex(*k):
        if any(real_isinstance(x, (SNum, SInt)) or (
                real_isinstance(x, float) and x in num.T.placeholders)
                for x in k):
            r = num.coerce(k[0])
            if real_len(k) > 1:
                r = r + num.coerce(k[1]) * num.imag_unit()
            return r
        return complex(*k)

    b["isinstance"] = vp_isinstance
    b["len"] = vp_len
    b["range"] = symnp.sym_range
    b["int"] = TypeProxy(int, vp_int)
    b["float"] = TypeProxy(float, vp_float)
    b["complex"] = TypeProxy(complex, vp_complex)
    return b


FINDER = None


def prepare_symbolic():
    global FINDER
    sys.dont_write_bytecode = True
    import numpy                     # noqa: the real one, first
    import numpy.linalg, numpy.lib.stride_tricks, numpy.random  # noqa
    import six, yaml                 # noqa
    from engine import symnp
    fake = symnp.build_module()
    for n in [m for m in sys.modules if m == "numpy" or
              m.startswith("numpy.")]:
        sys.modules.setdefault("_real_" + n, sys.modules[n])
    sys.modules["numpy"] = fake
    sys.modules["numpy.linalg"] = fake.linalg
    sys.modules["numpy.random"] = fake.random
    sys.modules["numpy.lib"] = fake.lib
    sys.modules["numpy.lib.stride_tricks"] = fake.lib.stride_tricks
    sys.modules["numpy.char"] = fake.char
    from engine import symmpl
    symmpl.install(Stub)
    for n in ("scipy", "scipy.io", "scipy.interpolate", "scipy.optimize"):
        s = Stub(n)
        s.__path__ = []
        sys.modules[n] = s
    from engine import symh5
    sys.modules["h5py"] = symh5.build_module()
    FINDER = Finder(symbolic_builtins())
    sys.meta_path.insert(0, FINDER)
    import warnings
    warnings.simplefilter("ignore")
    return fake


def prepare_concrete():
    global FINDER
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    FINDER = Finder(None)
    sys.meta_path.insert(0, FINDER)
    import numpy
    return numpy
