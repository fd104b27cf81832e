"""In-memory model of the part of h5py 2.10 the code uses.

An assumed contract on the dependency: files are trees of groups and data
sets, names are listed in alphabetical order, a data set stores a copy of the
array it is given (shape, dtype and every element), resize pads with zeros,
attributes keep what they are given, a dimension scale attached to an axis is
listed for that axis.  Cross-checked by the concrete leg, which runs the same
contracts on the real h5py.
"""
import os
import types
from engine.core import Unsupported

STORE = {}


def np():
    from engine import symnp
    return symnp


class Attrs(dict):
    def __setitem__(self, k, v):
        if isinstance(v, list):
            v = list(v)
        dict.__setitem__(self, k, v)


class Node(object):
    def __init__(self, parent, name):
        self.parent = parent
        self.name = name
        self.attrs = Attrs()


class Group(Node):
    def __init__(self, parent=None, name="/"):
        Node.__init__(self, parent, name)
        self.kids = {}

    def _add(self, name, node):
        if "/" in name.strip("/"):
            raise Unsupported("nested h5py names")
        if name in self.kids:
            raise RuntimeError("Unable to create link (name already exists)")
        self.kids[name] = node
        return node

    def _path(self, name):
        return self.name.rstrip("/") + "/" + name

    def create_group(self, name):
        return self._add(name, Group(self, self._path(name)))

    def create_dataset(self, name, shape=None, dtype=None, data=None,
                       maxshape=None, compression=None, **kw):
        if kw or shape is not None or dtype is not None:
            raise Unsupported("create_dataset options")
        sn = np()
        if not isinstance(data, sn.ndarray) and hasattr(data, "data"):
            raise Unsupported("create_dataset from %r" % type(data))
        arr = sn.array(data)
        if compression is not None and arr.ndim == 0:
            raise TypeError("Scalar datasets don't support chunk/filter "
                            "options")
        if arr.dtype.kind in "UM":
            raise TypeError("No conversion path for dtype: %r" % arr.dtype)
        if maxshape is not None and len(maxshape) != arr.ndim:
            raise ValueError("Chunk shape must have the rank of the data")
        return self._add(name, Dataset(self, self._path(name), arr, maxshape))

    def __getitem__(self, name):
        if name not in self.kids:
            raise KeyError("Unable to open object (object %r doesn't exist)"
                           % name)
        return self.kids[name]

    def __contains__(self, name):
        return name in self.kids

    def __iter__(self):
        return iter(sorted(self.kids, key=lambda x: x.encode("utf8")))

    def __len__(self):
        return len(self.kids)

    def keys(self):
        return list(self)

    def items(self):
        return [(k, self.kids[k]) for k in self]

    def values(self):
        return [self.kids[k] for k in self]


class Axis(object):
    def __init__(self):
        self.scales = []

    def attach_scale(self, ds):
        self.scales.append(ds)

    def __len__(self):
        return len(self.scales)

    def __getitem__(self, k):
        return self.scales[k]


class Axes(object):
    def __init__(self, n):
        self.axes = [Axis() for _ in range(n)]

    def create_scale(self, ds, name=""):
        if not isinstance(ds, Dataset):
            raise TypeError("not a data set")

    def __len__(self):
        return len(self.axes)

    def __getitem__(self, k):
        return self.axes[k]

    def __iter__(self):
        return iter(self.axes)


class Dataset(Node):
    def __init__(self, parent, name, arr, maxshape):
        Node.__init__(self, parent, name)
        self._arr = arr
        self.maxshape = tuple(maxshape) if maxshape is not None else arr.shape
        self.chunked = maxshape is not None
        self.dims = Axes(arr.ndim)

    @property
    def shape(self):
        return self._arr.shape

    @property
    def ndim(self):
        return self._arr.ndim

    @property
    def dtype(self):
        return self._arr.dtype

    @property
    def value(self):
        return self[()]

    def _vp_array(self):
        return np().array(self._arr)

    def __len__(self):
        return self._arr.shape[0]

    def __getitem__(self, k):
        sn = np()
        r = self._arr[k]
        return sn.array(r) if isinstance(r, sn.ndarray) else r

    def __setitem__(self, k, v):
        self._arr[k] = v

    def resize(self, size, axis=None):
        sn = np()
        if not self.chunked:
            raise TypeError("Only chunked datasets can be resized")
        if axis is None:
            raise Unsupported("resize without axis")
        old = self._arr
        shape = list(old.shape)
        if self.maxshape[axis] is not None:
            raise ValueError("unable to set extent")
        shape[axis] = size
        new = sn.zeros(tuple(shape), dtype=old.dtype)
        sl = [slice(None)] * len(shape)
        sl[axis] = slice(0, old.shape[axis])
        new[tuple(sl)] = old
        self._arr = new


class File(Group):
    def __new__(cls, name, mode="r"):
        key = str(name)
        if mode in ("r", "r+") and key not in STORE:
            raise OSError("Unable to open file " + key)
        if mode == "w" or key not in STORE:
            f = object.__new__(cls)
            Group.__init__(f)
            f.filename = key
            STORE[key] = f
            if os.path.isdir(os.path.dirname(key)):
                with open(key, "wb") as stub:
                    stub.write(b"\x89HDF\r\n\x1a\n\x00\xff\n")
        f = STORE[key]
        f.mode = mode
        return f

    def __init__(self, name, mode="r"):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *k):
        self.close()
        return False

    def close(self):
        pass


def build_module():
    import numpy
    m = types.ModuleType("h5py")
    m.File, m.Group, m.Dataset = File, Group, Dataset
    m.special_dtype = lambda vlen=None: numpy.dtype("O")
    m.is_hdf5 = lambda fn: str(fn) in STORE
    return m
