"""
In-memory stand-in for netCDF4.Dataset used in symbolic runs.

Files are real (empty placeholder) files whose text is a key into a content table, so whatever the
code under test does with paths (rename, replace, exists, makedirs ...) acts on the real file system
inside the scratch directory of the run, and what ends up under a path is what was written there.
Replays use the real netCDF4 library instead.
"""

import os
import weakref
from collections import OrderedDict

import numpy as np

TABLE = {}
WRITERS = weakref.WeakValueDictionary()     # path -> dataset that is writing it
_N = [0]
FILL = object()


class FaultInjected(Exception):
    """The injected I/O failure"""


class Hook(object):
    """Counts I/O operations; the harness may make one of them fail"""
    fail = None     # function(operation number, name) -> bool

    def __init__(self):
        self.n = 0

    def op(self, name):
        k = self.n
        self.n += 1
        if Hook.fail is not None and Hook.fail(k, name):
            raise FaultInjected("injected failure in I/O operation %d (%s)" % (k, name))


HOOK = Hook()


def reset():
    TABLE.clear()
    WRITERS.clear()
    _N[0] = 0
    HOOK.n = 0
    Hook.fail = None


class Dim(object):
    def __init__(self, name, size, ds):
        self.name = name
        self._size = 0 if size is None else size
        self._unl = size is None

    def __len__(self):
        return self._size

    @property
    def size(self):
        return self._size

    def isunlimited(self):
        return self._unl


class Attributed(object):
    """names of python attributes of the stand-in itself"""
    OWN = ()

    def __setattr__(self, k, v):
        if k.startswith("_") and k != "_FillValue" or k in type(self).OWN:
            object.__setattr__(self, k, v)
        else:
            self.setncattr(k, v)

    def __delattr__(self, k):
        self.delncattr(k)

    def delncattr(self, k):
        HOOK.op("delncattr")
        if k not in self._attrs:
            raise RuntimeError("NetCDF: Attribute not found")
        del self._attrs[k]

    def setncattr(self, k, v):
        HOOK.op("setncattr")
        self._attrs[k] = v

    setncattr_string = setncattr

    def setncatts(self, d):
        HOOK.op("setncatts")
        self._attrs.update(d)

    def ncattrs(self):
        return list(self._attrs)

    def getncattr(self, k):
        if k not in self._attrs:
            raise AttributeError("NetCDF: Attribute not found")
        return self._attrs[k]

    def __getattribute__(self, k):
        if k == "__dict__":         # as in netCDF4: the attributes
            return OrderedDict(object.__getattribute__(self, "_attrs"))
        try:
            return object.__getattribute__(self, k)
        except AttributeError:
            try:
                attrs = object.__getattribute__(self, "_attrs")
            except AttributeError:
                attrs = {}
            if (not k.startswith("_") or k == "_FillValue") and k in attrs:
                return attrs[k]
            raise AttributeError("NetCDF: Attribute not found")


class Var(Attributed):
    OWN = ("name", "dtype", "dimensions", "created_with")

    def __init__(self, ds, name, dtype, dims, fill_value=None, **kw):
        self._ds = ds
        self.name = name
        self._name = name
        if dtype in ("char", "c", "S1"):
            self.dtype = np.dtype("S1")
        else:
            self.dtype = np.dtype(dtype) if dtype is not str else str
        self.dimensions = tuple(dims)
        self._attrs = OrderedDict()
        if fill_value is not None and fill_value is not False:
            self._attrs["_FillValue"] = fill_value
        self.created_with = dict(kw)
        shape = tuple(len(ds.dimensions[d]) for d in self.dimensions)
        self._data = np.ma.masked_all(shape, dtype=object)

    @property
    def shape(self):
        return tuple(len(self._ds.dimensions[d]) for d in self.dimensions)

    @property
    def ndim(self):
        return len(self.dimensions)

    def __len__(self):
        return self.shape[0]

    @property
    def size(self):
        return int(np.prod(self.shape))

    def filters(self):
        z = bool(self.created_with.get("zlib")) and self.ndim > 0
        return {"zlib": z, "complevel": self.created_with.get("complevel", 4) if z else 0}

    def get_dims(self):
        return tuple(self._ds.dimensions[d] for d in self.dimensions)

    @property
    def datatype(self):
        return self.dtype

    def _sync(self):
        shape = self.shape
        if self._data.shape != shape:
            new = np.ma.masked_all(shape, dtype=object)
            sl = tuple(slice(0, n) for n in self._data.shape)
            if self._data.size:
                new[sl] = self._data
            self._data = new

    def _norm(self, idx):
        if not isinstance(idx, tuple):
            idx = (idx,)
        if Ellipsis in [i if i is Ellipsis else None for i in idx]:
            p = [k for k, i in enumerate(idx) if i is Ellipsis][0]
            fill = len(self.dimensions) - len(idx) + 1
            idx = idx[:p] + (slice(None),) * fill + idx[p + 1:]
        if not self.dimensions and len(idx) == 1 and isinstance(idx[0], (slice, int)):
            return ()       # a scalar variable may be indexed as if it had one element
        return tuple(idx) + (slice(None),) * (len(self.dimensions) - len(idx))

    def __getitem__(self, idx):
        HOOK.op("read")
        self._sync()
        idx = self._norm(idx)
        out = self._data[idx]
        if out is np.ma.masked:
            return out
        if isinstance(out, np.ma.MaskedArray):
            out = out.copy()
            if not np.ma.getmaskarray(out).any():
                if self.dtype != np.dtype("S1") and self.dtype.kind in "iu":
                    try:
                        return np.ma.array(out.data.astype(self.dtype))
                    except (TypeError, ValueError):
                        pass
                out = np.ma.array(out.data)
            elif self.dtype != np.dtype("S1") and self.dtype.kind in "iu":
                try:
                    return np.ma.array(out.filled(0).astype(self.dtype), mask=np.ma.getmaskarray(out))
                except (TypeError, ValueError):
                    pass
            if self.dtype == np.dtype("S1"):
                return np.ma.array(out.filled(b"").astype("S1"),
                                   mask=np.ma.getmaskarray(out))
            return out
        if self.dtype is not str and self.dtype.kind in "iu":
            try:
                return np.ma.array(np.asarray(out).astype(self.dtype))
            except (TypeError, ValueError):
                pass
        if self.dtype is not str and not isinstance(out, np.ndarray):      # as netCDF4: an array without dimensions
            a = np.empty((), dtype=self._data.dtype)
            a[()] = np.float64(out) if type(out) is float else out     # operations on it give numpy's scalars
            return np.ma.array(a)
        return out

    def __setitem__(self, idx, value):
        HOOK.op("write")
        if self._ds._mode == "r":
            raise RuntimeError("NetCDF: Write to read only")
        self._sync()
        idx = self._norm(idx)
        vshape = np.shape(value)
        # unlimited dimensions grow
        full = []
        nsl = sum(isinstance(i, slice) for i in idx)
        axis = len(vshape) - nsl
        for d, i in zip(self.dimensions, idx):
            dim = self._ds.dimensions[d]
            if isinstance(i, slice):
                if dim._unl and (i.step is None or i.step == 1):
                    start = 0 if i.start is None else i.start
                    n = vshape[axis] if axis >= 0 else 1
                    stop = i.stop if i.stop is not None else max(start + n, dim._size)
                    dim._size = max(dim._size, stop)
                    i = slice(start, stop)
                axis += 1
            elif dim._unl:
                dim._size = max(dim._size, int(i) + 1)
            full.append(i)
        self._sync()
        if isinstance(value, np.ma.MaskedArray):
            value = np.ma.array(np.ma.getdata(value).astype(object),
                                mask=np.ma.getmaskarray(value))
        else:
            value = np.asarray(value, dtype=object)
        if len(full) == 0:
            self._data[()] = value if np.shape(value) == () else value.reshape(())
        else:
            self._data[tuple(full)] = value


class FakeDataset(Attributed):
    OWN = ("dimensions", "variables", "data_model", "file_format")

    def __init__(self, path, mode="r", format="NETCDF4", clobber=True, **kw):
        path = str(path)
        HOOK.op("open" + mode[0])
        self._path = path
        self._mode = mode
        self._open = True
        if mode[0] == "w":
            held = WRITERS.get(os.path.realpath(path))
            if held is not None and held._open:
                raise PermissionError(13, "Permission denied (open for writing)", path)
            WRITERS[os.path.realpath(path)] = self
            _N[0] += 1
            self._key = "fake-netcdf %d" % _N[0]
            with open(path, "w") as f:
                f.write(self._key)
            self.dimensions = OrderedDict()
            self.variables = OrderedDict()
            self._attrs = OrderedDict()
            self.data_model = self.file_format = format
            TABLE[self._key] = {"ds": self, "complete": False}
        else:
            with open(path) as f:
                self._key = f.read()
            if self._key not in TABLE:
                raise OSError("NetCDF: Unknown file format: %r" % path)
            src = TABLE[self._key]["ds"]
            self.dimensions = src.dimensions
            self.data_model = self.file_format = src.data_model
            self._attrs = src._attrs
            self.variables = src.variables

    def __getitem__(self, name):
        if name not in self.variables:
            raise IndexError("%s not found in /" % name)
        return self.variables[name]

    def filepath(self):
        return self._path

    def isopen(self):
        return self._open

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def createDimension(self, name, size=None):
        HOOK.op("createDimension")
        self.dimensions[name] = Dim(name, size, self)
        return self.dimensions[name]

    def createVariable(self, name, dtype, dimensions=(), fill_value=None, **kw):
        HOOK.op("createVariable")
        v = Var(self, name, dtype, dimensions, fill_value=fill_value, **kw)
        self.variables[name] = v
        return v

    def set_auto_mask(self, flag):
        pass

    set_auto_maskandscale = set_auto_scale = set_auto_mask

    def sync(self):
        HOOK.op("sync")

    def close(self):
        HOOK.op("close" if self._mode[0] == "w" else "closer")
        if not self._open:
            raise RuntimeError("NetCDF: Not a valid ID")
        self._open = False
        if self._mode[0] == "w":
            TABLE[self._key]["complete"] = True


def lookup(path):
    """the content stored under a path: (dataset, complete?) or None"""
    try:
        with open(path) as f:
            key = f.read()
    except (OSError, UnicodeDecodeError):
        return None
    t = TABLE.get(key)
    return None if t is None else (t["ds"], t["complete"])
