"""
The environment of the symbolic runs.

numpy keeps Python objects only in arrays of dtype object.  Code of the system under test that
allocates a float array and stores computed values into it would force a float out of a symbolic
value, so while a symbolic run is active the modules of the system under test see a numpy whose
allocation functions return object arrays.  Nothing else of their code is changed.  Concrete
(replay) runs use the unmodified modules.
"""

import math
import operator
import sys
import types
from contextlib import contextmanager

import cf_units
import netCDF4
import numpy as _np

from .values import SymBool, SymInt, SymReal, is_sym
from .core import Unsupported

GARBAGE = 987654321.125          # contents of "uninitialised" arrays


def _floaty(dtype):
    if dtype is None:
        return True
    try:
        return _np.issubdtype(_np.dtype(dtype), _np.floating)
    except TypeError:
        return False


def has_sym(x):
    if is_sym(x):
        return True
    if isinstance(x, _np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(has_sym(i) for i in x)
    return False


def _alloc(real, fill):
    def f(shape, dtype=None, *args, **kw):
        if _floaty(dtype):
            r = _np.empty(shape, dtype=object)
            r.fill(fill)
            return r
        return real(shape, dtype, *args, **kw)
    return f


def _full(shape, fill_value, dtype=None, *args, **kw):
    if _floaty(dtype):
        r = _np.empty(shape, dtype=object)
        r.fill(float(fill_value) if isinstance(fill_value, (int, float)) and not is_sym(fill_value)
               else fill_value)
        return r
    return _np.full(shape, fill_value, dtype, *args, **kw)


def _like(real, fill):
    def f(a, dtype=None, *args, **kw):
        t = getattr(a, "dtype", None) if dtype is None else dtype
        if dtype is None and t is None:
            t = _np.asarray(a).dtype
        if t == object or _floaty(t):
            r = real(a, dtype=object, *args, **kw)
            r[...] = fill
            return r
        return real(a, dtype, *args, **kw)
    return f


def _conv(real):
    def f(a, dtype=None, *args, **kw):
        if dtype is not None and _floaty(dtype) and has_sym(a):
            dtype = object
        return real(a, dtype, *args, **kw)
    return f


def _elementwise(real, symval):
    def f(x, *args, **kw):
        if is_sym(x):
            return _np.bool_(symval)
        if isinstance(x, _np.ndarray) and x.dtype == object:
            d = _np.ma.getdata(x)
            out = _np.empty(d.shape, dtype=bool)
            for i in _np.ndindex(d.shape):
                v = d[i]
                out[i] = symval if is_sym(v) else bool(real(v))
            if isinstance(x, _np.ma.MaskedArray):
                return _np.ma.array(out, mask=_np.ma.getmask(x))
            return out
        return real(x, *args, **kw)
    return f


def _digitize(x, bins, right=False):
    if not has_sym(x) and not has_sym(bins):
        return _np.digitize(x, bins, right=right)
    b = list(_np.asarray(bins, dtype=object))
    dec = len(b) > 1 and bool(b[0] > b[-1])
    asc = b[::-1] if dec else b

    def one(v):
        n = 0
        for e in asc:
            c = (v > e) if right else (v >= e)
            if not c:
                break
            n += 1
        return len(b) - n if dec else n
    xs = _np.asarray(x, dtype=object)
    if xs.shape == ():
        return one(xs.item())
    out = _np.empty(xs.shape, dtype=int)
    for i in _np.ndindex(xs.shape):
        out[i] = one(xs[i])
    return out


def _interp(x, xp, fp, left=None, right=None, period=None):
    if not (has_sym(x) or has_sym(xp) or has_sym(fp)):
        return _np.interp(x, xp, fp, left, right, period)
    if left is not None or right is not None or period is not None:
        raise Unsupported("numpy.interp of symbolic values with options")
    xp, fp = list(_np.asarray(xp, dtype=object)), list(_np.asarray(fp, dtype=object))
    if any(not bool(a < b) for a, b in zip(xp, xp[1:])):
        raise Unsupported("numpy.interp: points do not increase")

    def one(v):
        if bool(v < xp[0]):
            return fp[0]
        for k in range(len(xp) - 1):
            if bool(v < xp[k + 1]):
                return fp[k] + (fp[k + 1] - fp[k]) / (xp[k + 1] - xp[k]) * (v - xp[k])
        return fp[-1]
    xs = _np.asarray(x, dtype=object)
    out = _np.empty(xs.shape, dtype=object)
    for i in _np.ndindex(xs.shape):
        out[i] = one(xs[i])
    return out


def _transcendental(real):
    """functions with no symbolic counterpart, of object arrays that hold plain numbers"""
    def f(x, *args, **kw):
        if isinstance(x, _np.ndarray) and x.dtype == object and not kw and not args:
            if any(is_sym(v) for v in _np.ma.getdata(x).flat):
                raise Unsupported("%s of a symbolic value" % real.__name__)
            out = real(_np.ma.getdata(x).astype(float))
            if isinstance(x, _np.ma.MaskedArray):
                out = _np.ma.array(out, mask=_np.ma.getmask(x))
            return out
        return real(x, *args, **kw)
    return f


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    if not (has_sym(a) or has_sym(b)):
        return _np.isclose(a, b, rtol, atol, equal_nan)
    return abs(_np.subtract(a, b)) <= atol + rtol * abs(_np.asarray(b))


def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return bool(_np.all(_isclose(a, b, rtol, atol, equal_nan)))


def _linspace(start, stop, num=50, endpoint=True, **kw):
    if not (has_sym(start) or has_sym(stop)) or kw:
        return _np.linspace(start, stop, num, endpoint, **kw)
    n = num - 1 if endpoint else num
    out = _np.empty(num, dtype=object)
    for k in range(num):
        out[k] = stop if endpoint and k and k == n else start + (stop - start) * (k / n if n else 0.0)
    return out


def _ma_average(a, axis=None, weights=None, returned=False, **kw):
    if weights is None and not returned and not kw and has_sym(_np.ma.getdata(a)):
        return _np.ma.mean(a, axis=axis)
    return _np.ma.average(a, axis=axis, weights=weights, returned=returned, **kw)


def _symalt(real, alt):
    def f(x, *args, **kw):
        return alt(x, *args, **kw) if has_sym(x) else real(x, *args, **kw)
    return f


class _Proxy(types.ModuleType):
    def __init__(self, real, over):
        super(_Proxy, self).__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__.update(over)

    def __getattr__(self, k):
        return getattr(self._real, k)


def _ma_alloc(real, fill):
    g = _alloc(real, fill)

    def f(shape, dtype=None, *args, **kw):
        r = g(shape, dtype, *args, **kw)
        return r if isinstance(r, _np.ma.MaskedArray) else _np.ma.asarray(r)
    return f


_MA_OVER = {
    "zeros": _ma_alloc(_np.ma.zeros, 0.0),
    "ones": _ma_alloc(_np.ma.ones, 1.0),
    "empty": _ma_alloc(_np.ma.empty, GARBAGE),
    "zeros_like": _like(_np.ma.zeros_like, 0.0),
    "ones_like": _like(_np.ma.ones_like, 1.0),
    "empty_like": _like(_np.ma.empty_like, GARBAGE),
    "asarray": _conv(_np.ma.asarray),
    "array": _conv(_np.ma.array),
    "masked_array": _conv(_np.ma.array),
    "average": _ma_average,
}

MA = _Proxy(_np.ma, _MA_OVER)

_NP_OVER = {
    "ma": MA,
    "zeros": _alloc(_np.zeros, 0.0),
    "ones": _alloc(_np.ones, 1.0),
    "empty": _alloc(_np.empty, GARBAGE),
    "full": _full,
    "zeros_like": _like(_np.zeros_like, 0.0),
    "ones_like": _like(_np.ones_like, 1.0),
    "empty_like": _like(_np.empty_like, GARBAGE),
    "array": _conv(_np.array),
    "asarray": _conv(_np.asarray),
    "isnan": _elementwise(_np.isnan, False),
    "isinf": _elementwise(_np.isinf, False),
    "isfinite": _elementwise(_np.isfinite, True),
    "isposinf": _elementwise(_np.isposinf, False),
    "isneginf": _elementwise(_np.isneginf, False),
    "digitize": _digitize,
    "interp": _interp,
    "isclose": _isclose,
    "allclose": _allclose,
    "linspace": _linspace,
    "fabs": _symalt(_np.fabs, _np.absolute),
    "float_power": _symalt(_np.float_power, _np.power),
}
for _k in ("sin", "cos", "tan", "arcsin", "arccos", "arctan", "exp", "log", "log10", "deg2rad", "rad2deg", "radians", "degrees"):
    _NP_OVER[_k] = _transcendental(getattr(_np, _k))
NP = _Proxy(_np, _NP_OVER)
# what numpy.ma's own code sees: only the predicates that reject object arrays
NPCORE = _Proxy(_np, {k: _NP_OVER[k] for k in ("isnan", "isinf", "isfinite")})

UMATH = _Proxy(_np.ma.core.umath, {k: _NP_OVER[k] for k in ("isnan", "isinf", "isfinite")})


def _domain(real):
    """numpy.ma's domain predicates give object arrays of conditions: decide each element"""
    def f(self, *args):
        r = real(self, *args)
        if isinstance(r, _np.ndarray) and r.dtype == object:
            return r.astype(bool)
        return bool(r) if is_sym(r) else r
    return f


def _safe_divide(real):
    def f(self, a, b):
        a, b = _np.asarray(a), _np.asarray(b)
        if a.dtype != object and b.dtype != object:
            return real(self, a, b)
        # |a| * tiny >= |b|: over the reals only b == 0 is meant
        shape = _np.broadcast(a, b).shape
        b = _np.broadcast_to(b, shape)
        out = _np.zeros(shape, dtype=bool)
        for i in _np.ndindex(shape):
            out[i] = bool(b[i] == 0)
        return out
    return f


class _Inf(float):
    """an infinity with the few attributes of numpy's scalars that numpy.ma uses"""
    ndim, shape, size = 0, (), 1

    def view(self, *args):
        a = _np.empty((), dtype=object)
        a[()] = self
        return a.view(*args)


def _py_div(a, b, op):
    try:
        return op(a, b)
    except ZeroDivisionError:
        return math.nan


def _safe_op(real, op):
    """object arrays: dividing by zero gives nan, as float arrays do, not an exception"""
    uf = _np.frompyfunc(lambda a, b: _py_div(a, b, op), 2, 1)

    def f(a, b, *args, **kw):
        if getattr(a, "dtype", None) == object or getattr(b, "dtype", None) == object:
            return uf(a, b)
        return real(a, b, *args, **kw)
    return f


_DIVS = (("divide", operator.truediv), ("true_divide", operator.truediv), ("floor_divide", operator.floordiv))

_DOMAINS = ("_DomainCheckInterval", "_DomainTan", "_DomainGreater", "_DomainGreaterEqual")

_FUNC_MAP = []
for _k, _v in _NP_OVER.items():
    if _k != "ma":
        _FUNC_MAP.append((getattr(_np, _k), _v))
for _k, _v in _MA_OVER.items():
    _FUNC_MAP.append((getattr(_np.ma, _k), _v))


# ------------------------------------------------------------------------------------------ units
_REAL_CONVERT = cf_units.Unit.convert
_COEF = {}


def _affine(u1, u2):
    key = (str(u1), u1.calendar, str(u2), u2.calendar)
    if key not in _COEF:
        z = float(_REAL_CONVERT(u1, 0.0, u2))
        o = float(_REAL_CONVERT(u1, 1000.0, u2))
        _COEF[key] = ((o - z) / 1000.0, z)
    return _COEF[key]


def sym_convert(self, value, other, *args, **kw):
    """Unit.convert on symbolic data: the (affine) map is taken from the real library"""
    if not has_sym(value):
        return _REAL_CONVERT(self, value, other, *args, **kw)
    other = cf_units.as_unit(other)
    if self == other:
        return value.copy() if isinstance(value, _np.ndarray) else value
    if not self.is_convertible(other):
        raise ValueError("Unable to convert from %r to %r." % (self, other))
    if self.is_time_reference() and other.is_time_reference() and self.calendar != other.calendar:
        raise ValueError("cannot convert time points between calendars")
    a, b = _affine(self, other)

    def one(v):
        r = v if a == 1.0 else v * a
        return r if b == 0.0 else r + b
    if isinstance(value, _np.ndarray):
        out = _np.empty(value.shape, dtype=object)
        dat = _np.ma.getdata(value)
        for i in _np.ndindex(value.shape):
            out[i] = one(dat[i])
        # like the library: plain arrays in, plain arrays out; masked in, masked out
        if isinstance(value, _np.ma.MaskedArray):
            return _np.ma.array(out, mask=_np.ma.getmask(value))
        return out
    return one(value)


# ------------------------------------------------------------------------------------------ astype
def _ma_astype(self, dtype, *args, **kw):
    if self.dtype == object and _floaty(dtype) and dtype is not None:
        return self.copy()
    return _np.ndarray.astype(self, dtype, *args, **kw)


_REAL_MEAN = _np.ma.MaskedArray.mean


def _ma_mean(self, *args, **kw):
    if self.dtype == object and self.size == 0:
        return _REAL_MEAN(_np.ma.array(_np.zeros(self.shape)).view(type(self)), *args, **kw)
    return _REAL_MEAN(self, *args, **kw)


def _objtype(dt):
    """output variables of a floating type hold symbolic reals"""
    return _np.dtype(object, metadata={"real": dt.str}) if dt is not None and dt.kind == "f" else dt


def modules():
    return [m for n, m in list(sys.modules.items())
            if m is not None and (n == "pyconform" or n.startswith("pyconform."))]


_SUBST = {}


def _substitutions(extra):
    key = (tuple((id(a), id(b)) for a, b in extra), len(sys.modules))
    if key not in _SUBST:
        from . import ncfake
        table = [(_np, NP), (_np.ma, MA), (netCDF4.Dataset, ncfake.FakeDataset)]
        table += _FUNC_MAP + list(extra)
        subst = []
        for m in modules():
            for k, v in vars(m).items():
                if k.startswith("__"):
                    continue
                for old, new in table:
                    if v is old:
                        subst.append((m, k, v, new))
                        break
        _SUBST[key] = subst
    return _SUBST[key]


@contextmanager
def symbolic(extra=()):
    """
    Activate the symbolic environment.  `extra` is a list of (old object, replacement): every global
    of the modules under test that is that object is replaced while the run lasts.
    """
    subst = _substitutions(tuple(extra))
    for m, k, v, new in subst:
        setattr(m, k, new)
    cf_units.Unit.convert, saved_conv = sym_convert, cf_units.Unit.convert
    core = _np.ma.core
    saved = []
    for d, v in ((core.min_filler, _Inf("inf")), (core.max_filler, _Inf("-inf"))):
        for key in (_np.object_, _np.dtype("O")):
            saved.append((d, key, d.get(key, saved)))
            d[key] = v
    saved.append((core.default_filler, "O", core.default_filler["O"]))
    core.default_filler["O"] = 1.0e20
    saved_np, saved_umath = core.np, core.umath
    core.np, core.umath = NPCORE, UMATH
    saved_dom = {k: getattr(core, k).__call__ for k in _DOMAINS + ("_DomainSafeDivide",)}
    for k, f in saved_dom.items():
        getattr(core, k).__call__ = _safe_divide(f) if k == "_DomainSafeDivide" else _domain(f)
    saved_div = [(getattr(core, k), getattr(core, k).f, o) for k, o in _DIVS]
    for d, f, o in saved_div:
        d.f = _safe_op(f, o)
    from pyconform.datasets import VariableDesc
    saved_dtype = VariableDesc.__dict__.get("dtype")
    if isinstance(saved_dtype, property):
        VariableDesc.dtype = property(lambda self: _objtype(saved_dtype.fget(self)))
    _np.ma.MaskedArray.astype = _ma_astype
    _np.ma.MaskedArray.mean = _ma_mean
    try:
        yield
    finally:
        if isinstance(saved_dtype, property):
            VariableDesc.dtype = saved_dtype
        del _np.ma.MaskedArray.astype
        _np.ma.MaskedArray.mean = _REAL_MEAN
        core.np, core.umath = saved_np, saved_umath
        for k, f in saved_dom.items():
            getattr(core, k).__call__ = f
        for d, f, o in saved_div:
            d.f = f
        for d, key, v in saved:
            if v is saved:
                d.pop(key, None)
            else:
                d[key] = v
        cf_units.Unit.convert = saved_conv
        for m, k, v, new in subst:
            setattr(m, k, v)


@contextmanager
def concrete(extra=()):
    """Environment of replays: the code runs unmodified"""
    undo = []
    for m in modules():
        for k, v in list(vars(m).items()):
            for old, new in extra:
                if v is old:
                    undo.append((m, k, v))
                    setattr(m, k, new)
                    break
    try:
        yield
    finally:
        for m, k, v in reversed(undo):
            setattr(m, k, v)
