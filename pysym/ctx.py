"""
Ctx: what a harness sees.  The same harness runs symbolically (inputs are solver variables, an
assertion is a solver query) and concretely (inputs come from a model, the code runs unmodified).
"""

import math
import os
import shutil
import sys
import tempfile
import warnings
from collections import OrderedDict
from fractions import Fraction

import cf_units
import netCDF4
import numpy as np
import z3

from . import core, env, ncfake
from .core import EngineSignal, PathEnd, Violated
from .values import (SymBool, SymInt, SymReal, SymSlice, as_real_term, is_sym, wrap, _num_kind)

SCRATCH = os.environ.get("VERIF_SCRATCH") or "/tmp"


class ConcreteViolation(Exception):
    pass


class OutputMissing(Exception):
    """an output of the code under test lacks something that has to be there"""


def output_missing(ctx, e):
    """the message if the check could not go on for want of an output, else None"""
    if isinstance(e, OutputMissing):
        return str(e)
    if isinstance(e, TypeError) and str(e) == "'NoneType' object is not subscriptable" and ctx.not_there:
        return "%s is not written" % os.path.basename(ctx.not_there)
    return None


class Observed(OrderedDict):
    """outputs of the code under test (files written); what is not there is a violation"""
    def __missing__(self, k):
        raise OutputMissing("the output has no %r (it has %s)" % (k, sorted(map(str, self))[:20]))


def _scalar(x):
    """the element of an array without axes"""
    return x[()] if isinstance(x, np.ndarray) and x.ndim == 0 and not isinstance(x, np.ma.MaskedArray) else x


class _Base(object):
    not_there = None
    symbolic = False
    bound = 10000
    rtol, atol = 1e-6, 1e-6

    def __init__(self):
        self._dir = None
        self._cleanup = []
        self.choices = []

    # ------------------------------------------------------------------ inputs
    def reals(self, name, shape, **kw):
        out = np.empty(shape, dtype=object if self.symbolic else float)
        for i in np.ndindex(*out.shape):
            out[i] = self.real("%s%s" % (name, "_".join(str(k) for k in i)), **kw)
        return out

    def ints(self, name, shape, lo, hi):
        out = np.empty(shape, dtype=object if self.symbolic else int)
        for i in np.ndindex(*out.shape):
            out[i] = self.int("%s%s" % (name, "_".join(str(k) for k in i)), lo, hi)
        return out

    def mask(self, name, shape):
        """a mask: every pattern is explored (the solver enumerates them)"""
        out = np.zeros(shape, dtype=bool)
        for i in np.ndindex(*out.shape):
            out[i] = bool(self.bool("%s%s" % (name, "_".join(str(k) for k in i))))
        return out

    def choice(self, name, options):
        options = list(options)
        k = int(self.int(name, 0, len(options) - 1))
        self.choices.append((name, str(options[k])))
        return options[k]

    # ------------------------------------------------------------------ assertions
    def check_same(self, a, b, what):
        """identity of plain (never symbolic) values"""
        self.check(a == b, "%s: got %r, expected %r" % (what, a, b))

    def check_array(self, got, want, what, mask=None):
        """
        got equals want (shape, mask, and values wherever not masked).  `want` may be masked.
        """
        self.check(np.shape(got) == np.shape(want),
                   "%s: shape %s, expected %s" % (what, np.shape(got), np.shape(want)))
        gd, wd = np.ma.getdata(got), np.ma.getdata(want)
        gm, wm = np.ma.getmaskarray(np.ma.asarray(got)), np.ma.getmaskarray(np.ma.asarray(want))
        for i in np.ndindex(*np.shape(gd)):
            if isinstance(wm[i], (bool, np.bool_)) and isinstance(gm[i], (bool, np.bool_)):
                self.check(bool(gm[i]) == bool(wm[i]), "%s: mask at %s" % (what, i))
            if not wm[i]:
                self.check_eq(gd[i], wd[i], "%s: value at %s" % (what, i))

    # ------------------------------------------------------------------ scratch
    @property
    def dir(self):
        if self._dir is None:
            self._dir = tempfile.mkdtemp(prefix="vp_", dir=SCRATCH)
        return self._dir

    def inject(self, module, name, value):
        """symbolic runs only: shadow a builtin in a module under test for the rest of this run"""
        if self.symbolic:
            self.replace(module, name, value)

    def replace(self, module, name, value):
        """shadow a name in a module under test for the rest of this run, in replays too"""
        missing = object()
        old = vars(module).get(name, missing)
        setattr(module, name, value)
        self._cleanup.append(lambda: delattr(module, name) if old is missing
                             else setattr(module, name, old))

    def restore(self):
        while self._cleanup:
            self._cleanup.pop()()

    def close(self):
        self.restore()
        if self._dir is not None:
            shutil.rmtree(self._dir, ignore_errors=True)
            self._dir = None

    # ------------------------------------------------------------------ misc
    def call(self, fn, *args, **kw):
        """
        Run code under test: returns (value, None) or (None, exception).  Warnings are collected in
        self.warned.
        """
        self.warned = []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            out = sys.stdout
            sys.stdout = open(os.devnull, "w")
            try:
                try:
                    return fn(*args, **kw), None
                finally:
                    sys.stdout.close()
                    sys.stdout = out
                    self.warned = [x for x in w]
            except EngineSignal:
                raise
            except ConcreteViolation:
                raise
            except Exception as e:
                return None, e
            except SystemExit as e:
                return None, e

    def run(self, what, fn, *args, **kw):
        """Run code under test that must not raise"""
        v, err = self.call(fn, *args, **kw)
        if err is not None:
            self.fail("%s raised %s: %s" % (what, type(err).__name__, str(err)[:300]))
        return v

    def fail(self, what):
        self.check(False, what)


class SymCtx(_Base):
    symbolic = True

    def __init__(self, engine):
        super(SymCtx, self).__init__()
        self.e = engine
        ncfake.reset()

    def real(self, name, lo=None, hi=None):
        t = self.e.symbol(name, "real")
        if lo is not None:
            self.e.assume(t >= z3.RealVal(str(Fraction(lo))))
        if hi is not None:
            self.e.assume(t <= z3.RealVal(str(Fraction(hi))))
        return SymReal(t)

    def int(self, name, lo, hi):
        t = self.e.symbol(name, "int")
        self.e.assume(z3.And(t >= lo, t <= hi))
        return SymInt(t)

    def bool(self, name):
        return SymBool(self.e.symbol(name, "bool"))

    def slice(self, start, stop, step=None):
        return SymSlice(start, stop, step)

    def assume(self, cond):
        if type(cond) is SymBool:
            self.e.assume(cond.term)
        elif not cond:
            raise PathEnd()

    def prefer(self, cond):
        """a preference for counterexamples / witnesses only (never restricts the claim)"""
        if type(cond) is SymBool:
            self.e.soft.append(cond.term)

    def check(self, cond, what):
        if type(cond) is SymBool:
            cond = cond.term
        elif is_sym(cond):
            cond = (cond != 0).term if type(cond != 0) is SymBool else bool(cond)
        else:
            cond = bool(cond)
            if cond:
                self.e.stats.asserts += 1
                return
        self.e.check_holds(cond, what)

    def check_eq(self, a, b, what):
        a, b = _scalar(a), _scalar(b)
        if not is_sym(a) and not is_sym(b):
            self.check(_close(a, b, self.rtol, self.atol), "%s: got %r, expected %r" % (what, a, b))
            return
        ka, kb = _num_kind(a), _num_kind(b)
        if ka is None or kb is None or ka[0] in ("inf", "nan") or kb[0] in ("inf", "nan"):
            self.check(False, "%s: got %r, expected %r" % (what, a, b))
            return
        if ka[0] == kb[0] == "int":
            self.e.check_holds(ka[1] == kb[1], what)
            return
        ta, tb = as_real_term(a), as_real_term(b)
        self.e.check_close(ta, tb, what, Fraction(self.rtol), Fraction(self.atol), self.bound)

    # netCDF
    def write_nc(self, path, dims, variables, attrs=None, format="NETCDF4"):
        ds = ncfake.FakeDataset(path, "w", format=format)
        _fill_nc(ds, dims, variables, attrs)
        ds.close()

    def read_nc(self, path):
        r = ncfake.lookup(path)
        if r is None:
            self.not_there = path
            return None
        ds, complete = r
        return _collect(ds, complete)


class ConcreteCtx(_Base):
    symbolic = False
    rtol, atol = 1e-7, 1e-7

    def __init__(self, model):
        super(ConcreteCtx, self).__init__()
        self.model = model
        self.violations = []
        self.rtol = type(self).rtol
        ncfake.reset()

    def _get(self, name, default):
        return self.model.get(name, default)

    def real(self, name, lo=None, hi=None):
        v = float(Fraction(self._get(name, "0")))
        if lo is not None:
            v = max(v, float(lo))
        if hi is not None:
            v = min(v, float(hi))
        return v

    def int(self, name, lo, hi):
        v = int(self._get(name, lo))
        if not lo <= v <= hi:
            raise PathEnd()
        return v

    def bool(self, name):
        return bool(self._get(name, False))

    def slice(self, start, stop, step=None):
        return slice(start, stop, step)

    def assume(self, cond):
        if not cond:
            raise PathEnd()

    def prefer(self, cond):
        pass

    def check(self, cond, what):
        if not bool(cond):
            raise ConcreteViolation(what)

    def check_eq(self, a, b, what):
        a, b = _scalar(a), _scalar(b)
        if not _close(a, b, self.rtol, self.atol):
            raise ConcreteViolation("%s: got %r, expected %r" % (what, a, b))

    def write_nc(self, path, dims, variables, attrs=None, format="NETCDF4"):
        ds = netCDF4.Dataset(path, "w", format=format)
        _fill_nc(ds, dims, variables, attrs)
        ds.close()

    def read_nc(self, path):
        if not os.path.exists(path):
            self.not_there = path
            return None
        try:
            ds = netCDF4.Dataset(path, "r")
        except OSError:
            return {"complete": False, "dims": {}, "vars": {}, "attrs": {}}
        try:
            return _collect(ds, None)
        finally:
            ds.close()


def _close(a, b, rtol, atol):
    if a is b:
        return True
    if isinstance(a, np.ma.core.MaskedConstant) or isinstance(b, np.ma.core.MaskedConstant):
        return a is b
    if isinstance(a, (str, bytes)) or isinstance(b, (str, bytes)) or a is None or b is None:
        return a == b
    try:
        fa, fb = float(a), float(b)
    except (TypeError, ValueError):
        return bool(a == b)
    if math.isnan(fa) or math.isnan(fb):
        return math.isnan(fa) and math.isnan(fb)
    if math.isinf(fa) or math.isinf(fb):
        return fa == fb
    return abs(fa - fb) <= rtol * (abs(fa) + abs(fb)) + atol


def _fill_nc(ds, dims, variables, attrs):
    """dims: name -> size or None (unlimited); variables: name -> (dtype, dims, data, attrs)"""
    for d, n in dims.items():
        ds.createDimension(d, n)
    if attrs:
        ds.setncatts(attrs)
    for v, spec in variables.items():
        dtype, vdims, data, vattrs = spec
        fv = vattrs.get("_FillValue")
        nv = ds.createVariable(v, dtype, vdims, fill_value=fv)
        for a, x in vattrs.items():
            if a != "_FillValue":
                nv.setncattr(a, x)
        if data is not None:
            nv[(slice(None),) * len(vdims)] = data


def _file_dtype(dt):
    """the declared type of a file variable (symbolic reals are kept as objects, see env._objtype)"""
    meta = getattr(dt, "metadata", None)
    return np.dtype(meta["real"]) if meta and "real" in meta else dt


def _collect(ds, complete):
    out = {"complete": complete, "attrs": Observed((a, ds.getncattr(a)) for a in ds.ncattrs()),
           "format": ds.file_format,
           "dims": Observed((d, (len(x), bool(x.isunlimited()))) for d, x in ds.dimensions.items()),
           "vars": Observed()}
    for n, v in ds.variables.items():
        data = v[(slice(None),) * len(v.dimensions)]
        out["vars"][n] = {"dims": v.dimensions, "data": data, "dtype": _file_dtype(v.dtype),
                          "deflate": (lambda f: f["complevel"] if f and f.get("zlib") else 0)(v.filters()),
                          "attrs": Observed((a, v.getncattr(a)) for a in v.ncattrs())}
    return out
