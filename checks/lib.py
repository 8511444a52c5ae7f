"""Helpers shared by the harnesses."""
import os
from collections import OrderedDict

import numpy as np
from cf_units import Unit

import netCDF4
import z3

from pysym import ncfake
from pysym.ctx import Observed
from pysym.values import wrap
from pysym.symstr import shim
from pysym.values import SymBool, SymInt
from pyconform.dataflow import DataFlow
from pyconform.datasets import (DimensionDesc, FileDesc, InputDatasetDesc, OutputDatasetDesc,
                                VariableDesc)
from pyconform.flownodes import DataNode, EvalNode, MapNode, ReadNode, ValidateNode, WriteNode
from pyconform.physarray import CharArray, PhysArray


def _sym_int(x=0, *a):
    """int() that keeps symbolic integers"""
    if type(x) is SymInt:
        return x
    if type(x) is SymBool:
        return wrap(z3.If(x.term, z3.IntVal(1), z3.IntVal(0)))
    return int(x, *a)


SYM_INT = shim(int, _sym_int, (SymInt,))


class NetCDFUser(object):
    """netCDF4 of an unprivileged user (checks run as root): files may be read-only; keeps what was opened"""
    def __init__(self, ctx):
        self.real = ncfake.FakeDataset if ctx.symbolic else netCDF4.Dataset
        self.opened = []

    def Dataset(self, p, mode="r", **kw):
        if mode != "r" and os.path.exists(p) and not os.stat(p).st_mode & 0o200:
            raise PermissionError(13, "Permission denied", p)
        d = self.real(p, mode, **kw)
        self.opened.append((mode, d))
        return d

    def open_for(self, mode):
        return [d for m, d in self.opened if m[0] == mode and d.isopen()]


def farr(ctx, values):
    """array of floats (objects in symbolic runs)"""
    return np.array(values, dtype=object if ctx.symbolic else float)


def phys(ctx, name, shape, dims, units="1", positive=None, mask=None, lo=None, hi=None):
    """PhysArray of fresh symbolic reals"""
    d = ctx.reals(name, shape, lo=lo, hi=hi)
    if mask is not None:
        d = np.ma.array(d, mask=mask)
    return PhysArray(d, name=name, units=units, dimensions=dims, positive=positive)


def raw(a):
    """plain (masked) array copy of a PhysArray: what it holds now"""
    if np.ma.getmaskarray(a).any():
        return np.ma.array(np.array(np.ma.getdata(a)), mask=np.array(np.ma.getmaskarray(a)))
    return np.array(np.ma.getdata(a))


def snapshot(a):
    return (np.array(np.ma.getdata(a)), np.array(np.ma.getmaskarray(a)), str(a.units),
            a.units.calendar, a.dimensions, a.positive)


def check_unchanged(ctx, a, snap, what):
    data, mask, units, cal, dims, pos = snap
    ctx.check(a.dimensions == dims, "%s: dimensions changed to %s" % (what, a.dimensions))
    ctx.check(str(a.units) == units and a.units.calendar == cal, "%s: units changed to %s" % (what, a.units))
    ctx.check(a.positive == pos, "%s: positive changed to %s" % (what, a.positive))
    ctx.check_array(raw(a), np.ma.array(data, mask=mask), "%s: data changed" % what)


def aligned(a, dims, order):
    """array `a` with dimensions `dims` broadcast to the dimension order `order` (missing ones length 1)"""
    a = np.ma.array(np.ma.getdata(a), mask=np.ma.getmaskarray(a))
    perm = [dims.index(d) for d in order if d in dims]
    a = a.transpose(perm) if a.ndim > 1 else a
    shape, k = [], 0
    for d in order:
        if d in dims:
            shape.append(a.shape[k])
            k += 1
        else:
            shape.append(1)
    return a.reshape(shape)


def flow(inpfiles, outdict, name="out"):
    return DataFlow(InputDatasetDesc(filenames=list(inpfiles)), OutputDatasetDesc(name, OrderedDict(outdict)))


def outvar(dims, definition, fname=None, datatype="double", attributes=None, metavars=None, **fileopts):
    v = OrderedDict(datatype=datatype, dimensions=list(dims), definition=definition)
    v["attributes"] = OrderedDict(attributes or {})
    if fname is not None:
        v["file"] = dict(filename=fname, **fileopts)
        if metavars:
            v["file"]["metavars"] = list(metavars)
    return v


def path(ctx, name):
    return os.path.join(ctx.dir, name)
