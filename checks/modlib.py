"""Helpers for the harnesses of the add-on functions (pyconform/modules)."""
import math

from checks.lib import *    # noqa
from pyconform import functions as F


def node_of(ctx, key, args, kw=None):
    """EvalNode of function `key` on PhysArrays (wrapped in nodes) and constants"""
    a = [DataNode(x) if isinstance(x, PhysArray) else x for x in args]
    return ctx.run("building " + key, lambda: EvalNode(key, F.find_function(key), *a, **(kw or {})))


def apply(ctx, key, args, want, dims, units, positive=None, kw=None, calendar=None, scale=1.0):
    """key(*args) equals `want` (masked array) with these dimensions, units and direction; the empty request reports the same"""
    snaps = [(k, x, snapshot(x)) for k, x in enumerate(args) if isinstance(x, PhysArray)]
    node = node_of(ctx, key, args, kw)
    info = ctx.run("empty request", lambda: node[None])
    r = ctx.run(key, lambda: node[:])
    u = Unit(units, calendar=calendar) if calendar else Unit(units)
    for x, what in ((info, "empty request"), (r, key)):
        ctx.check(x.dimensions == tuple(dims), "%s: dimensions %s, expected %s" % (what, x.dimensions, tuple(dims)))
        ctx.check(x.units == u, "%s: units %s, expected %s" % (what, x.units, u))
        if calendar:
            ctx.check(x.units.calendar == u.calendar, "%s: calendar %s" % (what, x.units.calendar))
        ctx.check(x.positive == positive, "%s: direction %s" % (what, x.positive))
    got = raw(r)
    if scale != 1.0:
        got = np.ma.array(np.ma.getdata(got) * scale, mask=np.ma.getmaskarray(got))
        want = np.ma.array(np.ma.getdata(want) * scale, mask=np.ma.getmaskarray(np.ma.asarray(want)))
    ctx.check_array(got, np.ma.asarray(want), key)
    for k, x, s in snaps:
        check_unchanged(ctx, x, s, "argument %d" % k)
    return r


def table(ctx, shape, f):
    """masked array of f(*index); None where missing"""
    out = np.empty(shape, dtype=object if ctx.symbolic else float)
    mask = np.zeros(shape, dtype=bool)
    for i in np.ndindex(*shape):
        v = f(*i)
        mask[i] = v is None
        out[i] = 0.0 if v is None else v
    return np.ma.array(out, mask=mask)


def put(ctx, values, holes, fill=1e20):
    """copy of an array with `fill` at the positions `holes` (in a case of `hidden`: masked there, with another value below)"""
    out = np.array(values)
    if holes and getattr(ctx, "hidden", False):
        mask = np.zeros(out.shape, dtype=bool)
        for h in holes:
            mask[h] = True
            out[h] = -999.0
        return np.ma.array(out, mask=mask)
    for h in holes:
        out[h] = fill
    return out


def hidden(ctx, case, **kw):
    """a case with missing values that are not large numbers"""
    ctx.hidden = True
    case(ctx, **kw)


def with_hidden(cases, has):
    return cases + [(name + ":masked", hidden, dict(kw, case=fn)) for name, fn, kw in cases if has(kw)]


def mkphys(values, name, dims, units="1", calendar=None, **kw):
    if calendar:
        units = Unit(units, calendar=calendar)
    return PhysArray(values, name=name, dimensions=dims, units=units, **kw)
