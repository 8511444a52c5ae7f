"""P13: values outside the declared valid range are written as missing."""
import itertools

from checks.lib import *    # noqa
from pyconform.flownodes import ValidationWarning

PROPERTY = dict(
    id="P13",
    title="Output values outside the declared valid range become missing",
    statement="Every output value below the declared valid minimum or above the valid maximum (compared in the output units "
              "and direction) is missing in the output and reported by a warning; values inside the range or equal to a limit "
              "and values already missing are unchanged, and a limit of zero is a limit. A request for part of the "
              "data masks the same elements as a request for everything. The mean absolute value of the unmasked data is reported "
              "exactly when it is below or above its declared limits, and this never changes the data.",
    quantifier=dict(over=["inputs", "configurations"],
                    text="all values, limits, masks and requests within bounds"),
    why_tests_cant="The few tests of this use one array and limits that are not zero and not equal to any value.",
    anchors=dict(files=["pyconform/flownodes.py"], mechanism=[
        dict(name="validation", where="pyconform/flownodes.py: ValidateNode.__getitem__")]),
)
META = dict(
    how="ValidateNode over symbolic data, masks and limits (with and without unit conversion, direction change and "
        "reordering); every element's missingness is compared with the solver's comparison against the limits, and warnings "
        "with the existence of such an element.",
    bounds=dict(quick="0-2 dimensions of sizes 1-3, all values, masks and limits; 3 unit pairs, 3 direction pairs; whole, slice, "
                      "reversed, and single-position requests; whole numbers from -2 to 2 in three integer types with any limits",
                thorough="as quick with more combinations"),
    outside="a mean-absolute-value limit of zero; limits that are not numbers",
    assumptions=["floats are reals", "unit conversion is affine"],
)
UP = {("m", "m"): (1.0, 0.0), ("m", "km"): (1000.0, 0.0), ("K", "degC"): (1.0, 273.15)}


def node(ctx, shape, dims, order, attrs, units=("m", "m"), pos=(None, None), mask="some"):
    n = int(np.prod(shape)) if shape else 1
    if mask == "some" and shape:
        m = np.array([bool(ctx.bool("m%d" % i)) for i in range(n)]).reshape(shape)
    else:
        m = np.zeros(shape, dtype=bool)
    a = phys(ctx, "v", shape, dims, units=units[1], positive=pos[1], mask=m if shape else None, lo=-1000, hi=1000)
    at = dict(attrs, units=units[0])
    if pos[0]:
        at["positive"] = pos[0]
    v = VariableDesc("o", datatype="double", dimensions=[DimensionDesc(d, dict(zip(dims, shape))[d]) for d in order], attributes=at)
    fac, off = UP[units]
    want = np.ma.asarray(raw(a)) * fac + off
    if pos[0] and pos[1] and pos[0] != pos[1]:
        want = want * -1.0
    if len(dims) > 1:
        want = want.transpose([dims.index(d) for d in order])
    return a, v, ctx.run("building the output variable", ValidateNode, v, DataNode(a)), want


def limit(ctx, name, kind):
    if kind == "-":
        return None
    if kind == "0":
        return 0.0
    return ctx.real(name, lo=-2000, hi=2000)


def masked_want(ctx, want, lo, hi):
    """missing exactly where it was missing or outside; and is anything outside?"""
    d, m = np.ma.getdata(want), np.ma.getmaskarray(want)
    mask = np.zeros(want.shape, dtype=bool)
    below = above = False
    for ix in np.ndindex(want.shape):
        if m[ix]:
            mask[ix] = True
            continue
        if lo is not None and bool(d[ix] < lo):
            mask[ix] = below = True
        elif hi is not None and bool(d[ix] > hi):
            mask[ix] = above = True
    return np.ma.array(d, mask=mask), below, above


def run(ctx, shape, order, lo, hi, req, units=("m", "m"), pos=(None, None)):
    dims = ("t", "y")[:len(shape)]
    order = tuple(dims[i] for i in order) if order else dims
    attrs = {}
    vlo, vhi = limit(ctx, "lo", lo), limit(ctx, "hi", hi)
    if vlo is not None:
        attrs["valid_min"] = vlo
    if vhi is not None:
        attrs["valid_max"] = vhi
    if vlo is not None and vhi is not None:
        ctx.assume(vlo <= vhi)
    a, v, n, want = node(ctx, shape, dims, order, attrs, units, pos)
    snap = snapshot(a)
    idx = {"all": {}, "one": {"t": slice(0, 1)}, "rev": {d: slice(None, None, -1) for d in dims}, "pos": slice(0, 1)}[req]
    if req == "pos":
        idx = {"t": slice(-1, None)}
    r, err, warned = warn_call(ctx, lambda: n[idx])
    if err is not None:
        ctx.fail("node[%r] raised %r" % (idx, err))
    part = want[tuple(idx.get(d, slice(None)) for d in order)] if dims else want
    if units == ("K", "degC"):      # the rounding of the offset itself decides nothing
        for x in (vlo, vhi):
            for d in (np.ravel(np.ma.getdata(part)) if x is not None else ()):
                ctx.assume(bool(d - x > 1e-6) or bool(x - d > 1e-6))
    exp, below, above = masked_want(ctx, part, vlo, vhi)
    ctx.check_array(raw(r), exp, "validated values")
    ctx.check(any("valid_min" in w for w in warned) == below, "warning about values below valid_min: %s" % warned)
    ctx.check(any("valid_max" in w for w in warned) == above, "warning about values above valid_max: %s" % warned)
    check_unchanged(ctx, a, snap, "source")


def warn_call(ctx, fn):
    r, err = ctx.call(fn)
    return r, err, [str(w.message) for w in ctx.warned if issubclass(w.category, ValidationWarning)]


def mean_abs(ctx, shape, lo, hi, units, req):
    dims = ("t", "y")[:len(shape)]
    attrs = {}
    vlo = ctx.real("lo", lo=0, hi=5000) if lo else None
    vhi = ctx.real("hi", lo=0, hi=5000) if hi else None
    for k, x in (("ok_min_mean_abs", vlo), ("ok_max_mean_abs", vhi)):
        if x is not None:
            ctx.assume(x > 0)
            attrs[k] = x
    a, v, n, want = node(ctx, shape, dims, dims, attrs, units)
    idx = {} if req == "all" else {"t": slice(0, 1)}
    r, err, warned = warn_call(ctx, lambda: n[idx])
    if err is not None:
        ctx.fail("node[%r] raised %r" % (idx, err))
    part = want[tuple(idx.get(d, slice(None)) for d in dims)]
    ctx.check_array(raw(r), part, "values are not changed")
    d, m = np.ma.getdata(part), np.ma.getmaskarray(part)
    tot, cnt = 0.0, 0
    for ix in np.ndindex(part.shape):
        if not m[ix]:
            tot, cnt = tot + (d[ix] if bool(d[ix] >= 0) else -d[ix]), cnt + 1
    small = bool(cnt and vlo is not None and bool(tot < vlo * cnt))
    big = bool(cnt and vhi is not None and bool(tot > vhi * cnt))
    if not ctx.symbolic and cnt:
        # rounding of the mean at the limit itself
        for x in (vlo, vhi):
            if x is not None and abs(tot / cnt - x) <= 1e-9 * max(1.0, abs(x)):
                return
    ctx.check(any("ok_min_mean_abs" in w for w in warned) == small, "warning about a small mean: %s" % warned)
    ctx.check(any("ok_max_mean_abs" in w for w in warned) == big, "warning about a large mean: %s" % warned)


def whole(ctx, lo, hi, dt):
    """whole numbers, limits that need not be"""
    data = np.array([ctx.choice("v%d" % i, [-2, -1, 0, 1, 2]) for i in range(2)], dtype={"int": "i4", "short": "i2", "int64": "i8"}[dt])
    attrs = {"units": "m"}
    vlo, vhi = [None if k == "-" else ctx.real(n, lo=-3, hi=3) if k == "x" else k for n, k in (("lo", lo), ("hi", hi))]
    if vlo is not None:
        attrs["valid_min"] = vlo
    if vhi is not None:
        attrs["valid_max"] = vhi
    if vlo is not None and vhi is not None:
        ctx.assume(vlo <= vhi)
    a = PhysArray(data, name="v", units="m", dimensions=("t",))
    n = ctx.run("building", ValidateNode, VariableDesc("o", datatype=dt, dimensions=[DimensionDesc("t", 2)], attributes=attrs), DataNode(a))
    r, err, warned = warn_call(ctx, lambda: n[:])
    if err is not None:
        ctx.fail("raised %r" % (err,))
    exp, below, above = masked_want(ctx, np.ma.array(data), vlo, vhi)
    ctx.check_array(raw(r), exp, "validated values")
    ctx.check(any("valid_min" in w for w in warned) == below, "warning about values below valid_min: %s" % warned)
    ctx.check(any("valid_max" in w for w in warned) == above, "warning about values above valid_max: %s" % warned)


def empty(ctx):
    a, v, n, want = node(ctx, (2, 2), ("t", "y"), ("y", "t"), {"valid_min": ctx.real("lo"), "valid_max": 0.0, "ok_min_mean_abs": 5.0})
    r, err, warned = warn_call(ctx, lambda: n[None])
    ctx.check(err is None and not warned, "an empty request validates nothing (%r, %r)" % (err, warned))
    ctx.check(r.dimensions == ("y", "t") and r.size == 0, "an empty request gives no data")


def cases(tier):
    q = tier == "quick"
    out = []
    ks = [("x", "-"), ("-", "x"), ("x", "x"), ("0", "-"), ("-", "0"), ("0", "x"), ("x", "0")]
    for lo, hi in ks:
        for shape in ((), (1,), (2,), (3,)):
            out.append(("%s%s:%s" % (lo, hi, "x".join(map(str, shape)) or "s"), run, dict(shape=shape, order=None, lo=lo, hi=hi, req="all")))
    for k, ((lo, hi), req) in enumerate(itertools.product(ks, ("one", "rev", "pos"))):
        u = sorted(UP)[k % 3]
        p = ((None, None), ("up", "down"), ("down", "down"))[(k // 2) % 3]
        out.append(("part:%s%s:%s" % (lo, hi, req), run, dict(shape=(3,), order=None, lo=lo, hi=hi, req=req, units=u, pos=p)))
        if k % (2 if q else 1) == 0:
            out.append(("2d:%s%s:%s" % (lo, hi, req), run, dict(shape=(2, 1) if q else (2, 2), order=(1, 0) if k % 4 else (0, 1), lo=lo,
                                                               hi=hi, req=req, units=u, pos=p)))
    for u in sorted(UP):
        for p in ((None, None), ("up", "down"), ("down", "up"), ("up", "up"), ("up", None), (None, "up")):
            out.append(("conv:%s-%s:%s-%s" % (u + p), run, dict(shape=(2,), order=None, lo="x", hi="x", req="all", units=u, pos=p)))
    for lo, hi in ((1, 0), (0, 1), (1, 1)):
        for shape in ((1,), (2,), (3,)) + (() if q else ((2, 2),)):
            for req in ("all", "one"):
                for u in (("m", "m"), ("m", "km")):
                    out.append(("abs:%d%d:%s:%s:%s" % (lo, hi, "x".join(map(str, shape)), req, u[1]), mean_abs,
                                dict(shape=shape, lo=lo, hi=hi, units=u, req=req)))
    for dt in ("int", "short", "int64"):
        for lo, hi in (("x", "-"), ("-", "x"), ("x", "x"), (0.5, "-"), ("-", -0.5), (-1.5, 2.5), (0, 0)):
            out.append(("whole:%s:%s:%s" % (dt, lo, hi), whole, dict(lo=lo, hi=hi, dt=dt)))
    out.append(("empty", empty, {}))
    return out
