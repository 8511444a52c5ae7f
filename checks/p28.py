"""P28: the numerical kernels (deriv, spl_init, spl_interp, int_tabulated)."""
from checks.modlib import *    # noqa
from pyconform.modules import idl

PROPERTY = dict(
    id="P28",
    title="Derivatives, splines and integrals are what the IDL routines define",
    statement="deriv is the derivative of the parabola through three neighbouring points (at the ends, of the first or last three), so exact for quadratic data on any grid, without x for unit "
              "spacing. spl_init gives the second derivatives of the natural cubic spline, zero at both ends, for which spl_interp passes through every point, is the same cubic on both sides of "
              "a point up to the second derivative, is exact for linear data and continues the end pieces outside. int_tabulated is the five-point Newton-Cotes integral of that spline on the "
              "fewest equal segments, a multiple of four, not fewer than the intervals: exact for linear data; all are linear, act along the given axis for each other index alone, and do not change their inputs.",
    quantifier=dict(over=["inputs"], text="all data values and coordinates within bounds, every axis"),
    why_tests_cant="No test calls these functions; a wrong coefficient at one end shows only there.",
    anchors=dict(files=["pyconform/modules/idl.py"], mechanism=[
        dict(name="derivative", where="pyconform/modules/idl.py: deriv"),
        dict(name="splines", where="pyconform/modules/idl.py: spl_init, spl_interp, int_tabulated")]),
)
META = dict(
    how="Data (and for deriv of 3 and 4 points the coordinates) are solver variables; the results are compared with the defining equations: Lagrange parabolas, the tridiagonal system of the spline, "
        "the quadrature sum of its pieces.",
    bounds=dict(quick="3-6 points on irregular grids, up to three axes", thorough="3-9 points"),
    outside="repeated coordinates",
    assumptions=["floats are reals", "coordinates increase (deriv: are distinct)"],
)
GRIDS = {
    2: [[0., 3.]],
    3: [[0., 1., 3.], [2., 2.5, 4.]],
    4: [[0., 1., 1.5, 4.], [1., 2., 3., 4.]],
    5: [[0., 2., 3., 3.5, 5.], [-4., -1., 0., 2., 3.]],
    6: [[0., .5, 2., 3., 5., 6.]],
    7: [[0., .5, 2., 3., 5., 6., 9.]],
    8: [[0., .5, 2., 3., 5., 6., 9., 10.]],
    9: [[0., 1., 2., 3., 5., 6., 9., 10., 10.5]],
}


def data(ctx, n, shape, axis, whole=False):
    s = list(shape)
    s.insert(axis, n)
    if whole:                           # whole numbers of an integer type: the solver enumerates them
        return np.array([int(ctx.int("y%d" % k, 0, 2)) for k in range(n)], dtype=int).reshape(s)
    return ctx.reals("y", tuple(s), lo=-100, hi=100)


def lagrange(x, y, i, at):
    """derivative at `at` of the parabola through points i-1, i, i+1"""
    a, b, c = x[i - 1], x[i], x[i + 1]
    return y[i - 1] * (2 * at - b - c) / ((a - b) * (a - c)) + y[i] * (2 * at - a - c) / ((b - a) * (b - c)) + y[i + 1] * (2 * at - a - b) / ((c - a) * (c - b))


def parabola(ctx, n, shape, axis, xs, default, whole=False):
    y = data(ctx, n, shape, axis, whole)
    x = [float(k) for k in range(n)] if default else xs
    before = list(y.flat)
    if default:
        r = ctx.run("deriv", lambda: idl.deriv(y, axis=axis))
    else:
        r = ctx.run("deriv", lambda: idl.deriv(np.array(x), y, axis=axis))
    want = np.empty(y.shape, dtype=object if y.dtype == object else float)
    for i in np.ndindex(*[m for k, m in enumerate(y.shape) if k != axis]):
        sl = i[:axis] + (slice(None),) + i[axis:]
        for k in range(n):
            want[i[:axis] + (k,) + i[axis:]] = lagrange(x, y[sl], min(max(k, 1), n - 2), x[k])
    ctx.check_array(r, want, "deriv")
    ctx.check(all(a is b or a == b for a, b in zip(y.flat, before)), "deriv changed its input")


def symx(ctx, n, start):
    """coordinates are variables too: derivative of a parabola with any coefficients"""
    a, b, c = [ctx.real(k, lo=-10, hi=10) for k in "abc"]
    x = [ctx.real("x0", lo=-10, hi=10) if start is None else start]
    for k in range(1, n):
        x.append(x[-1] + ctx.real("h%d" % k, lo=0.25, hi=10))
    x = np.array(x, dtype=object if ctx.symbolic else float)
    y = a + b * x + c * x * x
    r = ctx.run("deriv", lambda: idl.deriv(x, y))
    ctx.check_array(r, np.array([b + 2 * c * v for v in x], dtype=x.dtype), "deriv of a parabola")


def second(ctx, x, y, axis):
    """spl_init, checked against the equations of the natural spline"""
    before = list(y.flat)
    y2 = ctx.run("spl_init", lambda: idl.spl_init(np.array(x), y, axis=axis))
    ctx.check(np.shape(y2) == y.shape, "spl_init: shape %s" % (np.shape(y2),))
    n = len(x)
    for i in np.ndindex(*[m for k, m in enumerate(y.shape) if k != axis]):
        sl = i[:axis] + (slice(None),) + i[axis:]
        u, v = y2[sl], y[sl]
        ctx.check_eq(u[0], 0.0, "second derivative at the start")
        ctx.check_eq(u[n - 1], 0.0, "second derivative at the end")
        for k in range(1, n - 1):
            h0, h1 = x[k] - x[k - 1], x[k + 1] - x[k]
            ctx.check_eq(u[k - 1] * h0 / 6 + u[k] * (h0 + h1) / 3 + u[k + 1] * h1 / 6, (v[k + 1] - v[k]) / h1 - (v[k] - v[k - 1]) / h0, "spline equation %d" % k)
    ctx.check(all(a is b or a == b for a, b in zip(y.flat, before)), "spl_init changed its input")
    return y2


def piece(x, y, y2, at):
    """the cubic of the interval of `at` (the end intervals outside)"""
    n = len(x)
    k = min(max(sum(1 for v in x if v <= at) - 1, 0), n - 2)
    h = x[k + 1] - x[k]
    a, b = (x[k + 1] - at) / h, (at - x[k]) / h
    return y[k] * a + y[k + 1] * b + y2[k] * ((a ** 3 - a) * h * h / 6) + y2[k + 1] * ((b ** 3 - b) * h * h / 6)


def spline(ctx, n, shape, axis, xs, whole=False):
    y = data(ctx, n, shape, axis, whole)
    y2 = second(ctx, xs, y, axis)
    at = sorted(xs + [(a + b) / 2 for a, b in zip(xs, xs[1:])] + [xs[0] - 1, xs[-1] + .5])
    r = ctx.run("spl_interp", lambda: idl.spl_interp(np.array(xs), y, y2, np.array(at), axis=axis))
    want = np.empty(y.shape[:axis] + (len(at),) + y.shape[axis + 1:], dtype=object if y.dtype == object else float)
    for i in np.ndindex(*[m for k, m in enumerate(y.shape) if k != axis]):
        sl = i[:axis] + (slice(None),) + i[axis:]
        for k, v in enumerate(at):
            want[i[:axis] + (k,) + i[axis:]] = y[sl][xs.index(v)] if v in xs else piece(xs, y[sl], y2[sl], v)
    ctx.check_array(r, want, "spl_interp")


def integral(ctx, n, shape, axis, xs, whole=False):
    y = data(ctx, n, shape, axis, whole)
    before = list(y.flat)
    r = ctx.run("int_tabulated", lambda: idl.int_tabulated(np.array(xs), y, axis=axis))
    y2 = idl.spl_init(np.array(xs), y, axis=axis)
    seg = -(-(n - 1) // 4) * 4
    h = (xs[-1] - xs[0]) / seg
    want = np.empty(y.shape[:axis] + y.shape[axis + 1:], dtype=object if y.dtype == object else float)
    for i in np.ndindex(*want.shape):
        sl = i[:axis] + (slice(None),) + i[axis:]
        z = [piece(xs, y[sl], y2[sl], xs[0] + k * h) for k in range(seg + 1)]
        s = 0.0
        for k in range(0, seg, 4):
            s = s + (z[k] * 7 + z[k + 1] * 32 + z[k + 2] * 12 + z[k + 3] * 32 + z[k + 4] * 7) * (2 * h / 45)
        want[i] = s
    ctx.check_array(r, want, "int_tabulated")
    ctx.check(all(a is b or a == b for a, b in zip(y.flat, before)), "int_tabulated changed its input")


def linear(ctx, n, xs):
    a, b = ctx.real("a", lo=-10, hi=10), ctx.real("b", lo=-10, hi=10)
    y = np.array([a + b * v for v in xs], dtype=object if ctx.symbolic else float)
    r = ctx.run("int_tabulated", lambda: idl.int_tabulated(np.array(xs), y))
    ctx.check_eq(r, a * (xs[-1] - xs[0]) + b * (xs[-1] ** 2 - xs[0] ** 2) / 2, "integral of a line")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(3, 7 if q else 10):
        for g, xs in enumerate(GRIDS[n]):
            for shape, axis in (((), 0), ((2,), 0), ((2,), 1), ((2, 1), 1), ((1, 2), 2)):
                if len(shape) == 2 and n > 4:
                    continue
                kw = dict(n=n, shape=shape, axis=axis, xs=xs)
                tag = "%d:%d:%s:%d" % (n, g, "".join(map(str, shape)), axis)
                out.append(("deriv:" + tag, parabola, dict(kw, default=False)))
                if g == 0:
                    out.append(("deriv:" + tag + ":index", parabola, dict(kw, default=True)))
                out.append(("spline:" + tag, spline, kw))
                out.append(("integral:" + tag, integral, kw))
            out.append(("linear:%d:%d" % (n, g), linear, dict(n=n, xs=xs)))
    for n in (4,) if q else (4, 5):
        for g, xs in enumerate((GRIDS[n][0], [0, 1, 3, 4, 6][:n])):
            kw = dict(n=n, shape=(), axis=0, xs=xs, whole=True)
            out += [("deriv:%d:%d:whole" % (n, g), parabola, dict(kw, default=False)), ("spline:%d:%d:whole" % (n, g), spline, kw), ("integral:%d:%d:whole" % (n, g), integral, kw)]
        out.append(("deriv:%d:index:whole" % n, parabola, dict(kw, default=True)))
    out.append(("linear:2", linear, dict(n=2, xs=GRIDS[2][0])))
    out.append(("integral:2", integral, dict(n=2, shape=(2,), axis=0, xs=GRIDS[2][0])))
    for n in (3,) if q else (3, 4):
        out.append(("symx:%d" % n, symx, dict(n=n, start=1.5 if q else None)))
    return out
