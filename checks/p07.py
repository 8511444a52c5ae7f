"""P07: products, quotients, powers, inverses."""
from checks.lib import *    # noqa
from checks.p06 import PAIRS, POS, SZ, VIEWS, expect, mk
from pyconform.physarray import DimensionsError, UnitsError
from pyconform import functions as F

PROPERTY = dict(
    id="P07",
    title="Products, quotients and powers carry the product of values and units",
    statement="Multiplying, dividing, raising or inverting quantities pairs their elements by dimension name after matching "
              "directions, and the result's values and units together express the product, quotient or power of "
              "the operands' physical quantities (a quotient is masked where the divisor is zero). Exponents must be "
              "plain scalar numbers without direction, and even powers lose the direction. The in-place forms, the operators "
              "of definitions and the named forms agree.",
    quantifier=dict(over=["inputs"], text="all values and masks of arrays within bounds, dimension orders, units, "
                                           "directions, exponents within bounds, zeros of divisors"),
    why_tests_cant="Unit tests multiply constants in one layout; wrong units, wrong pairing or a missing mask at zeros need "
                   "particular units, orders and values.",
    anchors=dict(files=["pyconform/physarray.py", "pyconform/functions.py"], mechanism=[
        dict(name="product and quotient", where="pyconform/physarray.py: PhysArray.__mul__/__truediv__/__floordiv__"),
        dict(name="powers", where="pyconform/physarray.py: PhysArray.__pow__/_check_exponent_"),
        dict(name="inverse", where="pyconform/physarray.py: PhysArray.invert"),
        dict(name="operators", where="pyconform/functions.py: MultiplicationOperator, DivisionOperator, PowerOperator")]),
)
META = dict(
    bounds=dict(quick="operands with 0-3 dimensions of sizes 2-3, all real values up to 1000 (divisors may be zero), one "
                      "symbolically masked element each, 9 unit pairs, all direction pairs, exponents -2..4 and 1/2",
                thorough="as quick with more combinations of shape, unit and direction"),
    outside="multiplying units with an offset (degC); integer arrays; rounding, overflow; divisors so small that numpy "
            "treats them as zero",
    assumptions=["floats are reals", "numpy masks a quotient exactly where the divisor is 0"],
)
# (left units, right units, base of left, factor, base of right, factor)
U = [("m", "s", "m", 1.0, "s", 1.0), ("km", "min", "m", 1000.0, "s", 60.0), ("1", "m", "1", 1.0, "m", 1.0),
     ("kg m-2", "day", "kg m-2", 1.0, "s", 86400.0), ("%", "hPa", "1", 0.01, "Pa", 100.0), ("m", "m", "m", 1.0, "m", 1.0),
     ("km", "m", "m", 1000.0, "m", 1.0), ("g", "kg-1", "kg", 0.001, "kg-1", 1.0), ("1", "1", "1", 1.0, "1", 1.0)]


def quantity(ctx, r, unit, what):
    """values of r in the given (base) unit: values times the factor its units denote"""
    u = Unit(unit)
    ctx.check(r.units.is_convertible(u), "%s: units %s are not those of %s" % (what, r.units, unit))
    f = float(r.units.convert(1.0, u))
    return raw(r) * f


def ref(op, a, b, pa, pb):
    order = a.dimensions + tuple(d for d in b.dimensions if d not in a.dimensions)
    x, y = aligned(a, a.dimensions, order), aligned(b, b.dimensions, order)
    if pa is not None and pb is not None and pa != pb:
        y = y * -1.0
    return order, x, y, pa if pa is not None else pb


def safe_div(ctx, x, y):
    """elementwise quotient, masked where the divisor is zero"""
    x, y = np.ma.asarray(x), np.ma.asarray(y)
    shape = np.broadcast(np.ma.getdata(x), np.ma.getdata(y)).shape
    out = np.empty(shape, dtype=object if ctx.symbolic else float)
    m = np.zeros(shape, dtype=bool)
    xd, yd = np.broadcast_to(np.ma.getdata(x), shape), np.broadcast_to(np.ma.getdata(y), shape)
    xm, ym = np.broadcast_to(np.ma.getmaskarray(x), shape), np.broadcast_to(np.ma.getmaskarray(y), shape)
    for i in np.ndindex(shape):
        m[i] = bool(xm[i] or ym[i]) or bool(yd[i] == 0)
        out[i] = 0.0 if m[i] else xd[i] / yd[i]
    return np.ma.array(out, mask=m)


def combine(ctx, ad, bd, u, pos, op, how):
    (ua, ub, ba, fa, bb, fb), (pa, pb) = u, pos
    a, b = mk(ctx, "a", ad, ua, pa, "one"), mk(ctx, "b", bd, ub, pb, "one" if op == "*" else "none")
    dims, x, y, wp = ref(op, a, b, pa, pb)
    if op == "*":
        fn = {"op": lambda: a * b, "in": lambda: a.__imul__(b),
              "node": lambda: F.find_operator("*", 2)(DataNode(a), DataNode(b))[:]}[how]
        want, base = (x * fa) * (y * fb), Unit(ba) * Unit(bb)
    else:
        fn = {"op": lambda: a / b, "in": lambda: a.__itruediv__(b),
              "node": lambda: F.find_operator("/", 2)(DataNode(a), DataNode(b))[:]}[how]
        want, base = safe_div(ctx, x * fa, y * fb), Unit(ba) / Unit(bb)
    fits = how != "in" or all(d in ad or SZ[d] == 1 for d in bd)
    snap = snapshot(b)
    r, err = ctx.call(fn)
    if not fits:
        ctx.check(isinstance(err, DimensionsError), "in-place operation that cannot hold the result is refused (%r)" % err)
        return
    if err is not None:
        ctx.fail("a%sb raised %s: %s" % (op, type(err).__name__, err))
    ctx.check(isinstance(r, PhysArray), "not a physical array")
    ctx.check(r.dimensions == dims, "dimensions %s, expected %s" % (r.dimensions, dims))
    ctx.check(r.positive == wp, "direction %s, expected %s" % (r.positive, wp))
    ctx.check_array(quantity(ctx, r, base, "a%sb" % op), want, "a%sb" % op)
    if how == "in":
        ctx.check(r is a, "in-place operation gives the same object")
    check_unchanged(ctx, b, snap, "right operand")


def number(ctx, op, side, ndim):
    dims = ("t", "y")[:ndim]
    a = mk(ctx, "a", dims, "km", "down", "one" if side == "r" or op == "*" else "none")
    c = ctx.real("c", lo=-100, hi=100)
    if op == "/" and side == "r":
        ctx.assume(c != 0)
    x = raw(a)
    r = ctx.run("with a number", {("*", "r"): lambda: a * c, ("*", "l"): lambda: c * a, ("/", "r"): lambda: a / c,
                                   ("/", "l"): lambda: c / a}[op, side])
    ctx.check(r.dimensions == dims and r.positive == "down", "metadata with a number: %s %s" % (r.dimensions, r.positive))
    if op == "*":
        want, base = x * c * 1000.0, "m"
    elif side == "r":
        want, base = x / c * 1000.0, "m"
    else:
        want, base = safe_div(ctx, farr(ctx, c), x * 1000.0), "m-1"
    ctx.check_array(quantity(ctx, r, base, "number"), want, "number %s %s" % (op, side))


def invert(ctx, ndim, units, base, f):
    dims = ("t", "y")[:ndim]
    a = mk(ctx, "a", dims, units, "up", "none")
    x = raw(a)
    r = ctx.run("invert", a.invert)
    ctx.check(r.dimensions == dims and r.positive == "up", "metadata of the inverse")
    ctx.check_array(quantity(ctx, r, Unit(base).invert(), "inverse"), safe_div(ctx, farr(ctx, 1.0), x * f), "inverse")


def power(ctx, ndim, units, base, f, pos, e, how):
    dims = ("t", "y")[:ndim]
    a = mk(ctx, "a", dims, units, pos, "one" if e > 0 else "none")
    if e < 0 or e != int(e):
        for v in np.ravel(np.ma.getdata(a)):
            ctx.assume(v > 0)
    x = raw(a)
    ex = {"py": e, "phys": PhysArray(float(e), name="e", units="1"), "in": e, "node": e,
          "pct": PhysArray(100.0 * e, name="e", units="%")}[how]
    fn = {"in": lambda: a.__ipow__(ex), "node": lambda: F.find_operator("**", 2)(DataNode(a), e)[:]}.get(how, lambda: a ** ex)
    r = ctx.run("power", fn)
    want = x * f
    if e == int(e):
        p = None
        for _ in range(abs(int(e))):
            p = want if p is None else p * want
        want = np.ma.asarray(np.ones(x.shape)) if p is None else p
        if e == 0:
            want = np.ma.array(want, mask=np.ma.getmaskarray(x))
        if e < 0:
            want = safe_div(ctx, farr(ctx, 1.0), want)
    else:                           # square root
        got = quantity(ctx, r, Unit(base) ** e, "power")
        ctx.check_array(got * got, want, "square of the square root")
        want = None
    ctx.check(r.dimensions == dims, "dimensions of a power")
    ctx.check(r.positive == (None if e % 2 == 0 else pos), "direction of a power: %s" % r.positive)
    if want is not None:
        ctx.check_array(quantity(ctx, r, Unit(base) ** int(e), "power"), want, "power %s" % e)


def bad_exponent(ctx):
    a = mk(ctx, "a", ("t",), "m", None, "none")
    for ex, cls in ((PhysArray([1.0, 2.0], name="e", dimensions=("t",)), DimensionsError),
                    (PhysArray(2.0, name="e", units="m"), UnitsError),
                    (PhysArray(2.0, name="e", positive="up"), ValueError)):
        for fn in ((lambda: a ** ex), (lambda: a.__ipow__(ex))):
            _, err = ctx.call(fn)
            ctx.check(isinstance(err, cls), "exponent %r refused (%r)" % (ex, err))


def sizes(ctx, op):
    na, nb = ctx.choice("na", [1, 2, 3]), ctx.choice("nb", [1, 2, 3])
    a = phys(ctx, "a", (na, 2), ("t", "y"))
    b = phys(ctx, "b", (2, nb), ("y", "t"), lo=1)
    r, err = ctx.call(lambda: a * b if op == "*" else a / b)
    if na != nb:
        ctx.check(isinstance(err, DimensionsError), "sizes %d and %d are not combined" % (na, nb))
    else:
        ctx.check(err is None and r.dimensions == ("t", "y"), "equal sizes combined")


def algebra(ctx, u):
    """(a*b)/b = a and a*b = b*a as quantities; a*a = a**2"""
    ua, ub, ba, fa, bb, fb = u
    a, b = mk(ctx, "a", ("t", "y"), ua, "up", "one"), mk(ctx, "b", ("y",), ub, None, "none")
    for v in np.ravel(np.ma.getdata(b)):
        ctx.assume(v >= 1)
    x = raw(a)
    r = ctx.run("(a*b)/b", lambda: (a * b) / b)
    ctx.check_array(quantity(ctx, r, ba, "(a*b)/b"), x * fa, "(a*b)/b")
    p, q = ctx.run("a*b", lambda: a * b), ctx.run("b*a", lambda: b * a)
    base = Unit(ba) * Unit(bb)
    ctx.check_array(quantity(ctx, p, base, "a*b"),
                    quantity(ctx, q, base, "b*a").transpose([q.dimensions.index(d) for d in p.dimensions]), "a*b = b*a")
    s, t = ctx.run("a*a", lambda: a * a), ctx.run("a**2", lambda: a ** 2)
    ctx.check(s.units == t.units, "units of a*a and a**2")
    ctx.check_array(raw(s), raw(t), "a*a = a**2")


def own(ctx, view, op, how, nd):
    """the operands share their data"""
    a = mk(ctx, "a", ("t", "y", "x")[:nd], "km", "up", "one" if nd < 2 else None)
    b = VIEWS[view](a)
    x, y = raw(a).copy(), raw(b).copy()
    if op == "/":
        for v in np.ravel(np.ma.getdata(a)):
            ctx.assume(v >= 1)
    if view == "down":
        y = y * -1.0
    dims, snap = a.dimensions, snapshot(b)
    r = ctx.run("a%sb" % op, {("*", "op"): lambda: a * b, ("/", "op"): lambda: a / b, ("*", "in"): lambda: a.__imul__(b), ("/", "in"): lambda: a.__itruediv__(b)}[op, how])
    ctx.check(r.dimensions == dims and r.positive == "up", "metadata")
    ctx.check_array(quantity(ctx, r, Unit("m2") if op == "*" else Unit("1"), "own"), x * y * 1e6 if op == "*" else safe_div(ctx, x, y), "a%sb" % op)
    if how == "op":
        check_unchanged(ctx, b, snap, "right operand")
        ctx.check_array(raw(a), x, "left operand")


def plain(ctx):
    """numbers first or in place; the remainder is not defined"""
    a = mk(ctx, "a", ("t",), "1", None, "none")
    x = raw(a).copy()
    c = ctx.choice("c", [-3, 1, 2.5])
    for v in x:
        ctx.assume(v >= 1)
    g = {"c//a": raw(ctx.run("c//a", lambda: c // a)), "a//c": raw(ctx.run("a//c", lambda: a // c))}
    for fn in (lambda: a % c, lambda: c % a, lambda: a.__imod__(c), lambda: a % a):
        _, err = ctx.call(fn)
        ctx.check(isinstance(err, NotImplementedError), "the remainder is refused (%r)" % (err,))
    _, err = ctx.call(lambda: 2 ** a)
    ctx.check(isinstance(err, DimensionsError), "an array as exponent is refused (%r)" % (err,))
    e = PhysArray(3.0, name="e", units="1")
    r = ctx.run("2**e", lambda: 2 ** e)
    ctx.check_array(raw(r), farr(ctx, 8.0), "2**e")
    ctx.check(r.dimensions == () and r.units == Unit("1") and r.positive is None, "metadata of 2**e")
    ctx.check_array(raw(a), x, "operand")
    r = ctx.run("a//=c", lambda: a.__ifloordiv__(c))
    ctx.check(r is a and r.units == Unit("1"), "in-place operation gives the same object")
    g["a//=c"] = raw(r)
    for what, v in g.items():
        for i in range(len(x)):
            d = (c / x[i] if what == "c//a" else x[i] / c) - v[i]
            ctx.check(d >= -1e-6, "%s is not above the quotient" % what)
            ctx.check(d <= 1 + 1e-6, "%s is within one of the quotient" % what)
            ctx.check(v[i].is_integer(), "%s is whole" % what)


def floordiv(ctx, pos):
    a, b = mk(ctx, "a", ("t", "y"), "m", pos[0], "none"), mk(ctx, "b", ("y",), "s", pos[1], "none")
    for v in np.ravel(np.ma.getdata(b)):
        ctx.assume(v >= 1)
    dims, x, y, wp = ref("/", a, b, *pos)
    r = ctx.run("a//b", lambda: a // b)
    ctx.check(r.dimensions == dims and r.positive == wp and r.units == Unit("m s-1"), "metadata of //")
    g, yy = raw(r), np.broadcast_to(np.ma.getdata(y), r.shape)
    for i in np.ndindex(*g.shape):
        d = x[i] / yy[i] - g[i]
        ctx.check(d >= -1e-6, "floor not above the quotient at %s" % (i,))
        ctx.check(d <= 1 + 1e-6, "floor within one of the quotient at %s" % (i,))
        ctx.check(g[i].is_integer(), "floor is whole at %s" % (i,))


def cases(tier):
    q = tier == "quick"
    out = []
    hows = ("op", "in", "node")
    for k, (ad, bd) in enumerate(PAIRS):
        for op in "*/":
            for j in range(2 if q else 9):
                h = hows[(k + j) % 3]
                if q and op == "/" and len(bd) == 3:
                    bd = bd[:2]
                out.append(("%s%d:%s:%s:%s" % (op, j, h, "".join(ad) or "0", "".join(bd) or "0"), combine,
                            dict(ad=ad, bd=bd, u=U[(2 * k + 5 * j) % len(U)], pos=POS[(k + 4 * j) % len(POS)], op=op, how=h)))
    for k, p in enumerate(POS):
        for op in "*/":
            for h in hows:
                out.append(("p:%s:%s:%s-%s" % (op, h, p[0], p[1]), combine,
                            dict(ad=("t", "y"), bd=("y",), u=U[1], pos=p, op=op, how=h)))
    for k, u in enumerate(U):
        for op in "*/":
            out.append(("u%d:%s" % (k, op), combine, dict(ad=("y",), bd=("y",), u=u, pos=(None, None), op=op,
                                                          how=hows[k % 3])))
        if k not in (7,):
            out.append(("alg%d" % k, algebra, dict(u=u)))
    for op in "*/":
        for s in "lr":
            for n in (0, 1, 2):
                out.append(("n:%s:%s:%d" % (op, s, n), number, dict(op=op, side=s, ndim=n)))
        out.append(("size:" + op, sizes, dict(op=op)))
    for n in (0, 1, 2):
        for k, (u, b, f) in enumerate((("m", "m", 1.0), ("km", "m", 1000.0), ("hPa", "Pa", 100.0))):
            out.append(("inv:%d:%d" % (n, k), invert, dict(ndim=n, units=u, base=b, f=f)))
    for k, e in enumerate((1, 2, 3, 0, -1, -2, 4)):
        for j, h in enumerate(("py", "phys", "in", "node", "pct")):
            p = (None, "up", "down")[(k + j) % 3]
            u = (("m", "m", 1.0), ("km", "m", 1000.0))[(k + j) % 2]
            out.append(("pow:%s:%s" % (h, e), power, dict(ndim=(k + j) % 3, units=u[0], base=u[1], f=u[2], pos=p, e=e, how=h)))
    for j, h in enumerate(("py", "phys", "node", "in")):
        for p in (None, "up", "down"):
            u = (("m2", "m2", 1.0), ("km2", "m2", 1.0e6), ("1", "1", 1.0))[j % 3]
            out.append(("root:%s:%s" % (h, p), power, dict(ndim=j % 3, units=u[0], base=u[1], f=u[2], pos=p, e=0.5, how=h)))
    for j, v in enumerate(VIEWS):
        for op in "*/":
            for how in ("op", "in"):
                out.append(("own:%s:%s:%s" % (v, op, how), own, dict(view=v, op=op, how=how, nd=1 + j % 2)))
    out.append(("plain", plain, {}))
    out.append(("badexp", bad_exponent, {}))
    for p in POS:
        out.append(("floor:%s-%s" % p, floordiv, dict(pos=p)))
    return out
