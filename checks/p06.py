"""P06: addition and subtraction by dimension name, in the left operand's units."""
from checks.lib import *    # noqa
from pyconform.physarray import DimensionsError, UnitsError

PROPERTY = dict(
    id="P06",
    title="Sums and differences combine by dimension name and in physical units",
    statement="Adding or subtracting two quantities pairs their elements by dimension name, whatever order and "
              "subset of dimensions each is stored with, after expressing the right operand in the left operand's units "
              "and direction. The result carries the left units and the dimensions of both, is masked exactly where an "
              "operand is masked, and the in-place forms give the same values. Quantities whose units cannot be "
              "converted or whose shared dimensions differ in size are refused, never combined.",
    quantifier=dict(over=["inputs"], text="all values and masks of arrays within bounds, dimension orders, units, "
                                           "directions, operand kinds"),
    why_tests_cant="Unit tests add 0- and 1-dimensional constants; a wrong axis pairing needs equal-sized dimensions "
                   "in different orders, and a lost conversion needs particular units and masks.",
    anchors=dict(files=["pyconform/physarray.py", "pyconform/functions.py"], mechanism=[
        dict(name="addition/subtraction", where="pyconform/physarray.py: PhysArray.__add__/__sub__/__iadd__/__isub__"),
        dict(name="pairing by name", where="pyconform/physarray.py: PhysArray._broadcast_"),
        dict(name="unit conversion", where="pyconform/physarray.py: PhysArray.convert/_safe_convert_"),
        dict(name="operators", where="pyconform/functions.py: AdditionOperator/SubtractionOperator")]),
)
META = dict(
    how="Symbolic operands with all dimension subsets/orders, unit pairs and directions; oracle: explicit alignment by name and the affine conversion.",
    bounds=dict(quick="operands with 0-3 dimensions of sizes 2-3 (equal sizes for swapped dimensions), all values real, "
                      "one symbolically masked element in each operand, 14 unit pairs, all direction pairs; integers of three types (pairs of -7, 0, 1, 150) with 6 unit pairs",
                thorough="as quick with full symbolic masks on small shapes and all combinations of unit pairs and "
                         "direction pairs"),
    outside="integer overflow, in-place operations on integers; more than 3 dimensions; units other than those listed; rounding",
    assumptions=["floats are reals", "unit conversion is affine with the coefficients the units library gives at 0 "
                                     "and 1000"],
)
SZ = {"t": 2, "y": 2, "x": 2, "z": 3, "w": 1}
# unit pair -> (factor, offset) from right to left
UNITS = {("m", "m"): (1.0, 0.0), ("m", "km"): (1000.0, 0.0), ("km", "m"): (0.001, 0.0), ("1", "1"): (1.0, 0.0),
         ("K", "degC"): (1.0, 273.15), ("degC", "K"): (1.0, -273.15), ("%", "1"): (100.0, 0.0), ("1", "%"): (0.01, 0.0),
         ("Pa", "hPa"): (100.0, 0.0), ("kg m-2 s-1", "g m-2 day-1"): (1e-3 / 86400.0, 0.0),
         ("degF", "degC"): (1.8, 32.0), ("days since 2000-01-01", "hours since 2000-01-02"): (1 / 24.0, 1.0),
         ("s", "min"): (60.0, 0.0), ("mm day-1", "m s-1"): (86400.0e3, 0.0)}
BAD = [("m", "s"), ("m", "1"), ("K", "Pa"), ("1", "kg"), ("days since 2000-01-01", "m")]
# the same unit and reference date, in different calendars
BAD += [(Unit("days since 2000-01-01", calendar=c), Unit(u + " since 2000-01-01", calendar=k))
        for c, k, u in (("noleap", "360_day", "days"), ("360_day", "standard", "days"), ("standard", "noleap", "hours"))]


def mk(ctx, name, dims, units, pos, masked="one"):
    shape = tuple(SZ[d] for d in dims)
    m = None
    if masked == "one" and dims:
        m = np.zeros(shape, dtype=bool)
        m[(0,) * len(dims)] = bool(ctx.bool("m" + name))
    elif masked == "all":
        m = ctx.mask("m" + name, shape)
    return phys(ctx, name, shape, dims, units=units, positive=pos, mask=m, lo=-1000, hi=1000)


def ref(op, a, b, fac, off, pa, pb):
    order = a.dimensions + tuple(d for d in b.dimensions if d not in a.dimensions)
    x, y = aligned(a, a.dimensions, order), aligned(b, b.dimensions, order)
    sgn = -1.0 if pa is not None and pb is not None and pa != pb else 1.0
    y = (y * fac + off) * sgn
    r = x + y if op == "+" else x - y
    return order, r, pa if pa is not None else pb


def expect(ctx, r, want, dims, units, pos, what):
    ctx.check(isinstance(r, PhysArray), "%s: not a physical array" % what)
    ctx.check(r.dimensions == dims, "%s: dimensions %s, expected %s" % (what, r.dimensions, dims))
    ctx.check(r.units == Unit(units), "%s: units %s, expected %s" % (what, r.units, units))
    ctx.check(r.positive == pos, "%s: direction %s, expected %s" % (what, r.positive, pos))
    ctx.check_array(raw(r), want, what)


def combine(ctx, ad, bd, units, pos, op, masked="one"):
    (ua, ub), (pa, pb) = units, pos
    a, b = mk(ctx, "a", ad, ua, pa, masked), mk(ctx, "b", bd, ub, pb, masked)
    fac, off = UNITS[units]
    dims, want, wp = ref(op, a, b, fac, off, pa, pb)
    r = ctx.run("a%sb" % op, lambda: a + b if op == "+" else a - b)
    expect(ctx, r, want, dims, ua, wp, "a%sb" % op)


def inplace(ctx, ad, bd, units, pos, op):
    (ua, ub), (pa, pb) = units, pos
    a, b = mk(ctx, "a", ad, ua, pa), mk(ctx, "b", bd, ub, pb)
    fac, off = UNITS[units]
    dims, want, wp = ref(op, a, b, fac, off, pa, pb)
    snap = snapshot(b)

    def go():
        c = a
        if op == "+":
            c += b
        else:
            c -= b
        return c
    fits = all(d in ad or SZ[d] == 1 for d in bd)
    r, err = ctx.call(go)
    if not fits:
        ctx.check(isinstance(err, DimensionsError), "in-place operation that cannot hold the result is refused")
        return
    if err is not None:
        ctx.fail("a%s=b raised %r" % (op, err))
    ctx.check(r is a, "in-place operation gives the same object")
    expect(ctx, r, want, dims, ua, wp, "a%s=b" % op)
    check_unchanged(ctx, b, snap, "right operand")


def whole(ctx, op, units, which, dt):
    """integer data: also where it is no integer in the units of the other operand"""
    def ints(name):
        d = np.array([ctx.choice("%s%d" % (name, i), [-7, 0, 1, 150]) for i in range(2)], dtype=dt)
        return PhysArray(np.ma.array(d, mask=[False, bool(ctx.bool("m" + name))]), name=name, units=units["ab".index(name)], dimensions=("t",))
    a = ints("a") if "a" in which else mk(ctx, "a", ("y", "t"), units[0], None)
    b = ints("b") if "b" in which else mk(ctx, "b", ("t", "y"), units[1], None)
    fac, off = UNITS[units]
    dims, want, wp = ref(op, a, b, fac, off, None, None)
    r = ctx.run("a%sb" % op, lambda: a + b if op == "+" else a - b)
    expect(ctx, r, want, dims, units[0], wp, "a%sb" % op)
    snap = raw(b)
    c = ctx.run("convert", lambda: b.convert(units[0]))
    ctx.check_array(raw(c), snap * fac + off, "converted")


def number(ctx, op, side, units, ndim):
    """plain numbers are dimensionless"""
    dims = ("t", "y")[:ndim]
    a = mk(ctx, "a", dims, units, "up")
    c = ctx.real("c", lo=-100, hi=100)
    x = raw(a)
    fac = {"1": 1.0, "%": 100.0}.get(units)
    fn = {("+", "r"): lambda: a + c, ("+", "l"): lambda: c + a, ("-", "r"): lambda: a - c,
          ("-", "l"): lambda: c - a}[op, side]
    r, err = ctx.call(fn)
    if fac is None:
        ctx.check(isinstance(err, UnitsError), "adding a plain number to units %s is refused" % units)
        return
    if err is not None:
        ctx.fail("raised %r" % (err,))
    s = 1.0 if op == "+" else -1.0
    if side == "r":
        expect(ctx, r, x + s * c * fac, dims, units, "up", "with a number")
    else:
        expect(ctx, r, c + s * x / fac, dims, "1", "up", "number first")


def unnamed(ctx, op, nd, side):
    """arrays without dimension names are paired from the last axis, as arrays without names are"""
    a = PhysArray(ctx.reals("a", (2, 3)), name="a")
    b = ctx.reals("b", (2, 3)[2 - nd:])
    x = raw(a)
    y = np.array(b)
    if side == "r":
        r = ctx.run("with a plain array", lambda: a + b if op == "+" else a - b)
        want = x + y if op == "+" else x - y
    else:
        r = ctx.run("with a plain array first", lambda: PhysArray(b) + a if op == "+" else PhysArray(b) - a)
        want = y + x if op == "+" else y - x
    dims = tuple(r.dimensions)
    ctx.check(len(dims) == 2 and sorted(dims) == [0, 1], "dimensions %s" % (dims,))
    got = raw(r) if dims == a.dimensions else np.transpose(raw(r))
    ctx.check_array(got, want, "combined")


def refused(ctx, units, op):
    a, b = mk(ctx, "a", ("t",), units[0], None), mk(ctx, "b", ("t",), units[1], None)
    for fn in ((lambda: a + b), (lambda: a - b), (lambda: a.__iadd__(b)), (lambda: a.__isub__(b))):
        _, err = ctx.call(fn)
        ctx.check(isinstance(err, UnitsError), "%s and %s are not combined (%r)" % (units[0], units[1], err))


def sizes(ctx, how):
    """shared dimension of different size (including size 1: no silent stretching)"""
    na, nb = ctx.choice("na", [1, 2, 3]), ctx.choice("nb", [1, 2, 3])
    a = phys(ctx, "a", (na, 2), ("t", "y"))
    b = phys(ctx, "b", (2, nb), ("y", "t")) if how == "2" else phys(ctx, "b", (nb,), ("t",))
    for fn in ((lambda: a + b), (lambda: a - b), (lambda: b + a)):
        r, err = ctx.call(fn)
        if na != nb:
            ctx.check(isinstance(err, DimensionsError), "sizes %d and %d are not combined (%r)" % (na, nb, err))
        else:
            ctx.check(err is None and set(r.dimensions) == {"t", "y"}, "equal sizes combined")


VIEWS = {"itself": lambda a: a, "view": lambda a: PhysArray(a, name="b"), "whole": lambda a: a[:], "reversed": lambda a: a[::-1],
         "down": lambda a: PhysArray(a, name="b", positive="down")}


def own(ctx, view, op, how, nd):
    """the operands share their data"""
    a = mk(ctx, "a", ("t", "y", "x")[:nd], "km", "up", "one" if nd < 2 else None)
    b = VIEWS[view](a)
    x, y = raw(a).copy(), raw(b).copy()
    if view == "down":
        y = y * -1.0
    dims = a.dimensions
    snap = snapshot(b)
    r = ctx.run("a%sb" % op, {("+", "op"): lambda: a + b, ("-", "op"): lambda: a - b, ("+", "in"): lambda: a.__iadd__(b), ("-", "in"): lambda: a.__isub__(b)}[op, how])
    expect(ctx, r, x + y if op == "+" else x - y, dims, "km", "up", "a%sb" % op)
    if how == "op":
        check_unchanged(ctx, b, snap, "right operand")
        ctx.check_array(raw(a), x, "left operand")


def metamorphic(ctx, units):
    """(a + b) - b gives a back; a + b = b + a in common units"""
    a, b = mk(ctx, "a", ("t", "y"), units[0], None, None), mk(ctx, "b", ("y",), units[1], None, None)
    x = raw(a)
    r = ctx.run("a+b-b", lambda: (a + b) - b)
    ctx.check_array(raw(r), x, "(a+b)-b")
    z = ctx.run("a-a", lambda: a - a)
    ctx.check_array(raw(z), np.zeros(x.shape), "a-a")
    if UNITS[units][1] == 0.0:
        p, q = ctx.run("a+b", lambda: a + b), ctx.run("b+a", lambda: (b + a).convert(units[0]))
        ctx.check_array(raw(p), raw(q).transpose([q.dimensions.index(d) for d in p.dimensions]), "a+b = b+a")


PAIRS = [((), ()), (("t",), ()), ((), ("t",)), (("t",), ("t",)), (("t",), ("y",)), (("t", "y"), ("y", "t")),
         (("y", "t"), ("t",)), (("t",), ("y", "t")), (("t", "y"), ("x", "t")), (("t", "y", "x"), ("x", "t", "y")),
         (("t", "y", "x"), ("x", "y")), (("y",), ("x", "y", "t")), (("t", "z"), ("z", "y")), (("t", "y", "x"), ("y",))]
POS = [(None, None), ("up", "up"), ("up", "down"), ("down", "up"), ("up", None), (None, "down"), ("down", None),
       (None, "up"), ("down", "down")]


def cases(tier):
    q = tier == "quick"
    out = []
    ul = sorted(UNITS)
    for k, (ad, bd) in enumerate(PAIRS):
        for op in "+-":
            tag = "%s:%s:%s" % (op, "".join(ad) or "0", "".join(bd) or "0")
            for j in range(3 if q else 9):
                u = ul[(5 * k + 3 * j + (op == "-")) % len(ul)]
                p = POS[(k + 2 * j + (op == "-")) % len(POS)]
                out.append(("c%d:%s" % (j, tag), combine, dict(ad=ad, bd=bd, units=u, pos=p, op=op)))
            out.append(("i:" + tag, inplace, dict(ad=ad, bd=bd, units=ul[k % len(ul)], pos=POS[(k + 2) % len(POS)], op=op)))
    for k, u in enumerate(ul):
        out.append(("u:%d" % k, combine, dict(ad=("t", "y"), bd=("y",), units=u, pos=POS[k % len(POS)], op="+-"[k % 2])))
        out.append(("m:%d" % k, metamorphic, dict(units=u)))
    for k, p in enumerate(POS):
        for op in "+-":
            out.append(("p:%s:%s" % (op, "%s-%s" % p), combine, dict(ad=("t",), bd=("y", "t"), units=("m", "km"), pos=p, op=op)))
            out.append(("pi:%s:%s" % (op, "%s-%s" % p), inplace, dict(ad=("t", "y"), bd=("y",), units=("km", "m"), pos=p, op=op)))
    for j, v in enumerate(VIEWS):
        for op in "+-":
            for how in ("op", "in"):
                out.append(("own:%s:%s:%s" % (v, op, how), own, dict(view=v, op=op, how=how, nd=1 + j % 2)))
    for op in "+-":
        out.append(("mask:" + op, combine, dict(ad=("t",), bd=("t",), units=("m", "km"), pos=("up", "down"), op=op, masked="all")))
        if not q:
            out.append(("mask2:" + op, combine, dict(ad=("t", "y"), bd=("y",), units=("m", "km"), pos=("up", "down"), op=op, masked="all")))
        for side in "lr":
            for u in ("1", "%", "m"):
                for n in (0, 1, 2):
                    out.append(("n:%s:%s:%s:%d" % (op, side, u, n), number, dict(op=op, side=side, units=u, ndim=n)))
    for k, u in enumerate(BAD):
        out.append(("bad:%d" % k, refused, dict(units=u, op="+")))
    for k, u in enumerate([("m", "km"), ("km", "m"), ("K", "degC"), ("1", "%"), ("days since 2000-01-01", "hours since 2000-01-02"), ("m", "m")]):
        for j, which in enumerate(("b", "a", "ab")):
            out.append(("whole:%s:%d" % (which, k), whole, dict(op="+-"[(j + k) % 2], units=u, which=which, dt=("i4", "i2", "i8")[(j + k) % 3])))
    for op in "+-":
        for nd in (1, 2):
            for side in "lr":
                out.append(("plain:%s:%d:%s" % (op, nd, side), unnamed, dict(op=op, nd=nd, side=side)))
    out.append(("size1", sizes, dict(how="1")))
    out.append(("size2", sizes, dict(how="2")))
    return out
