"""limit, chunits, rmunits, chdims, up, down, sqrt."""
from checks.modlib import *    # noqa
from pyconform.physarray import UnitsError

PROPERTY = dict(
    id="P30",
    title="Functions that change one aspect of the data change nothing else",
    statement="limit(x, below=b, above=a) gives the nearest value within [b, a] (either may be absent); chunits relabels x without converting it, with the given units, reference date and calendar, and those of "
              "x for what is not given; rmunits makes it dimensionless; chdims renames the leading dimensions in their order; up and down turn the direction and the sign together (data without a "
              "direction is only labelled); sqrt gives the root of the values in the root of the units, or a units error. All that a function does not name stays: values, missing values, units, calendar, direction, dimensions; "
              "requests without data report the same units, direction and dimensions; inputs are unchanged.",
    quantifier=dict(over=["inputs"], text="all values, masks and limits; units, reference dates, calendars and directions from a list"),
    why_tests_cant="Tests call each function on one array of one or four values without masks, directions or limits equal to zero.",
    anchors=dict(files=["pyconform/functions.py"], mechanism=[
        dict(name="functions", where="pyconform/functions.py: LimitFunction, ChangeUnitsFunction, RemoveUnitsFunction, RenameDimensionsFunction, PositiveUpFunction, PositiveDownFunction, SquareRootFunction")]),
)
META = dict(
    how="Values, masks and limits are solver variables; the result is compared with its definition element by element, as are its metadata and those of the request without data.",
    bounds=dict(quick="up to 4 values, 0 to 3 dimensions; pairs of integers of three types with limits from a list", thorough="up to 6 values"),
    outside="below greater than above, constants as data, units that have no reference date in common",
    assumptions=["floats are reals"],
)
SHAPES = {"scalar": ((), ()), "one": ((3,), ("t",)), "two": ((2, 2), ("t", "x")), "three": ((1, 2, 1), ("t", "y", "x")), "empty": ((0, 2), ("t", "x"))}


def source(ctx, shape, dims, units, calendar=None, positive=None, masks=True, lo=-1000, hi=1000):
    d = ctx.reals("v", shape, lo=lo, hi=hi)
    m = ctx.mask("m", shape) if masks and shape else np.zeros(shape, dtype=bool)
    x = mkphys(np.ma.array(d, mask=m) if masks else d, "v", dims, units, calendar=calendar, positive=positive)
    return x, d, m


def same(ctx, key, x, args, f, d, m, kw=None, units=None, positive=None, dims=None, shapes=True):
    units = x.units if units is None else units
    dims = x.dimensions if dims is None else dims
    snap = snapshot(x)
    node = node_of(ctx, key, [x] + list(args), kw)
    r = ctx.run(key, lambda: node[:] if x.ndim else node[()])
    out = [(r, key)]
    out.append((ctx.run("request without data", lambda: node[None]), "request without data"))
    for r_, what in out:
        ctx.check(r_.units == units and str(r_.units) == str(units), "%s: units %s, expected %s" % (what, r_.units, units))
        ctx.check(r_.units.calendar == units.calendar, "%s: calendar %s, expected %s" % (what, r_.units.calendar, units.calendar))
        ctx.check(r_.positive == positive, "%s: direction %s, expected %s" % (what, r_.positive, positive))
        ctx.check(r_.dimensions == tuple(dims), "%s: dimensions %s, expected %s" % (what, r_.dimensions, dims))
    want = np.empty(d.shape, dtype=object if ctx.symbolic else float)
    for i in np.ndindex(*d.shape):
        want[i] = 0.0 if m[i] else f(d[i])
    ctx.check_array(raw(r), np.ma.array(want, mask=m), key)
    check_unchanged(ctx, x, snap, "input")


def limit(ctx, shape, dims, below, above, masks, positive):
    x, d, m = source(ctx, shape, dims, "K", positive=positive, masks=masks)
    kw, lo, hi = {}, None, None
    if below == "any":
        lo = kw["below"] = ctx.real("below", lo=-100, hi=100)
    elif below is not None:
        lo = kw["below"] = below
    if above == "any":
        hi = kw["above"] = ctx.real("above", lo=-100, hi=100)
    elif above is not None:
        hi = kw["above"] = above
    if lo is not None and hi is not None:
        ctx.assume(lo <= hi)

    def f(v):
        if lo is not None and bool(v < lo):
            return lo
        if hi is not None and bool(v > hi):
            return hi
        return v
    same(ctx, "limit", x, [], f, d, m, kw=kw, positive=positive)


def whole(ctx, dt):
    """integers, limits that need not be"""
    opts = [None, -1.5, -1, 0, 0.5, 2.0]
    lo, hi = ctx.choice("below", opts), ctx.choice("above", opts)
    ctx.assume(lo is None or hi is None or lo <= hi)
    d = np.array([ctx.choice("v%d" % i, [-3, -1, 0, 1, 4]) for i in range(2)], dtype=dt)
    x = PhysArray(np.ma.array(d, mask=[False, bool(ctx.bool("m"))]), name="v", units="K", dimensions=("t",), positive="up")
    snap = snapshot(x)
    node = node_of(ctx, "limit", [x], dict(below=lo, above=hi))
    r = ctx.run("limit", lambda: node[:])
    want = np.clip(d.astype(float), -1e9 if lo is None else lo, 1e9 if hi is None else hi)
    ctx.check_array(raw(r), np.ma.array(want, mask=raw(x).mask if np.ma.isMaskedArray(raw(x)) else False), "limited integers")
    if all(v is None or v == int(v) for v in (lo, hi)):
        ctx.check(r.dtype.kind == "i", "integers limited to integers are integers, not %s" % r.dtype)
    ctx.check((str(r.units), r.positive, r.dimensions) == ("K", "up", ("t",)), "units, direction and dimensions are kept")
    check_unchanged(ctx, x, snap, "input")


UNITS = {    # name: data units, calendar, arguments, expected units, calendar
    "plain": ("m", None, dict(units="kg"), "kg", None),
    "none": ("m s-1", None, dict(), "m s-1", None),
    "one": ("m", None, dict(units="1"), "1", None),
    "time": ("days since 2000-01-01", "noleap", dict(), "days since 2000-01-01", "noleap"),
    "hours": ("days since 2000-01-01", "noleap", dict(units="hours"), "hours since 2000-01-01", "noleap"),
    "ref": ("days since 2000-01-01", "noleap", dict(refdate="1850-01-01"), "days since 1850-01-01", "noleap"),
    "cal": ("days since 2000-01-01", "noleap", dict(calendar="360_day"), "days since 2000-01-01", "360_day"),
    "both": ("days since 2000-01-01", "standard", dict(refdate="1850-03-01", calendar="365_day"), "days since 1850-03-01", "365_day"),
    "all": ("days since 2000-01-01", "standard", dict(units="hours", refdate="1850-03-01", calendar="365_day"), "hours since 1850-03-01", "365_day"),
    "other": ("days since 2000-01-01", "noleap", dict(units="hours since 1900-01-01", calendar="noleap"), "hours since 1900-01-01", "noleap"),
    "override": ("days since 2000-01-01", "noleap", dict(units="hours since 1900-01-01", refdate="1950-01-01", calendar="360_day"), "hours since 1950-01-01", "360_day"),
    "make": ("1", None, dict(units="days since 1979-01-01", calendar="noleap"), "days since 1979-01-01", "noleap"),
    "parts": ("days", None, dict(refdate="1979-01-01", calendar="noleap"), "days since 1979-01-01", "noleap"),
    "of": ("days", None, dict(units=("hours since 1979-01-01", "360_day")), "hours since 1979-01-01", "360_day"),
    "stdhours": ("days since 2000-01-01", "standard", dict(units="hours"), "hours since 2000-01-01", "standard"),
    "stdnone": ("days since 2000-01-01", "standard", dict(), "days since 2000-01-01", "standard"),
    "stdref": ("hours since 2000-01-01", "standard", dict(refdate="1850-03-01"), "hours since 1850-03-01", "standard"),
    "stdcal": ("hours since 2000-01-01", "standard", dict(calendar="noleap"), "hours since 2000-01-01", "noleap"),
    "plaincal": ("days since 2000-01-01", None, dict(units="hours", calendar="noleap"), "hours since 2000-01-01", "noleap"),
    "tostd": ("days since 2000-01-01", "noleap", dict(calendar="standard"), "days since 2000-01-01", "standard"),
    "julian": ("seconds since 2000-01-01", "julian", dict(units="days", refdate="1979-01-01"), "days since 1979-01-01", "julian"),
    "ofpart": ("days since 2000-01-01", "noleap", dict(units=("hours", None)), "hours since 2000-01-01", "noleap"),
    "ofref": ("days since 2000-01-01", "noleap", dict(units=("hours since 1979-01-01", "noleap"), refdate="1850-01-01"), "hours since 1850-01-01", "noleap"),
    "ofcal": ("days since 2000-01-01", "noleap", dict(units=("hours since 1979-01-01", "360_day")), "hours since 1979-01-01", "360_day"),
    "ofstd": ("days since 2000-01-01", "standard", dict(units=("hours since 1979-01-01", "noleap"), refdate="1850-01-01"), "hours since 1850-01-01", "noleap"),
    "ofplain": ("days", None, dict(units=("m", None)), "m", None),
}


def chunits(ctx, shape, dims, name, positive, masks):
    u, cal, kw, want, wcal = UNITS[name]
    x, d, m = source(ctx, shape, dims, u, calendar=cal, masks=masks, positive=positive)
    kw = dict(kw)
    if isinstance(kw.get("units"), tuple):
        uu, cc = kw["units"]
        kw["units"] = DataNode(mkphys(farr(ctx, [0.0]), "other", ("q",), uu, calendar=cc))
    same(ctx, "chunits", x, [], lambda v: v, d, m, kw=kw, units=Unit(want, calendar=wcal) if wcal else Unit(want), positive=positive)


def rmunits(ctx, shape, dims, units, positive, masks):
    x, d, m = source(ctx, shape, dims, units, positive=positive, masks=masks)
    same(ctx, "rmunits", x, [], lambda v: v, d, m, units=Unit(1), positive=positive)


def chdims(ctx, shape, dims, new, positive, masks):
    x, d, m = source(ctx, shape, dims, "K", positive=positive, masks=masks)
    want = tuple(new[:len(dims)]) + dims[len(new):]
    same(ctx, "chdims", x, list(new), lambda v: v, d, m, dims=want, positive=positive)


def direction(ctx, shape, dims, key, positive, masks):
    x, d, m = source(ctx, shape, dims, "K", positive=positive, masks=masks)
    flip = positive is not None and positive != key
    same(ctx, key, x, [], lambda v: -v if flip else v, d, m, positive=key)


def root(ctx, shape, dims, units, want, positive, masks, lo=0):
    x, d, m = source(ctx, shape, dims, units, positive=positive, masks=masks, lo=lo)
    if want is None:
        _, e = ctx.call(node_of_plain, "sqrt", x)
        ctx.check(isinstance(e, UnitsError), "sqrt of %s: %r" % (units, e))
        return
    snap = snapshot(x)
    node = node_of(ctx, "sqrt", [x])
    r = ctx.run("sqrt", lambda: node[:] if x.ndim else node[()])
    for r_ in (r, ctx.run("request without data", lambda: node[None])):
        ctx.check(r_.units == Unit(want) and r_.dimensions == dims and r_.positive == positive, "sqrt: %s %s %s" % (r_.units, r_.dimensions, r_.positive))
    got = np.ma.asarray(raw(r))
    gm, gd = np.ma.getmaskarray(got), np.ma.getdata(got)
    for i in np.ndindex(*shape):
        none = bool(m[i]) or bool(d[i] < 0)     # a negative value has no root
        ctx.check(bool(gm[i]) == none, "sqrt: missing value at %s" % (i,))
        if not none:
            ctx.check(gd[i] >= 0, "sqrt: negative")
            ctx.check_eq(gd[i] * gd[i], d[i], "sqrt squared at %s" % (i,))
    check_unchanged(ctx, x, snap, "input")


def node_of_plain(key, x):
    return EvalNode(key, F.find_function(key), DataNode(x))


def cases(tier):
    q = tier == "quick"
    shapes = dict(SHAPES)
    if not q:
        shapes.update(long=((6,), ("t",)), grid=((2, 3), ("t", "x")), four=((2, 1, 2, 1), ("t", "z", "y", "x")))
    out = [("whole:" + dt, whole, dict(dt=dt)) for dt in ("i4", "i2", "i8")]
    for s, (shape, dims) in shapes.items():
        n = int(np.prod(shape))
        for positive in (None, "up", "down"):
            for masks in (False, True) if shape else (False,):
                tag = "%s:%s:%s" % (s, positive, "mask" if masks else "full")
                kw = dict(shape=shape, dims=dims, positive=positive, masks=masks)
                for key in ("up", "down"):
                    out.append((key + ":" + tag, direction, dict(kw, key=key)))
                out.append(("rmunits:" + tag, rmunits, dict(kw, units="m s-1")))
                out.append(("sqrt:" + tag, root, dict(kw, units="m2 s-4", want="m s-2")))
                for k in range(1, len(dims) + 2):
                    out.append(("chdims:%s:%d" % (tag, k), chdims, dict(kw, new=("A", "B", "C", "D", "E")[:k])))
                if len(dims) > 1:
                    out.append(("chdims:%s:swap" % tag, chdims, dict(kw, new=(dims[1], dims[0]))))
                if positive is None or s == "one":
                    for name in UNITS:
                        if s in ("one", "scalar") or name in ("hours", "plain", "all", "stdhours"):
                            out.append(("chunits:%s:%s" % (name, tag), chunits, dict(kw, name=name)))
                if positive != "up" and (n <= 3 or not masks or not q):
                    for b, a in ((None, None), ("any", None), (None, "any"), ("any", "any"), (0.0, None), (None, 0.0), (0, 1), (-1.5, 0)):
                        if masks and n > 3 and "any" == a == b:
                            continue
                        out.append(("limit:%s:%s:%s" % (b, a, tag), limit, dict(kw, below=b, above=a)))
    for masks in (False, True):
        out.append(("sqrt:negative:%s" % masks, root, dict(shape=(3,), dims=("t",), positive="up", masks=masks, units="m2", want="m", lo=-100)))
    for u, w in (("m4", "m2"), ("1", "1"), ("m2 kg-2", "m kg-1"), ("m", None), ("m3", None), ("m2 s-1", None), ("K", None)):
        out.append(("sqrt:" + u, root, dict(shape=(2,), dims=("t",), positive=None, masks=False, units=u, want=w)))
    return out
