"""P12: what an output variable declares is what its values are in."""
from checks.lib import *    # noqa
from pyconform.physarray import DimensionsError, UnitsError

PROPERTY = dict(
    id="P12",
    title="Output values are in the declared units, direction, order and type",
    statement="An output variable's values are its definition's values expressed in the declared units, reference date and "
              "calendar, in the declared positive direction, with the declared dimension order and datatype. Units, reference "
              "dates and calendars it does not declare are taken from its data and recorded. Data that cannot be "
              "expressed that way (inconvertible units, different calendars, other dimensions, lossy datatype kinds) is refused, "
              "never written unconverted.",
    quantifier=dict(over=["inputs", "configurations"],
                    text="all values, all requests for parts, declared/actual unit, direction, order and type combinations within bounds"),
    why_tests_cant="Every stage can silently relabel instead of convert; tests check each with one constant and no combinations.",
    anchors=dict(files=["pyconform/flownodes.py", "pyconform/datasets.py", "pyconform/physarray.py"], mechanism=[
        dict(name="validation", where="pyconform/flownodes.py: ValidateNode.__init__/__getitem__"),
        dict(name="declared units", where="pyconform/datasets.py: VariableDesc.units/refdatetime/calendar/cfunits"),
        dict(name="conversion", where="pyconform/physarray.py: PhysArray.convert")]),
)
META = dict(
    how="ValidateNode over a VariableDesc with declared units/direction/order/type and symbolic data; oracle: explicit affine conversion, sign and permutation.",
    bounds=dict(quick="data with 0-3 dimensions of sizes 2-3, one masked element, all real values; 14 unit pairs, 16 time declarations "
                      "(2 calendars), all direction pairs, all orders, 10 datatypes, whole and partial requests",
                thorough="as quick with more combinations of them"),
    outside="rounding when storing to 4-byte floats; units outside the list",
    assumptions=["floats are reals", "unit conversion is affine with the library's coefficients at 0 and 1000"],
)
SZ = {"t": 2, "y": 3, "x": 2}
from checks.p06 import BAD, UNITS     # noqa


def mk(ctx, dims, units, pos, cal=None):
    shape = tuple(SZ[d] for d in dims)
    m = np.zeros(shape, dtype=bool)
    if dims:
        m[(-1,) * len(dims)] = True
    return phys(ctx, "v", shape, dims, units=Unit(units, calendar=cal) if cal else units, positive=pos,
                mask=m if dims else None, lo=-1000, hi=1000)


def node_for(ctx, a, dims, attrs, datatype="double"):
    v = VariableDesc("o", datatype=datatype, dimensions=[DimensionDesc(d, SZ[d]) for d in dims], attributes=attrs)
    return v, ctx.run("building the output variable", ValidateNode, v, DataNode(a))


def declared(ctx, dims, order, units, pos, req):
    """units = (declared, actual), pos = (declared, actual)"""
    (uo, ui), (po, pi) = units, pos
    a = mk(ctx, dims, ui, pi)
    a0, snap = np.ma.asarray(raw(a)), snapshot(a)
    attrs = {}
    if uo is not None:
        attrs["units"] = uo
    if po is not None:
        attrs["positive"] = po
    v, n = node_for(ctx, a, order, attrs)
    idx = {"all": {}, "part": {"t": slice(1, 2)}, "rev": {d: slice(None, None, -1) for d in dims[:1]},
           "none": None}[req]
    r = ctx.run("node[%r]" % (idx,), lambda: n[idx])
    fac, off = UNITS[(uo, ui)] if uo not in (None, "?", "") else (1.0, 0.0)
    ctx.check(r.dimensions == tuple(order), "dimensions %s, expected %s" % (r.dimensions, tuple(order)))
    wu = uo if uo not in (None, "?", "") else ui
    ctx.check(r.units == Unit(wu), "units %s, expected %s" % (r.units, wu))
    wp = po if po is not None and pi is not None else pi
    ctx.check(r.positive == wp, "direction %s, expected %s" % (r.positive, wp))
    if uo is not None:
        ctx.check(v.attributes.get("units") == wu, "recorded units %r" % (v.attributes.get("units"),))
    if idx is None:
        ctx.check(r.size == 0 or not dims, "empty request gives no data")
        return
    want = a0[tuple(idx.get(d, slice(None)) for d in dims)] if dims else a0
    want = want * fac + off
    if po is not None and pi is not None and po != pi:
        want = want * -1.0
    if len(dims) > 1:
        want = want.transpose([dims.index(d) for d in order])
    ctx.check_array(raw(r), want, "output values")
    check_unchanged(ctx, a, snap, "source")
    ctx.check("history" in v.attributes and isinstance(v.attributes["history"], str), "history recorded")


# (declared units, declared calendar, input units, input calendar, factor, offset, resulting units, calendar)
D = "days since 2000-01-01"
N = "days since 2000-01-01 12:00:00"
TIMES = [
    (D, None, D, "noleap", 1.0, 0.0, D, "noleap"),
    ("hours since 2000-01-01", None, D, "noleap", 24.0, 0.0, "hours since 2000-01-01", "noleap"),
    ("days since 1999-01-01", None, D, "noleap", 1.0, 365.0, "days since 1999-01-01", "noleap"),
    ("days since 2001-01-01", "noleap", D, "noleap", 1.0, -365.0, "days since 2001-01-01", "noleap"),
    ("days since 2001-01-01", "360_day", D, "360_day", 1.0, -360.0, "days since 2001-01-01", "360_day"),
    ("days since 2001-01-01", "standard", D, "standard", 1.0, -366.0, "days since 2001-01-01", "standard"),
    ("days since 2001-01-01", None, D, None, 1.0, -366.0, "days since 2001-01-01", "standard"),
    ("?", None, D, "noleap", 1.0, 0.0, D, "noleap"),
    ("", None, D, "noleap", 1.0, 0.0, D, "noleap"),
    ("days", None, D, "noleap", 1.0, 0.0, D, "noleap"),
    ("hours", None, D, "noleap", 24.0, 0.0, "hours since 2000-01-01", "noleap"),
    ("? since 1999-01-01", None, D, "noleap", 1.0, 365.0, "days since 1999-01-01", "noleap"),
    ("days since ?", None, "hours since 2000-01-01", "noleap", 1 / 24.0, 0.0, D, "noleap"),
    ("minutes since 2000-01-01", "noleap", "hours since 2000-01-02", "noleap", 60.0, 1440.0, "minutes since 2000-01-01", "noleap"),
    ("days since 2000-03-01", None, D, "noleap", 1.0, -59.0, "days since 2000-03-01", "noleap"),
    ("days since 2000-03-01", None, D, "360_day", 1.0, -60.0, "days since 2000-03-01", "360_day"),
    # reference dates with a time of day
    ("?", None, N, "noleap", 1.0, 0.0, N, "noleap"),
    ("days", None, N, "noleap", 1.0, 0.0, N, "noleap"),
    ("hours", None, N, "360_day", 24.0, 0.0, "hours since 2000-01-01 12:00:00", "360_day"),
    ("days since ?", None, "hours since 2000-01-01 06:00:00", "noleap", 1 / 24.0, 0.0, "days since 2000-01-01 06:00:00", "noleap"),
    (D, None, N, "noleap", 1.0, 0.5, D, "noleap"),
    (N, "noleap", D, "noleap", 1.0, -0.5, N, "noleap"),
    ("? since 2000-01-01 06:00:00", None, D, "noleap", 1.0, -0.25, "days since 2000-01-01 06:00:00", "noleap"),
    ("seconds since 2000-01-01", None, D, "noleap", 86400.0, 0.0, "seconds since 2000-01-01", "noleap"),
    ("days since 2000-02-01", None, D, "julian", 1.0, -31.0, "days since 2000-02-01", "julian"),
    ("days since 2000-03-01", None, D, "all_leap", 1.0, -60.0, "days since 2000-03-01", "366_day"),
]


def cal(c):
    """one spelling per calendar"""
    return {"365_day": "noleap", "all_leap": "366_day", "gregorian": "standard", None: "standard"}.get(c, c)


def times(ctx, k, part):
    uo, co, ui, ci, fac, off, wu, wc = TIMES[k]
    a = mk(ctx, ("t",), ui, None, ci)
    a0 = np.ma.asarray(raw(a))
    attrs = {"units": uo}
    if co:
        attrs["calendar"] = co
    v, n = node_for(ctx, a, ("t",), attrs)
    idx = {"t": slice(0, 1)} if part else {}
    r = ctx.run("node[%r]" % (idx,), lambda: n[idx])
    want = (a0[0:1] if part else a0) * fac + off
    ctx.check(str(r.units) == wu and cal(r.units.calendar) == wc, "units %s|%s, expected %s|%s" %
              (r.units, r.units.calendar, wu, wc))
    ctx.check_array(raw(r), want, "times")
    ctx.check(v.attributes.get("units") == wu, "recorded units %r, expected %r" % (v.attributes.get("units"), wu))
    ctx.check(cal(v.attributes.get("calendar")) == wc,
              "recorded calendar %r, expected %r" % (v.attributes.get("calendar"), wc))
    info = ctx.run("node[None]", lambda: n[None])
    ctx.check(info.units == r.units and info.units.calendar == r.units.calendar, "units of an empty request")


def bad_units(ctx, units):
    a = mk(ctx, ("t",), units[1], None)
    v, n = node_for(ctx, a, ("t",), {"units": units[0]})
    _, err = ctx.call(lambda: n[{}])
    ctx.check(isinstance(err, (UnitsError, ValueError)), "%s is not written as %s (%r)" % (units[1], units[0], err))
    ctx.check(err is None or "o" in str(err), "the error names the variable")


def bad_calendar(ctx):
    a = mk(ctx, ("t",), D, None, "noleap")
    v, n = node_for(ctx, a, ("t",), {"units": "days since 2001-01-01", "calendar": "360_day"})
    _, err = ctx.call(lambda: n[{}])
    ctx.check(err is not None, "times of another calendar are not written")


def bad_dims(ctx, dims, order):
    a = mk(ctx, dims, "m", None)
    v = VariableDesc("o", datatype="double", dimensions=[DimensionDesc(d, SZ.get(d, 2)) for d in order], attributes={"units": "m"})
    n, err = ctx.call(ValidateNode, v, DataNode(a))
    if err is None:
        _, err = ctx.call(lambda: n[{}])
    ctx.check(isinstance(err, DimensionsError), "data over %s is not written over %s (%r)" % (dims, order, err))


KINDS = ["byte", "short", "int", "int64", "ubyte", "ushort", "uint", "float", "real", "double"]


def types(ctx, datatype, src):
    """datatype kinds: floats never become integers; any number becomes a float; integers widen or narrow within kind"""
    x = int(ctx.int("x", 0, 100))
    isint = src.startswith("i") or src.startswith("u")
    a = PhysArray(np.array([x, 5 * x], dtype=src), name="v", units="1", dimensions=("t",))
    v, n = node_for(ctx, a, ("t",), {"units": "1"}, datatype)
    r, err = ctx.call(lambda: n[{}])
    want = {"byte": "i1", "short": "i2", "int": "i4", "int64": "i8", "ubyte": "u1", "ushort": "u2", "uint": "u4", "float": "f4",
            "real": "f4", "double": "f8"}[datatype]
    tofloat = want[0] == "f"
    if not isint and not tofloat:
        ctx.check(isinstance(err, TypeError), "float data is not written as %s (%r)" % (datatype, err))
        return
    if isint and not tofloat and want[0] != src[0]:
        # signed and unsigned: either refused or exact
        if err is not None:
            ctx.check(isinstance(err, TypeError), "refused with a type error")
            return
    if err is not None:
        ctx.fail("%s as %s raised %r" % (src, datatype, err))
    if not ctx.symbolic or not tofloat:
        ctx.check(r.dtype == np.dtype(want), "type %s, expected %s" % (r.dtype, want))
    if 5 * x < 128 or want[1:] not in ("1",):
        ctx.check_eq(float(r[0]), float(x), "value")
        ctx.check_eq(float(r[1]), float(5 * x), "value")


def typed_units(ctx, datatype, src, units, factor, pos=(None, None)):
    """integers in other units: exact as floats, and as integers where they are integers; the datatype is the declared one"""
    x = int(ctx.int("x", -20, 20))
    k = 100 if factor < 1 and datatype in ("int", "int64") else 1
    a = PhysArray(np.ma.array([k * x, 3 * k * x], mask=[False, bool(ctx.bool("m"))], dtype=src), name="v", units=units[0], dimensions=("t",),
                  positive=pos[1])
    if None not in pos and pos[0] != pos[1]:
        factor = -factor
    v, n = node_for(ctx, a, ("t",), {"units": units[1], "positive": pos[0]} if pos[0] else {"units": units[1]}, datatype)
    r = ctx.run("validated", lambda: n[{}])
    want = {"short": "i2", "int": "i4", "int64": "i8", "float": "f4", "double": "f8"}[datatype]
    ctx.check(r.dtype == np.dtype(want) or (ctx.symbolic and want[0] == "f"), "type %s, expected %s" % (r.dtype, want))
    ctx.check(str(r.units) == units[1] and r.dimensions == ("t",), "units %s" % r.units)
    ctx.check(r.positive == (pos[0] if None not in pos else pos[1]), "direction %s" % r.positive)
    for i in range(2):
        if not np.ma.getmaskarray(a)[i]:
            w, g = (k * x, 3 * k * x)[i] * factor, float(r.data[i])
            ctx.check(not np.ma.getmaskarray(r)[i] and abs(g - w) <= 1e-6 * max(1, abs(w)), "value %s, expected %s" % (g, w))
        else:
            ctx.check(bool(np.ma.getmaskarray(r)[i]), "missing stays missing")


def desc_units(ctx, text):
    """VariableDesc reads the declared units apart"""
    u, s, r = text
    full = u + (" since " + r if s else "")
    v = VariableDesc("o", datatype="double", attributes={"units": full, "calendar": "noleap"})
    unk = ("", "?", "unknown")
    ctx.check(v.units() == (None if u in unk else u), "units() of %r: %r" % (full, v.units()))
    ctx.check(v.refdatetime() == (None if not s or r in unk else r), "refdatetime() of %r: %r" % (full, v.refdatetime()))
    ctx.check(v.calendar() == "noleap", "calendar()")
    w = VariableDesc("o", datatype="double")
    ctx.check(w.units() is None and w.refdatetime() is None and w.calendar() is None, "nothing declared")


def cases(tier):
    import itertools
    q = tier == "quick"
    out = []
    ul = sorted(UNITS)
    pos = [(a, b) for a in (None, "up", "down") for b in (None, "up", "down")]
    reqs = ["all", "part", "rev", "none"]
    k = 0
    for dims in ((), ("t",), ("t", "y"), ("t", "y", "x")):
        for order in itertools.permutations(dims):
            for j in range(4 if q else 14):
                u = ul[(3 * k + 5 * j) % len(ul)]
                p = pos[(k + 2 * j) % 9]
                rq = reqs[(k + j) % 4] if dims else ("all", "none")[j % 2]
                out.append(("d%d:%s:%s" % (j, "".join(order) or "0", rq), declared,
                            dict(dims=dims, order=order, units=u, pos=p, req=rq)))
            k += 1
    for j, u in enumerate(ul):
        for rq in reqs:
            out.append(("u:%d:%s" % (j, rq), declared, dict(dims=("t", "y"), order=("y", "t"), units=u, pos=pos[j % 9], req=rq)))
    for p in pos:
        for rq in reqs:
            out.append(("p:%s-%s:%s" % (p[0], p[1], rq), declared, dict(dims=("t",), order=("t",), units=("km", "m"), pos=p, req=rq)))
            for j, uo in enumerate((None, "?", "")):
                out.append(("q:%s-%s:%s:%d" % (p[0], p[1], rq, j), declared,
                            dict(dims=("t",), order=("t",), units=(uo, "m"), pos=p, req=rq)))
    for i in range(len(TIMES)):
        for part in (False, True):
            out.append(("time:%d:%d" % (i, part), times, dict(k=i, part=part)))
    for j, u in enumerate(BAD[:5]):
        out.append(("bad:%d" % j, bad_units, dict(units=u)))
    out.append(("badcal", bad_calendar, {}))
    for dims, order in ((("t",), ("y",)), (("t", "y"), ("t",)), (("t",), ("t", "y")), (("t", "y"), ("t", "x"))):
        out.append(("baddims:%s:%s" % ("".join(dims), "".join(order)), bad_dims, dict(dims=dims, order=order)))
    for dt in KINDS:
        for src in ("f8", "f4", "i4", "i8", "i2", "u2"):
            out.append(("type:%s:%s" % (dt, src), types, dict(datatype=dt, src=src)))
    for u, f in ((("cm", "m"), 0.01), (("m", "cm"), 100.0), (("km", "m"), 1000.0), (("%", "1"), 0.01)):
        for dt in ("double", "float", "int", "int64"):
            for src in ("i4", "i2") + (() if q else ("i8", "i1")):
                out.append(("typed:%s-%s:%s:%s" % (u + (dt, src)), typed_units, dict(datatype=dt, src=src, units=u, factor=f)))
    for dt in ("short", "int", "double", "float"):
        for src in ("i4", "i2", "i1"):
            for u, f in ((("m", "m"), 1.0), (("m", "cm"), 100.0)):
                if u[0] != u[1] and dt == "short":
                    continue
                for p in pos:
                    out.append(("typedpos:%s:%s:%s:%s-%s" % (dt, src, u[1], p[0], p[1]), typed_units, dict(datatype=dt, src=src, units=u, factor=f, pos=p)))
    for j, t in enumerate(itertools.product(("m", "days", "?", "", "unknown", "kg m-2"), (0, 1), ("1850-01-01", "2000-01-01 00:00:00", "?", ""))):
        out.append(("decl:%d" % j, desc_units, dict(text=t)))
    return out
