"""P27: age of air, pressures of hybrid levels and zonal means."""
import sys
import types

from checks.modlib import *    # noqa
from pyconform.modules import commonfunctions    # noqa

try:
    import Ngl
except ImportError:
    # the library that interpolates is not installed: what it is given and gives is recorded by a stand-in
    Ngl = sys.modules["Ngl"] = types.ModuleType("Ngl")
    Ngl.vinth2p = None
from pyconform.modules import pnglfunctions    # noqa

PROPERTY = dict(
    id="P27",
    title="Derived atmospheric fields satisfy their defining equations",
    statement="ageofair is, at each time and place, the time less the time at which the tracer of the reference point (first level and latitude) had the local value, linearly interpolated between "
              "months (the first or last time outside their range), where times are the middle of the month before the date. delp is the difference of the pressures hya P0 + hyb PS of adjacent "
              "interfaces (0 for the last); rho the pressure of the level over 287.04 T; pm25 is PM 287 T over the pressure; zonalmean the mean along the last of four axes, without missing values; vinth2p what the library's "
              "vinth2p gives for these data with pressures in mbar (surface: Pa), 1e30 read as 1e20, the output levels in place of the level dimension. "
              "Units as documented, dimensions named, also without data; inputs unchanged.",
    quantifier=dict(over=["inputs"], text="all tracer, pressure, temperature and coefficient values within bounds"),
    why_tests_cant="No test calls these functions; the equations must hold for every value, including equal ones and those at the ends.",
    anchors=dict(files=["pyconform/modules/commonfunctions.py", "pyconform/modules/pnglfunctions.py"], mechanism=[
        dict(name="age of air", where="pyconform/modules/commonfunctions.py: AgeofAirFunction"),
        dict(name="hybrid levels", where="pyconform/modules/commonfunctions.py: delp, rho, pm25"),
        dict(name="vertical interpolation", where="pyconform/modules/pnglfunctions.py: VertInterpFunction"),
        dict(name="zonal mean", where="pyconform/modules/commonfunctions.py: ZonalMeanFunction")]),
)
META = dict(
    how="The fields are solver variables and the results compared with the equations (multiplied out where they divide); the age of air with its interpolation in each interval.",
    bounds=dict(quick="2-4 months, 1-3 levels, 1-2 latitudes, any months of the years 0-9999", thorough="2-5 months, 1-3 levels, 1-3 latitudes, any dates of the years 0-9999"),
    outside="the interpolation of the library (PyNGL, not installed: a stand-in records its arguments and returns any values), reference tracers that do not increase, temperatures or pressures of 0, the emilnox function",
    assumptions=["floats are reals", "dates are yyyymmdd of the month after (as in monthly history files)"],
)


def age(ctx, dates, nl, ny):
    n = len(dates)
    # increments keep the reference series increasing
    inc = ctx.reals("inc", (n,), lo=0.25, hi=10)
    d = ctx.reals("v", (n, nl, ny), lo=-5, hi=60)
    for t in range(n):
        d[t, 0, 0] = inc[t] if t == 0 else d[t - 1, 0, 0] + inc[t]
    date = mkphys(np.array(dates), "date", ("t",))
    time = mkphys(farr(ctx, [float(k) for k in range(n)]), "time", ("t",), "days since 2000-01-01")
    lat, lev = mkphys(farr(ctx, [float(k) for k in range(ny)]), "lat", ("lat",)), mkphys(farr(ctx, [float(k) for k in range(nl)]), "lev", ("lev",))
    yr = []
    for x in dates:
        y, m = x // 10000, x // 100 % 100
        # the middle of the month that ends at this date
        y, m = (y - 1, 12) if m == 1 else (y, m - 1)
        yr.append(y + (m - 0.5) / 12)
    args = [mkphys(d, "SF6", ("t", "lev", "lat")), date, time, lat, lev]
    node = node_of(ctx, "ageofair", args)
    ref = d[:, 0, 0]

    def when(v):
        if bool(v < ref[0]):
            return yr[0]
        for k in range(n - 1):
            if bool(v < ref[k + 1]):
                return yr[k] + (v - ref[k]) * (yr[k + 1] - yr[k]) / (ref[k + 1] - ref[k])
        return yr[-1]
    want = table(ctx, d.shape, lambda t, z, y: yr[t] - when(d[t, z, y]))
    snaps = [(x, snapshot(x)) for x in args]
    for x in (ctx.run("empty request", lambda: node[None]), ctx.run("ageofair", lambda: node[:])):
        ctx.check(x.dimensions == ("t", "lev", "lat") and x.units == Unit("yr"), "ageofair: %s %s" % (x.dimensions, x.units))
    ctx.check_array(raw(x), want, "ageofair")
    for x, s in snaps:
        check_unchanged(ctx, x, s, "argument")


def anydate(ctx, n, day=False):
    """any dates, with given values of the tracer"""
    ref = [0.0, 1.0, 3.0, 4.0][:n]
    loc = [-1.0, 0.5, 2.0, 9.0][:n]
    d = farr(ctx, [[[r, v]] for r, v in zip(ref, loc)])
    days = [ctx.int("d%d" % t, 1, 31) for t in range(n)] if day else [1, 28, 15, 31][:n]
    ymd = [(ctx.int("y%d" % t, 0, 9999), ctx.int("m%d" % t, 1, 12), days[t]) for t in range(n)]
    date = np.array([y * 10000 + m * 100 + k for y, m, k in ymd], dtype=object if ctx.symbolic else int)
    yr = [y + (m - 1.5) / 12 for y, m, k in ymd]
    args = [mkphys(d, "SF6", ("t", "lev", "lat")), mkphys(date, "date", ("t",)), mkphys(farr(ctx, [float(k) for k in range(n)]), "time", ("t",), "days since 2000-01-01"),
            mkphys(farr(ctx, [0., 1.]), "lat", ("lat",)), mkphys(farr(ctx, [1.]), "lev", ("lev",))]
    snaps = [(x, snapshot(x)) for x in args]
    node = node_of(ctx, "ageofair", args)

    def when(v):
        if v <= ref[0]:
            return yr[0]
        for k in range(n - 1):
            if v < ref[k + 1]:
                return yr[k] + (yr[k + 1] - yr[k]) * ((v - ref[k]) / (ref[k + 1] - ref[k]))
        return yr[-1]
    ctx.check_array(raw(ctx.run("ageofair", lambda: node[:])), table(ctx, (n, 1, 2), lambda t, z, y: yr[t] - when((ref, loc)[y][t])), "ageofair")
    for x, s in snaps:
        check_unchanged(ctx, x, s, "argument")


def hybrid(ctx, key, nl, nt, ny, nx, order):
    P = ("t", "lev", "lat", "lon")
    hya, hyb = ctx.reals("a", (nl,), lo=0.125, hi=1), ctx.reals("b", (nl,), lo=0, hi=1)
    p0 = ctx.real("p0", lo=1, hi=2000)
    ps = ctx.reals("ps", (nt, ny, nx), lo=1, hi=2000)
    args = [mkphys(p0, "P0", (), "Pa"), mkphys(ps, "PS", ("t", "lat", "lon"), "Pa"), mkphys(hya, "hya", ("lev",)), mkphys(hyb, "hyb", ("lev",))]

    def p(t, z, y, x):
        return hya[z] * p0 + hyb[z] * ps[t, y, x]
    shape = (nt, nl, ny, nx)
    if key == "delp":
        want = table(ctx, shape, lambda t, z, y, x: p(t, z + 1, y, x) - p(t, z, y, x) if z + 1 < nl else 0.0)
        units = "Pa"
    else:
        T = ctx.reals("T", shape, lo=1, hi=500)
        o = ("t", "lev", "lat", "lon") if order == "tz" else ("lev", "t", "lat", "lon")
        args.append(mkphys(T if order == "tz" else np.swapaxes(T, 0, 1), "T", o, "K"))
        if key == "rho":
            want = table(ctx, shape, lambda t, z, y, x: p(t, z, y, x) / (287.04 * T[t, z, y, x]))
            units = "cm-3"
        else:
            q = ctx.reals("q", shape, lo=0, hi=100)
            args.append(mkphys(q, "PM", P, "kg/kg"))
            want = table(ctx, shape, lambda t, z, y, x: q[t, z, y, x] * 287.0 * T[t, z, y, x] / p(t, z, y, x))
            units = "kg/kg"
    snaps = [(x, snapshot(x)) for x in args]
    node = node_of(ctx, key, args)
    info = ctx.run("empty request", lambda: node[None])
    r = ctx.run(key, lambda: node[:])
    for x in (info, r):
        ctx.check(sorted(x.dimensions) == sorted(P) and x.units == Unit(units), "%s: %s %s" % (key, x.dimensions, x.units))
    got = raw(r)
    got = np.ma.transpose(got, [r.dimensions.index(d) for d in P])
    ctx.check_array(got, want, key)
    for x, s in snaps:
        check_unchanged(ctx, x, s, "argument")


def zonal(ctx, shape, miss):
    d = ctx.reals("v", shape, lo=-1000, hi=1000)
    m = ctx.mask("m", shape[:1] + (1, 1) + shape[3:]) if miss else np.zeros(shape, bool)
    m = np.broadcast_to(m, shape).copy()
    if miss:
        m[:, 1:, :, :] = False
    D = ("t", "z", "y", "x")

    def want(*i):
        v = [d[i + (k,)] for k in range(shape[3]) if not m[i + (k,)]]
        return sum(v[1:], v[0]) / len(v) if v else None
    apply(ctx, "zonalmean", [mkphys(np.ma.array(d, mask=m), "v", D, "K")], table(ctx, shape[:3], want), D[:3], "K")


def vertical(ctx, dims, holes, units, kw, positive, nlev, nout):
    """vinth2p passes everything to the library in the units it asks for, and gives what it returns"""
    size = dict(t=2, lev=nlev, lat=1, lon=2)
    shape = tuple(size[d] for d in dims)
    out = tuple(nout if d == "lev" else size[d] for d in dims)
    upl, ups, up0 = units
    factor = {"Pa": 1, "hPa": 100, "kPa": 1000, "mbar": 100}
    # the dimensions of the data may be named anything
    name = dict(t="time", lev="lev", lat="lat", lon="lon")
    D = tuple(name[d] for d in dims)
    data = ctx.reals("v", shape, lo=-1000, hi=1000)
    a, b = ctx.reals("a", (nlev,), lo=0, hi=1), ctx.reals("b", (nlev,), lo=0, hi=1)
    pl = ctx.reals("pl", (nout,), lo=1, hi=2000)
    ps = ctx.reals("ps", tuple(n for n, d in zip(shape, dims) if d != "lev"), lo=1, hi=2000)
    p0 = ctx.real("p0", lo=1, hi=2000)
    res = ctx.reals("r", out, lo=-1000, hi=1000)
    for h in holes:
        res[h] = 1e30
    want = np.array(res)
    for h in holes:
        want[h] = 1e20
    pdims = tuple(name[d] for d in dims if d != "lev")
    args = [mkphys(data, "T", D, "K", positive=positive), mkphys(a, "hyam", ("lev",)), mkphys(b, "hybm", ("lev",)), mkphys(pl, "plev", ("plev",), upl),
            mkphys(ps, "PS", pdims, ups), mkphys(p0, "P0", (), up0)]
    calls = []

    def stand_in(datai, hbcofa, hbcofb, plevo, psfc, intyp, p0, ii, kxtrp):
        calls.append((datai, hbcofa, hbcofb, plevo, psfc, intyp, p0, ii, kxtrp))
        n = tuple(np.shape(plevo)[0] if d == "lev" else k for d, k in zip(dims, np.shape(datai)))
        return np.array(res) if n == out else np.zeros(n)
    pnglfunctions.vinth2p = stand_in
    snaps = [(x, snapshot(x)) for x in args]
    node = node_of(ctx, "vinth2p", args, kw)
    info = ctx.run("empty request", lambda: node[None])
    del calls[:]
    r = ctx.run("vinth2p", lambda: node[:])
    wd = tuple("plev" if d == "lev" else d for d in D)
    for x in (info, r):
        ctx.check(x.dimensions == wd and x.units == Unit("K") and x.positive == positive, "vinth2p: %s %s %s" % (x.dimensions, x.units, x.positive))
    ctx.check_array(raw(r), np.ma.array(want), "vinth2p")
    ctx.check(len(calls) == 1, "vinth2p: the library is called %d times" % len(calls))
    c = calls[0]

    def scaled(v, u, to):
        k = factor[u] / to
        return np.ma.array(np.ma.getdata(np.ma.asarray(v)) * k)
    for got, w, what in ((c[0], data, "data"), (c[1], a, "hybrid a"), (c[2], b, "hybrid b"), (c[3], scaled(pl, upl, 100), "pressure levels in mbar"),
                         (c[4], scaled(ps, ups, 1), "surface pressure in Pa"), (c[6], scaled(np.array(p0), up0, 100), "reference pressure in mbar")):
        ctx.check_array(np.ma.array(np.array(got)), np.ma.asarray(w), "vinth2p: " + what)
    kind, ext = (kw or {}).get("intyp", 1), (kw or {}).get("ixtrp", 0)
    ctx.check(c[5] == kind and c[7] == 1 and bool(c[8]) == bool(ext), "vinth2p: kinds %s %s %s" % (c[5], c[7], c[8]))
    for x, s in snaps:
        check_unchanged(ctx, x, s, "argument")


def cases(tier):
    q = tier == "quick"
    out = []
    dates = [("jan", [20000101, 20000201]), ("three", [20000201, 20000301, 20000401]), ("year", [19991201, 20000101, 20000201])]
    if not q:
        dates += [("four", [20000201, 20000301, 20000401, 20000501]), ("gap", [19991101, 20000101, 20010101]), ("five", [19991001, 19991101, 19991201, 20000101, 20000201])]
    for tag, ds in dates:
        for nl, ny in ((1, 1), (2, 1), (1, 2)) if len(ds) < 4 else ((1, 1), (2, 1)):
            out.append(("age:%s:%d%d" % (tag, nl, ny), age, dict(dates=ds, nl=nl, ny=ny)))
    for n in (2, 3) if q else (2, 3, 4):
        out.append(("anydate:%d" % n, anydate, dict(n=n)))
    if not q:
        out.append(("anydate:2:day", anydate, dict(n=2, day=True)))
    for nl, nt, ny, nx in ((2, 1, 1, 2), (3, 2, 1, 1)) if q else ((2, 1, 1, 2), (3, 2, 1, 1), (3, 2, 2, 2), (4, 1, 2, 1)):
        tag = "%d%d%d%d" % (nl, nt, ny, nx)
        out.append(("delp:" + tag, hybrid, dict(key="delp", nl=nl, nt=nt, ny=ny, nx=nx, order=None)))
        for order in ("tz", "zt"):
            for key in ("rho", "pm25"):
                out.append(("%s:%s:%s" % (key, tag, order), hybrid, dict(key=key, nl=nl, nt=nt, ny=ny, nx=nx, order=order)))
    for shape in ((1, 2, 1, 3), (2, 1, 2, 2)) if q else ((1, 2, 1, 3), (2, 1, 2, 2), (2, 2, 2, 3), (1, 1, 1, 5)):
        for miss in (False, True):
            out.append(("zonal:%s:%d" % ("".join(map(str, shape)), miss), zonal, dict(shape=shape, miss=miss)))
    full, flat = ("t", "lev", "lat", "lon"), ("lev", "lat", "lon")
    sizes = ((2, 3),) if q else ((2, 3), (3, 2), (3, 3))
    for nl, no in sizes:
        for tag, dims, holes, units, kw, pos in (("4", full, [(1, 2 % no, 0, 0)], ("Pa", "hPa", "Pa"), None, None), ("3", flat, [], ("hPa", "Pa", "mbar"), dict(intyp=2, ixtrp=1), "up"),
                                                 ("3h", flat, [(0, 0, 0), (1, 0, 1)], ("mbar", "mbar", "hPa"), dict(intyp=3), "down"), ("4x", full, [], ("kPa", "kPa", "kPa"), dict(ixtrp=1), None)):
            out.append(("vertical:%s:%d%d" % (tag, nl, no), vertical, dict(dims=dims, holes=holes, units=units, kw=kw, positive=pos, nlev=nl, nout=no)))
    return out
