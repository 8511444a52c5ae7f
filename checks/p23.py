"""P23: annual means, climatologies and other changes of the time step."""
from checks.modlib import *    # noqa
from pyconform.modules import commonfunctions    # noqa

PROPERTY = dict(
    id="P23",
    title="Monthly, annual and climatological series are derived from the right time slices",
    statement="Of monthly data over whole years, monthtoyear_noleap gives for each year the mean weighted by the noleap month lengths, and its time and bounds functions the middle and ends of "
              "each year (less 365 days); oclim gives for each month of the year the mean over the years, oclim_time and oclim_timebnds the middle of the months of the first year, and the "
              "bounds from the start of each month in the first year to its end in the last (time being the end of each month). yeartomonth_data and _data3D repeat each year's "
              "field (but one at time 0) for twelve months and yeartomonth_time gives the middles of these months; burntFraction multiplies by the seconds of each month and 100. A cell without data stays missing, and so does a mean that data is missing for; units "
              "and dimension names are kept, also in the answer to an empty request; the inputs are unchanged.",
    quantifier=dict(over=["inputs"], text="all data and time values, numbers of years and shapes within bounds"),
    why_tests_cant="No test calls these functions; an error of one month or of a weight shows only in values.",
    anchors=dict(files=["pyconform/modules/commonfunctions.py"], mechanism=[
        dict(name="climatology", where="pyconform/modules/commonfunctions.py: oclim*"),
        dict(name="annual", where="pyconform/modules/commonfunctions.py: monthtoyear_noleap*"),
        dict(name="monthly", where="pyconform/modules/commonfunctions.py: yeartomonth*, burntFraction")]),
)
META = dict(
    how="The data and times are solver variables; each element of the result is compared with its definition over the input elements.",
    bounds=dict(quick="1-3 years, 3 and 4 dimensions of sizes 1-2, up to 2 cells without data", thorough="1-4 years, sizes 1-3"),
    outside="part of a year at the end of the data (monthtoyear: dropped; oclim: any length is covered), evaluation in chunks of time",
    assumptions=["floats are reals"],
)
ML = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
DIMS = {3: ("time", "y", "x"), 4: ("time", "z", "y", "x")}


def series(ctx, n, nd, sizes, holes=(), at=None):
    shape = (n,) + tuple(sizes)[-(nd - 1):]
    d = ctx.reals("v", shape, lo=-1000, hi=1000)
    hs = [(slice(None) if at is None else at,) + h for h in holes]
    return put(ctx, d, hs), DIMS[nd], shape


def missing(holes, i):
    return tuple(i) in holes


def climatology(ctx, n, nd, sizes, holes, at=None):
    d, dims, shape = series(ctx, n, nd, sizes, holes, at)

    def want(m, *i):
        if missing(holes, i) and (at is None or at % 12 == m):
            return None
        v = [d[(t,) + i] for t in range(m, n, 12)]
        return sum(v[1:], v[0]) / len(v)
    apply(ctx, "oclim", [mkphys(d, "v", dims, "K")], table(ctx, (12,) + shape[1:], want), dims, "K")


def annual(ctx, years, nd, sizes, holes, at=None):
    """at: missing in this month only"""
    d, dims, shape = series(ctx, 12 * years, nd, sizes, holes, at)

    def want(y, *i):
        if missing(holes, i) and (at is None or at // 12 == y):
            return None
        r = 0.0
        for m in range(12):
            r = r + d[(12 * y + m,) + i] * ML[m]
        return r / 365
    apply(ctx, "monthtoyear_noleap", [mkphys(d, "v", dims, "K")], table(ctx, (years,) + shape[1:], want), dims, "K")


def monthly(ctx, years, nd, sizes, holes, zero):
    """zero: the first slice of the yearly data has time 0 (and is left out)"""
    n = years + (1 if zero else 0)
    d, dims, shape = series(ctx, n, nd, sizes, holes)
    t = ctx.reals("t", (n,), lo=365, hi=36500)
    if zero:
        t[0] = 0.0
    axes = {k: mkphys(farr(ctx, [float(j) for j in range(m)]), k, (k,), "1") for k, m in zip(dims, shape)}
    tt = mkphys(t, "time", ("time",), "days since 0001-01-01", calendar="noleap")
    args = [mkphys(d, "v", dims, "K"), tt, axes["y"], axes["x"]]
    want = table(ctx, (12 * years,) + shape[1:], lambda m, *i: None if missing(holes, i) else d[(m // 12 + (1 if zero else 0),) + i])
    if nd == 4:
        args.append(axes["z"])
    apply(ctx, "yeartomonth_data" if nd == 3 else "yeartomonth_data3D", args, want, dims, "K")
    mid, acc = [], 0.0
    for m in ML:
        mid.append(acc + m / 2.0)
        acc += m
    want = table(ctx, (12 * years,), lambda m: t[m // 12 + (1 if zero else 0)] - 365 + mid[m % 12])
    apply(ctx, "yeartomonth_time", [tt], want, ("time",), "days since 0001-01-01", calendar="noleap")


def times(ctx, years, bdim):
    n = 12 * years
    u = "days since 0001-01-01"
    b = ctx.reals("b", (n, 2), lo=0, hi=36500)
    tb = mkphys(b, "tb", ("time", "nb"), u, calendar="noleap")
    apply(ctx, "oclim_time", [tb], table(ctx, (12,), lambda m: (b[m, 0] + b[m, 1]) / 2), ("time",), u, calendar="noleap")
    apply(ctx, "monthtoyear_noleap_time", [tb], table(ctx, (years,), lambda y: (b[12 * y, 0] + b[12 * y + 11, 1]) / 2 - 365), ("time",), u, calendar="noleap")
    kw = dict(bdim=bdim) if bdim else None
    bd = bdim or "d2"
    apply(ctx, "monthtoyear_noleap_timebnds", [tb], table(ctx, (years, 2), lambda y, k: b[12 * y + 11 * k, k] - 365), ("time", bd), u, kw=kw, calendar="noleap")
    t = ctx.reals("t", (n,), lo=0, hi=36500)
    tt = mkphys(t, "time", ("time",), u, calendar="noleap")
    apply(ctx, "oclim_timebnds", [tt], table(ctx, (12, 2), lambda m, k: t[m] - ML[m] if k == 0 else t[n - 12 + m]), ("time", bd), u, kw=kw, calendar="noleap")


def burnt(ctx, n, sizes, holes):
    d, dims, shape = series(ctx, n, 3, sizes, holes)
    want = table(ctx, shape, lambda t, *i: 1e20 if missing(holes, i) else d[(t,) + i] * ML[t % 12] * 86400 * 100)
    a = mkphys(d, "v", dims, "s-1")
    # missing cells keep the fill value here
    apply(ctx, "burntFraction", [a], np.ma.array(np.ma.getdata(want)), dims, "s-1", scale=1e-6)


def cases(tier):
    q = tier == "quick"
    out = []
    top = 4 if q else 5
    for y in range(1, top):
        for nd, sizes in ((3, (2, 1)), (4, (2, 1, 2))) if q else ((3, (2, 1)), (4, (2, 1, 2)), (3, (2, 3)), (4, (1, 3, 2))):
            tag = "%d:%s" % (y, "".join(map(str, sizes)))
            for holes in ((), ((0,) * (nd - 1),)):
                h = "hole" if holes else "full"
                if nd == 4 and y > 2 and q:
                    continue
                out.append(("oclim:%s:%s" % (tag, h), climatology, dict(n=12 * y, nd=nd, sizes=sizes, holes=holes)))
                out.append(("annual:%s:%s" % (tag, h), annual, dict(years=y, nd=nd, sizes=sizes, holes=holes)))
                for zero in (False, True):
                    out.append(("monthly:%s:%s:%d" % (tag, h, zero), monthly, dict(years=y, nd=nd, sizes=sizes, holes=holes, zero=zero)))
        out.append(("times:%d" % y, times, dict(years=y, bdim=None)))
        out.append(("times:%d:named" % y, times, dict(years=y, bdim="nb2")))
        out.append(("burnt:%d" % y, burnt, dict(n=12 * y, sizes=(1, 2), holes=((0, 1),))))
    for at in (0, 13, 23):
        for nd, sizes in ((3, (2, 1)), (4, (1, 2, 1))):
            kw = dict(nd=nd, sizes=sizes, holes=((0,) * (nd - 1),), at=at)
            out.append(("oclim:once:%d:%d" % (at, nd), climatology, dict(kw, n=24)))
            out.append(("annual:once:%d:%d" % (at, nd), annual, dict(kw, years=2)))
    out.append(("oclim:odd", climatology, dict(n=29, nd=3, sizes=(1, 1), holes=())))
    out.append(("burnt:odd", burnt, dict(n=27, sizes=(2, 1), holes=())))
    return with_hidden(out, lambda kw: kw.get("holes"))
