"""P22: bounds of a coordinate."""
from checks.lib import *    # noqa
from checks.p05 import expect as part_of, same
from pyconform import functions as F
from pyconform.modules import commonfunctions    # noqa  (registers bounds)

PROPERTY = dict(
    id="P22",
    title="bounds() gives the intervals between the coordinate values",
    statement="bounds(x) of a coordinate with two or more values has a second dimension of length 2 with the given name, the units and direction of x, and row i holds the ends of the "
              "interval of x[i]: midway to both neighbours (location 1), x[i] to the next value (location 0) or the previous value to x[i] (location 2); beyond the first and last value the "
              "outermost step is repeated, or the value itself is used when endpoints is 0. With interface data of one value more than x the intervals are those between the "
              "interfaces, in the units of x; with one value less the two outermost interfaces are extrapolated. Any part of the result can be requested, or written in chunks, "
              "and is that part of the whole.",
    quantifier=dict(over=["inputs"], text="all coordinate and interface values, all options, all requests and chunk sizes"),
    why_tests_cant="No test calls bounds(); its values depend on neighbours that a chunked request does not contain.",
    anchors=dict(files=["pyconform/modules/commonfunctions.py"], mechanism=[
        dict(name="bounds", where="pyconform/modules/commonfunctions.py: BoundsFunction")]),
)
META = dict(
    how="Coordinate and interface values are solver variables; every element of the result is compared with the definition, for the whole, for parts and through a chunked flow.",
    bounds=dict(quick="coordinates of 2-4 values, all locations, endpoints, interface lengths; requests by position and name with symbolic bounds; chunk sizes 1-3",
                thorough="coordinates of 2-6 values"),
    outside="coordinates with fewer than two values, two-dimensional coordinates",
    assumptions=["floats are reals", "netCDF4.Dataset replaced by an in-memory stand-in in symbolic runs"],
)


def reference(x, location, ends, z):
    """rows of bounds"""
    n = len(x)
    if z is not None:
        if len(z) == n + 1:
            f = list(z)
        else:
            f = [None] + list(z) + [None]
            if location == 0:
                f[0], f[-1] = x[0], 2 * x[-1] - x[-2]
            elif location == 1:
                f[0], f[-1] = 2 * x[0] - z[0], 2 * x[-1] - z[-1]
            else:
                f[0], f[-1] = 2 * x[0] - x[1], x[-1]
        return [(f[i], f[i + 1]) for i in range(n)]
    step = lambda i: x[min(max(i, 0), n - 2) + 1] - x[min(max(i, 0), n - 2)]      # noqa  from i to i+1
    out = []
    for i in range(n):
        lo, hi = x[i], x[i]
        if location == 0:
            hi = x[i] + step(i)
        elif location == 1:
            lo, hi = x[i] - 0.5 * step(i - 1), x[i] + 0.5 * step(i)
        else:
            lo = x[i] - step(i - 1)
        if not ends:
            lo = x[i] if i == 0 else lo
            hi = x[i] if i == n - 1 else hi
        out.append((lo, hi))
    return out


def setup(ctx, n, location, ends, zlen, zunits):
    x = phys(ctx, "x", (n,), ("lev",), units="m", positive="down", lo=-100, hi=100)
    vals = list(raw(x))
    kw = dict(bdim="nb", location=location, endpoints=ends)
    z = None
    if zlen is not None:
        zz = phys(ctx, "z", (n + zlen,), ("ilev",), units=zunits, lo=-100, hi=100)
        z = [v * (1000 if zunits == "km" else 1) for v in raw(zz)]
        kw["idata"] = DataNode(zz)
    return x, vals, z, kw


def whole(ctx, n, location, ends, zlen=None, zunits="m", kinds=()):
    x, vals, z, kw = setup(ctx, n, location, ends, zlen, zunits)
    snap = snapshot(x)
    node = ctx.run("building", lambda: EvalNode("bounds", F.find_function("bounds"), DataNode(x), **kw))
    info = ctx.run("empty request", lambda: node[None])
    r = ctx.run("bounds", lambda: node[:])
    for a, what in ((info, "empty request"), (r, "result")):
        ctx.check(a.dimensions == ("lev", "nb"), "%s: dimensions %s" % (what, a.dimensions))
        ctx.check(a.units == Unit("m"), "%s: units %s" % (what, a.units))
        ctx.check(a.positive == "down", "%s: direction %s" % (what, a.positive))
    want = np.array(reference(vals, location, ends, z), dtype=object if ctx.symbolic else float)
    ctx.check_array(raw(r), want, "bounds")
    w = PhysArray(want, units="m", dimensions=("lev", "nb"), positive="down")
    if kinds:
        k = ctx.choice("kind", list(kinds))
        a, b = int(ctx.int("a", 0, n - 1)), int(ctx.int("b", 1, n))
        idx = {"int": a, "slice": slice(a, b), "tuple": (slice(a, None), 1), "name": {"lev": slice(a, b)}, "nb": {"nb": slice(0, 1)},
               "both": {"nb": 1, "lev": slice(a, b)}, "iname": {"lev": a}, "rev": slice(None, None, -1), "rname": {"lev": slice(None, None, -1)}}[k]
        part = ctx.run("part %r" % (idx,), lambda: node[idx])
        same(ctx, part, w, idx, "part %r" % (idx,))
    check_unchanged(ctx, x, snap, "coordinate")


def integers(ctx, n, location, zlen):
    """an integer coordinate"""
    xs = [int(ctx.int("x0", 0, 1))]
    for i in range(1, n):
        xs.append(xs[-1] + int(ctx.int("d%d" % i, 1, 2)))
    x = PhysArray(np.array(xs, dtype="i4"), name="x", units="m", dimensions=("lev",))
    kw, z = dict(bdim="nb", location=location), None
    if zlen is not None:
        z = [i * 0.75 for i in range(n + zlen)]
        kw["idata"] = DataNode(PhysArray(np.array(z), name="z", units="m", dimensions=("ilev",)))
    r = ctx.run("bounds", lambda: EvalNode("bounds", F.find_function("bounds"), DataNode(x), **kw)[:])
    ctx.check_array(np.array(raw(r), dtype=float), np.array(reference(xs, location, 1, z), dtype=float), "bounds of integers")


def written(ctx, n, location, zlen):
    """definition evaluated and written in chunks"""
    x, z = ctx.reals("x", (n,), lo=-100, hi=100), None
    f = {"x": ("f8", ("lev",), x, {"units": "m"})}
    if zlen is not None:
        z = ctx.reals("z", (n + zlen,), lo=-100, hi=100)
        f["z"] = ("f8", ("ilev",), z, {"units": "m"})
    f["nbs"] = ("f8", ("nb",), farr(ctx, [0.0, 1.0]), {"units": "1"})       # output dimensions take their size from the input
    ctx.write_nc(path(ctx, "in.nc"), OrderedDict([("lev", n), ("ilev", n + (zlen or 0)), ("nb", 2)]), OrderedDict(f))
    chunk = int(ctx.int("chunk", 1, 3))
    d = "bounds(x, bdim='nb', location=%d%s)" % (location, "" if zlen is None else ", idata=z")
    o = path(ctx, "out.nc")
    df = ctx.run("flow", lambda: flow([path(ctx, "in.nc")], [("lev_bnds", outvar(("lev", "nb"), d, o, attributes={"units": "m"}))]))
    ctx.run("execute", lambda: df.execute(chunks={"lev": chunk}))
    got = ctx.read_nc(o)["vars"]["lev_bnds"]
    ctx.check(tuple(got["dims"]) == ("lev", "nb"), "dimensions %s" % (got["dims"],))
    ctx.check_array(got["data"], np.array(reference(list(x), location, 1, None if z is None else list(z)), dtype=object if ctx.symbolic else float), "written bounds")


KINDS = ["int", "slice", "tuple", "name", "nb", "both", "iname", "rev", "rname"]


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(2, 5 if q else 7):
        for loc in (0, 1, 2):
            for zlen in (None, 1, -1):
                for ends in (1, 0):
                    if zlen == -1 and n < 2:
                        continue
                    zu = "km" if zlen is not None and ends else "m"
                    out.append(("fn:%d:%d:%s:%d" % (n, loc, zlen, ends), whole, dict(
                        n=n, location=loc, ends=ends, zlen=zlen, zunits=zu, kinds=KINDS if (n == 3 or not q) else KINDS[n % 2::3])))
                if n < 4:
                    out.append(("int:%d:%d:%s" % (n, loc, zlen), integers, dict(n=n, location=loc, zlen=zlen)))
                if n == 4 or not q:
                    out.append(("flow:%d:%d:%s" % (n, loc, zlen), written, dict(n=n, location=loc, zlen=zlen)))
    return out
