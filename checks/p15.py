"""P15: chunk requests are honoured or refused."""
import itertools

from checks.lib import *    # noqa

PROPERTY = dict(
    id="P15",
    title="A chunk request gives the unchunked result or is refused",
    statement="Executing a data flow with any chunk sizes over any output dimensions either writes exactly what the "
              "definitions say for the complete data, or is refused before any file is written. It is refused when a dimension is unknown, when a chunk size "
              "is not a positive integer, and when some definition anywhere combines (averages, adds, ...) along the requested dimension, "
              "under whatever name that dimension has in the output. In debug mode such a dimension is written in one piece instead.",
    quantifier=dict(over=["inputs", "configurations"],
                    text="all data, all chunk sizes (also zero, negative and too large) on all subsets of dimensions, all definitions of the list"),
    why_tests_cant="Tests check one refused and one accepted request; silent partial sums need reductions hidden below other "
                   "operations, renamed dimensions or other variables.",
    anchors=dict(files=["pyconform/dataflow.py", "pyconform/functions.py", "pyconform/flownodes.py"], mechanism=[
        dict(name="request check", where="pyconform/dataflow.py: DataFlow.execute"),
        dict(name="sum-like dimensions", where="pyconform/dataflow.py: DataFlow._find_sumlike_dimensions_, pyconform/functions.py: Function.sumlike_dimensions"),
        dict(name="chunked writing", where="pyconform/flownodes.py: WriteNode.execute")]),
)
META = dict(
    how="Whole data flows over symbolic data with definitions that hide reductions, solver-chosen chunk sizes on every subset of "
        "dimensions; if the request is accepted, the stored arrays are compared with the definition evaluated on the complete data.",
    bounds=dict(quick="18 definitions (reductions at the top, below operators and functions, in keyword-free and renamed form, in another variable), "
                      "sizes 3x2, chunk sizes -1..4 or none on each of two dimensions",
                thorough="as quick with sizes 4x3 and chunk sizes -1..5"),
    outside="functions of the optional modules (P22-P35), MPI",
    assumptions=["netCDF4 replaced by an in-memory stand-in in symbolic runs", "floats are reals"],
)


def red(fn, ax):
    def f(x):
        x = np.asarray(x)
        out = None
        for i in range(x.shape[ax]):
            v = x.take(i, axis=ax)
            out = v if out is None else out + v
        return out / x.shape[ax] if fn == "mean" else out
    return f


def ext(which, x, ax):
    x = np.asarray(x)
    out = x.take(0, axis=ax).copy()
    for i in range(1, x.shape[ax]):
        v = x.take(i, axis=ax)
        for ix in np.ndindex(out.shape):
            if (which == "max" and bool(v[ix] > out[ix])) or (which == "min" and bool(v[ix] < out[ix])):
                out[ix] = v[ix]
    return out


mean_t, mean_y, sum_t, sum_y = red("mean", 0), red("mean", 1), red("sum", 0), red("sum", 1)
TY, T, Y, S = ("time", "lat"), ("time",), ("lat",), ()
# name: (definition, output dims, value of (a, b) on (t, y), dimensions combined)
DEFS = {
    "plain": ("a", TY, lambda a, b: a, ""),
    "sum2": ("a + 2*b", TY, lambda a, b: a + 2 * b, ""),
    "mean_y": ("mean(a, 'y')", T, lambda a, b: mean_y(a), "y"),
    "mean_t": ("mean(a, 't')", Y, lambda a, b: mean_t(a), "t"),
    "sum_ty": ("sum(a, 't', 'y')", S, lambda a, b: sum_t(sum_y(a)[:, None])[0], "ty"),
    "under_op": ("b + mean(a, 'y')", TY, lambda a, b: b + mean_y(a)[:, None], "y"),
    "anomaly": ("a - mean(a, 't')", TY, lambda a, b: a - mean_t(a)[None, :], "t"),
    "under_neg": ("-sum(b, 'y')", T, lambda a, b: -sum_y(b), "y"),
    "under_func": ("rmunits(mean(a, 't'))", Y, lambda a, b: mean_t(a), "t"),
    "twice": ("mean(mean(a, 'y'), 't')", S, lambda a, b: mean_t(mean_y(a)[:, None])[0], "ty"),
    "renamed": ("mean(chdims(a, 't', 'q'), 'q')", T, lambda a, b: mean_y(a), "Y"),
    "renamed2": ("sum(chdims(a, 'q', 'y'), 'q')", Y, lambda a, b: sum_t(a), "T"),
    "chdims": ("chdims(a, 'tt', 'yy')", ("t2", "y2"), lambda a, b: a, ""),
    "min_t": ("min(a, 't')", Y, lambda a, b: ext("min", a, 0), "t"),
    "max_y": ("1*max(b, 'y')", T, lambda a, b: ext("max", b, 1), "y"),
    "unused": ("mean(a, 'q')", TY, lambda a, b: a, ""),
    "limited": ("limit(mean(a, 'y'), above=5000.0)", T, lambda a, b: mean_y(a), "y"),
    "sliced": ("mean(b[0:2,:], 't')", Y, lambda a, b: mean_t(b[0:2]), "t"),
}


def run(ctx, which, also, nt, ny, debug=False, swap=False):
    """swap: the output names of the dimensions are those of the input, exchanged"""
    ot, oy = ("y", "t") if swap else ("time", "lat")
    a = ctx.reals("a", (nt, ny), lo=-1000, hi=1000)
    b = ctx.reals("b", (nt, ny), lo=-1000, hi=1000)
    inp = path(ctx, "in.nc")
    ctx.write_nc(inp, OrderedDict([("t", None), ("y", ny)]), OrderedDict([
        ("t", ("f8", ("t",), np.arange(nt) * 1.0, {"units": "days since 2000-01-01", "calendar": "noleap"})),
        ("y", ("f8", ("y",), np.arange(ny) * 1.0, {"units": "degrees_north"})),
        ("a", ("f8", ("t", "y"), a, {"units": "m"})),
        ("b", ("f8", ("t", "y"), b, {"units": "m"}))]))
    od = OrderedDict([
        (ot, outvar([ot], "t", attributes={"units": "days since 2000-01-01", "calendar": "noleap"})),
        (oy, outvar([oy], "y", attributes={"units": "degrees_north"}))]) if which != "chdims" else OrderedDict([
        ("t2", outvar(["t2"], [float(k) for k in range(nt)], attributes={"units": "1"})),
        ("y2", outvar(["y2"], [float(k) for k in range(ny)], attributes={"units": "1"}))])
    want, comb = {}, set()
    for k, w in enumerate([which] + ([also] if also else [])):
        d, dims, fn, over = DEFS[w]
        dims = tuple({"time": ot, "lat": oy}.get(x, x) for x in dims)
        n = "v%d" % k
        od[n] = outvar(dims, d, fname=path(ctx, n + ".nc"), attributes={} if "rmunits" in d else {"units": "m"})
        od[n]["file"]["metavars"] = [ot, oy] if which != "chdims" else ["t2", "y2"]
        want[n] = (dims, fn(a, b))
        comb |= set({"t": ot, "y": oy}[c] for c in over if c in "ty")
        # a reduction over a renamed dimension: refused or right
    names = {"time": ot, "lat": oy} if which != "chdims" else {"time": "t2", "lat": "y2"}
    chunks = OrderedDict()
    for d, n in (("time", nt), ("lat", ny)):
        c = ctx.choice("chunk_" + d, [None, -1, 0] + list(range(1, n + 2)))
        if c is not None:
            chunks[names[d]] = c
    df = ctx.run("building the flow", flow, [inp], od)
    if debug:
        ctx.assume(all(c > 0 for c in chunks.values()))
    req = dict(chunks)
    _, err = ctx.call(lambda: df.execute(chunks=chunks, serial=True, debug=debug))
    files = [n for n in want if os.path.exists(path(ctx, n + ".nc"))]
    if any(c <= 0 for c in req.values()) or (not debug and any(d in comb for d in req)):
        ctx.check(isinstance(err, (ValueError, TypeError)), "chunks %s are refused (%r)" % (req, err))
        ctx.check(not files, "nothing is written: %s" % files)
        return
    if err is not None:
        # refusing is allowed, if nothing is written; but only where something is combined
        ctx.check(isinstance(err, ValueError) and not files and any(o.isupper() for o in DEFS[which][3]), "chunks %s raised %r" % (req, err))
        return
    for n, (dims, val) in want.items():
        got = ctx.read_nc(path(ctx, n + ".nc"))
        ctx.check_array(got["vars"][n]["data"], np.asarray(val, dtype=object if ctx.symbolic else float), "%s with chunks %s" % (n, req))
        ctx.check(tuple(got["vars"][n]["dims"]) == tuple(dims), "dimensions of %s" % n)


def bad(ctx, chunks, cls):
    a = ctx.reals("a", (2, 2))
    inp = path(ctx, "in.nc")
    ctx.write_nc(inp, OrderedDict([("t", None), ("y", 2)]), OrderedDict([("a", ("f8", ("t", "y"), a, {"units": "m"}))]))
    od = OrderedDict([("v0", outvar(["time", "lat"], "a", fname=path(ctx, "v0.nc"), attributes={"units": "m"}))])
    df = ctx.run("building the flow", flow, [inp], od)
    _, err = ctx.call(lambda: df.execute(chunks=chunks, serial=True))
    ctx.check(isinstance(err, cls), "chunks %r are refused (%r)" % (chunks, err))
    ctx.check(not os.path.exists(path(ctx, "v0.nc")), "nothing is written")


def cases(tier):
    q = tier == "quick"
    out = []
    nt, ny = (3, 2) if q else (4, 3)
    for w in DEFS:
        n = (2, 2) if w in ("min_t", "max_y") and q else (3, 2) if w in ("min_t", "max_y") else (nt, ny)
        out.append(("def:" + w, run, dict(which=w, also=None, nt=n[0], ny=n[1])))
    for w, v in (("plain", "mean_y"), ("mean_t", "plain"), ("plain", "sum_ty"), ("sum2", "under_func"), ("mean_y", "mean_t"),
                 ("under_neg", "sum2")):
        out.append(("two:%s:%s" % (w, v), run, dict(which=w, also=v, nt=nt, ny=ny)))
    for w in ("plain", "mean_y", "mean_t", "anomaly", "under_func", "twice", "min_t"):
        out.append(("swap:" + w, run, dict(which=w, also=None, nt=2, ny=2, swap=True)))
    for w, v in (("mean_t", "plain"), ("plain", "mean_y")):
        out.append(("swap:%s:%s" % (w, v), run, dict(which=w, also=v, nt=2, ny=2, swap=True)))
    for w in ("plain", "mean_y", "anomaly", "twice", "renamed"):
        out.append(("debug:" + w, run, dict(which=w, also=None, nt=nt, ny=ny, debug=True)))
    for j, (c, cls) in enumerate((({"nosuch": 1}, ValueError), ({"t": 1}, ValueError), ({"time": 1.0}, TypeError), ({"time": "2"}, TypeError),
                                  ({"time": None}, TypeError), ([("time", 1)], TypeError), ({"time": 1, "y": 1}, ValueError))):
        out.append(("bad:%d" % j, bad, dict(chunks=c, cls=cls)))
    return out
