"""P18: what belongs in an output file is in it, and nothing else."""
import itertools
import warnings

from checks.lib import *    # noqa
from pyconform.datasets import DefinitionWarning

PROPERTY = dict(
    id="P18",
    title="Each output file holds exactly its variables, attributes and dimensions",
    statement="An output file holds the variable that declares it, the variables it names, every variable without a file of its own whose "
              "dimensions are among those of these, and every variable that one in the file refers to as its bounds or coordinates; "
              "nothing else, no hidden variable, and only the dimensions they use. Each variable has its declared datatype, missing value and "
              "attributes (history only when asked for, with the dimensions reversed) and the file its declared format, compression and attributes. "
              "A file whose required variables cannot be made is skipped with a warning, and a datatype the format cannot hold, a second owner of a "
              "file or a reference to a missing variable is refused.",
    quantifier=dict(over=["configurations"], text="all combinations of file sections, dimensions, references, formats and datatypes within bounds"),
    why_tests_cant="The tests compare one example dataset; the rules interact (metadata found through references, dimensions only used by named variables).",
    anchors=dict(files=["pyconform/datasets.py", "pyconform/dataflow.py", "pyconform/flownodes.py"], mechanism=[
        dict(name="composition", where="pyconform/datasets.py: OutputDatasetDesc.__init__"),
        dict(name="skipping", where="pyconform/dataflow.py: DataFlow._create_write_nodes_"),
        dict(name="header", where="pyconform/flownodes.py: WriteNode._open_")]),
)
META = dict(
    how="The presence of file sections, references, named metadata and the dimensions of each variable are symbolic choices; the set of variables in each file is "
        "compared with the least set closed under the rules, and written headers (in-memory netCDF, real netCDF4 in replays) with the declarations.",
    bounds=dict(quick="4 variables, 3 dimensions, up to 2 files, all reference combinations; 6 formats x 12 datatypes; deflate -1..10; all attribute kinds",
                thorough="as quick with 5 variables"),
    outside="the order of variables in a file",
    assumptions=["netCDF4 replaced by an in-memory stand-in in symbolic runs"],
)
DIMS = {"": (), "y": ("y",), "x": ("x",), "xy": ("x", "y"), "z": ("z",), "xz": ("x", "z"), "xyz": ("x", "y", "z")}


def closure(spec, owner):
    """the variables of the file of `owner`"""
    inside = [owner] + [m for m in spec[owner]["meta"] if m != owner]
    fd = set(d for v in inside for d in spec[v]["dims"])
    for v in spec:
        if not spec[v]["file"] and v not in inside and spec[v]["dims"] and set(spec[v]["dims"]) <= fd:
            inside.append(v)
    k = 0
    while k < len(inside):
        for r in spec[inside[k]]["refs"]:
            if r not in inside:
                inside.append(r)
        k += 1
    return set(inside)


NAMED = {"x": "b", "y": "c", "z": "d"}


def compose(ctx, kinds, reft, named=False):
    """kinds: dims of the variables a (owner), b, c, d; references chosen by the solver"""
    names = "abcde"[:len(kinds)]
    spec = OrderedDict()
    for n, k in zip(names, kinds):
        spec[n] = dict(dims=tuple(NAMED[x] for x in DIMS[k]) if named else DIMS[k], file=n == "a", meta=[], refs=[], bounds=None, coords=[])
    spec["b"]["file"] = bool(ctx.bool("fileb"))
    if bool(ctx.bool("meta")):
        spec["a"]["meta"] = [names[-1]]
    for frm, to, typ in reft:
        if bool(ctx.bool("ref_%s%s" % (frm, to))):
            spec[frm]["refs"].append(to)
            if typ == "b":
                spec[frm]["bounds"] = to
            else:
                spec[frm]["coords"].append(to)
    od = OrderedDict()
    for n, s in spec.items():
        at = {"units": "m"}
        if s["bounds"]:
            at["bounds"] = s["bounds"]
        if s["coords"]:
            at["coordinates"] = "  ".join([""] * named + s["coords"] + [""] * named)
        od[n] = outvar(s["dims"], "v", fname="f" + n if s["file"] else None, attributes=at, metavars=s["meta"])
    ds = ctx.run("building the dataset", OutputDatasetDesc, "out", od)
    owners = [n for n in spec if spec[n]["file"]]
    ctx.check(list(ds.files) == ["f" + n for n in owners], "files %s" % list(ds.files))
    allv = set()
    for n in owners:
        want = closure(spec, n)
        allv |= want
        fd = ds.files["f" + n]
        ctx.check(set(fd.variables) == want, "file of %s holds %s, expected %s" % (n, sorted(fd.variables), sorted(want)))
        ctx.check(set(fd.dimensions) == set(d for v in want for d in spec[v]["dims"]), "dimensions of the file of %s" % n)
    ctx.check(set(ds.variables) == allv, "variables of the dataset %s" % sorted(ds.variables))


REFS = [("a", "b", "c"), ("a", "c", "b"), ("b", "d", "b"), ("c", "d", "c"), ("d", "c", "c")]
FORMATS = ["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF3_64BIT"]
TYPES = ["byte", "ubyte", "char", "short", "ushort", "int", "uint", "int64", "uint64", "float", "real", "double"]
CLASSIC = ["byte", "char", "short", "int", "float", "double"]


def types(ctx):
    f, t = ctx.choice("format", FORMATS + ["NETCDF5"]), ctx.choice("type", TYPES + ["quad"])
    od = OrderedDict(v=outvar(["x"], "v", fname="f", datatype=t, format=f))
    ds, err = ctx.call(OutputDatasetDesc, "out", od)
    if f == "NETCDF5" or t == "quad" or (f != "NETCDF4" and t not in CLASSIC and t != "real"):
        ctx.check(isinstance(err, (ValueError, TypeError)), "%s in a %s file is refused (%r)" % (t, f, err))
    elif f != "NETCDF4" and t == "real":
        return          # another name of float: may be accepted or refused
    else:
        ctx.check(err is None and ds.files["f"].format == f and ds.variables["v"].datatype == t, "%s in a %s file is accepted (%r)" % (t, f, err))


def mixed(ctx):
    """every variable in a file has to fit its format; the variable of time is that of the file section"""
    f = ctx.choice("format", FORMATS)
    ts = [ctx.choice("type%d" % k, ["double", "int64", "uint", "char"]) for k in range(3)]
    how = ctx.choice("time", [None, "v", "m", "t", "nosuch"])
    od = OrderedDict([("v", outvar(["x"], "v", fname="f", datatype=ts[0], format=f, metavars=["m"])), ("m", outvar(["y"], "w", datatype=ts[1])), ("t", outvar(["x"], "u", datatype=ts[2]))])
    if how:
        od["v"]["file"]["autoparse_time_variable"] = how
    ds, err = ctx.call(OutputDatasetDesc, "out", od)
    if how == "nosuch" or (f != "NETCDF4" and not set(ts) <= {"double", "char"}):
        ctx.check(isinstance(err, (ValueError, TypeError)), "%s in a %s file, dates from %s: refused (%r)" % (ts, f, how, err))
        return
    ctx.check(err is None and set(ds.files["f"].variables) == {"v", "m", "t"}, "%s in a %s file, dates from %s: accepted (%r)" % (ts, f, how, err))
    ctx.check(ds.files["f"].autoparse_time_variable == how, "dates are taken from %s, not %s" % (how, ds.files["f"].autoparse_time_variable))


def bare(ctx):
    """variables without attributes share nothing"""
    a = ctx.reals("a", (2,))
    inp, o = path(ctx, "in.nc"), path(ctx, "o.nc")
    ctx.write_nc(inp, OrderedDict([("t", 2)]), OrderedDict([("a", ("f8", ("t",), a, {"units": "m"})), ("b", ("f8", ("t",), -a, {"units": "m"}))]))
    od = OrderedDict([("v", outvar(["time"], "a", fname=o)), ("w", outvar(["time"], "b")), ("u", outvar(["time"], "a", attributes={"long_name": "U"}))])
    for k in ("v", "w"):
        if bool(ctx.bool("bare" + k)):
            od[k].pop("attributes", None)
        else:
            od[k]["attributes"] = {"units": "km"}
    if bool(ctx.bool("gbare")):
        od["v"]["file"]["attributes"] = {"title": "T"}
    given = {k: dict(v.get("attributes", {})) for k, v in od.items()}
    gat = dict(od["v"]["file"].get("attributes", {}))
    f = ctx.run("building", flow, [inp], od)
    ctx.run("executing", lambda: f.execute(serial=True, history=True))
    g = ctx.read_nc(o)
    for k, src in (("v", "a"), ("w", "b"), ("u", "a")):
        at = dict(g["vars"][k]["attrs"])
        h = at.pop("history", "")
        ctx.check(at == given[k], "attributes of %s: %s, given %s" % (k, at, given[k]))
        ctx.check(h.strip() == src or ("(" + src) in h, "history of %s: %r" % (k, h))
        ctx.check(od[k].get("attributes", {}) == given[k], "the specification is left as it was")
    ctx.check({k: v for k, v in g["attrs"].items() if k != "creation_date"} == gat and od["v"]["file"].get("attributes", {}) == gat, "attributes of the file")


def deflates(ctx):
    d = ctx.int("deflate", -3, 12)
    fd, err = ctx.call(FileDesc, "f", deflate=int(d))
    ctx.check((err is None) == bool(0 <= d) and bool(d <= 9) or (err is not None and (bool(d < 0) or bool(d > 9))), "deflate levels 0-9 only")
    if err is None:
        ctx.check(fd.deflate == int(d), "level kept")


def owners(ctx):
    n1, n2 = ctx.choice("f1", ["f", "g"]), ctx.choice("f2", ["f", "g"])
    od = OrderedDict(v=outvar(["x"], "v", fname=n1), w=outvar(["x"], "w", fname=n2))
    ds, err = ctx.call(OutputDatasetDesc, "out", od)
    if n1 == n2:
        ctx.check(isinstance(err, ValueError), "two owners of a file are refused (%r)" % (err,))
    else:
        ctx.check(err is None and set(ds.files) == {n1, n2}, "two files")


def missing(ctx, how):
    """references to variables that are not there; variables without definition, dimensions or file name"""
    od = OrderedDict(v=outvar(["x"], "v", fname="f"), w=outvar(["x"], "w"))
    refused = True
    if how == "bounds":
        od["v"]["attributes"]["bounds"] = "nosuch"
    elif how == "coords":
        od["v"]["attributes"]["coordinates"] = "w nosuch"
    elif how == "meta":
        od["v"]["file"]["metavars"] = ["nosuch"]
    elif how == "dims":
        del od["v"]["dimensions"]
    elif how == "fname":
        del od["v"]["file"]["filename"]
    else:
        refused = False
        if how == "nodef":
            del od["w"]["definition"]
        else:
            od["w"]["definition"] = {"empty": "", "blank": "  "}[how]
    ds, err = ctx.call(OutputDatasetDesc, "out", od)
    if refused:
        ctx.check(err is not None, "refused")
    else:
        ctx.check(err is None and set(ds.files["f"].variables) == {"v"}, "the variable is left out (%r)" % (err,))
        ctx.check(any(issubclass(w.category, DefinitionWarning) for w in ctx.warned), "with a warning")


def skipped(ctx):
    """files that need a variable that cannot be made are skipped, others are written"""
    a = ctx.reals("a", (2,))
    inp = path(ctx, "in.nc")
    ctx.write_nc(inp, OrderedDict([("t", 2)]), OrderedDict([("a", ("f8", ("t",), a, {"units": "m"}))]))
    bad_v, bad_w, bad_m = bool(ctx.bool("badv")), bool(ctx.bool("badw")), bool(ctx.bool("badm"))
    bad_h = bool(ctx.bool("badh"))
    ctx.assume(not (bad_v and bad_w))
    df = lambda b, s: "nosuch + a" if b else s        # noqa
    od = OrderedDict([("v", outvar(["time"], df(bad_v, "a"), fname=path(ctx, "v.nc"), attributes={"units": "m"}, metavars=["m", "_h"])),
                      ("_h", outvar([], df(bad_h, "mean(a, 't')"), attributes={"units": "m"})),
                      ("w", outvar(["time"], df(bad_w, "2*a"), fname=path(ctx, "w.nc"), attributes={"units": "m"})),
                      ("m", outvar([], df(bad_m, "mean(a, 't')"), attributes={"units": "m"}))])
    f, err = ctx.call(flow, [inp], od)
    if err is not None:
        ctx.fail("building raised %r" % (err,))
    warned = any(issubclass(w.category, DefinitionWarning) for w in ctx.warned)
    ctx.check(warned == (bad_v or bad_w or bad_m or bad_h), "warning about a missing input")
    ctx.run("executing", lambda: f.execute(serial=True))
    for n, bad, val in (("v", bad_v or bad_m or bad_h, a), ("w", bad_w, 2 * a)):
        got = ctx.read_nc(path(ctx, n + ".nc"))
        ctx.check((got is None) == bad, "%s.nc %s" % (n, "skipped" if bad else "written"))
        if got:
            ctx.check_array(got["vars"][n]["data"], val, n)
            ctx.check(set(got["vars"]) == ({"v", "m"} if n == "v" else {"w"}), "variables of %s.nc: %s" % (n, sorted(got["vars"])))


def header(ctx, fmt, deflate, override, hist, fill, hidden):
    a, s = ctx.reals("a", (2, 2)), ctx.real("s")
    mask = np.array([[bool(ctx.bool("m%d%d" % (i, j))) for j in range(2)] for i in range(2)])
    x, y, z = DimensionDesc("x", 2), DimensionDesc("y", 2, unlimited=True), DimensionDesc("z", 5)
    at = OrderedDict([("units", "m"), ("long_name", "A"), ("flag", 3), ("positive", "up"), ("vals", [1.0, 2.0]), ("direction", "increasing")])
    if fill is not None:
        at["_FillValue"] = fill
        for e in a.flat:
            ctx.assume(e != fill)
    va = VariableDesc("a", datatype="float", dimensions=[y, x], attributes=at)
    vs = VariableDesc("s", datatype="double", attributes={"units": "km"})
    vh = VariableDesc("_h", datatype="double", dimensions=[z], attributes={"units": "1"})
    gat = {"title": "T", "version": 2}
    fd = FileDesc(path(ctx, "o.nc"), format=fmt, deflate=deflate, variables=[va, vs] + ([vh] if hidden else []), attributes=gat)
    nodes = [ValidateNode(va, DataNode(PhysArray(np.ma.array(a, mask=mask), name="A", units="m", dimensions=("y", "x"), positive="up"))),
             ValidateNode(vs, DataNode(PhysArray(farr(ctx, s), name="S", units="km")))]
    if hidden:
        nodes.append(ValidateNode(vh, DataNode(PhysArray(np.zeros(5), name="H", units="1", dimensions=("z",)))))

    def go():
        w = WriteNode(fd, inputs=nodes)
        if hist:
            w.enable_history()
        if hist is None:
            w.enable_history()
            w.disable_history()
        w.execute(deflate=override)
    _, err = ctx.call(go)
    if override is not None and not (isinstance(override, int) and 0 <= override <= 9):
        ctx.check(isinstance(err, TypeError) and not os.path.exists(path(ctx, "o.nc")), "deflate %r refused (%r)" % (override, err))
        return
    if err is not None:
        ctx.fail("writing raised %r" % (err,))
    got = ctx.read_nc(path(ctx, "o.nc"))
    ctx.check(set(got["vars"]) == {"a", "s"}, "variables %s" % sorted(got["vars"]))
    ctx.check(got["dims"] == {"x": (2, False), "y": (2, True)}, "dimensions %s" % got["dims"])
    ctx.check(got["format"] in (fmt, {"NETCDF3_64BIT": "NETCDF3_64BIT_OFFSET"}.get(fmt)), "format %s" % got["format"])
    want = {k: v for k, v in at.items() if k not in ("direction", "history")}
    if hist:
        want["history"] = "A"
    for nm, w in (("a", want), ("s", dict({"units": "km"}, **({"history": "S"} if hist else {})))):
        g = got["vars"][nm]["attrs"]
        ctx.check(set(g) == set(w), "attributes of %s: %s" % (nm, sorted(g)))
        for k in w:
            ctx.check(np.all(np.asarray(g[k]) == np.asarray(w[k])) or (k == "_FillValue" and abs(float(g[k]) - w[k]) <= 1e-6 * abs(w[k])), "%s of %s: %r" % (k, nm, g[k]))
    ctx.check(got["vars"]["a"]["dtype"] == np.dtype("f4") and got["vars"]["s"]["dtype"] == np.dtype("f8"), "datatypes %s %s" % (got["vars"]["a"]["dtype"], got["vars"]["s"]["dtype"]))
    lev = deflate if override is None else override
    if fmt.startswith("NETCDF4"):
        ctx.check(got["vars"]["a"]["deflate"] == lev, "compression %s, expected %s" % (got["vars"]["a"]["deflate"], lev))
    g = {k: v for k, v in got["attrs"].items() if k != "creation_date"}
    ctx.check(g == gat and "creation_date" in got["attrs"], "attributes of the file %s" % got["attrs"])
    ctx.check_array(got["vars"]["a"]["data"], np.ma.array(a, mask=mask), "a")
    ctx.check_array(got["vars"]["s"]["data"], farr(ctx, s), "s")


def reversed_history(ctx, dims):
    """the history of each variable names the dimensions of its own that were reversed"""
    xs = {d: ctx.reals(d, (2,), lo=-9, hi=9) for d in "xyz"}
    turn = {}
    dd = {d: DimensionDesc(d, 2) for d in "xyz"}
    vs, nodes = [], []

    def var(name, ds, values, **at):
        v = VariableDesc(name, datatype="double", dimensions=[dd[d] for d in ds], attributes=OrderedDict([("units", "m")] + sorted(at.items())))
        vs.append(v)
        nodes.append(ValidateNode(v, DataNode(PhysArray(values, name=name.upper(), units="m", dimensions=tuple(ds)))))
    for d in "xyz":
        v = xs[d]
        up = bool(v[1] > v[0])
        if not up:
            ctx.assume(v[1] < v[0])
        way = ctx.choice("way_" + d, [None, "increasing", "decreasing"] if d != "z" else [None, "decreasing"])
        turn[d] = way is not None and way != ("increasing" if up else "decreasing")
        var(d, d, v, **(dict(axis=d.upper(), direction=way) if way else dict(axis=d.upper())))
    data = ctx.reals("a", (2,) * len(dims))
    var("a", dims, data)
    var("s", "", farr(ctx, ctx.real("s")))
    w = WriteNode(FileDesc(path(ctx, "o.nc"), variables=vs), inputs=nodes)
    w.enable_history()
    ctx.run("writing", w.execute)
    got = ctx.read_nc(path(ctx, "o.nc"))
    for n, ds in [("a", dims), ("s", ""), ("x", "x"), ("y", "y"), ("z", "z")]:
        rev = [d for d in ds if turn[d]]
        want = "invdims(%s, dims=[%s])" % (n.upper(), ",".join(rev)) if rev else n.upper()
        ctx.check(got["vars"][n]["attrs"]["history"] == want, "history of %s: %r, expected %r" % (n, got["vars"][n]["attrs"]["history"], want))
    index = tuple(slice(None, None, -1) if turn[d] else slice(None) for d in dims)
    ctx.check_array(got["vars"]["a"]["data"], np.ma.array(data[index]), "a")


def through(ctx, deflate, override):
    """history and compression asked for when the data flow is executed"""
    a = ctx.reals("a", (2,))
    inp, o, o2 = path(ctx, "in.nc"), path(ctx, "o.nc"), path(ctx, "p.nc")
    ctx.write_nc(inp, OrderedDict([("t", 2)]), OrderedDict([("a", ("f8", ("t",), a, {"units": "m"}))]))
    od = OrderedDict([("v", outvar(["time"], "2*a", fname=o, attributes={"units": "m"}, deflate=deflate)),
                      ("w", outvar(["time"], "a", fname=o2, attributes={"units": "m"}, deflate=3))])
    f = ctx.run("building", flow, [inp], od)
    asked = [ctx.choice("hist%d" % k, [False, True, None]) for k in range(2)]
    for k, h in enumerate(asked):       # the same data flow executed twice: each time as asked then
        kw = dict(serial=True)
        if h is not None:
            kw["history"] = h
        if override is not None:
            kw["deflate"] = override
        ctx.run("executing", lambda: f.execute(**kw))
        for p, n, hist, lev in ((o, "v", "a", deflate), (o2, "w", "a", 3)):
            g = ctx.read_nc(p)["vars"][n]
            ctx.check(("history" in g["attrs"]) == bool(h), "run %d: history of %s %s, asked for %s" % (k, n, "written" if "history" in g["attrs"] else "not written", h))
            if h:
                ctx.check(hist in g["attrs"]["history"], "history %r" % g["attrs"]["history"])
            ctx.check(g["deflate"] == (lev if override is None else override), "compression of %s: %s" % (n, g["deflate"]))
            ctx.check_array(g["data"], 2 * a if n == "v" else a, n)


def options(ctx, metavar):
    """the format, compression and attributes in the file section"""
    a = ctx.reals("a", (2,))
    inp, o = path(ctx, "in.nc"), path(ctx, "o.nc")
    ctx.write_nc(inp, OrderedDict([("t", 2)]), OrderedDict([("a", ("f8", ("t",), a, {"units": "m"}))]))
    kw = {}
    for k, opts in (("deflate", [None, 0, 1, 4, 9]), ("format", [None, "NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC"]), ("attributes", [None, {}, {"title": "T", "n": 3}])):
        x = ctx.choice(k, opts)
        if x is not None:
            kw[k] = x
    od = OrderedDict([("v", outvar(["time"], "2*a", attributes={"units": "m"}))])
    od["v"]["file"] = dict(filename=o, **kw)
    if metavar:
        od["s"] = outvar([], 3.0, attributes={"units": "1"})
        od["v"]["file"]["metavars"] = ["s"]
    f = ctx.run("building", flow, [inp], od)
    ctx.run("executing", lambda: f.execute(serial=True))
    g = ctx.read_nc(o)
    fmt = kw.get("format", "NETCDF4_CLASSIC")
    ctx.check(g["format"] == fmt, "format %s, expected %s" % (g["format"], fmt))
    if fmt.startswith("NETCDF4"):
        for n in g["vars"]:
            if n != "s":
                ctx.check(g["vars"][n]["deflate"] == kw.get("deflate", 2), "compression of %s: %s, asked for %s" % (n, g["vars"][n]["deflate"], kw.get("deflate")))
    ctx.check({k: v for k, v in g["attrs"].items() if k != "creation_date"} == kw.get("attributes", {}), "attributes %s" % g["attrs"])
    ctx.check(set(g["vars"]) == ({"v", "s"} if metavar else {"v"}), "variables %s" % sorted(g["vars"]))
    ctx.check_array(g["vars"]["v"]["data"], 2 * a, "v")


def cases(tier):
    q = tier == "quick"
    out = [("reversed-history:%s" % d, reversed_history, dict(dims=d)) for d in (("zx", "yz", "xyz") if q else ("zx", "xz", "yz", "xyz", "zyx", "x", "yx"))]
    ks = ["x", "xy", "z", "", "xz"]
    for i, (a, b, c, d) in enumerate(itertools.product(["xy", "x", ""], ["x", "", "z"], ks, ["xz", "z", "x", ""])):
        if q and i % 2:
            continue
        out.append(("compose:%s,%s,%s,%s" % (a, b, c, d), compose, dict(kinds=(a, b, c, d), reft=REFS)))
    if not q:
        for i, k in enumerate(itertools.product(["xy", "x"], ["x", "z"], ["x", "z", "xz"], ["xz", ""], ["z", "x", "xyz"])):
            out.append(("compose5:%s" % ",".join(k), compose, dict(kinds=k, reft=REFS + [("d", "e", "b"), ("e", "c", "c")])))
    reft = [("a", "b", "c"), ("a", "d", "c"), ("a", "c", "b"), ("b", "d", "c"), ("c", "d", "c"), ("d", "c", "c")]
    for k in itertools.product(["xy", "x"], ["x", ""] if q else ["x", "", "z"], ["xz", "z", "x"], ["z", ""] if q else ["z", "", "xz", "y"]):
        out.append(("compose:named:%s" % ",".join(k), compose, dict(kinds=k, reft=reft, named=True)))
    out.append(("types", types, {}))
    out.append(("mixed", mixed, {}))
    out.append(("bare", bare, {}))
    out.append(("deflates", deflates, {}))
    out.append(("owners", owners, {}))
    for h in ("bounds", "coords", "meta", "dims", "fname", "nodef", "empty", "blank"):
        out.append(("missing:" + h, missing, dict(how=h)))
    out.append(("skipped", skipped, {}))
    for deflate, override in ((1, None), (0, 5), (6, 0)):
        out.append(("through:%d:%s" % (deflate, override), through, dict(deflate=deflate, override=override)))
    out.append(("options:0", options, dict(metavar=False)))
    out.append(("options:1", options, dict(metavar=True)))
    n = 0
    for fmt in FORMATS:
        for deflate, override in ((0, None), (5, None), (2, 0), (0, 7), (1, 10), (1, -1), (1, "3"), (9, 9)):
            n += 1
            out.append(("header:%s:%s:%s" % (fmt, deflate, override), header,
                        dict(fmt=fmt, deflate=deflate, override=override, hist=(False, True, None)[n % 3], fill=(None, -999.0, 0.0, 1e20)[(n // 3) % 4],
                             hidden=bool(n % 2))))
    return out
