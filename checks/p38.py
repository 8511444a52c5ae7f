"""climIO: files made after a template file."""
from checks.lib import *    # noqa
from pyconform import climIO

PROPERTY = dict(
    id="P38",
    title="The climIO facade copies a template and stores values where asked",
    statement="A file defined after a template has its global attributes (the history marked as standardized) and dimensions (time unlimited), and exactly the metadata variables and the variable asked for, each with "
              "the type, dimensions and attributes, fill value included, it has in the template, and the metadata variables with their values. Values written to a variable at a time index (the first by default) are there in the closed file, "
              "and nothing else is; slices read are those of the file, found in its directory, by its name or by its pattern. The format and compression are those asked for, and the template, which may be read-only, is unchanged and closed.",
    quantifier=dict(over=["inputs", "configurations"], text="all sets of attributes and metadata variables, values, missing values, indices and formats within bounds"),
    why_tests_cant="The tests of climIO need a library that is not there, and look at types and names only.",
    anchors=dict(files=["pyconform/climIO.py"], mechanism=[
        dict(name="template", where="pyconform/climIO.py: NetCDF4PyPort.define_file, get_var_info, create_var, write_meta_var"),
        dict(name="values", where="pyconform/climIO.py: NetCDF4PyPort.write_var, read_slice, get_filename"),
        dict(name="format", where="pyconform/climIO.py: NetCDF4PyPort.create_file")]),
)
META = dict(
    how="Values, which attributes and metadata variables there are, the missing values and the time indices are solver variables; the file made is compared with the template (in memory; real netCDF4 files in replays).",
    bounds=dict(quick="2 lengths of 3 dimensions, 8 variables of 3 types, up to 3 slices written in 2 steps, 6 formats", thorough="3 slices written in 3 steps, all pairs of variables and formats"),
    outside="the PyNIO port (the library is not here), compression asked for without a level, the accuracy of single-precision numbers that all real values are stored in, the coordinate time given as an array for a later index, attributes named as properties of "
            "netCDF variables (name, shape)",
    assumptions=[],
)
FORMATS = {"netcdf4": ("NETCDF4_CLASSIC", 0), "netcdf4c1": ("NETCDF4_CLASSIC", 1), "netcdf4c9": ("NETCDF4_CLASSIC", 9), "netcdf": ("NETCDF3_CLASSIC", 0), "netcdfLarge": ("NETCDF3_64BIT", 0), "other": ("NETCDF4_CLASSIC", 0)}
METAS = ["lat", "area", "P0", "kind", "edges"]
DIMSOF = {"lat": ("lat",), "area": ("lat", "lon"), "P0": (), "kind": ("lat",), "edges": ("time", "lon"), "T": ("time", "lat"), "N": ("time", "lat"), "TS": ("time",), "U": ("time", "lat", "lon"), "time": ("time",)}


def slices(ctx, name, shape, typ, masked):
    if typ == "i4":
        d = np.array([ctx.choice("%s%d" % (name, k), [16777217, -5]) for k in range(int(np.prod(shape)))], dtype=int).reshape(shape)
    else:
        d = ctx.reals(name, shape, lo=-1000, hi=1000)
    return np.ma.array(d, mask=ctx.mask(name + "_m", shape) if masked else False)


def template(ctx, var, typ, ny, nt, attrs, globs, unlimited=("time",)):
    p = path(ctx, "template.nc")
    nx = 2
    size = dict(time=nt, lat=ny, lon=nx)
    vs = OrderedDict()

    def add(v, t, data, some):
        a = OrderedDict((k, x) for k, x in some if bool(ctx.bool("%s_%s" % (v, k)))) if v in attrs else OrderedDict()
        vs[v] = (t, DIMSOF[v], data, a)
    add("lat", "f8", ctx.reals("lat", (ny,)), [("units", "degrees_north"), ("axis", "Y")])
    add("area", "f4", ctx.reals("area", (ny, nx)), [("units", "m2"), ("_FillValue", np.float32(1e20)), ("long_name", "cell area")])
    add("P0", "f8", farr(ctx, 5.0) if not ctx.symbolic else np.array(ctx.real("P0"), dtype=object), [("units", "Pa")])
    add("kind", "i4", np.array([3 + k for k in range(ny)], dtype="i4"), [("flags", np.int32(2)), ("comment", "lat")])
    add("edges", "f8", ctx.reals("edges", (nt, nx)), [("units", "days since 0001-01-01")])
    add("time", "f8", ctx.reals("time", (nt,)), [("units", "days since 0001-01-01"), ("calendar", "noleap")])
    n = tuple(size[d] for d in DIMSOF[var])
    if var not in vs:
        add(var, typ, farr(ctx, np.arange(np.prod(n)).reshape(n)) if typ != "i4" else np.arange(int(np.prod(n)), dtype="i4").reshape(n),
            [("units", "K"), ("_FillValue", {"f4": np.float32, "f8": np.float64, "i4": np.int32}[typ](-999)), ("missing_value", {"f4": np.float32, "f8": np.float64, "i4": np.int32}[typ](-999)), ("long_name", var), (var, "self")])
    glob = OrderedDict((k, x) for k, x in (("title", "a template"), ("history", "made\nlast year"), ("source", "CESM")) if (bool(ctx.bool("has_" + k)) if globs is None else k in globs))
    ctx.write_nc(p, OrderedDict((d, None if d in unlimited else n) for d, n in (("time", nt), ("lat", ny), ("lon", nx))), vs, glob)
    os.chmod(p, 0o444)
    return p, vs, glob, size


def same_attrs(ctx, got, want, what):
    ctx.check(sorted(got) == sorted(want), "%s: attributes %s, expected %s" % (what, sorted(got), sorted(want)))
    for k in want:
        ctx.check(got[k] == want[k], "%s: attribute %s is %r, expected %r" % (what, k, got[k], want[k]))


def copy(ctx, var, typ, fmt, ny=2, nt=1, attrs=(), masked=False, steps=2, metas=None, hist=True, globs=("history", "title"), ats=(None, 0, 1, 2), unlimited=("time",)):
    nc = NetCDFUser(ctx)
    ctx.replace(climIO, "netCDF4", nc)
    port = ctx.run("init_climIO", climIO.init_climIO, override="netCDF4")
    p, vs, glob, size = template(ctx, var, typ, ny, nt, attrs, globs, unlimited)
    before = ctx.read_nc(p)
    chosen = [m for m in METAS if bool(ctx.bool("meta_" + m))] if metas is None else list(metas)
    o = path(ctx, "out.nc")
    new = ctx.run("create_file", port.create_file, o, fmt, *(["the history"] if hist else []))
    res = ctx.run("define_file", port.define_file, new, var, list(chosen), p, var)
    handles, new = res
    ctx.check(not nc.open_for("r"), "the template is left open")
    ctx.check(sorted(handles) == sorted(chosen + [var]), "handles %s" % sorted(handles))
    dims = DIMSOF[var]
    rest = tuple(size[d] for d in dims[1:])
    want = {}
    for k in range(steps):
        i = ctx.choice("at%d" % k, ats)
        v = slices(ctx, "v%d_" % k, rest, typ, masked)
        ctx.run("write_var at %s" % (i,), port.write_var, handles, v, var, *([] if i is None else [i]))
        want[0 if i is None else i] = v
    ctx.run("close_file", port.close_file, new)
    got = ctx.read_nc(o)
    ctx.check(got is not None and got["complete"] is not False and not nc.open_for("w"), "the file is not closed")
    f, level = FORMATS[fmt]
    ctx.check(got["format"].replace("_OFFSET", "") == f, "format %s is %s" % (fmt, got["format"]))
    a = OrderedDict(glob)
    a["history"] = "Standardized\n" + a["history"] if "history" in a else ("the history" if hist else "clim-convert" + o)
    same_attrs(ctx, got["attrs"], a, "the file")
    n = max([k + 1 for k in want] + ([nt] if "edges" in chosen or "time" in chosen else []))
    ctx.check(dict(got["dims"]) == {"time": (n, True), "lat": (ny, False), "lon": (2, False)}, "dimensions %s" % (dict(got["dims"]),))
    ctx.check(sorted(got["vars"]) == sorted(chosen + [var]), "variables %s, expected %s" % (sorted(got["vars"]), sorted(chosen + [var])))
    for m in chosen + [var]:
        g, w = got["vars"][m], before["vars"][m]
        ctx.check(g["dims"] == w["dims"] and g["dtype"] == w["dtype"], "%s: %s %s, expected %s %s" % (m, g["dtype"], g["dims"], w["dtype"], w["dims"]))
        same_attrs(ctx, g["attrs"], w["attrs"], m)
        ctx.check(g["deflate"] == (level if g["dims"] else 0), "%s: deflate level %s, expected %s" % (m, g["deflate"], level))
    for m in chosen:
        full = before["vars"][m]["data"]
        d = got["vars"][m]["data"]
        ctx.check_array(d[:nt] if DIMSOF[m][:1] == ("time",) else d, full, m)
    d = got["vars"][var]["data"]
    for k in range(n):
        w = want.get(k)
        if w is None:
            w = np.ma.masked_all(rest, dtype=object if ctx.symbolic else float)
        ctx.check_array(np.ma.asarray(d)[k], w, "%s at %d" % (var, k))
        if typ == "i4" and k in want:
            ctx.check(all(bool(x) or int(a) == int(b) for a, b, x in zip(np.ma.getdata(np.ma.asarray(d)[k]).flat, np.ma.getdata(w).flat, np.ma.getmaskarray(w).flat)), "%s at %d: not the same whole numbers" % (var, k))
    after = ctx.read_nc(p)
    ctx.check(dict(after["dims"]) == dict(before["dims"]) and sorted(after["vars"]) == sorted(before["vars"]), "the template has changed")
    same_attrs(ctx, after["attrs"], before["attrs"], "template")
    for m in before["vars"]:
        same_attrs(ctx, after["vars"][m]["attrs"], before["vars"][m]["attrs"], m + " of the template")
        ctx.check_array(after["vars"][m]["data"], before["vars"][m]["data"], m + " of the template")


def reading(ctx, ny, nt):
    """slices, all values, type, dimensions and attributes"""
    nc = NetCDFUser(ctx)
    ctx.replace(climIO, "netCDF4", nc)
    port = ctx.run("init_climIO", climIO.init_climIO, override="netCDF4")
    p, vs, glob, size = template(ctx, "U", "f4", ny, nt, ("U",), ())
    before = ctx.read_nc(p)
    f = ctx.run("open_file", port.open_file, p)
    for v in ("U", "edges", "time", "lat", "kind"):
        n = before["vars"][v]["data"].shape[0]
        k = int(ctx.int("k_" + v, 0, n - 1)) if v in ("U", "edges") else n - 1
        ctx.check_array(ctx.run("read_slice", port.read_slice, f, v, k), before["vars"][v]["data"][k], "%s at %d" % (v, k))
        ctx.check_array(ctx.run("read_slice", port.read_slice, f, v, k, all_values=True), before["vars"][v]["data"], v)
        t, d, a = ctx.run("get_var_info", port.get_var_info, f, v)
        ctx.check(np.dtype(t) == before["vars"][v]["dtype"] and list(d) == list(before["vars"][v]["dims"]), "%s: %s %s" % (v, t, d))
        same_attrs(ctx, dict(a), before["vars"][v]["attrs"], v)
    ctx.run("close_file", port.close_file, f)
    ctx.check(not nc.open_for("r"), "the file is not closed")


def names(ctx, var, hem):
    """the file of a month: in its directory, as named, or made of a pattern"""
    d = path(ctx, "dir")
    os.mkdir(d)
    ctx._cleanup.append((lambda old: lambda: os.chdir(old))(os.getcwd()))
    os.chdir(ctx.dir)
    parts = ["$prefix", ctx.choice("sep", ["", "."]), "$var", ctx.choice("sep2", [".", "_"]), "$date_pattern", "$hem", ctx.choice("end", ["$suffix", ".nc"])]
    if bool(ctx.bool("other_order")):
        parts = parts[2:] + parts[:2]
    md = {"directory": d, "fn": "run1", "pattern": parts, "date_stamp": "1850-01", "suffix": ".sfx"}
    filled = {"$prefix": "run1", "$var": var, "$date_pattern": "1850-01", "$hem": hem, "$suffix": ".sfx"}
    full = os.path.join(d, "".join(filled.get(x, x) for x in parts))
    want = None
    for k, p in enumerate((os.path.join(d, "run1"), "run1", full)):
        if bool(ctx.bool("there%d" % k)):
            open(p, "w").close()
            want = want or p
    got = ctx.run("get_filename", climIO.get_filename, var, md, hem)
    ctx.check(got is None if want is None else got is not None and os.path.abspath(got) == os.path.abspath(want), "%s for %s: got %s, expected %s" % (var, parts, got, want))


def cases(tier):
    q = tier == "quick"
    out = []
    fs = sorted(FORMATS)
    vs = [("T", "f4"), ("T", "f8"), ("N", "i4"), ("TS", "f8"), ("U", "f4")]
    n = 0
    for v, t in vs:
        for k, f in enumerate(fs):
            n += 1
            out.append(("format:%s:%s:%s" % (v, t, f), copy, dict(var=v, typ=t, fmt=f, ny=1 if v != "T" else 2, metas=["lat", "P0", "edges"][:n % 4], steps=2 if t != "i4" or q is False else 1, hist=bool(n % 3), globs=[(), ("history",), ("source", "title")][n % 3])))
        for i, a in enumerate((("lat", v), ("area", v), ("P0", "kind"), ("edges", "time"))):
            if q and v not in ("T", "N") and i != len(v) % 2:
                continue
            out.append(("attributes:%s:%s:%s" % (v, t, a[0]), copy, dict(var=v, typ=t, fmt=fs[n % 6], ny=1, attrs=a, metas=["P0", "kind", "edges", "area", "lat"], steps=1, ats=[1], globs=())))
        out.append(("attributes:%s:%s:file" % (v, t), copy, dict(var=v, typ=t, fmt=fs[(n + 2) % 6], ny=1, attrs=(v,), metas=["lat"], steps=1, ats=[None], globs=None, hist=bool(n % 2))))
        out.append(("metas:%s:%s" % (v, t), copy, dict(var=v, typ=t, fmt=fs[n % 5], ny=2 if v != "U" else 1, nt=2, steps=1, ats=[None, 2])))
        if t != "i4":
            out.append(("missing:%s:%s" % (v, t), copy, dict(var=v, typ=t, fmt=fs[(n + 1) % 5], ny=2 if v != "U" else 1, masked=True, metas=[], ats=[None, 1, 2], steps=2 if q else 3)))
    for k, (v, t) in enumerate((("T", "f4"), ("N", "i4"), ("TS", "f8"))):
        for u in ((), ("lat",), ("time", "lon")):
            out.append(("unlimited:%s:%s:%s" % (v, t, "+".join(u)), copy, dict(var=v, typ=t, fmt=fs[k + len(u)], metas=["edges", "lat"], unlimited=u, steps=2 if t != "i4" else 1, ats=[None, 2])))
    for v, h in (("T", ""), ("aice", "_nh"), ("v.1", "_sh")):
        out.append(("names:%s%s" % (v, h), names, dict(var=v, hem=h)))
    for ny in (1, 2):
        for nt in (1, 2, 3):
            out.append(("reading:%d%d" % (ny, nt), reading, dict(ny=ny, nt=nt)))
    return out
