"""iconform with the CMIP6 data request (its default mode)."""
import sys
import types
from collections import defaultdict

import contextlib
import io
import json

from checks.lib import *    # noqa

PROPERTY = dict(
    id="P39",
    title="iconform takes from the CMIP6 data request exactly the variables requested",
    statement="For an experiment, iconform specifies exactly the defined variables of the tables and MIPs asked for (all, if none is named) that the request items of the experiment, of its group or of its MIP ask for, or those the user lists as "
              "name:table, one of each table. Each has the type, units, names and other attributes of the request, and the dimensions of its spatial shape, its extra dimension and its time, slowest first; each of these is "
              "there, with the attributes and requested values of the request, defined by the coordinates of the realm. MIP, title of the experiment and version of the request fill in the global attributes left open.",
    quantifier=dict(over=["inputs", "configurations"], text="all data requests built from the items, groups, variables, shapes and axes within bounds, all choices of experiments, MIPs, tables and variables"),
    why_tests_cant="No test runs iconform or reads the data request.",
    anchors=dict(files=["pyconform/miptableparser.py", "pyconform/cli/iconform.py"], mechanism=[
        dict(name="data request", where="pyconform/miptableparser.py: ParseXML.parse_table"),
        dict(name="specification", where="pyconform/cli/iconform.py: create_output, defineVar, defineAxes, main")]),
)
META = dict(
    how="The structure of the request (which items an experiment has, whose they are, which variables they ask for, tables, shapes, which attributes there are) and the options are solver variables; the specification files written are compared with the request.",
    bounds=dict(quick="3 request items, 3 groups of up to 3 of 4 variables in 3 tables, 7 shapes, 3 experiments (up to 3 at once), 2 MIPs, attributes from text, JSON or both", thorough="all pairs of shapes and options"),
    outside="dimensions that the request does not describe, variables that are copies of others (copy in the name) or have several scalar coordinates",
    assumptions=["the data request has the structure that the stand-in of its library (dreqPy, which is not here) has, in replays too"],
)
GRIDS = {
    "longitude": dict(units="degrees_east", axis="X", type="double", standardName="longitude", title="Longitude", direction="increasing", bounds="yes", requested=""),
    "latitude": dict(units="degrees_north", axis="Y", type="double", standardName="latitude", title="Latitude", bounds="yes", requested="", positive=""),
    "alevel": dict(units="", axis="Z", type="double", title="model level", bounds="no", requested="", valid_min="low", valid_max=5.5),
    "plev3": dict(units="Pa", axis="Z", type="double", standardName="air_pressure", positive="down", title="pressure", requested="85000. 50000. 25000.", bounds="no", valid_min=0, valid_max=110000.0),
    "gridlatitude": dict(units="degrees_north", axis="Y", type="double", title="Grid Latitude", requested=""),
    "landUse": dict(units="", axis="", type="character", title="Land use", requested="", coords="sector", bounds="yes"),
    "spectband": dict(units="m-1", type="double", title="Band", requested="", altLabel="band", valid_max=0.0, valid_min=-1),
    "time": dict(units="days since ?", axis="T", type="double", title="Time", requested="", bounds="yes"),
    "time1": dict(units="days since ?", axis="T", type="double", title="Time", requested="", bounds="no"),
}
SHAPES = {      # spatial, extra, time
    "XY": ("longitude|latitude|", None, "time"), "XYA": ("longitude|latitude|alevel", None, "time1"), "XYP": ("longitude|latitude|plev3", None, "time"), "fixed": ("longitude|latitude|", None, ""),
    "tiles": ("longitude|latitude|", "landUse", "time"), "series": ("", None, "time"), "basin": ("grid_latitude|alevel", None, "time"), "single": ("", None, ""), "band": ("", "spectband", "time1"), "none": ("", None, "None"),
}
COORDS = {"atmos": {"time": "time", "time1": "time", "latitude": "lat", "longitude": "lon", "alevel": "lev", "spectband": "band"}, "land": {"time": "time", "latitude": "lat", "longitude": "lon", "landUse": "ltype"},
          "ocean": {"time": "time", "alevel": "z_t", "gridlatitude": "lat_aux_grid"}}
SN = {"tas": "air_temperature", "ta": "air_temperature", "pr": "precipitation_flux", "hus": "specific_humidity"}


class Item(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class Section(object):
    def __init__(self):
        self.uid, self.label = {}, defaultdict(list)

    def add(self, uid, item):
        self.uid[uid] = item
        self.label[item.label].append(uid)


class Request(object):
    """the data request: dq.inx, dq.coll"""
    version = "01.00.29"

    def __init__(self):
        self.inx = Item(uid={}, experiment=Section(), iref_by_sect=defaultdict(lambda: Item(a=defaultdict(list))), requestLink=Section(), requestVarGroup=Section(), grids=Section())
        self.coll = {"CMORvar": Item(items=[])}

    def add(self, uid, section=None, **kw):
        it = self.inx.uid[uid] = Item(uid=uid, **kw)
        if section:
            getattr(self.inx, section).add(uid, it)
        return it

    def load(self, *a, **k):
        return self


def coordinates(shape):
    sp, did, t = SHAPES[shape]
    ds = [d for d in sp.replace("grid_latitude", "gridlatitude").split("|") if d] + ([did] if did else []) + ([t] if t not in ("", "None") else [])
    return ds[::-1]


OPTIONAL = {"positive": ["up"], "description": ["what it is"], "deflate": [1], "deflate_level": [1], "shuffle": [1], "direction": ["increasing"], "valid_min": [0.5, -2, "none"], "valid_max": ["none", 7.5, 0], "prov": ["", "Amon"]}


def request(ctx, cmor, groups, items, optional):
    """cmor: {id: (name, table, realm, frequency, shape)}; groups: {label: ids}; items: [(owner, mip, group)]"""
    dq = Request()
    for g, kw in GRIDS.items():
        dq.add("grid_" + g, "grids", label=g, id="grid_" + g, **kw)
    for e, mip, eg, title in (("historical", "CMIP", "eg1", "all forcings"), ("amip", "CMIP", "eg2", "observed sea"), ("aero", "AerChemMIP", "eg2", "aerosol")):
        dq.add("e_" + e, "experiment", label=e, mip=mip, egid=eg, title=title)
    for n in set(c[0] for c in cmor.values()):
        dq.add("v_" + n, label=n, sn=SN[n], units="" if n == "hus" else "K", title="the " + n)
    for k, (n, table, realm, freq, shape) in cmor.items():
        sp, did, t = SHAPES[shape]
        dq.add("sp_" + k, label=shape, dimensions=sp)
        dq.add("t_" + k, label="time-" + k, title="Time of " + k, dimensions=t)
        s = dict(spid="sp_" + k, tmid="t_" + k, cell_methods="area: mean", cell_measures="area: areacella")
        if did:
            dq.add("d_" + k, label=did)
            s["dids"] = ("d_" + k,)
        else:
            s["dids"] = ""
        dq.add("s_" + k, **s)
        kw = dict(label=n, vid="v_" + n, stid="s_" + k, mipTable=table, frequency=freq, modeling_realm=realm, type="real", title="Title of " + k)
        for a, xs in OPTIONAL.items():
            x = ctx.choice("%s_%s" % (k, a), [None] + xs) if a in optional else None
            if x is not None:
                kw[a] = x
        dq.coll["CMORvar"].items.append(dq.add(k, **kw))
    for g, ids in groups.items():
        dq.add("g_" + g, "requestVarGroup", label="tab-" + g)
        for k in ids:
            dq.add("r_%s_%s" % (g, k), label=k, vid=k)
            dq.inx.iref_by_sect["g_" + g].a["requestVar"].append("r_%s_%s" % (g, k))
    for j, (owner, mip, g) in enumerate(items):
        dq.add("l_%d" % j, "requestLink", label="link", refid="g_" + g)
        dq.add("i_%d" % j, label="item", mip=mip, rlid="l_%d" % j)
        dq.inx.iref_by_sect[owner].a["requestItem"].append("i_%d" % j)
    return dq


def install(ctx, dq):
    pkg = types.ModuleType("dreqPy")
    pkg.dreq = types.ModuleType("dreqPy.dreq")
    pkg.dreq.loadDreq, pkg.dreq.version = dq.load, dq.version
    for n, m in (("dreqPy", pkg), ("dreqPy.dreq", pkg.dreq)):
        old = sys.modules.get(n)
        sys.modules[n] = m
        ctx._cleanup.append((lambda n, old: lambda: sys.modules.pop(n) if old is None else sys.modules.__setitem__(n, old))(n, old))


OWNERS = {"historical": ("e_historical", "eg1", "CMIP"), "amip": ("e_amip", "eg2", "CMIP"), "aero": ("e_aero", "eg2", "AerChemMIP"), "unknown": ("e_historical", "eg1", "CMIP")}
TITLES = {"historical": "all forcings", "amip": "observed sea", "aero": "aerosol", "unknown": "all forcings"}


GA = "activity_id=\nexperiment=\nexperiment_id=exp1\ndata_specs_version=\nmip_era=CMIP6\ninstitution_id=NCAR\nsource_id=CESM2\ngrid_label=gn\nfrequency=\nrealm=\ntable_id=\nvariable_id=\nvariant_label=r1i1p1f1\nnetcdf_type=NETCDF4\n"


def global_attributes(ctx, how):
    """the files of global attributes: lines of text, JSON, or both (the last one decides)"""
    lines = [x.split("=") for x in GA.split()]
    if how == "folder":
        os.mkdir(path(ctx, "json"))
    gp = path(ctx, "json/g.ga" if how == "folder" else "g.ga")
    text = [(k, "NOAA" if k == "institution_id" and how == "both" else v) for k, v in lines if how != "both" or k not in ("source_id", "experiment_id", "frequency")]
    with open(gp, "w") as f:
        f.write("# attributes of every file\n" + "".join("%s = %s\n" % (k, v) for k, v in text))
    if how not in ("json", "both"):
        return gp
    jp = path(ctx, "g.json")
    with open(jp, "w") as f:
        json.dump({k: v or "__FILL__" for k, v in lines if how != "both" or k not in ("mip_era", "grid_label")}, f)
    return jp if how == "json" else "%s,%s" % (gp, jp)


def specify(ctx, cmor, groups, items, defined, exp="historical", mips=None, tables=None, asked=None, optional=(), listed=False, how="text", single=False):
    from pyconform.cli import iconform
    dq = request(ctx, cmor, groups, items, optional)
    install(ctx, dq)
    dp = path(ctx, "d.def")
    with open(dp, "w") as f:
        for realm, cs in COORDS.items():
            f.write("# Coords: %s\n" % realm)
            for d, v in cs.items():
                f.write("%s=%s\n" % (d, v))
        for t in sorted(set(t for t, _ in defined)):
            f.write("# TABLE: %s\n" % t)
            for (tt, v), d in defined.items():
                if tt == t and d:
                    f.write("%s=%s\n" % (v, d))
    os.mkdir(path(ctx, "spec"))
    argv = ["-d", dp, "-g", global_attributes(ctx, how), "-e", exp, "-o", path(ctx, "spec"), "-p", "/data"]
    if mips:
        argv += ["-m", ",".join(mips)]
    if tables:
        argv += ["-t", ",".join(tables)]
    if asked is not None:
        if listed:
            with open(path(ctx, "list.txt"), "w") as f:
                f.write("\n".join(asked) + "\n")
        argv += ["-u", path(ctx, "list.txt") if listed else ",".join(asked)]
    if single:
        argv += ["-to", "1"]

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            iconform.main(argv)
    ctx.run("iconform", go)
    got = Observed()
    for n in sorted(os.listdir(path(ctx, "spec"))):
        with open(path(ctx, "spec/" + n)) as f:
            got[n] = json.load(f, object_pairs_hook=Observed)
    names = []
    for e in exp.split(","):
        # which variables
        chosen = [it for it in items if it[0] in OWNERS[e] and (not mips or it[1] in mips)]
        ids = set()
        for _, _, g in chosen:
            ids |= set(groups[g]) if asked is None else set(k for k, c in cmor.items() if "%s:%s" % (c[0], c[1]) in asked)
        ids = [k for k in cmor if k in ids and (not tables or cmor[k][1] in tables) and defined.get((cmor[k][1], cmor[k][0]))]
        activity = OWNERS[e][2]
        want = OrderedDict()
        for k in ids:
            want.setdefault("%s_%s_%s_%s_%sspec.json" % (e, activity, cmor[k][1], cmor[k][2], cmor[k][0] + "_" if single else ""), []).append(k)
        names += want
        for n, ks in want.items():
            ctx.check(n in got, "no specification %s in %s" % (n, sorted(got)))
            s = got[n]
            alld = set(d for k in ks for d in coordinates(cmor[k][4]))
            ctx.check(set(s) == set(cmor[k][0] for k in ks) | alld, "%s: entries %s, expected %s and %s" % (n, sorted(s), [cmor[k][0] for k in ks], sorted(alld)))
            for k in ks:
                variable(ctx, s[cmor[k][0]], cmor[k], dq.inx.uid[k], defined, e, activity)
            for d in alld:
                axis(ctx, s[d], d, COORDS[cmor[ks[0]][2]])
    if not single:      # coordinates may have their own
        ctx.check(sorted(got) == sorted(names), "specifications %s, expected %s" % (sorted(got), sorted(names)))


def variable(ctx, e, c, cv, defined, exp, activity):
    name, table, realm, freq, shape = c
    what = "%s of %s" % (name, table)
    ctx.check(e["definition"] == defined[(table, name)], "%s: definition %s" % (what, e["definition"]))
    ctx.check(e["datatype"] == "real", "%s: type %s" % (what, e["datatype"]))
    ds = coordinates(shape)
    ctx.check(e["dimensions"] == ds, "%s: dimensions %s, expected %s" % (what, e["dimensions"], ds))
    a = e["attributes"]
    want = dict(units="None" if name == "hus" else "K", standard_name=SN[name], title=cv.title, long_name=cv.title, frequency=freq, realm=realm, mipTable=table, variable_id=name, out_name=name,
                cell_methods="area: mean", cell_measures="area: areacella", missing_value=1.0e20, _FillValue="1.0E20")
    for x in OPTIONAL:
        want[x] = getattr(cv, x, None)
        if want[x] == "" or x.startswith("valid_") and isinstance(want[x], str):        # numbers only
            want[x] = None
    t = SHAPES[shape][2]
    want["time"], want["time_label"], want["time_title"] = None if t in ("", "None") else t, "time-" + cv.uid, "Time of " + cv.uid
    want["coordinates"] = " ".join(ds) or None
    for x, v in want.items():
        ctx.check(a.get(x) == v, "%s: attribute %s is %r, expected %r" % (what, x, a.get(x), v))
    for x in a:
        ctx.check(x in want or x in ("id", "type", "comment"), "%s: attribute %s" % (what, x))
    fa = e["file"]["attributes"]
    for x, v in (("activity_id", activity), ("experiment", TITLES[exp]), ("experiment_id", "exp1"), ("data_specs_version", Request.version), ("frequency", freq), ("realm", realm), ("table_id", table), ("variable_id", name)):
        ctx.check(fa.get(x) == v, "%s: file attribute %s is %r, expected %r" % (what, x, fa.get(x), v))
    fn = e["file"]["filename"]
    ctx.check(os.path.dirname(os.path.dirname(fn)) == "/data/CMIP6/%s/NCAR/CESM2/%s/r1i1p1f1/%s/%s/gn" % (activity, exp, table, name), "%s: file %s" % (what, fn))
    ctx.check(os.path.basename(fn).startswith("%s_%s_CESM2_%s_r1i1p1f1_gn" % (name, table, exp)), "%s: file %s" % (what, fn))


def axis(ctx, e, d, coords):
    g = GRIDS[d]
    ctx.check(e["dimensions"] == [d], "%s: dimensions %s" % (d, e["dimensions"]))
    ctx.check(e["datatype"] == ("int" if d == "landUse" else g["type"]), "%s: type %s" % (d, e["datatype"]))
    a = e["attributes"]
    want = dict(units="days since 0001-01-01 00:00:00" if d.startswith("time") else g["units"] or "1", standard_name=g.get("standardName"), title=g["title"], id=d, bounds=d + "_bnds" if g.get("bounds") == "yes" else None)
    for x in ("axis", "positive", "altLabel", "coords", "direction"):
        want[x] = g.get(x) or None
    for x in ("valid_max", "valid_min"):        # numbers only
        want[x] = None if isinstance(g.get(x), str) else g.get(x)
    for x, v in want.items():
        ctx.check(a.get(x) == v, "%s: attribute %s is %r, expected %r" % (d, x, a.get(x), v))
    for x in a:
        ctx.check(x in want or x in ("type", "requested", "value"), "%s: attribute %s" % (d, x))
    if d == "landUse" and d in coords:
        w = [0, 1, 2, 3]
    else:
        w = coords.get(d, [float(x) for x in g["requested"].split()] or None)
    ctx.check(e.get("definition") == w, "%s: definition %s, expected %s" % (d, e.get("definition"), w))


CMOR = OrderedDict([("tas_mon", ("tas", "Amon", "atmos", "mon", "XY")), ("ta_mon", ("ta", "Amon", "atmos", "mon", "XYP")), ("tas_day", ("tas", "day", "atmos", "day", "XY")),
                    ("pr_mon", ("pr", "Lmon", "land", "mon", "XY")), ("tas_eday", ("tas", "Eday", "atmos", "day", "XY"))])
DEFINED = {("Amon", "tas"): "TREFHT", ("Amon", "ta"): "T", ("day", "tas"): "TREFHT", ("Eday", "tas"): "TREFMXAV", ("Lmon", "pr"): "PRECT"}


def who(ctx, exp, mips):
    """which items belong to the experiment and whose they are"""
    items = []
    for j, g in enumerate(("a", "b", "c")):
        owner = ctx.choice("owner%d" % j, ["e_historical", "eg1", "CMIP", "eg2", "AerChemMIP"]) if j < 2 else "e_amip"
        items.append((owner, ctx.choice("mip%d" % j, ["CMIP", "AerChemMIP"]), g))
    specify(ctx, CMOR, {"a": ["tas_mon"], "b": ["ta_mon", "pr_mon"], "c": ["tas_day", "tas_eday"]}, items, DEFINED, exp=exp, mips=mips)


def which(ctx, tables):
    """which variables the groups ask for and which are defined"""
    groups = {"a": [k for k in CMOR if k != "ta_mon" and bool(ctx.bool("a_" + k))], "b": [k for k in ("ta_mon", "tas_day") if bool(ctx.bool("b_" + k))]}
    defined = {k: v for k, v in DEFINED.items() if k in (("Amon", "ta"), ("Lmon", "pr")) or bool(ctx.bool("defined_%s_%s" % k))}
    specify(ctx, CMOR, groups, [("e_historical", "CMIP", "a"), ("CMIP", "AerChemMIP", "b")], defined, tables=tables)


def asked(ctx, listed, tables, mips):
    vs = [v for v in ("tas:Amon", "ta:Amon", "tas:day", "pr:Lmon", "tas:Eday", "ta:day") if bool(ctx.bool("ask_" + v.replace(":", "_")))]
    if not vs:
        return
    specify(ctx, CMOR, {"a": ["tas_mon"], "b": []}, [(ctx.choice("owner", ["e_historical", "eg2"]), "CMIP", "a")], DEFINED, asked=vs, listed=listed, tables=tables, mips=mips)


def shapes(ctx, s1, s2, realm, optional):
    c = OrderedDict([("tas_mon", ("tas", "Amon", realm, "mon", s1)), ("hus_mon", ("hus", "Amon", realm, "mon", s2))])
    ids = [k for k in c if bool(ctx.bool("in_" + k))]
    specify(ctx, c, {"a": ids}, [("e_historical", "CMIP", "a")], {("Amon", "tas"): "TREFHT", ("Amon", "hus"): "Q"}, optional=optional)


def attributes(ctx, how, exp, single):
    groups = {"a": [k for k in CMOR if k != "ta_mon" and bool(ctx.bool("a_" + k))], "b": ["ta_mon"]}
    items = [(ctx.choice("owner%d" % j, ["e_historical", "e_amip", "AerChemMIP"]), "CMIP", g) for j, g in enumerate("ab")]
    specify(ctx, CMOR, groups, items, DEFINED, exp=exp, how=how, single=single)


def cases(tier):
    q = tier == "quick"
    out = []
    for exp in ("historical", "amip", "aero", "unknown"):
        for mips in (None, ["CMIP"], ["AerChemMIP"], ["AerChemMIP", "CMIP"]):
            if q and exp != "historical" and mips and len(mips) != 1 + (exp == "aero"):
                continue
            out.append(("who:%s:%s" % (exp, "+".join(mips or ["all"])), who, dict(exp=exp, mips=mips)))
    for how in ("text", "json", "both", "folder"):
        for exp in ("historical", "amip,historical", "historical,aero,amip"):
            for single in (False, True):
                if not q or (how == "text") == (exp == "historical") or exp.count(",") == 1 + single:
                    out.append(("attributes:%s:%s:%s" % (how, exp, single), attributes, dict(how=how, exp=exp, single=single)))
    for tables in (None, ["Amon"], ["day", "Lmon"], ["day"], ["Eday"]):
        out.append(("which:%s" % "+".join(tables or ["all"]), which, dict(tables=tables)))
    for listed in (False, True):
        for tables, mips in ((None, None), (["Amon"], None), (["Amon", "Eday"], ["CMIP"]), (None, ["AerChemMIP"])):
            out.append(("asked:%s:%s:%s" % (listed, "+".join(tables or ["all"]), "+".join(mips or ["all"])), asked, dict(listed=listed, tables=tables, mips=mips)))
    names = sorted(SHAPES)
    for i, a in enumerate(names):
        for j, b in enumerate(names):
            if q and (i + j) % 3:
                continue
            realm = "ocean" if "basin" in (a, b) else "land" if "tiles" in (a, b) else "atmos"
            out.append(("shapes:%s:%s" % (a, b), shapes, dict(s1=a, s2=b, realm=realm, optional=[("direction", "valid_min"), ("positive", "deflate_level"), ("description", "deflate", "prov"), ("valid_max", "shuffle")][(i + 2 * j) % 4])))
    return out
