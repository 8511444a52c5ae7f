"""iconform."""
import contextlib
import io
import json

from checks.lib import *    # noqa
from pyconform.datasets import DefinitionWarning

PROPERTY = dict(
    id="P34",
    title="iconform specifies every defined variable of the MIP tables, and only these",
    statement="From CMOR tables, a definitions file and global attributes, iconform writes specifications holding exactly the requested variables (the list given, else all) of each table that have a definition for that table, "
              "each with this definition (equals signs included, comments not), its datatype, its dimensions in reverse order, its attributes that are not empty, and a file of its own, named after the "
              "table, variable, experiment and global attributes and described by these, with frequency, realm, table and variable filled in. Each dimension of such a variable is there too, defined by the coordinates given for the realm, else by the "
              "values the table requests; xconform reads the specifications, and finds the same variables, definitions and files.",
    quantifier=dict(over=["inputs", "configurations"], text="all combinations of definitions, requested variables, types, dimensions, empty fields and labels within bounds"),
    why_tests_cant="No test runs iconform.",
    anchors=dict(files=["pyconform/cli/iconform.py", "pyconform/miptableparser.py"], mechanism=[
        dict(name="tables", where="pyconform/miptableparser.py: ParseCmorTable"),
        dict(name="definitions", where="pyconform/cli/iconform.py: load"),
        dict(name="specification", where="pyconform/cli/iconform.py: defineVar, defineAxes, create_output")]),
)
META = dict(
    how="Which variables are defined and requested, their types, dimensions and empty fields, the realms and the labels are solver variables; the written specifications are compared with what they have to hold.",
    bounds=dict(quick="1-2 tables of 3 variables, 6 dimensions, 18 frequencies, 12 types, 1-2 experiments, the variables in a list or a file, 3 kinds of global attributes", thorough="all combinations of types, of dimensions and of the fields left empty"),
    outside="reading specifications of classic formats (they have no type real) and of characters (they need a length), tables in other formats (their libraries are not here), global attributes (P37), a specification that is apart for each variable asked for (-to) beyond its variable and dimensions",
    assumptions=[],
)
AXES = {
    "longitude": {"units": "degrees_east", "axis": "X", "type": "double", "requested": "", "standard_name": "longitude"},
    "latitude": {"units": "degrees_north", "axis": "Y", "type": "double", "requested": "", "stored_direction": "increasing"},
    "time": {"units": "days since ?", "axis": "T", "type": "double", "requested": ""},
    "plev3": {"units": "Pa", "axis": "Z", "type": "double", "requested": ["85000.", "50000.", "25000."], "positive": "down"},
    "level2": {"units": "m", "axis": "Z", "type": "real", "requested": "10 2.5 1e1"},
    "time1": {"units": "days since ?", "axis": "T", "type": "double", "requested": "", "long_name": "time", "out_name": "time"},
}
COORDS = {"atmos": {"time": "time", "time1": "time", "latitude": "lat", "longitude": "lon", "alevel": "lev"}, "ocean": {"time": "time", "time1": "time_1", "latitude": "TLAT", "longitude": "TLONG"},
          "seaIce": {"time": "time_ice", "time1": "time", "latitude": "TLATI", "longitude": "TLONI"}}
DIMS = ["longitude latitude time", "longitude latitude plev3 time", "time", "longitude latitude alevel time", "latitude level2", "latitude time1"]
DATES = {"mon": "_{%Y%m-%Y%m}", "day": "_{%Y%m%d-%Y%m%d}", "fx": "", "yr": "_{%Y-%Y}", "dec": "_{%Y-%Y}", "yrPt": "_{%Y-%Y}", "monPt": "_{%Y%m-%Y%m}", "monC": "_{%Y%m-%Y%m}-clim", "other": ""}
DATES.update({f: "_{%Y%m%d%H%M-%Y%m%d%H%M}" for f in ("6hr", "6hrPt", "3hr", "3hrPt", "1hr", "1hrPt", "subhrPt")})
DATES["1hrCM"] = DATES["1hr"] + "-clim"
FREQS = ("mon", "day", "fx")
DATA = {"real": "real", "integer": "int", "double": "double", "character": "char", "float": "float", "int": "int", "short": "short", "byte": "byte", "char": "char", "": "real", "None": "real"}


def entry(ctx, k, dims, typ, empty):
    e = OrderedDict([("dimensions", dims), ("type", typ), ("units", "K"), ("standard_name", "name_%d" % k), ("positive", ""), ("valid_min", ""), ("comment", ""),
                     ("cell_measures", "area: areacella"), ("long_name", "A long name")])
    if k % 2:
        e.update(ok_min_mean_abs=0, ok_max_mean_abs=0.5)
    if empty:
        e["standard_name"] = e["cell_measures"] = ""
        e["positive"] = "up"
    return e


def attributes(ctx, kind):
    g = OrderedDict([("activity_id", "CMIP"), ("mip_era", "CMIP6"), ("institution_id", "NCAR"), ("source_id", "CESM2"), ("grid_label", "gn"), ("external_variables", ""), ("frequency", ""),
                     ("realm", ""), ("table_id", ""), ("variable_id", ""), ("tracking_id", ""), ("creation_date", ""), ("contact", "me@here.edu"), ("title", "a = b"),
                     ("grids", "atmos, land:native grid; ocean, seaIce:displaced pole"), ("grid", ""), ("netcdf_type", "NETCDF4"), ("data_specs_version", "")])
    if kind == "label":
        g["variant_label"] = "r12i1p3f2"
    if kind == "classic":
        g["netcdf_type"] = "NETCDF3_CLASSIC"
    return g


def run(ctx, argv):
    from pyconform.cli import iconform
    out = io.StringIO()

    def go():
        with contextlib.redirect_stdout(out):
            iconform.main(argv)
    ctx.run("iconform", go)
    return iconform.version


def spec(ctx, tables, given, exp="historical", asked=None, json_attrs=False, dims=None, types=None, listed=False, apart=False):
    """tables: [(table, realm, frequency, {variable: definition or None (none here) or '' (not in this table)})]"""
    files = []
    entries = {}
    k = 0
    for name, realm, freq, defs in tables:
        ents = OrderedDict()
        for v in defs:
            if defs[v] == "":
                continue
            ents[v] = entry(ctx, k, dims[k] if dims else DIMS[k % len(DIMS)], types[k] if types else "real", bool(ctx.bool("empty%d" % k)) if k < 2 else False)
            k += 1
        p = path(ctx, name + ".json")
        with open(p, "w") as f:
            json.dump({"Header": {"realm": realm, "table_id": "Table " + name, "frequency": freq, "generic_levels": "alevel olevel", "data_specs_version": "01.00.33"},
                       "variable_entry": ents, "axis_entry": AXES}, f)
        files.append(p)
        entries[name] = ents
    dp = path(ctx, "d.def")
    remark = ctx.choice("remark", ["", "# " + tables[0][0], "# tas = T, for tables of " + tables[-1][0]]) if len(tables) > 1 else "#"
    with open(dp, "w") as f:
        for realm, cs in COORDS.items():
            f.write("############\n#  Coords: %s\n############\n" % realm)
            for d, v in cs.items():
                f.write("%s=%s\n" % (d, v))
        for name, realm, freq, defs in tables:
            f.write("############\n#  TABLE: %s\n############\n" % name)
            for j, (v, d) in enumerate(defs.items()):
                if d:
                    f.write("%s%s%s%s\n" % (v, ("=", " = ")[j % 2], d, (" # *.h0.*", "")[j % 2]))
                    f.write(remark and remark + "\n")
    at = attributes(ctx, given)
    gp = path(ctx, "g.json" if json_attrs else "g.ga")
    with open(gp, "w") as f:
        if json_attrs:
            json.dump({k: v if v else "__FILL__" for k, v in at.items()}, f)
        else:
            for a, v in at.items():
                f.write("%s = %s\n" % (a, v))
            f.write("# nothing = here\n")
    os.mkdir(path(ctx, "spec"))
    argv = ["-d", dp, "-g", gp, "-e", exp, "-t", ",".join(files), "-tt", "cmor", "-o", path(ctx, "spec"), "-p", "/data"]
    if asked is not None:
        if listed:
            with open(path(ctx, "list.txt"), "w") as f:
                f.write("\n".join(asked) + "\n\n")
        argv += ["-u", path(ctx, "list.txt") if listed else ",".join(asked)]
    if apart:
        argv += ["-to", "True"]
    version = run(ctx, argv)
    got = Observed()
    for n in sorted(os.listdir(path(ctx, "spec"))):
        with open(path(ctx, "spec/" + n)) as f:
            got[n] = json.load(f, object_pairs_hook=Observed)
    want = {}
    if apart:
        one_each(ctx, got, tables, exp, entries)
        return
    for e in exp.split(","):
        check_exp(ctx, got, tables, e, exp, asked, at, entries, version)


def one_each(ctx, got, tables, exp, entries):
    """a specification for each variable, with its dimensions"""
    for name, realm, freq, defs in tables:
        for v in defs:
            n = "%s_CMIP_%s_%s_%s_spec.json" % (exp, name, realm.replace(" ", "_"), v)
            ctx.check((n in got) == bool(defs[v]), "%s: %s" % (n, sorted(got)))
            if n in got:
                ds = entries[name][v]["dimensions"].split()[::-1]
                ctx.check(set(got[n]) == set([v] + ds) and got[n][v]["definition"] == defs[v] and got[n][v]["dimensions"] == ds, "%s: %s" % (n, sorted(got[n])))
                c = COORDS[[r for r in COORDS if r in realm.split()][0]]
                ctx.check(all(got[n][d]["definition"] == c[d] for d in ds if d in c), "%s: coordinates" % n)


def check_exp(ctx, got, tables, exp, exps, asked, at, entries, version):
    got = Observed((n, g) for n, g in got.items() if n.startswith(exp + "_") or "," not in exps)
    given = "label" if "variant_label" in at else "plain"
    want = {}
    for name, realm, freq, defs in tables:
        vs = {v: d for v, d in defs.items() if d and (asked is None or v in asked)}
        if vs:
            want["%s_CMIP_%s_%s_spec.json" % (exp, name, realm.replace(" ", "_"))] = (name, realm, freq, vs)
    ctx.check(sorted(got) == sorted(want), "specifications %s, expected %s" % (sorted(got), sorted(want)))
    ripf = at.get("variant_label", "None")
    allfiles = []
    for n, (name, realm, freq, vs) in want.items():
        s = got[n]
        dims_of = {v: entries[name][v]["dimensions"].split()[::-1] for v in vs}
        alld = set(d for ds in dims_of.values() for d in ds)
        ctx.check(set(s) == set(vs) | alld, "%s: entries %s" % (n, sorted(s)))
        for v, d in vs.items():
            e, w = s[v], entries[name][v]
            ctx.check(e["definition"] == d, "%s: definition %r, expected %r" % (v, e["definition"], d))
            ctx.check(e["datatype"] == DATA[w.get("type", "")], "%s: datatype %s" % (v, e["datatype"]))
            ctx.check(e["dimensions"] == dims_of[v], "%s: dimensions %s, expected %s" % (v, e["dimensions"], dims_of[v]))
            for a, x in w.items():
                if a == "comment" or a == "coordinates":
                    continue
                ctx.check(e["attributes"].get(a) == (x if x != "" else None), "%s: attribute %s is %r" % (v, a, e["attributes"].get(a)))
            fi = e["file"]
            head = ["/data", "CMIP6", "CMIP", "NCAR", "CESM2", exp, ripf, name, v, "gn", version]
            ctx.check(fi["filename"] == "/".join(head) + "/" + "_".join([v, name, "CESM2", exp, ripf, "gn"]) + DATES[freq] + ".nc", "%s: file name %s" % (v, fi["filename"]))
            allfiles.append(fi["filename"])
            ctx.check(fi["format"] == at["netcdf_type"], "%s: format %s" % (v, fi["format"]))
            fa = fi["attributes"]
            for a in ("activity_id", "mip_era", "institution_id", "source_id", "grid_label", "contact", "title"):
                ctx.check(fa.get(a) == at[a], "%s: file attribute %s is %r" % (v, a, fa.get(a)))
            ctx.check((fa["frequency"], fa["realm"], fa["table_id"], fa["variable_id"]) == (freq, realm, name, v), "%s: file attributes %s" % (v, [fa["frequency"], fa["realm"], fa["table_id"], fa["variable_id"]]))
            ctx.check(fa["grid"] == ("native grid" if realm.split()[0] in ("atmos", "land") else "displaced pole"), "%s: grid %s" % (v, fa["grid"]))
            ctx.check("__FILL__" not in str(fa), "%s: an attribute is not filled in" % v)
            if given == "label":
                ctx.check([fa[x + "_index"] for x in ("realization", "initialization", "physics", "forcing")] == [12, 1, 3, 2] and fa["variant_label"] == ripf, "%s: indices" % v)
            ctx.check(fa["tracking_id"].startswith("hdl:"), "tracking identifier")
        for d in alld:
            e = s[d]
            ctx.check(e["dimensions"] == [d], "dimension %s has dimensions %s" % (d, e["dimensions"]))
            c = COORDS[[r for r in COORDS if r in realm.split()][0]]
            if d in c:
                ctx.check(e.get("definition") == c[d], "dimension %s: definition %s" % (d, e.get("definition")))
            elif AXES.get(d, {}).get("requested"):
                r = AXES[d]["requested"]
                r = [float(x) for x in (r if isinstance(r, list) else r.split())]
                ctx.check([float(x) for x in e.get("definition", ())] == r, "dimension %s: definition %s" % (d, e.get("definition")))
            for a, x in AXES.get(d, {}).items():
                if a == "units":
                    ctx.check(e["attributes"].get(a) == ("days since 0001-01-01 00:00:00" if d.startswith("time") else x), "dimension %s: units %r" % (d, e["attributes"].get(a)))
                elif a != "requested":
                    ctx.check(e["attributes"].get(a) == (x if x != "" else None), "dimension %s: attribute %s is %r" % (d, a, e["attributes"].get(a)))
        read(ctx, s, vs, dims_of)
    ctx.check(len(set(allfiles)) == len(allfiles), "files of different variables have the same name")


def read(ctx, s, vs, dims_of):
    """the specification as xconform reads it"""
    if any(s[v]["datatype"] == "char" or s[v]["file"]["format"] != "NETCDF4" for v in vs):
        return
    ds = ctx.run("reading the specification", OutputDatasetDesc, "spec", json.loads(json.dumps(s), object_pairs_hook=OrderedDict))
    ctx.check(not any(issubclass(w.category, DefinitionWarning) for w in ctx.warned), "a variable is skipped")
    ctx.check(sorted(ds.files) == sorted(s[v]["file"]["filename"] for v in vs), "files %s" % sorted(ds.files))
    for v in vs:
        d = ds.variables[v]
        ctx.check(d.definition == s[v]["definition"] and list(d.dimensions) == dims_of[v], "%s is read as %s %s" % (v, d.definition, list(d.dimensions)))
    for d in s:
        if isinstance(s[d].get("definition"), list):
            x = ds.variables[d].definition
            ctx.check([float(q) for q in np.ravel(x)] == [float(q) for q in s[d]["definition"]], "values of %s are read as %s" % (d, x))
            ctx.check(ds.dimensions[d].size == len(s[d]["definition"]), "size of %s" % d)


DEFS = ["TREFHT", 'chunits(Q, units="1")', "up(T) - 273.15", "vinth2p(T, hyam, hybm, plev3, PS, P0)", "f(a == b)"]


def one(ctx, realm, freq, given, json_attrs, rot):
    vs = OrderedDict()
    for k, v in enumerate(("tas", "ta", "hus")):
        vs[v] = DEFS[(k + rot) % len(DEFS)] if bool(ctx.bool("has_" + v)) else None
    asked = ctx.choice("asked", [None, ["ta"], ["hus", "tas"]])
    dims = [x for x in DIMS if "atmos" in realm or "alevel" not in x]
    spec(ctx, [("Amon", realm, freq, vs)], given, asked=asked, json_attrs=json_attrs, dims=[dims[(k + rot) % len(dims)] for k in range(3)])


def two(ctx, rot):
    """two tables: a definition counts for its own table"""
    a = OrderedDict((v, DEFS[(k + rot) % 5] if bool(ctx.bool("a_" + v)) else None) for k, v in enumerate(("tas", "ta")))
    b = OrderedDict((v, DEFS[(k + rot + 2) % 5] if bool(ctx.bool("b_" + v)) else None) for k, v in enumerate(("ta", "tos")))
    asked = ctx.choice("asked", [None, ["ta"], ["tas", "tos"]])
    spec(ctx, [("Amon", "atmos", "mon", a), ("Oday", "ocean", "day", b)], "plain", asked=asked, dims=[DIMS[rot], DIMS[3], DIMS[0], DIMS[4]])


def types(ctx, dims):
    t = [ctx.choice("type%d" % k, sorted(DATA)) for k in range(2)]
    spec(ctx, [("Amon", "atmos", "mon", OrderedDict([("tas", "TREFHT"), ("ta", "T")]))], "plain", types=t, dims=dims)


def freqs(ctx, rot):
    fs = [f for k, f in enumerate(sorted(DATES)) if k % 4 == rot]
    spec(ctx, [("Table", "atmos", ctx.choice("freq", fs), OrderedDict([("tas", "TREFHT"), ("ta", "T")]))], ctx.choice("given", ["plain", "label"]))


def how(ctx, listed, apart, exp):
    a = OrderedDict((v, DEFS[k] if bool(ctx.bool("a_" + v)) else None) for k, v in enumerate(("tas", "ta", "hus")))
    b = OrderedDict((v, DEFS[k + 2] if bool(ctx.bool("b_" + v)) else None) for k, v in enumerate(("ta", "tos")))
    asked = ctx.choice("asked", [["ta"], ["tas", "tos"]]) if listed else None
    spec(ctx, [("Amon", "atmos", "mon", a), ("Oday", "ocean", "day", b)], "plain", asked=asked, dims=[DIMS[0], DIMS[1], DIMS[2], DIMS[0], DIMS[1]], listed=listed, apart=apart, exp=exp)


def cases(tier):
    q = tier == "quick"
    out = []
    n = 0
    for realm in ("atmos", "ocean", "atmos land", "seaIce"):
        for freq in FREQS:
            for given in ("plain", "label", "classic"):
                for js in (False, True):
                    n += 1
                    if q and n % 3 and not (realm == "atmos" and freq == "mon"):
                        continue
                    for rot in (n % 6,) if q else range(6):
                        out.append(("one:%s:%s:%s:%d:%d" % (realm, freq, given, js, rot), one, dict(realm=realm, freq=freq, given=given, json_attrs=js, rot=rot)))
    for rot in range(4):
        out.append(("freqs:%d" % rot, freqs, dict(rot=rot)))
    for listed, apart, exp in ((True, False, "historical"), (False, False, "historical,piControl"), (False, True, "historical"), (True, False, "amip,x"), (False, False, "hist-nat,hist"), (True, False, "ssp,ssp-ext")):
        out.append(("how:%d%d:%s" % (listed, apart, exp), how, dict(listed=listed, apart=apart, exp=exp)))
    for rot in range(3 if q else 5):
        out.append(("two:%d" % rot, two, dict(rot=rot)))
    for k in range(2 if q else 6):
        for m in (1, 4 + k) if q else range(6):
            out.append(("types:%d%d" % (k, m), types, dict(dims=[DIMS[k], DIMS[m]])))
    return out
