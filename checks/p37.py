"""iconform: global attributes."""
import contextlib
import io
import json

from checks.lib import *    # noqa

PROPERTY = dict(
    id="P37",
    title="iconform fills in the global attributes left open and keeps the others",
    statement="Every global attribute given to iconform with a value is an attribute of every file it specifies, with this value (of several attribute files the last giving it counts), and of those left open (nothing after the equals sign, __FILL__ in JSON) "
              "activity_id, experiment and data_specs_version come from the header of the table where it has them, frequency, realm, table_id and variable_id from the variable, tracking_id is an identifier that no other file has, external_variables lists exactly the areas and volumes (areacello, areacella, areacellr, areacellg, volcello) "
              "that its cell measures name (no attribute if none), further_info_url names mip era, institution, source, experiment, sub-experiment and variant label if these are given, and any other is empty. Further, a variant label gives the four indices as integers and the indices the label; "
              "grid is what 'grids' gives for the first realm; null in JSON is empty; with a branch method other than 'no parent', branch times (Fortran doubles too) are numbers and parent era, source and time units those of this run, without one they say 'no parent'; "
              "compression and shuffle are properties of the file; an unknown format, a missing attribute file or a missing definitions file is refused",
    quantifier=dict(over=["inputs", "configurations"], text="all combinations of given, open and absent attributes within bounds"),
    why_tests_cant="No test runs iconform.",
    anchors=dict(files=["pyconform/cli/iconform.py"], mechanism=[
        dict(name="filling in", where="pyconform/cli/iconform.py: fill_missing_glob_attributes"),
        dict(name="reading", where="pyconform/cli/iconform.py: load, main"),
        dict(name="files", where="pyconform/cli/iconform.py: defineVar")]),
)
META = dict(
    how="Which attributes are given, open or absent, their kind of file and the measures, labels and times are solver variables; the attributes in the written specifications are compared with what they have to be.",
    bounds=dict(quick="10 groups of attributes, each with all combinations of given, open and absent of up to 6 attributes; 1-2 variables in a table", thorough="the same with text and JSON files throughout and more labels and times"),
    outside="numbers in JSON files, a branch method with attributes of the parent but no parent_activity_id, dates of creation themselves, no netcdf_type",
    assumptions=[],
)
OPEN = None
ABSENT = "<absent>"
HEAD = {"realm": "atmos", "table_id": "Table Amon", "frequency": "mon", "data_specs_version": "01.00.33", "generic_levels": "alevel"}
AXES = {"time": {"units": "days since ?", "axis": "T", "type": "double", "requested": ""}}


def write_attrs(p, attrs, kind):
    """kind: text; fill (JSON)"""
    with open(p, "w") as f:
        if kind == "text":
            f.write("# the attributes = of all files\n")
            for k, (a, v) in enumerate(attrs.items()):
                if v is not ABSENT:
                    f.write("%s%s%s%s\n" % (a, (" = ", "=")[k % 2], "" if v is OPEN else v, ("", "   # a remark")[k % 3 == 0]))
        else:
            json.dump({a: "__FILL__" if v is OPEN else None if v == "null" else v for a, v in attrs.items() if v is not ABSENT}, f)


def iconform(ctx, attrs, kind="text", header=None, entries=None, more=None, defs=True, exp="piControl"):
    """the specification's file attributes by variable: (error, {variable: entry})"""
    from pyconform.cli import iconform as ic
    ents = {v: dict({"dimensions": "time", "type": "real", "units": "K", "cell_measures": ""}, **e) for v, e in (entries or {"tas": {}}).items()}
    t = path(ctx, "Amon.json")
    with open(t, "w") as f:
        json.dump({"Header": dict(HEAD, **(header or {})), "variable_entry": ents, "axis_entry": AXES}, f)
    d = path(ctx, "d.def")
    if defs:
        with open(d, "w") as f:
            f.write("#  TABLE: Amon\n" + "".join("%s=X_%s\n" % (v, v) for v in ents))
    gs = []
    for k, (a, kd) in enumerate([(attrs, kind)] + (more or [])):
        gs.append(path(ctx, "g%d.%s" % (k, "ga" if kd == "text" else "json")))
        if a is not None:
            write_attrs(gs[-1], a, kd)
    argv = ["-d", d, "-g", ",".join(gs), "-t", t, "-tt", "cmor", "-o", path(ctx, "spec"), "-p", "/data"] + (["-e", exp] if exp else [])

    def go():
        with contextlib.redirect_stdout(io.StringIO()):
            try:
                ic.main(argv)
            except SystemExit as e:
                return e.code if e.code is not None else 0
        return 0
    code, err = ctx.call(go)
    got = Observed()
    if os.path.isdir(path(ctx, "spec")):
        for n in sorted(os.listdir(path(ctx, "spec"))):
            with open(path(ctx, "spec/" + n)) as f:
                got.update((v, e) for v, e in json.load(f, object_pairs_hook=Observed).items() if "file" in e)
    if err is not None:
        ctx.fail("iconform raised %r" % err)
    return code, got


def base(**over):
    g = OrderedDict([("activity_id", "CMIP"), ("mip_era", "CMIP6"), ("institution_id", "NCAR"), ("source_id", "CESM2"), ("grid_label", "gn"), ("realm", OPEN), ("table_id", OPEN), ("variable_id", OPEN),
                     ("frequency", OPEN), ("external_variables", OPEN), ("netcdf_type", "NETCDF4"), ("title", "a title"), ("grids", "atmos, land:native; ocean:displaced pole"), ("grid", OPEN)])
    g.update(over)
    return g


def three(ctx, name, value):
    return ctx.choice(name, [value, OPEN, ABSENT])


def expect(ctx, fa, want, special=()):
    for a, v in want.items():
        if a in special:
            continue
        if v is ABSENT:
            ctx.check(a not in fa, "attribute %s is %r, expected none" % (a, fa.get(a)))
        else:
            ctx.check(a in fa and fa[a] == v and type(fa[a]) is type(v), "attribute %s is %r, expected %r" % (a, fa.get(a), v))


def plain(ctx, kind, names):
    """given values stay, others are empty; names like those that are filled in included"""
    at = base()
    for n in names:
        at[n] = three(ctx, n, "the " + n)
    head = {"activity_id": "ScenarioMIP", "experiment": "of the table", "product": "model-output"} if bool(ctx.bool("header")) else {}
    freq = ctx.choice("of", ["mon", "6hrPt", "1hrCM", "monC"])
    code, got = iconform(ctx, at, kind, header=dict(head, frequency=freq))
    ctx.check(code == 0 and list(got) == ["tas"], "written: %s %s" % (code, list(got)))
    fill = dict({"frequency": freq, "realm": "atmos", "table_id": "Amon", "variable_id": "tas", "data_specs_version": HEAD["data_specs_version"], "external_variables": ABSENT},
                **{k: v for k, v in head.items() if k in ("activity_id", "experiment")})
    fa = got["tas"]["file"]["attributes"]
    expect(ctx, fa, {a: (fill.get(a, "") if v is OPEN else v) for a, v in at.items()}, ("grids", "grid", "netcdf_type"))


def external(ctx, kind, given):
    """two variables: each with its own measures"""
    names = ["areacello", "areacella", "areacellr", "areacellg", "volcello"]
    use = [[n for k, n in enumerate(names) if bool(ctx.bool("u%d_%d" % (j, k)))] if j == 0 else ctx.choice("second", [[], ["areacella"], ["volcello", "areacello"]]) for j in range(2)]
    ents = {v: {"cell_measures": " ".join("%s: %s" % ("volume" if n[0] == "v" else "area", n) for n in u)} for v, u in zip(("tas", "ta"), use)}
    code, got = iconform(ctx, base(external_variables=given, tracking_id=OPEN), kind, entries=ents)
    ctx.check(code == 0 and sorted(got) == ["ta", "tas"], "written")
    ids = [got[v]["file"]["attributes"]["tracking_id"] for v in ("tas", "ta")]
    if not use[0]:          # made again
        ids += [g["file"]["attributes"]["tracking_id"] for g in iconform(ctx, base(external_variables=given, tracking_id=OPEN), kind, entries=ents)[1].values()]
    ctx.check(all(i.startswith("hdl:21.14100/") and len(i) == 49 for i in ids) and len(set(ids)) == len(ids), "identifiers %s" % ids)
    for v, u in zip(("tas", "ta"), use):
        fa = got[v]["file"]["attributes"]
        if given is OPEN:
            ctx.check(sorted(fa.get("external_variables", "").split()) == sorted(u), "%s: external variables %r, expected %s" % (v, fa.get("external_variables"), u))
            ctx.check(("external_variables" in fa) == bool(u), "external_variables without a variable")
        else:
            expect(ctx, fa, {"external_variables": given})


def url(ctx, kind, asked):
    ids = ["mip_era", "institution_id", "source_id", "experiment_id", "sub_experiment_id", "variant_label"]
    vals = {"mip_era": "CMIP6", "institution_id": "NCAR", "source_id": "CESM2", "experiment_id": "piControl", "sub_experiment_id": "s1980", "variant_label": "r1i2p3f4"}
    at = base()
    for n in ids:
        at[n] = vals[n] if bool(ctx.bool("has_" + n)) else ABSENT
    at["further_info_url"] = asked
    code, got = iconform(ctx, at, kind)
    fa = got["tas"]["file"]["attributes"]
    if asked is OPEN:
        full = all(at[n] is not ABSENT for n in ids if n != "sub_experiment_id")
        sub = "" if at["sub_experiment_id"] is ABSENT else vals["sub_experiment_id"]
        expect(ctx, fa, {"further_info_url": "https://furtherinfo.es-doc.org/CMIP6.NCAR.CESM2.piControl.%s.r1i2p3f4" % sub if full else ""})
    else:
        expect(ctx, fa, {"further_info_url": asked})
    expect(ctx, fa, {n: at[n] for n in ids if n != "variant_label"})


def label(ctx, kind, nums):
    n = [ctx.choice("i%d" % k, nums) for k in range(4)]
    text = "r%di%dp%df%d" % tuple(n)
    at = base()
    inds = ["realization_index", "initialization_index", "physics_index", "forcing_index"]
    how = ctx.choice("how", ["label", "indices"])
    if how == "label":
        at["variant_label"] = text
        if bool(ctx.bool("both")):
            at["forcing_index"] = OPEN
    else:
        at.update((i, str(x)) for i, x in zip(inds, n))
    code, got = iconform(ctx, at, kind)
    fa = got["tas"]["file"]["attributes"]
    ctx.check(fa["variant_label"] == text, "variant label %r, expected %s" % (fa["variant_label"], text))
    ctx.check([int(fa[i]) for i in inds] == n and (how != "label" or all(type(fa[i]) is int for i in inds)), "indices %s" % [fa[i] for i in inds])
    fn = got["tas"]["file"]["filename"]
    ctx.check(fn.split("/")[7] == text and fn.split("/")[-1].split("_")[4] == text, "file name %s" % fn)


def branch(ctx, kind, method):
    times = {"0.0D0": 0.0, "365.0D0": 365.0, "3.65D4": 36500.0, "12": 12.0, "-1.5D1": -15.0}
    tc = ctx.choice("child", list(times) + ([OPEN] if method == "standard" else []))
    times[OPEN] = ""
    tp = ctx.choice("parent", list(times) if method == "standard" else ["3.65D4"])
    pa = ctx.choice("activity", ["CMIP", ""]) if kind != "text" and method == "standard" else "CMIP"
    at = base(branch_method=method, branch_time_in_child=tc, branch_time_in_parent=tp, parent_activity_id=pa, parent_mip_era="", parent_source_id="x", parent_time_units="y")
    if kind == "text":
        at["parent_mip_era"] = OPEN
    code, got = iconform(ctx, at, kind)
    fa = got["tas"]["file"]["attributes"]
    np_ = "no parent"
    if method is ABSENT:
        want = dict(branch_time_in_child=np_, branch_time_in_parent=np_, parent_mip_era=np_, parent_source_id=np_, parent_time_units=np_)
    elif method == np_:
        want = dict(branch_time_in_child=times[tc], branch_time_in_parent=0.0, parent_mip_era=np_, parent_source_id=np_, parent_time_units=np_)
    elif pa:
        want = dict(branch_time_in_child=times[tc], branch_time_in_parent=times[tp], parent_mip_era="CMIP6", parent_source_id="CESM2", parent_time_units="days since 0001-01-01 00:00:00")
    else:
        want = dict(branch_time_in_child=times[tc], branch_time_in_parent=times[tp], parent_mip_era=np_, parent_source_id="", parent_time_units="none")
    expect(ctx, fa, dict(want, branch_method=method, parent_activity_id=pa))


def grid(ctx, kind):
    r = ctx.choice("realm", ["atmos", "land", "ocean", "ocean seaIce", "atmos land"])
    g = ctx.choice("grids", ["atmos, land:native; ocean:displaced pole", "ocean:displaced pole;land,atmos:native", ABSENT])
    own = ctx.choice("grid", ["mine", ABSENT])
    code, got = iconform(ctx, base(grids=g, grid=own), kind, header={"realm": r})
    fa = got["tas"]["file"]["attributes"]
    ctx.check("grids" not in fa, "grids is no attribute of a file")
    expect(ctx, fa, {"grid": own if own is ABSENT or g is ABSENT else "displaced pole" if r.startswith("ocean") else "native", "realm": r})


def formats(ctx, kind):
    f = ctx.choice("format", ["NETCDF4", "NETCDF4_CLASSIC", "NETCDF3_CLASSIC", "NETCDF3_64BIT_OFFSET", "NETCDF3_64BIT_DATA", "NETCDF5", "netcdf4"])
    at = base(netcdf_type=f)
    four = f.startswith("NETCDF4")
    if four:
        at["compression"] = ctx.choice("compression", ["1", "9", ABSENT])
        at["shuffle"] = ctx.choice("shuffle", ["on", ABSENT])
    code, got = iconform(ctx, at, kind)
    if f in ("NETCDF5", "netcdf4"):
        ctx.check(code != 0 and not got, "format %s is accepted (%s)" % (f, code))
        return
    ctx.check(code == 0, "exit status %s" % code)
    fi = got["tas"]["file"]
    ctx.check(fi["format"] == f and "netcdf_type" not in fi["attributes"], "format %s" % fi["format"])
    if four:
        for a in ("compression", "shuffle"):
            ctx.check(fi.get(a, ABSENT) == at[a] and a not in fi["attributes"], "%s is %r, expected %r" % (a, fi.get(a), at[a]))


def several(ctx, kinds):
    """several attribute files"""
    a, b = base(), OrderedDict()
    for n, v in (("title", "second"), ("contact", "me"), ("source_id", OPEN)):
        if bool(ctx.bool("b_" + n)):
            b[n] = v
    b["history"] = "h"
    code, got = iconform(ctx, a, kinds[0], more=[(b, kinds[1])])
    ctx.check(code == 0 and list(got) == ["tas"], "exit status %s" % code)
    w = OrderedDict(a)
    w.update(b)
    fill = {"frequency": "mon", "realm": "atmos", "table_id": "Amon", "variable_id": "tas", "external_variables": ABSENT}
    expect(ctx, got["tas"]["file"]["attributes"], {n: (fill.get(n, "") if v is OPEN else v) for n, v in w.items()}, ("grids", "grid", "netcdf_type"))


def empty(ctx):
    """empty in JSON: not filled in"""
    at = base()
    for n in ("title", "frequency", "contact", "further_info_url", "experiment"):
        at[n] = ctx.choice(n, ["", "null", "x"])
    code, got = iconform(ctx, at, "fill", header={"experiment": "e"})
    expect(ctx, got["tas"]["file"]["attributes"], {n: at[n].replace("null", "") for n in ("title", "frequency", "contact", "further_info_url", "experiment")})


def lost(ctx):
    """files that are not there"""
    what = ctx.choice("what", ["definitions", "attributes", "second", "none"])
    code, got = iconform(ctx, None if what == "attributes" else base(), "text", defs=what != "definitions", more=[(None if what == "second" else {"contact": "me"}, "fill")])
    ctx.check((code == 0) == (what == "none") and bool(got) == (what == "none"), "%s missing: exit status %s, specifications %s" % (what, code, list(got)))


def cases(tier):
    q = tier == "quick"
    out = []
    kinds = ("text", "fill")
    groups = [["activity_id", "parent_activity_id", "experiment_id", "experiment"], ["data_specs_version", "creation_date", "source", "sub_experiment_id"], ["realm", "frequency", "variant_info", "frequency_of"],
              ["table_id", "table_info", "title", "experiment"]]
    for k, g in enumerate(groups):
        for kd in kinds:
            names = [n for n in g if n != "realm" and n != "activity_id"]
            out.append(("plain:%d:%s" % (k, kd), plain, dict(kind=kd, names=names)))
            if "activity_id" in g:
                out.append(("activity:%s" % kd, plain_two, dict(kind=kd)))
    for kd in kinds:
        for given in (OPEN, "areacella", ABSENT):
            if given is OPEN or kd == "text" or not q:
                out.append(("external:%s:%s" % (kd, given), external, dict(kind=kd, given=given)))
    for kd in ("text", "fill"):
        for asked in (OPEN, "https://here"):
            out.append(("url:%s:%s" % (kd, asked), url, dict(kind=kd, asked=asked)))
        out.append(("label:%s" % kd, label, dict(kind=kd, nums=[1, 10, 200] if q else [1, 2, 10, 27, 100])))
        for m in ("standard", "no parent", ABSENT):
            out.append(("branch:%s:%s" % (kd, m), branch, dict(kind=kd, method=m)))
        out.append(("grid:" + kd, grid, dict(kind=kd)))
        out.append(("formats:" + kd, formats, dict(kind=kd)))
    for a in kinds:
        for b in kinds:
            out.append(("several:%s:%s" % (a, b), several, dict(kinds=(a, b))))
    out.append(("empty", empty, {}))
    out.append(("lost", lost, {}))
    return out


def plain_two(ctx, kind):
    """activity_id: from the table only if it is left open itself"""
    head = {"activity_id": "ScenarioMIP"} if bool(ctx.bool("header")) else {}
    at = base(activity_id=ctx.choice("activity", ["CMIP", OPEN]), parent_activity_id=ctx.choice("parent", ["CMIP", OPEN, ABSENT]))
    code, got = iconform(ctx, at, kind, header=head)
    fa = got["tas"]["file"]["attributes"]
    expect(ctx, fa, {"activity_id": "CMIP" if at["activity_id"] else head.get("activity_id", ""), "parent_activity_id": "" if at["parent_activity_id"] is OPEN else at["parent_activity_id"]})
