"""xconform."""
import contextlib
import io
import json

from checks.lib import *    # noqa
from pyconform.flownodes import ValidationWarning

PROPERTY = dict(
    id="P36",
    title="xconform writes what the specification says, as its options ask",
    statement="Given a standardization file and input files (paths or patterns), xconform writes every output file with the values of its definitions, whatever chunks (-c) are asked for; -d overrides the compression of every file, "
              "-n leaves out the history that is written otherwise, and -m adds the functions of user modules to definitions. Values that fail validation are reported as warnings and masked, "
              "or stop it before the file is complete with -e; without input files nothing is written, and malformed chunks, unknown dimensions, a missing standardization file or an invalid specification are refused.",
    quantifier=dict(over=["inputs", "configurations"], text="all combinations of options, chunk sizes, kinds of input path and values of the data within bounds"),
    why_tests_cant="No test runs xconform.",
    anchors=dict(files=["pyconform/cli/xconform.py", "pyconform/dataflow.py"], mechanism=[
        dict(name="options", where="pyconform/cli/xconform.py: cli, chunk"),
        dict(name="run", where="pyconform/cli/xconform.py: main; pyconform/dataflow.py: DataFlow.execute")]),
)
META = dict(
    how="Options are solver choices and the data solver variables; xconform's main runs on a standardization file written for each path, and the files are compared with the definitions and the options.",
    bounds=dict(quick="2 output files, 2 input files, 3x2 values, chunks 1-4 of either dimension, deflate 0-9, all options", thorough="as quick with more combinations of options in one run"),
    outside="runs of several processes",
    assumptions=["netCDF4 replaced by an in-memory stand-in in symbolic runs", "the communicator of a parallel run replaced by that of a serial one"],
)
COUNT = [0]
USER = """
from pyconform.functions import Function


class Twice(Function):
    key = "%s"

    def __init__(self, data, by=2):
        super(Twice, self).__init__(data, by=by)

    def __getitem__(self, index):
        return self.keywords["by"] * self.arguments[0][index]
"""
NT, NX = 3, 2


def main(argv, cwd=None):
    from asaptools import simplecomm
    from pyconform.cli import xconform
    simplecomm.SimpleCommMPI = simplecomm.SimpleComm    # one process only
    here = os.getcwd()
    with contextlib.redirect_stderr(io.StringIO()):
        try:
            if cwd:
                os.chdir(cwd)
            xconform.main(argv)
        finally:
            os.chdir(here)


def setup(ctx, vdef="a", vmax=None, rev=False):
    """input files, standardization file: paths of the outputs"""
    a, b = ctx.reals("a", (NT, NX)), ctx.reals("b", (NX,))
    ctx.write_nc(path(ctx, "in_1.nc"), OrderedDict([("t", None), ("x", NX)]), OrderedDict([
        ("t", ("f8", ("t",), farr(ctx, [1.0, 2.0, 3.0]), {"units": "days since 2000-01-01", "calendar": "noleap"})),
        ("a", ("f8", ("t", "x"), a, {"units": "m"}))]))
    ctx.write_nc(path(ctx, "in_2.nc"), OrderedDict([("x", NX)]), OrderedDict([("b", ("f8", ("x",), b, {"units": "m"}))]))
    at = {"units": "m"}
    if vmax is not None:
        at["valid_max"] = vmax
    od = OrderedDict([("v", outvar(["time", "lon"], vdef, fname=path(ctx, "v.nc"), attributes=at, metavars=["time"], deflate=3)),
                      ("w", outvar(["lon"], "b", fname=path(ctx, "w.nc"), attributes={"units": "km"}, deflate=0)),
                      ("time", outvar(["time"], "t", attributes={"units": "days since 2000-01-01", "calendar": "noleap", "axis": "T"}))])
    spec = path(ctx, "spec.json")
    with open(spec, "w") as f:
        json.dump(od, f)
    return a, b, spec


def inputs(ctx, how):
    p1, p2 = path(ctx, "in_1.nc"), path(ctx, "in_2.nc")
    return {"paths": [p1, p2], "swapped": [p2, p1], "pattern": [path(ctx, "in_*.nc")], "mixed": [path(ctx, "in_[2].nc"), p1], "range": [path(ctx, "in_?.nc")], "relative": ["in_1.nc", "./in_2.nc"], "star": ["*.nc"], "stars": ["*1.nc", "i*_2.*"]}[how]


def verify(ctx, a, b, hist=True, dv=3, dw=0):
    g = ctx.read_nc(path(ctx, "v.nc"))
    ctx.check(g is not None and set(g["vars"]) == {"v", "time"}, "v.nc is written")
    ctx.check_array(g["vars"]["v"]["data"], a, "v")
    ctx.check_array(g["vars"]["time"]["data"], farr(ctx, [1.0, 2.0, 3.0]), "time")
    w = ctx.read_nc(path(ctx, "w.nc"))
    ctx.check(w is not None and set(w["vars"]) == {"w"}, "w.nc is written")
    ctx.check_array(w["vars"]["w"]["data"], b / 1000, "w")
    for n, x, lev in (("v", g["vars"]["v"], dv), ("w", w["vars"]["w"], dw)):
        ctx.check(x["deflate"] == lev, "compression of %s: %s, expected %s" % (n, x["deflate"], lev))
        ctx.check(("history" in x["attrs"]) == hist, "history of %s %s" % (n, "written" if "history" in x["attrs"] else "missing"))


def options(ctx, chunked, how, deflate):
    a, b, spec = setup(ctx)
    argv = ["-s", "-f", spec] if deflate != 9 or bool(ctx.bool("s")) else ["-f", spec]
    hist = True
    for d, n in chunked:
        c = ctx.int("chunk_" + d, 0, n + 1)
        if bool(c > 0):
            argv += [ctx.choice("form_" + d, ["-c", "--chunk"]), "%s,%d" % (d, int(c))]
    dv, dw = 3, 0
    if deflate is not None:
        argv += [ctx.choice("form", ["-d", "--deflate"]), str(deflate)]
        dv = dw = deflate
    if bool(ctx.bool("n")):
        hist = False
        argv += [ctx.choice("form_n", ["-n", "--no_history"])]
    if bool(ctx.bool("e")):
        argv += ["-e"]
    if deflate in (1, 5) and bool(ctx.bool("debug")):
        argv += ["--debug"]
    ctx.run("xconform " + " ".join(argv[3:]), main, argv + inputs(ctx, how), ctx.dir)
    verify(ctx, a, b, hist, dv, dw)


def validation(ctx):
    """values beyond their maximum"""
    a, b, spec = setup(ctx, vmax=10.0)
    argv = ctx.choice("s", [["-s", "-f", spec], ["-f", spec]])
    stop = bool(ctx.bool("e"))
    if stop:
        argv.append("--error" if len(argv) > 2 else "-e")
    c = ctx.choice("chunk", [None, 1, 2])
    if c is not None:
        argv += ["-c", "time,%d" % c]
    over = np.array([[bool(a[i, j] > 10) for j in range(NX)] for i in range(NT)])
    _, err = ctx.call(main, argv + inputs(ctx, "paths"))
    said = [w for w in ctx.warned if issubclass(w.category, ValidationWarning)]
    if stop and over.any():
        ctx.check(err is not None, "xconform -e goes on with invalid values")
        ctx.check(not os.path.exists(path(ctx, "v.nc")), "xconform -e leaves a file with invalid values")
        return
    if err is not None:
        ctx.fail("xconform raised %r" % (err,))
    ctx.check(bool(said) == bool(over.any()), "warnings: %s" % [str(w.message) for w in said])
    g = ctx.read_nc(path(ctx, "v.nc"))["vars"]["v"]["data"]
    ctx.check_array(g, np.ma.array(a, mask=over), "v")


def module(ctx, n):
    """functions of user modules in definitions"""
    names, argv = [], []
    for k in range(n):
        COUNT[0] += 1
        names.append("times%d" % COUNT[0])
        p = path(ctx, ["user.py", "other.py"][k])
        with open(p, "w") as f:
            f.write(USER % names[-1])
        argv += [ctx.choice("form%d" % k, ["-m", "--module"]), p]
    by = ctx.choice("by", [None, 3])
    d = "%s(a%s)" % (names[0], "" if by is None else ", by=%d" % by)
    if n > 1:
        d = "%s(%s)" % (names[1], d)
    a, b, spec = setup(ctx, vdef=d)
    ctx.run("xconform -m", main, ["-s", "-f", spec] + argv + inputs(ctx, "paths"))
    verify(ctx, (by or 2) * a * (2 if n > 1 else 1), b)
    os.remove(path(ctx, "v.nc"))
    _, err = ctx.call(main, ["-s", "-f", spec.replace("spec.json", "nosuch.json")] + argv + inputs(ctx, "paths"))
    ctx.check(err is not None, "a standardization file that is not there")


def nothing(ctx):
    """without input files"""
    a, b, spec = setup(ctx)
    argv = ["-s", "-f", spec]
    if bool(ctx.bool("n")):
        argv.append("-n")
    if bool(ctx.bool("c")):
        argv += ["-c", "time,1"]
    ctx.run("xconform without input", main, argv)
    ctx.check(sorted(os.listdir(ctx.dir)) == ["in_1.nc", "in_2.nc", "spec.json"], "files %s" % sorted(os.listdir(ctx.dir)))


BAD = {"chunk0": ["-c", "time"], "chunk1": ["-c", "time,x"], "chunk2": ["-c", "time,1,2"], "chunk3": ["-c", "time,0"], "chunk4": ["-c", "time,-1"], "chunk5": ["-c", "t,1"],
       "chunk6": ["-c", "nosuch,2"], "chunk7": ["-c", "time,1.5"], "deflate0": ["-d", "10"], "deflate1": ["-d", "-1"], "deflate2": ["-d", "x"], "module": ["-m", "/nonexistent/m.py"],
       "option": ["--nosuch"], "chunk8": ["-c", "lon,2", "-c", "time,0"], "chunk9": ["-c", "time,0", "-c", "lon,2"], "chunk10": ["-c", "nosuch,1", "-c", "lon,1"]}


def refused(ctx, what):
    a, b, spec = setup(ctx)
    argv = ["-s", "-f", spec] + BAD[what]
    if bool(ctx.bool("n")):
        argv.append("-n")
    _, err = ctx.call(main, argv + inputs(ctx, "paths"))
    ctx.check(err is not None, "%s is accepted" % " ".join(BAD[what]))
    if isinstance(err, SystemExit):
        ctx.check(err.code not in (None, 0), "exit code")
    for f in ("v.nc", "w.nc"):
        ctx.check(not os.path.exists(path(ctx, f)), "%s is written in spite of %s" % (f, " ".join(BAD[what])))


def invalid(ctx, what):
    """a specification that is not valid is refused with and without input files"""
    a, b, spec = setup(ctx)
    with open(spec) as f:
        od = json.load(f, object_pairs_hook=OrderedDict)
    if what == "bounds":
        od["v"]["attributes"]["bounds"] = "nosuch"
    elif what == "type":
        od["v"]["datatype"] = "nosuch"
    elif what == "owner":
        od["w"]["file"]["filename"] = od["v"]["file"]["filename"]
    elif what == "format":
        od["w"]["file"]["format"] = "NETCDF9"
    elif what == "dims":
        del od["v"]["dimensions"]
    with open(spec, "w") as f:
        if what == "json":
            f.write('{"v": ')
        else:
            json.dump(od, f)
    argv = ["-s", "-f", spec] + (inputs(ctx, "paths") if bool(ctx.bool("with_input")) else [])
    _, err = ctx.call(main, argv)
    ctx.check(err is not None, "a specification with a bad %s is accepted" % what)
    ctx.check(sorted(os.listdir(ctx.dir)) == ["in_1.nc", "in_2.nc", "spec.json"], "files %s" % sorted(os.listdir(ctx.dir)))


def cases(tier):
    q = tier == "quick"
    out = []
    hows = ["paths", "swapped", "pattern", "mixed", "range", "relative", "star", "stars"]
    for k, ch in enumerate(((), (("time", NT),), (("lon", NX),), (("time", NT), ("lon", NX)), (("lon", NX), ("time", NT)))):
        for how in hows if not q else [hows[k]]:
            for d in (None, 0, 9) if not q else [(None, 0, 9, 1, None)[k]]:
                out.append(("options:%s:%s:%s" % ("".join(x[0][0] for x in ch), how, d), options, dict(chunked=ch, how=how, deflate=d)))
    for d in (0, 1, 3, 5, 9):
        out.append(("deflate:%d" % d, options, dict(chunked=(), how="paths", deflate=d)))
    for how in hows[5:]:
        out.append(("options:%s" % how, options, dict(chunked=(), how=how, deflate=None)))
    out.append(("validation", validation, {}))
    out.append(("module:1", module, dict(n=1)))
    out.append(("module:2", module, dict(n=2)))
    out.append(("nothing", nothing, {}))
    for w in BAD:
        out.append(("refused:" + w, refused, dict(what=w)))
    for w in ("bounds", "type", "owner", "format", "dims", "json"):
        out.append(("invalid:" + w, invalid, dict(what=w)))
    return out
