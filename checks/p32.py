"""Dates in file names."""
import re
import sys

import cf_units
import cftime

from checks.lib import *    # noqa
from pysym.values import is_sym
from pyconform.flownodes import DateTimeAutoParseWarning

PROPERTY = dict(
    id="P32",
    title="Dates in file names are those of the first and last time in the file",
    statement="Each {format1-format2} in the name of an output file is replaced by the dates of the first and the last value of its time variable, as output (declared units and calendar), in these formats, blanks as zeros; "
              "the rest of the name stays and the file is written under that name. The time variable is the declared one, hidden or not, else the variable named time, or time1-3, or one with a time unit and one dimension, standard name time or axis T. "
              "Without such a variable the name stays as it is, with a warning; a variable without data, an unbalanced brace or other than two formats is refused; names without braces stay.",
    quantifier=dict(over=["inputs", "configurations"], text="all time values, units, calendars, sizes and ways to mark the time variable within bounds"),
    why_tests_cant="Tests use one name and one variable of whole days with the units of its definition.",
    anchors=dict(files=["pyconform/flownodes.py", "pyconform/datasets.py", "pyconform/dataflow.py"], mechanism=[
        dict(name="names", where="pyconform/flownodes.py: WriteNode._autoparse_filename_, WriteNode.__init__")]),
)
META = dict(
    how="Time values are solver variables; the conversion to a date is replaced by a stand-in that notes the value, units and calendar it is given (replays: the real conversion), which have to be those of the first and last value.",
    bounds=dict(quick="1-4 times, 7 ways to mark the time variable, 4 units and calendars, up to 2 groups of formats", thorough="1-6 times"),
    outside="time variables without dimension, missing times, which of several candidates other than time is used, decreasing direction",
    assumptions=["cftime converts one value rightly", "floats are reals"],
)


class Date(object):
    """stand-in for a date: formatting notes what is formatted"""
    log = []

    def __init__(self, value, units, calendar):
        self.value, self.units, self.calendar = value, units, calendar

    def strftime(self, fmt):
        Date.log.append((self.value, self.units, self.calendar, fmt))
        return "<%d; >" % (len(Date.log) - 1)


def symbolic(value):
    return any(is_sym(v) for v in np.asarray(value, dtype=object).reshape(-1))


def noting(real):
    def num2date(value, units, calendar="standard", *args, **kw):
        if not symbolic(value):
            return real(value, units, calendar, *args, **kw)
        return Date(value, str(units), calendar or "standard")
    return num2date


def stand_in(ctx):
    if not ctx.symbolic:
        return
    Date.log = []
    real = [f for f in (getattr(cf_units, "num2date", None), getattr(cftime, "num2date", None)) if f is not None]
    for m in list(sys.modules.values()):
        if getattr(m, "__name__", "").startswith("pyconform"):
            for k, v in list(vars(m).items()):
                if any(v is f for f in real):
                    ctx.replace(m, k, noting(v))
    for m in (cf_units, cftime):
        if hasattr(m, "num2date"):
            ctx.replace(m, "num2date", noting(m.num2date))
    method = cf_units.Unit.num2date
    ctx.replace(cf_units.Unit, "num2date", lambda self, v, *a, **k: Date(v, str(self), self.calendar) if symbolic(v) else method(self, v, *a, **k))


def real_date(value, units, calendar, fmt):
    d = cf_units.num2date(value, units, calendar)
    return d.strftime(fmt).replace(" ", "0")


def check_name(ctx, got, parts, units, calendar, what):
    """parts: strings and (value, format)"""
    if not ctx.symbolic:
        want = "".join(p if isinstance(p, str) else real_date(p[0], units, calendar, p[1]) for p in parts)
        ctx.check(got == want, "%s: name %s, expected %s" % (what, got, want))
        return
    pat = "".join(re.escape(p) if isinstance(p, str) else r"<(\d+);[^<>]*>" for p in parts)
    m = re.fullmatch(pat, got)
    ctx.check(m is not None, "%s: name %s, expected %s" % (what, got, pat))
    for g, (value, fmt) in zip(m.groups(), [p for p in parts if not isinstance(p, str)]):
        v, u, c, f = Date.log[int(g)]
        if "<%s;0>" % g not in got:      # a blank does not become a zero; where it shows
            for w in (60.5, 1000, 20000):
                if " " in cf_units.num2date(w, units, calendar).strftime(fmt):
                    ctx.check(value != w, "%s: blanks in the name %s" % (what, got))
        ctx.check(f == fmt, "%s: format %s, expected %s" % (what, f, fmt))
        v = np.asarray(v, dtype=object).reshape(-1)[0] if isinstance(v, np.ndarray) else v
        ctx.check_eq(v, value, what + ": date")
        if Unit(u, calendar=c) != Unit(units, calendar=calendar) or not same_calendar(c, calendar):
            for w in (60.5, 1000, 20000, 36500, 73000, 99999):       # a value at which it shows, if there is one
                try:
                    differ = real_date(w, u, c, fmt) != real_date(w, units, calendar, fmt)
                except Exception:
                    continue
                if differ:
                    ctx.check(value != w, "%s: date in %s (%s), expected %s (%s)" % (what, u, c, units, calendar))


def same_calendar(a, b):
    alias = {"gregorian": "standard", "365_day": "noleap"}
    return alias.get(a, a) == alias.get(b, b)


NAMES = [    # file name -> parts, False if refused
    ("o_{%Y-%Y}.nc", ["o_", (0, "%Y"), "-", (-1, "%Y"), ".nc"]),
    ("o_{%Y%m%d%H%M-%Y%m}-clim.nc", ["o_", (0, "%Y%m%d%H%M"), "-", (-1, "%Y%m"), "-clim.nc"]),
    ("{%Y-%m}_{%Y%m%d-%d}", [(0, "%Y"), "-", (-1, "%m"), "_", (0, "%Y%m%d"), "-", (-1, "%d")]),
    ("o%e_{%Y_%e%k-%Y_%e%k}.nc", ["o%e_", (0, "%Y_%e%k"), "-", (-1, "%Y_%e%k"), ".nc"]),       # blanks
    ("plain-name.nc", ["plain-name.nc"]),
    ("o_}{%Y-%Y}.nc", ["o_}", (0, "%Y"), "-", (-1, "%Y"), ".nc"]),
    ("o_{%Y-%Y.nc", False), ("o_{%Y}.nc", False), ("o_{%Y-%m-%d}.nc", False), ("o_{%Y-%Y}_{", False),
]
UNITS = [("days since 2000-01-01", "noleap"), ("hours since 1850-01-01", "360_day"), ("days since 0001-01-01", "standard"), ("seconds since 1999-12-31 12:00:00", "proleptic_gregorian")]
MARKS = {    # name of the variable, attributes, declared
    "time": ("time", {}, False), "time1": ("time1", {}, False), "time2": ("time2", {}, False), "time3": ("time3", {}, False), "units": ("q", {}, False),
    "standard": ("q", {"standard_name": "time"}, False), "axis": ("q", {"axis": "T"}, False), "declared": ("q", {}, True), "hidden": ("_q", {}, True),
}


def times(ctx, n):
    t = ctx.reals("t", (n,), lo=0, hi=100000)
    for k in range(1, n):
        ctx.assume(t[k] > t[k - 1] + 0.5)
    if not ctx.symbolic:    # the solver's values are rounded to whole minutes of a day
        t = np.round(t * 1440) / 1440
    return t


def node(ctx, name, mark, n, unit, others):
    """one file around a time variable, others around it"""
    stand_in(ctx)
    units, cal = UNITS[unit]
    t = times(ctx, n)
    vname, attrs, declared = MARKS[mark]
    dim, two = DimensionDesc("d", n), DimensionDesc("b", 2)
    vt = VariableDesc(vname, datatype="double", dimensions=[dim], attributes=dict(attrs, units=units, calendar=cal))
    vs, ns = [], []
    for o in others:
        if o == "bounds":
            vb = VariableDesc("tb", datatype="double", dimensions=[dim, two], attributes=dict(units=units, calendar=cal))
            nb = DataNode(PhysArray(np.zeros((n, 2)), name="tb", units=Unit(units, calendar=cal), dimensions=("d", "b")))
        elif o == "other":       # another time variable, that is not named time
            vb = VariableDesc("ref", datatype="double", dimensions=[dim], attributes=dict(units=units, calendar=cal))
            nb = DataNode(PhysArray(np.arange(float(n)), name="ref", units=Unit(units, calendar=cal), dimensions=("d",)))
        else:
            vb = VariableDesc("x", datatype="double", dimensions=[dim], attributes=dict(units="m"))
            nb = DataNode(PhysArray(np.arange(float(n)), name="x", units="m", dimensions=("d",)))
        vs.append(vb)
        ns.append(ValidateNode(vb, nb))
    nt = ValidateNode(vt, DataNode(PhysArray(t, name="t", units=Unit(units, calendar=cal), dimensions=("d",))))
    k = ctx.choice("place", list(range(len(vs) + 1)))
    vs.insert(k, vt)
    ns.insert(k, nt)
    fname, parts = NAMES[name]
    base = path(ctx, "")
    kw = dict(autoparse_time_variable=vname) if declared else {}
    fd = FileDesc(base + fname, variables=vs, **kw)
    w, err = ctx.call(WriteNode, fd, inputs=ns)
    if parts is False:
        ctx.check(err is not None and not isinstance(err, (AttributeError, KeyError, IndexError)), "%s is refused (%r)" % (fname, err))
        return
    if err is not None:
        ctx.fail("building the file raised %r" % (err,))
    ctx.check(not any(issubclass(x.category, DateTimeAutoParseWarning) for x in ctx.warned), "warned although there is a time variable")
    want = [base] + [p if isinstance(p, str) else (t[p[0]], p[1]) for p in parts]
    check_name(ctx, w.label, want, units, cal, "%s, %d times" % (fname, n))
    if ctx.symbolic and "<" in w.label:
        return
    ctx.run("writing", w.execute)
    ctx.check(sorted(os.listdir(base)) == [w.label[len(base):]], "files %s" % os.listdir(base))


def absent(ctx, how):
    """no time variable"""
    stand_in(ctx)
    dim, two = DimensionDesc("d", 2), DimensionDesc("b", 2)
    at = {"plain": dict(units="m"), "bounds": dict(units="days since 2000-01-01"), "input": dict(units="days since 2000-01-01")}[how]
    v = VariableDesc("q", datatype="double", dimensions=[dim, two] if how == "bounds" else [dim], attributes=at)
    x = VariableDesc("x", datatype="double", dimensions=[dim], attributes=dict(units="m"))
    nx = ValidateNode(x, DataNode(PhysArray(np.arange(2.), name="x", units="m", dimensions=("d",))))
    nv = ValidateNode(v, DataNode(PhysArray(np.zeros((2, 2) if how == "bounds" else 2), name="q", units=at["units"], dimensions=("d", "b")[:len(v.dimensions)])))
    p = path(ctx, "o_{%Y-%Y}.nc")
    fd = FileDesc(p, variables=[v, x])
    w, err = ctx.call(WriteNode, fd, inputs=[nx] if how == "input" else [nx, nv])
    if how == "input":
        ctx.check(isinstance(err, ValueError), "a time variable without data is refused (%r)" % (err,))
        return
    ctx.check(err is None and w.label == p, "name stays (%r)" % (err,))
    ctx.check(any(issubclass(x.category, DateTimeAutoParseWarning) for x in ctx.warned), "with a warning")


def whole(ctx, n, hidden, how):
    """through a data flow: time converted to other units, or made from something else"""
    stand_in(ctx)
    t = times(ctx, n)
    a = ctx.reals("a", (n,), lo=-1, hi=1)
    inp = path(ctx, "in.nc")
    ctx.write_nc(inp, OrderedDict([("t", n)]), OrderedDict([("t", ("f8", ("t",), t, {"units": "days since 1990-01-01", "calendar": "noleap"})),
                                                           ("a", ("f8", ("t",), a, {"units": "m"}))]))
    units, f, s = ("hours since 1990-01-01", 24.0, 0.0) if how == "units" else ("days since 1990-01-01", 1.0, 365.0) if how == "def" else ("days since 1990-01-01", 1.0, 0.0)
    os.mkdir(path(ctx, "out"))
    fname = path(ctx, "out") + "/a_{%Y%m%d-%Y%m%d%H}.nc"
    tn = "_tt" if hidden else "tt"
    d = "t + 365" if how == "def" else "t"
    if how == "def":
        d = 'chunits(rmunits(t) + 365, units="days since 1990-01-01", calendar="noleap")'
    od = OrderedDict([("a", outvar(["d"], "a", fname=fname, attributes={"units": "m"}, **(dict(autoparse_time_variable=tn) if hidden else {}))),
                      (tn, outvar(["d"], d, attributes={"units": units, "calendar": "noleap"}))])
    if hidden:
        od["a"]["file"]["metavars"] = [tn]
    fl, err = ctx.call(flow, [inp], od)
    if err is not None:
        ctx.fail("building raised %r" % (err,))
    ctx.run("executing", lambda: fl.execute(serial=True))
    base = path(ctx, "out") + "/"
    got = os.listdir(base)
    ctx.check(len(got) == 1, "files %s" % got)
    check_name(ctx, got[0], ["a_", (t[0] * f + s, "%Y%m%d"), "-", (t[-1] * f + s, "%Y%m%d%H"), ".nc"], units, "noleap", "data flow")
    r = ctx.read_nc(base + got[0])
    ctx.check(set(r["vars"]) == ({"a"} if hidden else {"a", tn}), "variables %s" % list(r["vars"]))
    ctx.check_array(r["vars"]["a"]["data"], a, "a")


def cases(tier):
    q = tier == "quick"
    out = []
    top = 4 if q else 6
    for k, (f, _) in enumerate(NAMES):
        for n in range(1, top + 1):
            for m, mark in enumerate(MARKS):
                if q and (k + n + m) % 2 and k > 1:
                    continue
                for others in (["x"], ["bounds", "x"]) + ((["other", "bounds"],) if mark in ("time", "declared", "hidden") else ()):
                    u = (k + n + m) % len(UNITS)
                    out.append(("node:%s:%d:%s:%s" % (f, n, mark, "+".join(others)), node, dict(name=k, mark=mark, n=n, unit=u, others=others)))
    for how in ("plain", "bounds", "input"):
        out.append(("absent:" + how, absent, dict(how=how)))
    for n in (1, 3):
        for hidden in (False, True):
            for how in ("same", "units", "def"):
                out.append(("whole:%d:%d:%s" % (n, hidden, how), whole, dict(n=n, hidden=hidden, how=how)))
    return out
