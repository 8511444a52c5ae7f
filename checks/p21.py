"""P21: input files are put in time order and gaps are found."""
import functools
import itertools

import z3

from checks.lib import *    # noqa
import cf_units
import pysym.values as PV
from fractions import Fraction
from pysym.core import Unsupported, engine
from pysym.values import SymInt, SymReal, as_real_term, is_sym, wrap
from pysym import ncfake, symstr
from pyconform import climIO, mapdates

PROPERTY = dict(
    id="P21",
    title="Time series files are put in order and gaps between time slices are found",
    statement="Given the files of a time series in any order, the files are returned in order of time with the number of slices of each, and an error is reported exactly when "
              "some slice does not follow the one before it by the step of the series (for monthly data: in the next month), within a file or between files, "
              "whatever the time units, reference date and calendar are, whatever the names of the files and whether or not the time has bounds; the files may be read-only and are closed again.",
    quantifier=dict(over=["inputs"], text="all start times, steps, gaps and file orders within bounds"),
    why_tests_cant="The tests use four time axes in one unit and reference date; a missed or false gap depends on the position, size, units and reference.",
    anchors=dict(files=["pyconform/mapdates.py", "pyconform/climIO.py"], mechanism=[
        dict(name="order and counts", where="pyconform/mapdates.py: get_files_in_order, __get_time_info__"),
        dict(name="gaps", where="pyconform/mapdates.py: __check_date_alignment__, __check_date_alignment_in_file__")]),
)
META = dict(
    how="Start time, step, gap and its position and the file order are solver variables, the files are in memory (real netCDF4 in replays); calendar arithmetic (cf_units/dateutil) is "
        "replaced in symbolic runs by its definition for the noleap and 360_day calendars.",
    bounds=dict(quick="1-4 files of 1-5 slices; steps of an hour to 27 days, and years and months; gaps of up to two steps (13 months); units of days and hours; 3 reference dates, 2 calendars",
                thorough="as quick with 4 slices per file and 4 files"),
    outside="calendars with leap years; monthly series whose stamps differ in day or hour of the month; repeated times",
    assumptions=["cf_units and dateutil convert dates as their calendars define (the replay uses them)"],
)
STARTS = {"noleap": [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334], "360_day": list(range(0, 360, 30))}
YEAR = {"noleap": 365, "360_day": 360}


def ite(c, a, b):
    return z3.If(c, a, b)


def linear(t, k, out):
    """adds k*t to out: {0: constant, id: (coefficient, integer term)}"""
    if z3.is_rational_value(t) or z3.is_int_value(t):
        out[0] += k * (t.as_fraction() if z3.is_rational_value(t) else t.as_long())
    elif z3.is_app_of(t, z3.Z3_OP_TO_REAL):
        linear(t.arg(0), k, out)
    elif z3.is_add(t):
        for c in t.children():
            linear(c, k, out)
    elif z3.is_sub(t):
        for i, c in enumerate(t.children()):
            linear(c, k if i == 0 else -k, out)
    elif z3.is_app_of(t, z3.Z3_OP_UMINUS):
        linear(t.arg(0), -k, out)
    elif z3.is_mul(t) and (z3.is_rational_value(t.arg(0)) or z3.is_int_value(t.arg(0))) and t.num_args() == 2:
        c = t.arg(0)
        linear(t.arg(1), k * (c.as_fraction() if z3.is_rational_value(c) else c.as_long()), out)
    elif z3.is_int(t):
        c, _ = out.get(t.get_id(), (0, t))
        out[t.get_id()] = (c + k, t)
    else:
        raise Unsupported("time %s is not linear" % t)


def integral(t, k):
    """k*t as a constant and a list of (coefficient, integer term)"""
    out = {0: Fraction(0)}
    linear(z3.simplify(t), Fraction(k), out)
    c = out.pop(0)
    if c.denominator != 1 or any(x.denominator != 1 for x, _ in out.values()):
        raise Unsupported("time is not a multiple of 1/%d" % k)
    return int(c), [(int(x), v) for x, v in out.values()]


class Date(object):
    """date of a symbolic number of days since 0001-01-01"""

    def __init__(self, days, cal):
        n, st = YEAR[cal], STARTS[cal]
        c, terms = integral(days, 24)
        years = [(x // (24 * n), v) for x, v in terms if x % (24 * n) == 0]
        rest = [x * v for x, v in terms if x % (24 * n)]
        h = z3.simplify(z3.Sum([z3.IntVal(c)] + rest)) if rest else c
        self.st, self.minute, self.second = st, 0, 0
        if rest:
            self.doy, self.hour, y = (h / 24) % n, wrap(z3.simplify(h % 24)), h / 24 / n + 1
        else:
            self.doy, self.hour, y = c // 24 % n, c % 24, c // 24 // n + 1
        self.year = wrap(z3.simplify(y + z3.Sum([x * v for x, v in years]))) if years else y if type(y) is int else wrap(z3.simplify(y))

    def split(self):
        doy, st = self.doy, self.st
        if type(doy) is int:
            m = max(k for k in range(12) if st[k] <= doy)
            return m + 1, doy - st[m] + 1
        m, start = z3.IntVal(1), z3.IntVal(0)
        for k in range(1, 12):
            m = ite(doy >= st[k], z3.IntVal(k + 1), m)
            start = ite(doy >= st[k], z3.IntVal(st[k]), start)
        return wrap(z3.simplify(m)), wrap(z3.simplify(doy - start + 1))

    @property
    def month(self):
        return self.split()[0]

    @property
    def day(self):
        return self.split()[1]

    def timetuple(self):
        m, d = self.split()
        return (self.year, m, d, self.hour, self.minute, self.second, 0, 0, -1)

    def __str__(self):
        s = DateStr("<date>")
        s.date = self
        return s


class DateStr(str):
    pass


class ParserShim(object):
    def __init__(self, real):
        self.real = real

    def parse(self, s, *a, **kw):
        return s.date if isinstance(s, DateStr) else self.real.parse(s, *a, **kw)

    def __getattr__(self, n):
        return getattr(self.real, n)


FACTORS = {}


class UnitShim(object):
    def __init__(self, *a, **kw):
        self.u = cf_units.Unit(*a, **kw)

    def convert(self, v, other, *a, **kw):
        o = other.u if isinstance(other, UnitShim) else other
        if not is_sym(v):
            return self.u.convert(v, o, *a, **kw)
        key = (str(self.u), self.u.calendar, str(o), o.calendar)
        if key not in FACTORS:
            z = float(self.u.convert(0.0, o))
            FACTORS[key] = z, float(self.u.convert(24.0, o)) - z
        z, f = FACTORS[key]
        return v * (round(f * 1e6) / 1e6) / 24 + round(z * 1e6) / 1e6

    def num2date(self, v, *a, **kw):
        return num2date(v, str(self.u), self.u.calendar)

    def __getattr__(self, n):
        return getattr(self.u, n)

    def __str__(self):
        return str(self.u)


def num2date(v, units, calendar, *a, **kw):
    if isinstance(units, UnitShim):
        units = str(units.u)
    if not is_sym(v):
        return cf_units.num2date(v, units, calendar=calendar, *a, **kw)
    days = UnitShim(units, calendar=calendar).convert(v, cf_units.Unit("days since 1-1-1 0:0:0", calendar=calendar))
    return Date(as_real_term(days), calendar)


class CFShim(object):
    Unit = UnitShim
    num2date = staticmethod(num2date)

    def __getattr__(self, n):
        return getattr(cf_units, n)


def plain(x):
    x = np.asarray(np.ma.getdata(x)).item() if isinstance(x, np.ndarray) else x
    return x if is_sym(x) else float(x)


def hook(ctx):
    nc = NetCDFUser(ctx)
    ctx.replace(climIO, "netCDF4", nc)
    if ctx.symbolic:
        ctx.inject(mapdates, "cf_units", CFShim())
        ctx.inject(mapdates, "float", symstr.shim(float, lambda x: plain(x)))
        if hasattr(mapdates, "parser"):
            ctx.inject(mapdates, "parser", ParserShim(mapdates.parser))
        old = PV.SymReal.__hash__
        PV.SymReal.__hash__ = lambda self: 7          # dictionaries keyed by times compare the keys
        ctx._cleanup.append(lambda: setattr(PV.SymReal, "__hash__", old))
    return nc


def write(ctx, name, times, ends, units, cal):
    n = len(times)
    at = {"units": units, "calendar": cal}
    v = OrderedDict()
    if ends is not None:
        at["bounds"] = "time_bnds"
        b = np.empty((n, 2), dtype=object if ctx.symbolic else float)
        for i in range(n):
            b[i, 0], b[i, 1] = times[i], ends[i]
        v["time"] = ("f8", ("time",), farr(ctx, [(t + e) / 2 for t, e in zip(times, ends)]), at)
        v["time_bnds"] = ("f8", ("time", "nb"), b, {})
    else:
        v["time"] = ("f8", ("time",), farr(ctx, times), at)
    p = path(ctx, name)
    ctx.write_nc(p, OrderedDict([("time", n), ("nb", 2)]), v)
    os.chmod(p, 0o444)
    return p


def judge(ctx, per, times, ends, units, cal, bad, named="f%d.nc", alignment=None):
    """per: slices per file"""
    k, files = 0, []
    for i, n in enumerate(per):
        files.append(write(ctx, named % i, times[k:k + n], None if ends is None else ends[k:k + n], units if isinstance(units, str) else units[i], cal))
        k += n
    perm = ctx.choice("order", list(itertools.permutations(range(len(per)))))
    if named == "%d":       # relative names of one character
        ctx._cleanup.append(functools.partial(os.chdir, os.getcwd()))
        os.chdir(ctx.dir)
        files = [os.path.basename(f) for f in files]
    nc = hook(ctx)
    got, err = ctx.call(mapdates.get_files_in_order, [files[i] for i in perm], **({} if alignment is None else {"alignment": alignment}))
    if err is not None:
        ctx.fail("raised %r" % (err,))
    order, counts, error = got
    ctx.check(not nc.open_for("r"), "files are left open")
    bad = bool(bad)
    ctx.check((error != 0) == bad, "error %s reported %s" % (error, "for a series with a gap" if bad else "for a complete series"))
    if not bad:
        ctx.check([os.path.basename(str(f)) for f in order] == [named % i for i in range(len(per))], "order of the files %s" % (order,))
        ctx.check(list(counts) == list(per), "slices per file %s" % (counts,))


def duplicated(ctx, per, units, cal, bounds):
    """files of the same time period (or of the same middle): not a series"""
    f = 24.0 if units.startswith("hours") else 1.0
    t0 = ctx.int("start", 0, 300)
    s1 = ctx.int("step", 1, 20)
    s2 = ctx.choice("wider", [0, 1, 7]) + s1
    a = [t0 + s1 * i for i in range(3)]
    b = [t0 + s1 - s2, t0 + s1, t0 + s1 + s2]
    ts = [x * f for x in a + b]
    judge(ctx, (3, 3), ts, None, units, cal, True)


def mixed(ctx, per, units, cal, bounds, others):
    """each file has units and a reference date of its own"""
    us = [units] + others
    one = [float(cf_units.Unit(u, calendar=cal).convert(0.0, cf_units.Unit(units, calendar=cal))) for u in us]
    t0 = ctx.int("start", 0, 300)
    st = ctx.int("step", 1, 20)
    n = sum(per)
    at = ctx.choice("at", list(range(1, n)))
    gap = ctx.int("gap", 0, 7)      # with the step less than a month
    ts = [t0 + st * i + (gap if i >= at else 0) for i in range(n)]
    times, ends, k = [], [], 0
    for m, u, o in zip(per, us, one):
        f = 24.0 if u.startswith("hours") else 1.0
        o = round(o * (24 if units.startswith("days") else 1)) / (24.0 if units.startswith("days") else 1.0)
        g = 24.0 if units.startswith("hours") else 1.0
        for t in ts[k:k + m]:
            times.append((t - o / g) * f)
            ends.append((t + st - o / g) * f)
        k += m
    judge(ctx, per, times, ends if bounds else None, us, cal, gap != 0)


def noisy(ctx, per, units, cal, bounds, slot):
    """time values that are not exact"""
    f = 24.0 if units.startswith("hours") else 1.0
    t0 = ctx.int("start", 0, 300)
    st = ctx.int("step", 1, 20)
    noise = ctx.real("noise", -1e-8, 1e-8)
    times = [(t0 + st * i) * f / 4 for i in range(sum(per))]
    times[slot] = times[slot] + noise
    judge(ctx, per, times, None, units, cal, False)


def regular(ctx, per, units, cal, bounds, step, starts, ats=None, named="f%d.nc", alignment=None):
    """step: quarter days (None: symbolic) or 'year'"""
    f = 24.0 if units.startswith("hours") else 1.0
    t0 = ctx.choice("start", starts) + ctx.int("year", 0, 30) * (4 * YEAR[cal])
    n = sum(per)
    if step == "year":
        st, unit = 4 * YEAR[cal], 4 * YEAR[cal]
    else:
        st = ctx.int("step", 1, 108)
        unit = 1
    at = ctx.choice("at", ats or list(range(1, n)) or [1])
    gap = ctx.int("gap", -8, 8) if step != "year" else ctx.int("gap", -4 * 365, 4 * 365)
    ctx.assume(gap + st > 0)
    ctx.assume(gap <= 2 * st)
    if step != "year":                  # not from the first of a month to the first of the next
        ctx.assume(gap + st < 112)
    if step == "year" and n == 2:       # may be months apart
        ctx.assume(gap == 0)
    ts, t = [], t0
    for i in range(n):
        ts.append(t)
        t = t + st + (gap if i + 1 == at else 0)
    times = [x * f / 4 for x in ts]
    ends = [(x + st) * f / 4 for x in ts] if bounds else None
    ctx.prefer(gap % 4 == 0)
    # whether a step between two slices is right needs a third slice; within files only if asked
    judge(ctx, per, times, ends, units, cal, gap != 0 if n > 2 and alignment is not False else False, named, alignment)


def hourly(ctx, per, units, cal, bounds, steps):
    """steps of single hours, in units of hours or days"""
    f = 1 if units.startswith("hours") else 24
    t0 = ctx.int("start", 0, 48)
    st = ctx.choice("step", steps)
    n = sum(per)
    at = ctx.choice("at", list(range(1, n)))
    gap = ctx.choice("gap", [0, 1, -1] if st > 1 else [0, 1])
    ts = [t0 + st * i + (gap if i >= at else 0) for i in range(n)]
    judge(ctx, per, [x * 1.0 / f for x in ts], None, units, cal, gap != 0)


def changed(ctx, per, units, cal, bounds):
    """the step changes where a file begins"""
    f = 24.0 if units.startswith("hours") else 1.0
    t0 = ctx.int("start", 0, 300)
    s1, s2 = ctx.int("step", 1, 27), ctx.int("later", 1, 27)
    ts = [t0 + s1 * i for i in range(per[0] + 1)]
    for _ in range(sum(per[1:]) - 1):
        ts.append(ts[-1] + s2)
    judge(ctx, per, [x * f for x in ts], None, units, cal, s1 != s2)


def monthly(ctx, per, units, cal, bounds, months, ats=None):
    f = 24.0 if units.startswith("hours") else 1.0
    m0 = ctx.choice("month", months)
    year = ctx.int("year", 0, 30)
    n = sum(per)
    at = ctx.choice("at", ats or list(range(1, n)) or [1])
    gap = ctx.choice("skipped", [0, 1, 5, 11, 12, 13])
    # the reference date of the units in days since 0001-01-01, in this calendar
    ref = round(float(cf_units.Unit(units, calendar=cal).convert(0.0, cf_units.Unit("days since 1-1-1", calendar=cal))) * 4) / 4
    base = (1980 + year) * YEAR[cal] - ref
    start = lambda m: m // 12 * YEAR[cal] + STARTS[cal][m % 12]          # noqa
    ms, m = [], m0
    for i in range(n):
        ms.append(m)
        m = m + 1 + (gap if i + 1 == at else 0)
    times = [(start(x) + base) * f for x in ms]
    ends = [(start(x + 1) + base) * f for x in ms] if bounds else None
    # two slices a multiple of years apart are a yearly series
    judge(ctx, per, times, ends, units, cal, gap != 0 and (n > 2 or n == 2 and gap != 11))


def cases(tier):
    q = tier == "quick"
    out = []
    U = ["days since 1979-01-01 00:00:00", "hours since 1850-01-01", "days since 1850-07-15 06:00:00"]
    tags = {U[0]: "days", U[1]: "hours", U[2]: "days0715"}

    def add(kind, f, per, u, cal, bounds, **kw):
        tag = "%s:%s:%s:%s:%s" % (kind, "".join(map(str, per)), tags[u], cal, "bounds" if bounds else "time")
        out.append((tag, f, dict(per=per, units=u, cal=cal, bounds=bounds, **kw)))

    if q:
        # every unit with and without bounds, both calendars with every unit
        plan = [(U[0], "noleap", False), (U[1], "360_day", False), (U[2], "noleap", False),
                (U[0], "360_day", True), (U[1], "noleap", True), (U[2], "360_day", True)]
        for k, (u, cal, bounds) in enumerate(plan):
            add("regular", regular, (3, 3), u, cal, bounds, step=None, starts=[[0, 5], [122]][k % 2])
            add("yearly", regular, (3, 3), u, cal, bounds, step="year", starts=[0])
            add("monthly", monthly, (3, 3), u, cal, bounds, months=[[0, 10], [5, 11], [1, 8]][k % 3])
        add("regular", regular, (3, 3, 3), U[0], "noleap", False, step=None, starts=[0], ats=[3, 6])
        add("monthly", monthly, (3, 3, 3), U[0], "noleap", True, months=[9], ats=[3, 6])
        add("duplicated", duplicated, (3, 3), U[0], "noleap", False)
        add("mixed", mixed, (2, 3), U[0], "noleap", False, others=["days since 1980-01-01"])
        add("mixed", mixed, (3, 2), U[1], "360_day", True, others=["days since 1979-01-01"])
        add("mixed", mixed, (2, 2, 2), U[0], "360_day", False, others=["hours since 1979-01-01", "days since 1978-01-01 06:00:00"])
        add("mixed", mixed, (3, 3), U[0], "360_day", False, others=["days since 1850-01-01"])
        add("february", regular, (3, 3), U[0], "360_day", False, step=None, starts=[4 * 57, 4 * 59], ats=[3])
        add("mixed", mixed, (1, 2, 1), U[0], "noleap", True, others=["days since 1850-01-01", "hours since 1990-01-01"])
        add("short", regular, (3, 3), U[0], "noleap", False, step=None, starts=[0], ats=[3], named="%d")
        for slot in (0, 3):
            add("noisy%d" % slot, noisy, (3, 3), U[slot // 3], "noleap", False, slot=slot)
        for k, per in enumerate([(1, 1, 1), (2, 1), (1, 3), (2, 2), (1, 1), (1,), (2,)]):
            u, cal, bounds = plan[k % 6]
            add("few", regular, per, u, cal, bounds, step=None, starts=[0, 5])
            add("fewmon", monthly, per, u, cal, not bounds, months=[0, 10])
            if k < 3:
                add("fewyears", regular, per, u, cal, bounds, step="year", starts=[0])
        add("changed", changed, (3, 3), U[0], "noleap", False)
        add("hourly", hourly, (3, 3), U[1], "noleap", False, steps=[1, 12])
        add("hourly", hourly, (3, 3), U[0], "360_day", False, steps=[1, 3])
        add("many", regular, (4, 5, 3, 4), U[0], "noleap", False, step=None, starts=[0], ats=[9])
        add("many", regular, (4, 2, 5, 2), U[1], "noleap", True, step="year", starts=[0], ats=[6])
        add("manymon", monthly, (2, 5, 3, 4), U[0], "noleap", False, months=[2], ats=[10])
        add("changed", changed, (2, 2), U[1], "360_day", False)
        add("unaligned", regular, (3,), U[0], "noleap", False, step=None, starts=[0], alignment=False)
        for k, (u, cal, bounds) in enumerate(plan[:4]):
            add("regular", regular, (4,), u, cal, bounds, step=None, starts=[0])
            add("monthly", monthly, (4,), u, cal, bounds, months=[11])
        return out
    for per in ((2, 3), (1, 2), (2, 1), (3, 3)):
        for u in U[:2]:
            for o in ("days since 1980-01-01", "days since 1850-01-01", "hours since 1979-01-01", "days since 1978-01-01 06:00:00"):
                add("mixed-%s" % o.replace(" ", "_"), mixed, per, u, ("noleap", "360_day")[per[0] % 2], False, others=[o])
    for per in [(3, 3), (4, 3), (3, 4, 3), (4,), (5,)]:
        for u in U:
            for cal in ("noleap", "360_day"):
                if per == (3, 3):
                    for p2 in [(1, 1, 1), (2, 1), (1, 2, 1), (1, 3), (3, 1), (2, 2), (1, 1), (1,), (2,)]:
                        for bounds in (False, True):
                            add("few", regular, p2, u, cal, bounds, step=None, starts=[0, 5])
                            add("fewmon", monthly, p2, u, cal, bounds, months=[0, 4, 10])
                            add("fewyears", regular, p2, u, cal, bounds, step="year", starts=[0])
                    for steps in ([1, 2], [3, 5], [6, 12]):
                        add("hourly%d" % steps[0], hourly, (3, 3), u, cal, False, steps=steps)
                    add("many", regular, (4, 5, 3, 4), u, cal, False, step=None, starts=[0], ats=[4, 9])
                    add("manymon", monthly, (2, 5, 3, 4), u, cal, False, months=[2, 8], ats=[2, 7, 10])
                    for p2 in [(3, 3), (2, 3), (4, 2), (2, 1, 2)]:
                        add("changed", changed, p2, u, cal, False)
                    add("unaligned", regular, (4,), u, cal, False, step=None, starts=[0], alignment=False)
                    add("short", regular, per, u, cal, False, step=None, starts=[0, 5], named="%d")
                    add("duplicated", duplicated, per, u, cal, False)
                    for slot in (0, 3) if per == (3, 3) else (0, 3, 5):
                        add("noisy%d" % slot, noisy, per, u, cal, False, slot=slot)
                for bounds in (False, True):
                    big = len(per) > 2
                    add("regular", regular, per, u, cal, bounds, step=None, starts=[5] if big else [0, 5, 122])
                    add("yearly", regular, per, u, cal, bounds, step="year", starts=[0] if big else [0, 122])
                    add("monthly", monthly, per, u, cal, bounds, months=[0, 5, 11] if big else list(range(12)))
    return out
