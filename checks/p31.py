"""Output files and failures."""
import hashlib
import sys

import netCDF4

from checks.lib import *    # noqa
from pysym import ncfake

PROPERTY = dict(
    id="P31",
    title="An output file appears under its name only when it is complete",
    statement="Whichever operation fails while output files are made (creating, defining, writing or closing a file, reading an input, evaluating a definition), the error reaches the caller and no file that is not "
              "complete ever stands under its output name, at any moment of the run: there is what was there before, or the finished file with all its variables, attributes and data. Files finished before the failure "
              "stay as they are. Running again, with the same objects or new ones, after any such failure gives the same files as a run that never failed.",
    quantifier=dict(over=["crash_points", "histories"], text="every I/O operation of a run as the point of failure, at most two failures in a history"),
    why_tests_cant="Tests never make an operation fail; there is one crash point per I/O operation and each leaves another state behind.",
    anchors=dict(files=["pyconform/flownodes.py", "pyconform/dataflow.py"], mechanism=[
        dict(name="temporary name and rename", where="pyconform/flownodes.py: WriteNode._open_, _close_, execute"),
        dict(name="run", where="pyconform/dataflow.py: DataFlow.execute")]),
)
META = dict(
    how="The number of the failing operation is a solver variable; the real code runs against a netCDF stand-in that consults it before each operation and looks at the output names in between "
        "(replays: the real netCDF4 behind a proxy that fails at the same operation). After the failure the run is repeated and the files are compared with those of a run without failure, for all data values.",
    bounds=dict(quick="1-2 files, 1-3 variables, up to 4 chunks, one failure, all operations", thorough="two failures one after the other"),
    outside="failing directory creation and rename; two processes writing the same file; failures of the file system after close",
    assumptions=["rename replaces the target in one step (POSIX)", "the stand-in refuses to create a file that is still open for writing, as HDF5 does"],
)


class Injected(RuntimeError):
    pass


class VarProxy(object):
    def __init__(self, v, op):
        object.__setattr__(self, "_v", v)
        object.__setattr__(self, "_op", op)

    def __getattr__(self, k):
        return getattr(self._v, k)

    def __setattr__(self, k, x):
        self._op("setncattr")
        setattr(self._v, k, x)

    def __getitem__(self, i):
        return self._v[i]

    def __len__(self):
        return len(self._v)

    def setncattr(self, k, x):
        self._op("setncattr")
        self._v.setncattr(k, x)

    def setncatts(self, d):
        self._op("setncatts")
        self._v.setncatts(d)

    def __setitem__(self, i, x):
        self._op("write")
        self._v[i] = x


class FileProxy(object):
    """a netCDF4.Dataset open for writing that reports its operations"""

    def __init__(self, op, *args, **kw):
        op("openw")
        self._op = op
        self._ds = netCDF4_Dataset(*args, **kw)
        self.variables = {}

    def __getattr__(self, k):
        return getattr(self._ds, k)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def setncattr(self, k, x):
        self._op("setncattr")
        self._ds.setncattr(k, x)

    def setncatts(self, d):
        self._op("setncatts")
        self._ds.setncatts(d)

    def createDimension(self, *a, **k):
        self._op("createDimension")
        return self._ds.createDimension(*a, **k)

    def createVariable(self, name, *a, **k):
        self._op("createVariable")
        self.variables[name] = VarProxy(self._ds.createVariable(name, *a, **k), self._op)
        return self.variables[name]

    def sync(self):
        self._op("sync")
        self._ds.sync()

    def close(self):
        try:
            self._op("close")
        except Injected:
            self._ds.close()
            raise
        self._ds.close()


netCDF4_Dataset = netCDF4.Dataset


class Faults(object):
    """calls `visit` before each operation on an output file and makes one of them fail"""

    def __init__(self, ctx, visit, reads=False):
        self.ctx, self.visit, self.reads = ctx, visit, reads
        self.n, self.at, self.hit = 0, None, False
        if ctx.symbolic:
            ncfake.Hook.fail = lambda n, name: self.op(name)
        else:
            def opener(*a, **k):
                mode = k.get("mode", a[1] if len(a) > 1 else "r")
                if mode[0] == "r":
                    self.op("openr")
                    return netCDF4_Dataset(*a, **k)
                return FileProxy(self.op, *a, **k)
            for m in list(sys.modules.values()):
                if getattr(m, "__name__", "").startswith("pyconform"):
                    for k, v in list(vars(m).items()):
                        if v is netCDF4_Dataset:
                            ctx.replace(m, k, opener)

    def arm(self, at):
        self.n, self.at, self.hit = 0, at, False

    def disarm(self):
        self.at = None

    def op(self, name):
        if self.at is None:
            return False
        if name in ("openr", "read", "closer"):
            if not self.reads or name != "openr":
                return False
        self.visit(name)
        n, self.n = self.n, self.n + 1
        if not self.hit and bool(self.at == n):
            self.hit = True
            raise Injected("injected failure of %s (operation %d)" % (name, n))
        return False

    def end(self):
        ncfake.Hook.fail = None


def stands(ctx, p):
    """what is under a name: None, or an identification of the bytes, and whether the file is complete"""
    if not os.path.exists(p):
        return None, True
    with open(p, "rb") as f:
        h = hashlib.sha1(f.read()).hexdigest()
    if ctx.symbolic:
        r = ncfake.lookup(p)
        return h, r is not None and r[1]
    return h, None


class Watch(object):
    def __init__(self, ctx, paths):
        self.ctx, self.paths = ctx, paths
        self.before = {p: stands(ctx, p)[0] for p in paths}
        self.seen = []

    def __call__(self, name):
        for p in self.paths:
            h, complete = stands(self.ctx, p)
            if h != self.before[p]:
                if complete is None:
                    self.seen.append((p, h, name))
                else:
                    self.ctx.check(complete, "before %s: there is an incomplete file under the name %s" % (name, os.path.basename(p)))

    def done(self):
        """the attempt is over"""
        self("the end")
        for p, h, name in self.seen:
            self.ctx.check(stands(self.ctx, p)[0] == h, "before %s: the file under the name %s was not complete" % (name, os.path.basename(p)))
        for p in self.paths:
            if os.path.exists(p) and not self.ctx.symbolic:
                r = self.ctx.read_nc(p)
                self.ctx.check(r is not None and r["complete"] is not False, "%s is no netCDF file" % os.path.basename(p))
        self.seen = []


def expect(ctx, p, want, what):
    got = ctx.read_nc(p)
    ctx.check(got is not None and got["complete"] is not False, "%s: %s is missing" % (what, os.path.basename(p)))
    ctx.check(got["dims"] == want["dims"], "%s: dimensions %s, expected %s" % (what, got["dims"], want["dims"]))
    ctx.check(list(got["vars"]) == list(want["vars"]), "%s: variables %s" % (what, list(got["vars"])))
    strip = lambda d: {k: (v.tolist() if isinstance(v, np.ndarray) else v) for k, v in d.items() if k != "creation_date"}     # noqa
    ctx.check(strip(got["attrs"]) == strip(want["attrs"]) and set(got["attrs"]) == set(want["attrs"]), "%s: attributes %s" % (what, sorted(got["attrs"])))
    for n, w in want["vars"].items():
        g = got["vars"][n]
        ctx.check(g["dims"] == w["dims"] and g["dtype"] == w["dtype"], "%s: dimensions of %s" % (what, n))
        ctx.check(strip(g["attrs"]) == strip(w["attrs"]), "%s: attributes of %s: %s" % (what, n, sorted(g["attrs"])))
        ctx.check_array(g["data"], w["data"], "%s: %s" % (what, n))


class Source(DataNode):
    """data whose evaluation may fail"""
    op = None

    def __getitem__(self, index):
        if index is not None and Source.op is not None:
            Source.op("evaluate")
        return super(Source, self).__getitem__(index)


def history(ctx, make, paths, retries, reads=False):
    """make() -> a function that runs everything; failure at a symbolic operation, then runs again"""
    Source.op = None
    clean = ctx.run("building", make)
    ctx.run("run without failure", clean)
    want = {p: ctx.read_nc(p) for p in paths}
    for p in paths:
        ctx.check(want[p] is not None and want[p]["complete"] is not False, "%s is written" % os.path.basename(p))
    clean = None
    kind = ctx.choice("before", ["nothing", "another file", "the file"])
    for p in paths:
        if kind != "the file":
            os.remove(p)
        if kind == "another file":
            ctx.write_nc(p, OrderedDict(q=1), OrderedDict(old=("f8", ("q",), farr(ctx, [1.0]), {})))
    watch = Watch(ctx, paths)
    faults = Faults(ctx, lambda name: watch(name), reads=reads)
    Source.op = faults.op
    try:
        run = ctx.run("building", make)
        for k, how in enumerate(retries):
            at = ctx.int("fail%d" % k, 0, 80)
            faults.arm(at)
            _, err = ctx.call(run)
            faults.disarm()
            ctx.check((err is not None) == faults.hit, "the failure reaches the caller (%r)" % (err,))
            watch.done()
            if not faults.hit:
                break
            watch = Watch(ctx, paths)
            err = None
            if how == "new":
                run = ctx.run("building", make)
        else:
            faults.arm(-1)
            ctx.run("running again", run)
            faults.disarm()
            watch.done()
    finally:
        Source.op = None
        faults.end()
    for p in paths:
        expect(ctx, p, want[p], "after the last run")


def single(ctx, retries, chunk, inverted, fmt, nested):
    a = ctx.reals("a", (3, 2), lo=-10, hi=10)
    t = np.array([1.0, 2.0, 3.0])
    p = path(ctx, "sub/dir/o.nc") if nested else path(ctx, "o.nc")

    def make():
        x, y = DimensionDesc("x", 2), DimensionDesc("t", 3, unlimited=True)
        vt = VariableDesc("t", datatype="double", dimensions=[y],
                          attributes=OrderedDict([("units", "days since 2000-01-01"), ("axis", "T")] + ([("direction", "decreasing")] if inverted else [])))
        va = VariableDesc("a", datatype="double", dimensions=[y, x], attributes=OrderedDict([("units", "m"), ("long_name", "A")]))
        fd = FileDesc(p, format=fmt, variables=[vt, va], attributes={"title": "T"})
        w = WriteNode(fd, inputs=[ValidateNode(vt, Source(PhysArray(t, name="t", units="days since 2000-01-01", dimensions=("t",)))),
                                  ValidateNode(va, Source(PhysArray(a, name="A", units="m", dimensions=("t", "x"))))])
        w.enable_history()
        return lambda: w.execute(chunks=chunk)
    history(ctx, make, [p], retries)


def whole(ctx, retries, reads):
    a = ctx.reals("a", (2,), lo=-10, hi=10)
    inp = path(ctx, "in.nc")
    ctx.write_nc(inp, OrderedDict([("x", 2)]), OrderedDict([("a", ("f8", ("x",), a, {"units": "m"})), ("x", ("f8", ("x",), np.array([1.0, 2.0]), {"units": "1"}))]))
    ps = [path(ctx, "v.nc"), path(ctx, "w.nc")]

    def make():
        od = OrderedDict([("v", outvar(["x"], "a", fname=ps[0], attributes={"units": "m"})),
                          ("w", outvar(["x"], "2*a", fname=ps[1], attributes={"units": "km"})),
                          ("x", outvar(["x"], "x", attributes={"units": "1"}))])
        f = flow([inp], od)
        return lambda: f.execute(serial=True, chunks={"x": 1})
    history(ctx, make, ps, retries, reads=reads)


def cases(tier):
    q = tier == "quick"
    out = []
    hist = [("same",), ("new",)] if q else [("same",), ("new",), ("same", "same"), ("new", "same"), ("same", "new"), ("new", "new")]
    for r in hist:
        tag = "-".join(r)
        for chunk in ({}, {"t": 1}, {"t": 2}) if len(r) == 1 else ({"t": 2},):
            for inv in (False, True):
                out.append(("single:%s:%s:%d" % (tag, chunk.get("t"), inv), single, dict(retries=r, chunk=chunk, inverted=inv, fmt="NETCDF4", nested=False)))
        out.append(("single:%s:classic" % tag, single, dict(retries=r, chunk={"t": 1}, inverted=False, fmt="NETCDF3_CLASSIC", nested=True)))
        out.append(("whole:%s:write" % tag, whole, dict(retries=r, reads=False)))
        out.append(("whole:%s:read" % tag, whole, dict(retries=r, reads=True)))
    return out
