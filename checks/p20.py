"""P20: an output variable is the value of its definition."""
from checks.lib import *    # noqa
from checks.p14 import write_input
from asaptools.simplecomm import SimpleComm
from pyconform.datasets import DefinitionWarning
from pyconform import functions as F

PROPERTY = dict(
    id="P20",
    title="Every output variable is the value of its definition, whoever writes it",
    statement="An output variable holds the value of its definition: input variables (their indexed part where an index is given), declared data of other output variables, "
              "numbers and text, combined by the operators and functions named, arguments in the order written and keywords by name; an input variable "
              "is preferred to declared data of the same name. A definition naming an unknown variable is skipped with a warning, and one naming an unknown function or operator is refused. "
              "Every file is written by exactly one process whatever the number of processes, and executing again writes the same.",
    quantifier=dict(over=["inputs", "configurations"], text="all values, expressions of bounded depth, numbers of processes within bounds"),
    why_tests_cant="The tests evaluate a few fixed definitions on one process.",
    anchors=dict(files=["pyconform/dataflow.py", "pyconform/functions.py", "pyconform/flownodes.py"], mechanism=[
        dict(name="construction", where="pyconform/dataflow.py: DataFlow._construct_flow_"),
        dict(name="evaluation", where="pyconform/flownodes.py: EvalNode"),
        dict(name="lookup", where="pyconform/functions.py: find_operator, find_function, find"),
        dict(name="distribution", where="pyconform/dataflow.py: DataFlow.execute")]),
)
META = dict(
    how="Structure of the expression (operators, operands, indices), values, process counts and file sizes are solver choices; files written by the real data flow "
        "(in memory; real netCDF4 in replays) are compared with an independent evaluation over the same symbolic data.",
    bounds=dict(quick="expressions of 3 operands, 4 operators, 10 kinds of operands with 0-2 dimensions of sizes 2-3; 34 definitions over integers (-2, 0, 3) and reals with symbolic masks, scalars included; up to 5 files on 1-4 processes",
                thorough="as quick with 4 operands and 7 files on 1-6 processes"),
    outside="real MPI transport (processes are run one after another); units (P06, P07)",
    assumptions=["floats are reals"],
)
SZ = {"t": 2, "x": 3}
LEAVES = ["a", "b", "s", "c", "2", "1.5", "a[0]", "a[:,::-1]", "d[:,1]", "k"]


def operands(ctx):
    """name -> (dims, array)"""
    a, b, d = ctx.reals("a", (2, 3)), ctx.reals("b", (3, 2)), ctx.reals("d", (2, 3))
    s, c = ctx.real("s"), ctx.reals("c", (3,))
    k = np.array([3.0, 5.0, 7.0])
    inp = write_input(ctx, SZ, OrderedDict([("a", (("t", "x"), a)), ("b", (("x", "t"), b)), ("s", ((), farr(ctx, s))), ("c", (("x",), c)), ("d", (("t", "x"), d))]), units="1")
    return inp, {"a": (("t", "x"), a), "b": (("x", "t"), b), "s": ((), farr(ctx, s)), "c": (("x",), c), "2": ((), 2), "1.5": ((), 1.5),
                 "a[0]": (("x",), a[0]), "a[:,::-1]": (("t", "x"), a[:, ::-1]), "d[:,1]": (("t",), d[:, 1]), "k": (("x",), k)}


def comb(op, l, r):
    (dl, vl), (dr, vr) = l, r
    order = tuple(dl) + tuple(d for d in dr if d not in dl)
    if not dl and dr:
        order = tuple(dr)
    x = aligned(np.asarray(vl), dl, order) if dl else vl
    y = aligned(np.asarray(vr), dr, order) if dr else vr
    return order, {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y}[op]()


def expr(ctx, form, ops, leaves, chunk=False):
    inp, env = operands(ctx)
    n = form.count("L")
    ls = [ctx.choice("l%d" % i, leaves[i] if isinstance(leaves[0], list) else leaves) for i in range(n)]
    os_ = [ctx.choice("o%d" % i, ops[i] if isinstance(ops[0], list) else ops) for i in range(form.count("O"))]
    li, oi = iter(ls), iter(os_)
    text = "".join(next(li) if ch == "L" else next(oi) if ch == "O" else ch for ch in form)
    if all(x in ("2", "1.5") for x in ls):
        return
    v = lambda i: env[ls[i]]           # noqa
    if form == "(LOL)OL":
        want = comb(os_[1], comb(os_[0], v(0), v(1)), v(2))
    elif form == "LO(LOL)":
        want = comb(os_[0], v(0), comb(os_[1], v(1), v(2)))
    elif form == "-LOL**2":
        want = comb(os_[0], (v(0)[0], -np.asarray(v(0)[1])), (v(1)[0], np.asarray(v(1)[1]) * np.asarray(v(1)[1])))
    elif form == "L-mean(LOL,'t')":
        m = comb(os_[0], v(1), v(2))
        if "t" in m[0]:
            ax = m[0].index("t")
            m = (tuple(d for d in m[0] if d != "t"), np.asarray(m[1]).sum(axis=ax) / 2)
        want = comb("-", v(0), m)
    elif form == "(LOL)O(LOL)":
        want = comb(os_[1], comb(os_[0], v(0), v(1)), comb(os_[2], v(2), v(3)))
    dims, val = want
    if "/" in os_:
        for nm, (_, arr) in env.items():
            if isinstance(arr, np.ndarray) and nm in ("a", "b", "c", "d", "s"):
                for x in arr.flat:
                    ctx.assume(1 <= x)
                    ctx.assume(x <= 4)
    od = OrderedDict(v=outvar(["T" if d == "t" else "X" for d in dims], text, fname=path(ctx, "o.nc"), attributes={"units": "1"}))
    od["ti"] = outvar(["T"], "d[:,0]", fname=path(ctx, "t.nc"), attributes={"units": "1"})
    od["xi"] = outvar(["X"], "c", fname=path(ctx, "x.nc"), attributes={"units": "1"})
    od["k"] = outvar(["x"], [3.0, 5.0, 7.0], fname=path(ctx, "k.nc"), attributes={"units": "1"})
    f, err = ctx.call(flow, [inp], od)
    if err is not None:
        ctx.fail("building %s raised %r" % (text, err))
    chunks = OrderedDict([("X", 2)]) if chunk and "x" in dims else OrderedDict()
    ctx.run("executing %s" % text, lambda: f.execute(serial=True, chunks=chunks))
    got = ctx.read_nc(path(ctx, "o.nc"))
    ctx.check(got is not None, "%s is written" % text)
    ctx.check_array(got["vars"]["v"]["data"], np.asarray(val), text)


class Probe(F.Function):
    key = "vp_probe"
    seen = []

    def __init__(self, *args, **kw):
        super(Probe, self).__init__(*args, **kw)

    def __getitem__(self, index):
        vals = [a if F.is_constant(a) else a[index] for a in self.arguments]
        kw = {k: (a if F.is_constant(a) else a[index]) for k, a in self.keywords.items()}
        Probe.seen.append((vals, kw, index))
        return vals[0]


ARGS = {"2": ("c", 2), "-3": ("c", -3), "1.5": ("c", 1.5), "1e2": ("c", 100.0), "'t'": ("c", "t"), '"a b"': ("c", "a b"), "c": ("v", "c"), "c[::2]": ("v", "c[::2]"),
        "2*c": ("v", "2*c"), "vp_probe(c, 7)": ("v", "c")}


def arguments(ctx, nargs, nkw):
    """a registered function gets the arguments as written"""
    c = ctx.reals("c", (3,))
    inp = write_input(ctx, {"x": 3}, OrderedDict(c=(("x",), c)), units="1")
    pick = [ctx.choice("a%d" % i, sorted(ARGS)) for i in range(nargs)]
    kws = [(n, ctx.choice("k" + n, sorted(ARGS))) for n in ("alpha", "dim", "units")[:nkw]]
    text = "vp_probe(%s)" % ", ".join(["c"] + pick + ["%s=%s" % p for p in kws])
    od = OrderedDict(v=outvar(["x"], text, fname=path(ctx, "o.nc"), attributes={"units": "1"}))
    f, err = ctx.call(flow, [inp], od)
    if err is not None:
        ctx.fail("building %s raised %r" % (text, err))
    Probe.seen = []
    ctx.run("executing", lambda: f.execute(serial=True))
    outer = [s for s in Probe.seen if len(s[0]) == nargs + 1 and len(s[1]) == nkw]
    ctx.check(len(outer) > 0, "the function is called with %d arguments and %d keywords" % (nargs + 1, nkw))
    vals, kw, _ = outer[-1]
    ctx.check(set(kw) == set(n for n, _ in kws), "keywords %s" % sorted(kw))
    val = {"c": c, "c[::2]": c[::2], "2*c": 2 * c}
    for got, w in list(zip(vals, ["c"] + pick)) + [(kw[n], w) for n, w in kws]:
        kind, x = ARGS[w]
        if kind == "c":
            ctx.check(type(got) is type(x) and got == x, "argument %s is given as %r" % (w, got))
        else:
            ctx.check(isinstance(got, PhysArray), "argument %s is an array" % w)
            ctx.check_array(raw(got), val[x], "argument " + w)
    ctx.check_array(ctx.read_nc(path(ctx, "o.nc"))["vars"]["v"]["data"], c, text)


class Pick(F.Function):
    """tells its arguments apart by kind"""
    key = "vp_pick"

    def __init__(self, data, other, more=None):
        super(Pick, self).__init__(data, other, more=more)

    def __getitem__(self, index):
        r = self.arguments[0][index]
        for n, x in enumerate((self.arguments[1], self.keywords["more"])):
            if isinstance(x, str):
                r = r + 11.0 * (n + 1) * len(x)
            elif isinstance(x, float):
                r = r + 7.0 * (n + 1) * x
            elif isinstance(x, int):
                r = r + 5.0 * (n + 1) * x
            elif x is not None:
                r = r + 3.0 * (n + 1) * PhysArray(x[index], units="1")
        return r


def picked(c, env, args):
    r = c
    for n, x in enumerate(args):
        if x is not None:
            r = r + (n + 1) * (11.0 * (len(x) - 2) if x[0] in "'\"" else 7.0 * float(x) if "." in x else 5.0 * int(x) if x.isdigit() else 3.0 * env[x])
    return r


def beside(ctx, forms, words):
    """two outputs of one data flow: each is the value of its own definition, however alike they are written"""
    a, c = ctx.reals("a", (2, 3)), ctx.reals("c", (3,))
    k = np.array([3.0, 5.0, 7.0])
    inp = write_input(ctx, SZ, OrderedDict(a=(("t", "x"), a), c=(("x",), c)), units="1")
    env = {"c": c, "a[0]": a[0], "a[1]": a[1], "k": k}
    od, want = OrderedDict(), {}
    for n in "12":
        w = ctx.choice("word" + n, words)
        form = ctx.choice("form" + n, forms)
        od["v" + n] = outvar(["X"], form % w, fname=path(ctx, "o%s.nc" % n), attributes={"units": "1"})
        p = picked(c, env, (w, None) if "more" not in form else ("1", w))
        want["v" + n] = p + 2 if form.startswith("2") else p * c if form.endswith("c") else p
    od["k"] = outvar(["x"], k.tolist(), fname=path(ctx, "k.nc"), attributes={"units": "1"})
    f = ctx.run("building", flow, [inp], od)
    ctx.run("executing", lambda: f.execute(serial=True))
    for n in "12":
        v = "v" + n
        ctx.check_array(ctx.read_nc(path(ctx, "o%s.nc" % n))["vars"][v]["data"], want[v], "%s = %s beside %s" % (v, od[v]["definition"], [od[o]["definition"] for o in ("v1", "v2") if o != v]))


def names(ctx):
    """what a name refers to"""
    c = ctx.reals("c", (3,))
    arrays = OrderedDict(c=(("x",), c))
    both = bool(ctx.bool("both"))
    if both:
        arrays["k"] = (("x",), ctx.reals("k", (3,)))
    inp = write_input(ctx, {"x": 3}, arrays, units="1")
    k = [3.0, 5.0, 7.0]
    expr_ = ctx.choice("def", ["k", "2*k", "c+k", "w", "c + w", "nosuch", "f(nosuch)", "nosuchfunc(c)", "c ** nosuchfunc(2)", "c < c", "mean(nosuch[0], 't')"])
    od = OrderedDict(v=outvar(["x"], expr_, fname=path(ctx, "o.nc"), attributes={"units": "1"}))
    od["k"] = outvar(["x"], k, fname=path(ctx, "k.nc"), attributes={"units": "1"})
    od["w"] = outvar(["x"], "c", fname=path(ctx, "w.nc"), attributes={"units": "1"})
    f, err = ctx.call(flow, [inp], od)
    if expr_ in ("nosuchfunc(c)", "c ** nosuchfunc(2)", "c < c"):
        ctx.check(err is not None, "%s is refused" % expr_)
        return
    if expr_ == "f(nosuch)":
        return          # unknown function and unknown variable
    ctx.check(err is None, "building %s raised %r" % (expr_, err))
    skipped = expr_ in ("w", "c + w", "nosuch", "mean(nosuch[0], 't')")
    ctx.check(any(issubclass(w.category, DefinitionWarning) for w in ctx.warned) == skipped, "warning exactly when a name is unknown")
    ctx.run("executing", lambda: f.execute(serial=True))
    got = ctx.read_nc(path(ctx, "o.nc"))
    ctx.check((got is None) == skipped, "%s %s" % (expr_, "skipped" if skipped else "written"))
    kk = arrays["k"][1] if both else np.array(k)
    if got is not None:
        ctx.check_array(got["vars"]["v"]["data"], {"k": kk, "2*k": 2 * kk, "c+k": c + kk}[expr_], expr_)
    ctx.check_array(ctx.read_nc(path(ctx, "w.nc"))["vars"]["w"]["data"], c, "w")
    ctx.check_array(ctx.read_nc(path(ctx, "k.nc"))["vars"]["k"]["data"], np.array(k), "k")


class Comm(SimpleComm):
    """one of several processes"""

    def __init__(self, rank, size):
        super(Comm, self).__init__()
        self.r, self.n = rank, size

    def get_size(self):
        return self.n

    def get_rank(self):
        return self.r

    def is_manager(self):
        return self.r == 0

    def sync(self):
        pass

    def partition(self, data=None, func=None, involved=False, tag=0):
        op = func if func else lambda *x: x[0][x[1]::x[2]]
        j = 0 if involved else 1
        if self.r == 0 and not involved:
            return None
        return op(data, self.r - j, self.n - j)


def processes(ctx, nfiles, maxprocs, external=True):
    n = ctx.choice("procs", list(range(1, maxprocs + 1)))
    arrays, od, sz, vals = OrderedDict(), OrderedDict(), {}, {}
    for i in range(nfiles):
        sz["d%d" % i] = ctx.choice("n%d" % i, [1, 2]) if i < 3 else 2
        vals[i] = ctx.reals("v%d" % i, (sz["d%d" % i],))
        arrays["v%d" % i] = (("d%d" % i,), vals[i])
        od["w%d" % i] = outvar(["o%d" % i], "2*v%d" % i, fname=path(ctx, "f%d.nc" % i), attributes={"units": "1"})
    inp = write_input(ctx, sz, arrays, units="1")
    opened = []
    real = WriteNode.execute

    def execute(self, *a, **kw):
        opened.append(self.label)
        return real(self, *a, **kw)
    WriteNode.execute = execute
    ctx._cleanup.append(lambda: setattr(WriteNode, "execute", real))
    for r in range(n):
        f = ctx.run("building", flow, [inp], od)
        ctx.run("executing", lambda: f.execute(scomm=Comm(r, n)))
    for i in range(nfiles):
        k = sum(1 for o in opened if o == path(ctx, "f%d.nc" % i))
        ctx.check(k == 1, "f%d.nc is written by %d of %d processes" % (i, k, n))
        ctx.check_array(ctx.read_nc(path(ctx, "f%d.nc" % i))["vars"]["w%d" % i]["data"], 2 * vals[i], "f%d.nc" % i)


def again(ctx):
    """a second execution writes the same"""
    inp, env = operands(ctx)
    text = ctx.choice("def", ["a + b", "a*2 - c", "up(a)", "mean(a, 't') - c", "-a"])
    dims = ["X"] if text.startswith("mean") else ["T", "X"]
    od = OrderedDict(v=outvar(dims, text, fname=path(ctx, "o.nc"), attributes={"units": "1"}, metavars=["xi"]))
    od["w"] = outvar(["T", "X"], "a", fname=path(ctx, "w.nc"), attributes={"units": "1"})
    od["xi"] = outvar(["X"], "c", attributes={"units": "1"})
    f = ctx.run("building", flow, [inp], od)
    res = []
    for _ in range(2):
        ctx.run("executing", lambda: f.execute(serial=True))
        res.append(ctx.read_nc(path(ctx, "o.nc")))
    ctx.check_array(res[1]["vars"]["v"]["data"], res[0]["vars"]["v"]["data"], text)
    ctx.check(list(res[0]["vars"]) == list(res[1]["vars"]) and res[0]["dims"] == res[1]["dims"], "same variables")
    ctx.check_array(ctx.read_nc(path(ctx, "w.nc"))["vars"]["w"]["data"], env["a"][1], "a")


OPERATORS = {"-": {1, 2}, "+": {2}, "*": {2}, "/": {2}, "**": {2}}


def lookup(ctx):
    k = ctx.choice("key", sorted(OPERATORS) + ["<", "==", "mean", "sqrt", "vp_probe", "nosuch", "vp_twice"])
    n = ctx.choice("n", [None, 0, 1, 2, 3])
    op, err = ctx.call(F.find_operator, k, numargs=n)
    have = OPERATORS.get(k, set())
    if (n is None and len(have) == 1) or (n in have):
        ctx.check(err is None and op.key == k and op.numargs == (n or 2), "operator %s of %s arguments: %r %r" % (k, n, op, err))
    else:
        ctx.check(isinstance(err, KeyError), "no operator %s of %s arguments: %r %r" % (k, n, op, err))
    fn, err = ctx.call(F.find_function, k)
    if k in ("mean", "sqrt", "vp_probe"):
        ctx.check(err is None and fn.key == k and issubclass(fn, F.Function), "function %s" % k)
    else:
        ctx.check(err is not None and fn is None, "no function %s: %r" % (k, fn))


class Twice1(F.Function):
    key = "vp_twice"


class Twice2(F.MeanFunction):
    key = "vp_twice"


# definition -> value over (i, j, s, p; f, g, h): None is missing
MISSING = {
    "int": [("i[0]", lambda e: e["i"][0]), ("i[1]", lambda e: e["i"][1]), ("s", lambda e: e["s"]), ("-s", lambda e: neg(e["s"])), ("-i[0]", lambda e: neg(e["i"][0])),
            ("s-p", lambda e: add(e["s"], neg(e["p"]))), ("i[0]+i[1]", lambda e: add(e["i"][0], e["i"][1])), ("s*i[1]", lambda e: mul(e["s"], e["i"][1])),
            ("s**2", lambda e: mul(e["s"], e["s"])), ("up(s)", lambda e: e["s"]), ("down(i[0])", lambda e: neg(e["i"][0])), ("-up(p)", lambda e: neg(e["p"])),
            ("limit(s,below=1)", lambda e: None if e["s"] is None else max(e["s"], 1)), ("2*p-s", lambda e: add(mul(2, e["p"]), neg(e["s"])))],
    "double": [("f[0]", lambda e: e["f"][0]), ("g", lambda e: e["g"]), ("-g", lambda e: neg(e["g"])), ("-f[1]", lambda e: neg(e["f"][1])), ("g-h", lambda e: add(e["g"], neg(e["h"]))),
               ("f[0]*g", lambda e: mul(e["f"][0], e["g"])), ("g**2", lambda e: mul(e["g"], e["g"])), ("down(f[0])", lambda e: neg(e["f"][0])), ("up(g)", lambda e: e["g"]),
               ("s+g", lambda e: add(e["s"], e["g"])), ("s", lambda e: e["s"]), ("i[0]", lambda e: e["i"][0]), ("g/2", lambda e: mul(e["g"], 0.5)), ("-(f[0]+h)", lambda e: neg(add(e["f"][0], e["h"])))],
    "vec": [("i-s", lambda e: [add(x, neg(e["s"])) for x in e["i"]]), ("-f", lambda e: [neg(x) for x in e["f"]]), ("f*g", lambda e: [mul(x, e["g"]) for x in e["f"]]),
            ("i[0]*f", lambda e: [mul(e["i"][0], x) for x in e["f"]]), ("down(f)-f[1]", lambda e: [add(neg(x), neg(neg(e["f"][1]))) for x in e["f"]]), ("h+i", lambda e: [add(x, e["h"]) for x in e["i"]])],
}


def neg(a):
    return None if a is None else -a


def add(a, b):
    return None if a is None or b is None else a + b


def mul(a, b):
    return None if a is None or b is None else a * b


TYPES = {"byte": ("i1", -128, 127), "ubyte": ("u1", 0, 254), "short": ("i2", -32768, 32767), "ushort": ("u2", 0, 65534),
         "int": ("i4", -2 ** 31, 2 ** 31 - 1), "uint": ("u4", 0, 2 ** 32 - 2), "float": ("f4", -0.5, 2.0 ** 60), "double": ("f8", -0.1, 1e300)}


def reads(ctx, kind, ind):
    """a variable of each type is written as it is, up to the ends of its range"""
    ty, lo, hi = TYPES[kind]
    x = ctx.choice("x", [lo, hi, 1, 0])
    v = np.array([[lo, x, 2], [hi, 3, x]], dtype=ty)
    p = path(ctx, "in.nc")
    ctx.write_nc(p, OrderedDict([("t", 2), ("x", 3)]), OrderedDict(v=(ty, ("t", "x"), v, {"units": "1"})))
    want = eval("v" + (ind or "[:]"), {"v": v})
    dims = ["a", "b"] if want.ndim == 2 else ["b"] if want.ndim == 1 else []
    od = OrderedDict(o=outvar(dims, "v" + ind, datatype=kind, fname=path(ctx, "o.nc"), attributes={"units": "1"}))
    od["o"]["file"]["format"] = "NETCDF4"
    ctx.run("executing v%s of %s" % (ind, kind), lambda: flow([p], od).execute(serial=True))
    got = ctx.read_nc(path(ctx, "o.nc"))["vars"]["o"]
    ctx.check(got["dtype"] == np.dtype(ty), "type %s" % got["dtype"])
    ctx.check(not np.ma.getmaskarray(np.ma.asarray(got["data"])).any() and np.ma.getdata(got["data"]).tolist() == want.tolist(),
              "%s is %s, expected %s" % (kind, np.ma.asarray(got["data"]).tolist(), want.tolist()))


SINGLE = {"(v+w)-v": lambda v, w: (v + w) - v, "v*w/w": lambda v, w: v * w / w, "mean(v,'t')": lambda v, w: sum(v) / 3, "v-mean(v,'t')": lambda v, w: v - sum(v) / 3, "w*v": lambda v, w: w * v, "(s+w)-s": lambda v, w: w, "-v+s": lambda v, w: 16777216.0 - v, "v+1-v": lambda v, w: v + 1 - v}


def single(ctx, text):
    """inputs of single precision are computed with in double precision"""
    v = np.array([ctx.choice("v%d" % k, x) for k, x in enumerate(([16777216.0, 0.5], [1.0, 3e30], [16777215.0]))], dtype="f4")
    w = np.array([ctx.choice("w%d" % k, [1.0, 3.0] if "w)" in text else [1.0, 2.0 ** 100]) for k in range(3)], dtype="f4")
    s = np.array(16777216.0, dtype="f4")
    u = {"units": "m" if "mean" in text else "1"}
    p = path(ctx, "in.nc")
    ctx.write_nc(p, OrderedDict(t=3), OrderedDict([("v", ("f4", ("t",), v, u)), ("w", ("f4", ("t",), w, u)), ("s", ("f4", (), s, u))]))
    want = np.ravel(SINGLE[text](v.astype("f8"), w.astype("f8")))
    od = OrderedDict(o=outvar([] if text.startswith("mean") else ["a"], text, datatype="double", fname=path(ctx, "o.nc"), attributes=u))
    ctx.run("executing %s" % text, lambda: flow([p], od).execute(serial=True))
    got = np.ravel(np.ma.getdata(ctx.read_nc(path(ctx, "o.nc"))["vars"]["o"]["data"]))
    ctx.check(len(got) == len(want) and all(abs(float(a) - float(b)) <= 1e-9 * max(1, abs(b)) or abs(b) > 1e29 and abs(a - b) < 1e-6 * abs(b) for a, b in zip(got, want)), "%s is %s, expected %s" % (text, list(got), list(want)))


CAL = {"365_day": "noleap", "all_leap": "366_day", "gregorian": "standard"}


def others(ctx, which):
    """two variables or two inputs that differ in one attribute only"""
    a, b = ctx.reals("a", (2,)), ctx.reals("b", (2,))
    D = "days since 2000-01-01"
    (ua, ub), wa, wb = {
        "calendar": (({"units": D, "calendar": "noleap"}, {"units": D, "calendar": "360_day"}), 365.0, 360.0),
        "units": (({"units": D, "calendar": "noleap"}, {"units": "hours since 2000-01-01", "calendar": "noleap"}), 365.0, 365.0),
        "date": (({"units": D, "calendar": "360_day"}, {"units": "days since 2000-01-02", "calendar": "360_day"}), 360.0, 359.0),
    }[which]
    fb = 24.0 if which == "units" else 1.0
    pa, pb = path(ctx, "in1.nc"), path(ctx, "in2.nc")
    ctx.write_nc(pa, {"t": 2}, OrderedDict([("v", ("f8", ("t",), a, ua)), ("w", ("f8", ("t",), b, ub))]))
    ctx.write_nc(pb, {"t": 2}, OrderedDict([("v", ("f8", ("t",), b, ub)), ("w", ("f8", ("t",), a, ua))]))
    A, B = (a - wa, ua), (b / fb - wb, ub)
    for k, (p, first, second) in enumerate(((pa, A, B), (pb, B, A))):
        o = path(ctx, "o%d.nc" % k)
        od = OrderedDict([("o", outvar(["t"], "v", fname=o, attributes={"units": "days since 2001-01-01"}, metavars=["q"])),
                          ("q", outvar(["t"], "w", attributes={"units": "days since 2001-01-01"}))])
        ctx.run("executing", lambda: flow([p], od).execute(serial=True))
        g = ctx.read_nc(o)["vars"]
        for n, (val, at) in (("o", first), ("q", second)):
            ctx.check(CAL.get(g[n]["attrs"].get("calendar"), g[n]["attrs"].get("calendar")) == CAL.get(at["calendar"], at["calendar"]), "calendar of %s: %s" % (n, g[n]["attrs"].get("calendar")))
            ctx.check_array(g[n]["data"], val, "%s of run %d" % (n, k))


def missing(ctx, kind, k):
    """a result is missing where an operand is, and keeps its type (scalars too)"""
    text, ref = MISSING[kind][k]
    vs, env = OrderedDict(), {}
    for n, ty, size in (("i", "i4", 2), ("s", "i4", 0), ("p", "i4", 0), ("f", "f8", 2), ("g", "f8", 0), ("h", "f8", 0)):
        if not any(c == n and not text[j + 1:j + 2].isalpha() and not text[j - 1:j].isalpha() for j, c in enumerate(text)):
            continue
        vals = [ctx.choice("%s%d" % (n, j), [-2, 0, 3]) if ty == "i4" else ctx.real("%s%d" % (n, j)) for j in range(size or 1)]
        gone = [bool(ctx.bool("m%s%d" % (n, j))) for j in range(size or 1)]
        env[n] = [None if m else v for v, m in zip(vals, gone)] if size else None if gone[0] else vals[0]
        data = np.empty(size or 1, dtype=object)
        data[:] = vals
        if ty == "i4" or not ctx.symbolic:
            data = data.astype(ty)
        arr = np.ma.array(data, mask=gone)
        vs[n] = (ty, ("t",) if size else (), arr if size else arr.reshape(()), {"units": "1", "_FillValue": -99, "positive": "up"})
    p = path(ctx, "in.nc")
    ctx.write_nc(p, {"t": 2}, vs)
    dt = "double" if kind == "vec" else kind
    pos = "down" if "down" in text else "up"
    od = OrderedDict(v=outvar(["t"] if kind == "vec" else [], text, datatype=dt, fname=path(ctx, "o.nc"), attributes={"units": "1", "_FillValue": -99, "positive": pos}))
    f = ctx.run("building %s" % text, lambda: flow([p], od))
    ctx.run("executing %s" % text, lambda: f.execute(serial=True))
    got = ctx.read_nc(path(ctx, "o.nc"))
    ctx.check(got is not None and got["complete"] is not False, "%s is written" % text)
    v = got["vars"]["v"]
    want = ref(env)
    want = want if kind == "vec" else [want]
    gd, gm = np.ma.getdata(v["data"]).reshape(-1), np.ma.getmaskarray(np.ma.asarray(v["data"])).reshape(-1)
    ctx.check(len(gd) == len(want), "size")
    ctx.check(v["dtype"] == np.dtype({"int": "i4"}.get(kind, "f8")), "type %s" % v["dtype"])
    for j, w in enumerate(want):
        ctx.check(bool(gm[j]) == (w is None), "%s: missing %s, expected %s" % (text, bool(gm[j]), w is None))
        if w is not None:
            ctx.check_eq(gd[j], w, "%s: value" % text)


def cases(tier):
    q = tier == "quick"
    out = []
    two = ["a", "b", "c", "s"] if q else LEAVES
    for kind in TYPES:
        for ind in ("", "[:,1]", "[1,0]"):
            out.append(("reads:%s:%s" % (kind, ind), reads, dict(kind=kind, ind=ind)))
    for t in SINGLE:
        out.append(("single:" + t, single, dict(text=t)))
    for w in ("calendar", "units", "date"):
        out.append(("others:" + w, others, dict(which=w)))
    for form in ("(LOL)OL", "LO(LOL)"):
        for l0 in LEAVES:
            out.append(("expr:%s:%s" % (form, l0), expr, dict(form=form, ops=["+", "-", "*"], leaves=[[l0], two if q else LEAVES, ["c", "b", "2"] if q else two], chunk=l0 in "ab")))
        out.append(("expr-div:%s" % form, expr, dict(form=form, ops=[["-", "+"], ["/"]] if form[0] == "(" else [["-", "+"], ["/", "*"]],
                                                     leaves=["a", "c", "2"] if q else ["a", "c", "b", "s", "2", "d[:,1]"])))
        out.append(("expr-index:%s" % form, expr, dict(form=form, ops=["+", "-"], leaves=["a[0]", "a[:,::-1]", "d[:,1]", "k"] if q else LEAVES)))
    for form in ("-LOL**2", "L-mean(LOL,'t')"):
        out.append(("expr:" + form, expr, dict(form=form, ops=["+", "*"], leaves=["a", "b", "c", "d[:,1]"] if q else [l for l in LEAVES if l[0] not in "12"])))
    if not q:
        out.append(("expr4", expr, dict(form="(LOL)O(LOL)", ops=["+", "-", "*"], leaves=["a", "b", "c", "s"])))
    for na, nk in ((0, 0), (1, 0), (2, 0), (1, 1), (0, 2)) + (() if q else ((3, 0), (2, 1), (1, 2))):
        out.append(("arguments:%d:%d" % (na, nk), arguments, dict(nargs=na, nkw=nk)))
    words = ["2", "2.0", "'2'", "c", "'c'", "a[0]", "'a[0]'", "a[1]", "k"]
    for n, forms in enumerate((["vp_pick(c,%s)"], ["2+vp_pick(c,%s)"], ["vp_pick(c,1,more=%s)*c"], ["vp_pick(c,%s)", "vp_pick(c, %s)", "vp_pick(c,1,more=%s)"])):
        out.append(("beside:%d" % n, beside, dict(forms=forms, words=words if len(forms) == 1 or not q else words[1:5])))
    out.append(("names", names, {}))
    for nf in ((1, 3, 5) if q else (1, 2, 3, 4, 5, 6, 7)):
        out.append(("processes:%d" % nf, processes, dict(nfiles=nf, maxprocs=4 if q else 6)))
    for kind in MISSING:
        for j in range(len(MISSING[kind])):
            out.append(("missing:%s:%d" % (kind, j), missing, dict(kind=kind, k=j)))
    out.append(("again", again, {}))
    out.append(("lookup", lookup, {}))
    return out
