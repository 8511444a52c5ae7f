"""P08: the positive direction."""
from checks.lib import *    # noqa
from pyconform import functions as F
from pysym.values import is_sym

PROPERTY = dict(
    id="P08",
    title="Data and its positive direction always change together",
    statement="Changing the positive direction of a quantity to the opposite one negates its values exactly once, and "
              "setting or keeping it changes nothing; asking twice is asking once. Unit conversion, transposing, "
              "taking a part, averaging, summing and renaming keep the direction, so the quantity counted in one fixed direction "
              "is the same before and after any sequence of such steps.",
    quantifier=dict(over=["inputs", "programs"], text="all values, all sequences of steps within bounds, all starting directions"),
    why_tests_cant="A sign lost or doubled shows only for particular sequences of steps (convert then flip, part then "
                   "down), which tests do not combine.",
    anchors=dict(files=["pyconform/physarray.py", "pyconform/functions.py"], mechanism=[
        dict(name="direction", where="pyconform/physarray.py: PhysArray.up/down/flip/_match_positive_"),
        dict(name="conversion keeps it", where="pyconform/physarray.py: PhysArray._safe_convert_"),
        dict(name="up()/down() of definitions", where="pyconform/functions.py: PositiveUpFunction/PositiveDownFunction")]),
)
META = dict(
    how="Sequences of operations on symbolic values; oracle: value times sign of direction is invariant.",
    bounds=dict(quick="arrays with 0-2 dimensions of size 2, real values, one masked element; every sequence of 3 steps "
                      "(chosen by the solver) out of 11 array steps, 2 steps out of 9 definition functions, all starting directions",
                thorough="sequences of 4 steps, 3 definition functions"),
    outside="directions other than up/down (refused)",
    assumptions=["floats are reals"],
)
SGN = {None: 1.0, "up": 1.0, "down": -1.0}


def mk(ctx, ndim, pos, masked=True):
    dims = ("t", "y")[:ndim]
    m = np.zeros((2,) * ndim, dtype=bool)
    if ndim and masked:
        m[(1,) * ndim] = True
    return phys(ctx, "v", (2,) * ndim, dims, units="m", positive=pos, mask=m if ndim else None, lo=-100, hi=100)


STEPS = ["up", "down", "flip", "km", "m", "T", "part", "copy", "view", "neg", "noop", "one", "last"]


def step(a, s):
    """code under test for a step"""
    if s == "up":
        return a.up()
    if s == "down":
        return a.down()
    if s == "flip":
        return a.flip()
    if s in ("km", "m"):
        return a.convert(s)
    if s == "T":
        return a.transpose(tuple(reversed(a.dimensions)))
    if s == "part":
        return a[{"t": slice(None, None, -1)}] if "t" in a.dimensions else a[()]
    if s == "one":
        return a[{"t": 0}]
    if s == "last":
        return a[-1] if a.ndim else a
    if s == "copy":
        return a.copy()
    if s == "view":
        return PhysArray(a, name="copy")
    if s == "neg":
        return -a
    return a


def model(x, dims, units, pos, s):
    """what the step means: (values, dims, units, direction)"""
    if s in ("up", "down"):
        if pos is not None and pos != s:
            x = x * -1.0
        pos = s
    elif s == "flip":
        if pos is not None:
            x, pos = x * -1.0, "up" if pos == "down" else "down"
    elif s in ("km", "m"):
        if units != s:
            x = x * (0.001 if s == "km" else 1000.0)
        units = s
    elif s == "T":
        x, dims = np.ma.asarray(x).transpose(), tuple(reversed(dims))
    elif s == "part" and "t" in dims:
        x = x[(slice(None),) * dims.index("t") + (slice(None, None, -1),)]
    elif s == "one" and "t" in dims:
        x, dims = x[(slice(None),) * dims.index("t") + (0,)], tuple(d for d in dims if d != "t")
    elif s == "last" and dims:
        x, dims = x[-1], dims[1:]
    elif s == "neg":
        x = x * -1.0
    return np.ma.asarray(farr_like(x)), dims, units, pos


def farr_like(x):
    if isinstance(x, np.ndarray):
        return x
    r = np.empty((), dtype=object if is_sym(x) else float)
    r[()] = x
    return r


def sequence(ctx, ndim, pos, n, first):
    a = mk(ctx, ndim, pos)
    x, dims, units, p = np.ma.asarray(raw(a)), a.dimensions, "m", pos
    for k in range(n):
        s = first if k == 0 else ctx.choice("s%d" % k, STEPS)
        a = ctx.run("step %s" % s, step, a, s)
        x, dims, units, p = model(x, dims, units, p, s)
        ctx.check(a.positive == p, "direction after %s: %s, expected %s" % (s, a.positive, p))
        ctx.check(a.units == Unit(units) and a.dimensions == dims, "metadata after %s" % s)
        ctx.check_array(raw(a), x, "values after %s" % s)


def typed(ctx, src, pos, first):
    """data of other types: the same steps"""
    x = ctx.choice("x", [0, 1, 25])
    v = np.array([[x, 2 * x], [-x - 1, 3]])
    m = np.array([[False, bool(ctx.bool("m"))], [False, False]])
    a = PhysArray(np.ma.array(v, mask=m, dtype=src), name="v", units="m", dimensions=("t", "y"), positive=pos)
    w, dims, units, p = np.ma.array(v.astype(float), mask=m), a.dimensions, "m", pos
    for k in range(2):
        s = first if k == 0 else ctx.choice("s%d" % k, STEPS)
        a = ctx.run("step %s" % s, step, a, s)
        w, dims, units, p = model(w, dims, units, p, s)
        ctx.check(a.positive == p, "direction after %s: %s, expected %s" % (s, a.positive, p))
        ctx.check(a.units == Unit(units) and a.dimensions == dims and a.shape == w.shape, "metadata after %s" % s)
        for i in np.ndindex(*w.shape):
            gone = bool(np.ma.getmaskarray(w)[i])
            ctx.check(bool(np.ma.getmaskarray(a)[i]) == gone, "missing at %s after %s" % (i, s))
            if not gone:
                g, e = float(np.ma.getdata(a)[i]), float(np.ma.getdata(w)[i])
                ctx.check(abs(g - e) <= 1e-5 * max(1e-3, abs(e)), "%s values after %s: %r, expected %r" % (src, s, g, e))


FUNCS = ["up", "down", "chunits", "rmunits", "chdims", "mean", "sum", "neg"]


def program(ctx, pos, n, first):
    """definition functions applied to a source"""
    a = mk(ctx, 2, pos, masked=False)
    src = snapshot(a)
    x, dims, unit, p = np.ma.asarray(raw(a)), ("t", "y"), 1.0, pos
    node = DataNode(a)
    for k in range(n):
        s = first if k == 0 else ctx.choice("f%d" % k, FUNCS)
        if s == "chunits" and unit != 1.0:
            continue
        name = "n%d" % k
        if s in ("up", "down", "chunits", "rmunits", "chdims", "mean", "sum"):
            cls = F.find_function(s)
            args, kw = [node], {}
            if s == "chunits":
                kw = dict(units="km")
            elif s == "chdims":
                args += [d.upper() for d in dims]
            elif s in ("mean", "sum"):
                if not dims:
                    continue
                args.append(dims[-1])
            node = ctx.run("building %s" % s, lambda: EvalNode(name, cls, *args, **kw))
        elif s == "neg":
            node = EvalNode(name, F.find_operator("-", 1), node)
        if s in ("up", "down"):
            if p is not None and p != s:
                x = x * -1.0
            p = s
        elif s == "chunits":
            unit = 0.001                # chunits names other units; it does not convert
        elif s == "rmunits":
            unit = 0.0
        elif s == "chdims":
            dims = tuple(d.upper() for d in dims)
        elif s in ("mean", "sum"):
            n_ = x.shape[-1]
            t = x[..., 0] + x[..., 1]
            x, dims = np.ma.asarray(t / n_ if s == "mean" else t), dims[:-1]
        elif s == "neg":
            x = x * -1.0
        if unit == 0.0:
            unit = 2.0                # dimensionless now: unit conversions no longer apply
        r = ctx.run("node[:] after %s" % s, lambda: node[:])
        ctx.check(r.positive == p, "direction after %s: %s, expected %s" % (s, r.positive, p))
        ctx.check(r.dimensions == dims, "dimensions after %s" % s)
        ctx.check_array(raw(r), x, "values after %s" % s)
        info = ctx.run("node[None]", lambda: node[None])
        ctx.check(info.positive == p, "direction of an empty request after %s: %s, expected %s" % (s, info.positive, p))
        again = ctx.run("node[:] again", lambda: node[:])
        ctx.check_array(raw(again), x, "values after %s, asked again" % s)
    check_unchanged(ctx, a, src, "source")


def idempotent(ctx, ndim, pos, which):
    a = mk(ctx, ndim, pos)
    x = np.ma.asarray(raw(a))
    r1 = ctx.run(which, lambda: getattr(a, which)())
    y = np.ma.asarray(raw(r1))
    r2 = ctx.run(which, lambda: getattr(r1, which)())
    ctx.check_array(raw(r2), y, "asking twice")
    ctx.check(r2.positive == which, "direction")
    s = -1.0 if pos is not None and pos != which else 1.0
    ctx.check_array(y, x * s, "values of %s()" % which)
    f = ctx.run("flip twice", lambda: r2.flip().flip())
    ctx.check(f.positive == which, "direction after flipping twice")
    ctx.check_array(raw(f), y, "flipping twice")


def arithmetic(ctx, pos, op):
    """(upward value of a) op (upward value of b) whichever way they are stored"""
    pa, pb = pos
    a = phys(ctx, "a", (2,), ("t",), units="m", positive=pa, lo=-100, hi=100)
    b = phys(ctx, "b", (2,), ("t",), units="m", positive=pb, lo=1, hi=100)
    xa, xb = raw(a), raw(b)
    r = ctx.run("a%sb" % op, {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b}[op])
    p = pa or pb
    ctx.check(r.positive == p, "direction %s" % r.positive)
    s = SGN[pa] * SGN[pb] if pa and pb else 1.0
    y = xb * s
    want = {"+": lambda: xa + y, "-": lambda: xa - y, "*": lambda: xa * y, "/": lambda: xa / y}[op]()
    ctx.check_array(raw(r), want, "a%sb" % op)
    up = ctx.run("up", r.up)
    ctx.check_array(raw(up), want * SGN[p], "counted upward")


def setter(ctx, bad):
    a = mk(ctx, 1, "up")
    x = raw(a)
    _, err = ctx.call(setattr, a, "positive", bad)
    ctx.check(isinstance(err, ValueError), "direction %r refused" % (bad,))
    ctx.check(a.positive == "up", "direction kept")
    for good in ("UP", "Down", None, "up"):
        ctx.run("set", setattr, a, "positive", good)
        ctx.check(a.positive == (good.lower() if good else None), "direction set")
    ctx.check_array(raw(a), x, "setting never changes values")


def cases(tier):
    q = tier == "quick"
    out = []
    for nd in (0, 1, 2):
        for p in (None, "up", "down"):
            for s in STEPS:
                if q and nd == 0 and s in ("T", "part", "noop"):
                    continue
                out.append(("seq:%d:%s:%s" % (nd, p, s), sequence, dict(ndim=nd, pos=p, n=3 if q else 4, first=s)))
            for w in ("up", "down"):
                out.append(("idem:%d:%s:%s" % (nd, p, w), idempotent, dict(ndim=nd, pos=p, which=w)))
    for p in (None, "up", "down"):
        for s in FUNCS:
            out.append(("fn:%s:%s" % (p, s), program, dict(pos=p, n=2 if q else 3, first=s)))
        for p2 in (None, "up", "down"):
            for op in "+-*/":
                out.append(("arith:%s:%s:%s" % (op, p, p2), arithmetic, dict(pos=(p, p2), op=op)))
    for src in ("i1", "i2", "i4", "i8", "f4", "f8"):
        for p in (None, "up", "down"):
            for s in STEPS:
                out.append(("typed:%s:%s:%s" % (src, p, s), typed, dict(src=src, pos=p, first=s)))
    for b in ("left", "", 1, True):
        out.append(("set:%r" % (b,), setter, dict(bad=b)))
    return out
