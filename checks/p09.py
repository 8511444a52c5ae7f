"""P09: evaluating never changes the data it reads."""
from checks.lib import *    # noqa
from pyconform import functions as F

PROPERTY = dict(
    id="P09",
    title="Evaluating a definition never changes its inputs or other results",
    statement="Evaluating any operator, built-in function or array operation leaves the values, masks, units, dimensions, "
              "and direction of its inputs as they were, even where the result shares memory with an input. So several "
              "definitions over the same source give the results each gives alone, in whatever order and "
              "however often they are evaluated, and earlier results stay as they were.",
    quantifier=dict(over=["inputs", "programs", "schedules"],
                    text="all values, all pairs and chains of functions within bounds, all evaluation orders"),
    why_tests_cant="A function that writes into its input only shows when the same source is read again by another definition "
                   "and the values trigger the write; tests evaluate each function once on fresh data.",
    anchors=dict(files=["pyconform/functions.py", "pyconform/physarray.py", "pyconform/flownodes.py"], mechanism=[
        dict(name="functions", where="pyconform/functions.py: LimitFunction, PositiveUpFunction, PositiveDownFunction, ..."),
        dict(name="direction matching", where="pyconform/physarray.py: PhysArray._match_positive_/_broadcast_"),
        dict(name="shared source", where="pyconform/flownodes.py: DataNode.__getitem__/MapNode/ValidateNode")]),
)
META = dict(
    how="Every operator, function and array method is evaluated over symbolic inputs (also via shared nodes and twice); input snapshots are compared before/after with z3.",
    bounds=dict(quick="a source of 2x2 (and 0-2 dimensions for array operations) with one masked element, all real values; "
                      "pairs of 20 functions on one source (one or two of its elements fixed where a function compares elements) plus a chain of two, all evaluation orders",
                thorough="chains of three"),
    outside="functions of the add-on modules (see the properties on those functions); the names of arrays",
    assumptions=["floats are reals"],
)


HEAVY = {"limit", "la", "val", "val2", "min", "max"}


def source(ctx, name="v", pos="down", masked=True, units="m", pin=0):
    m = np.array([[False, False], [masked, False]])
    a = phys(ctx, name, (2, 2), ("t", "y"), units=units, positive=pos, mask=m if masked else None, lo=-100, hi=100)
    for k, i in enumerate(((0, 1), (1, 1))[:pin]):
        np.ma.getdata(a)[i] = (20.0, -3.5)[k]
    return a




def desc(n, attrs, turn=True):
    """output variable with the dimensions of n, stored in the opposite order (turn) or the same"""
    info = n[None]
    return VariableDesc("o", datatype="double", attributes=attrs,
                        dimensions=[DimensionDesc(d, 2) for d in (reversed(info.dimensions) if turn else info.dimensions)])


def ev(op, *extra, **kw):
    def make(n, other):
        if op in ("+", "-", "*", "/"):
            return EvalNode(op, F.find_operator(op, 2), n, other)
        if op == "c+":
            return EvalNode(op, F.find_operator("+", 2), other, n)
        if op == "neg":
            return EvalNode(op, F.find_operator("-", 1), n)
        if op == "**":
            return EvalNode(op, F.find_operator("**", 2), n, 2)
        if op == "map":
            return MapNode(op, n, {"t": "T"})
        if op == "val":
            return ValidateNode(desc(n, {"units": "km", "positive": "up", "valid_min": 0, "valid_max": 0.05}), n)
        if op == "val2":
            return ValidateNode(desc(n, {"units": "m", "positive": "down", "valid_max": 10.0}), n)
        if op.startswith("out"):     # nothing to do but turning the direction
            return ValidateNode(desc(n, dict([("units", str(n[None].units))] + [("positive", op[3:])] * (len(op) > 3)), False), n)
        return EvalNode(op, F.find_function(op), n, *extra, **kw)
    return make


FUN = OrderedDict([
    ("up", ev("up")), ("down", ev("down")), ("limit", ev("limit", above=10.0, below=-10.0)), ("la", ev("limit", above=0.0)),
    ("chunits", ev("chunits", units="km")), ("rmunits", ev("rmunits")), ("chdims", ev("chdims", "T", "Y")),
    ("add", ev("+")), ("sub", ev("-")), ("mul", ev("*")), ("radd", ev("c+")), ("neg", ev("neg")), ("pow", ev("**")),
    ("map", ev("map")), ("val", ev("val")), ("val2", ev("val2")), ("outup", ev("outup")), ("outdown", ev("outdown")), ("out", ev("out")),
    ("mean", ev("mean", "y")), ("sum", ev("sum", "t")), ("min", ev("min", "y")), ("max", ev("max", "t"))])


def copy_of(a):
    return PhysArray(np.ma.array(np.array(np.ma.getdata(a)), mask=np.array(np.ma.getmaskarray(a))), name=a.name,
                     units=a.units, dimensions=a.dimensions, positive=a.positive)


def get(ctx, node, what):
    r, err = ctx.call(lambda: node[:])
    return r, err


def same_result(ctx, x, y, what):
    (r, e), (s, f) = x, y
    ctx.check((e is None) == (f is None), "%s: %r with shared data, %r alone" % (what, e, f))
    if e is None and f is None:
        ctx.check(r.dimensions == s.dimensions and r.units == s.units and r.positive == s.positive,
                  "%s: metadata differs from the same definition evaluated alone" % what)
        ctx.check_array(raw(r), np.ma.asarray(raw(s)), "%s: differs from the same definition evaluated alone" % what)


def pair(ctx, f, g, pos, wpos, chain):
    """two definitions over one source; the second operand of binary operators is a second source"""
    n = len([1 for x in (f, g) if x in HEAVY])
    a, b = source(ctx, pos=pos, pin=n), source(ctx, "w", pos=wpos, masked=False, units="m", pin=n)
    ca, cb = copy_of(a), copy_of(b)
    sa, sb = snapshot(a), snapshot(b)
    na, nb = DataNode(a), DataNode(b)
    n1 = ctx.run("building", FUN[f], na, nb)
    two = [("1", lambda: n1)]
    if chain:
        n2, err = ctx.call(FUN[g], n1, nb)
        if err is not None:
            return
    else:
        n2 = ctx.run("building", FUN[g], na, nb)
    order = ctx.choice("order", [(0, 1, 0), (1, 0, 1), (0, 0, 1), (1, 1, 0)])
    nodes = (n1, n2)
    results = []
    for k in order:
        results.append((k, get(ctx, nodes[k], k)))
        if results[-1][1][0] is not None:
            r = results[-1][1][0]
            results[-1] = (k, results[-1][1], (np.array(np.ma.getdata(r)), np.array(np.ma.getmaskarray(r)), r.positive,
                                               r.units, r.dimensions))
        ctx.call(lambda: nodes[k][None])
        check_unchanged(ctx, a, sa, "source after %s" % (f if k == 0 else g))
        check_unchanged(ctx, b, sb, "second source after %s" % (f if k == 0 else g))
    fresh1 = FUN[f](DataNode(ca), DataNode(cb))
    c1 = get(ctx, fresh1, f)
    ca2, cb2 = copy_of(a), copy_of(b)
    m1 = FUN[f](DataNode(ca2), DataNode(cb2))
    m2 = FUN[g](m1 if chain else DataNode(copy_of(a)), DataNode(copy_of(b)))
    c2 = get(ctx, m2, g)
    for rec in results:
        k, res = rec[0], rec[1]
        if len(rec) == 3:
            r = res[0]
            d, m, p, u, dm = rec[2]
            ctx.check(r.positive == p and r.units == u and r.dimensions == dm, "metadata of an earlier result changed")
            ctx.check_array(raw(r), np.ma.array(d, mask=m), "an earlier result changed")
        same_result(ctx, res, (c1, c2)[k], (f, g)[k])


def array_ops(ctx, op, ad, bd, pos, units):
    """PhysArray operations themselves"""
    sz = {"t": 2, "y": 2}
    a = phys(ctx, "a", tuple(sz[d] for d in ad), ad, units=units[0], positive=pos[0], lo=1, hi=100)
    b = phys(ctx, "b", tuple(sz[d] for d in bd), bd, units=units[1], positive=pos[1], lo=1, hi=100)
    sa, sb = snapshot(a), snapshot(b)
    fns = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b,
           "neg": lambda: -a, "pow": lambda: a ** 2, "convert": lambda: a.convert(units[1]), "inv": a.invert,
           "T": lambda: a.transpose(tuple(reversed(ad))), "mean": lambda: a.mean(dimensions=list(ad)),
           "sum": lambda: a.sum(dimensions=list(ad[:1])), "iadd": lambda: b.copy().__iadd__(a) if set(ad) <= set(bd) else None,
           "imul": lambda: b.copy().__imul__(a) if set(ad) <= set(bd) else None, "num": lambda: 2.0 * a / 3.0 + a.__radd__(a),
           "setitem": lambda: b.copy().__setitem__(slice(None), a) if set(ad) == set(bd) else None}
    ctx.call(fns[op])
    check_unchanged(ctx, a, sa, "left operand of %s" % op)
    check_unchanged(ctx, b, sb, "right operand of %s" % op)


def triple(ctx, f, g, h):
    """a chain over a source read again afterwards"""
    a, b = source(ctx, pos="up"), source(ctx, "w", pos=None, masked=False)
    sa, sb = snapshot(a), snapshot(b)
    na, nb = DataNode(a), DataNode(b)
    n = na
    for k in (f, g, h):
        m, err = ctx.call(FUN[k], n, nb)
        if err is not None:
            break
        n = m
    r1 = get(ctx, n, "first")
    check_unchanged(ctx, a, sa, "source")
    check_unchanged(ctx, b, sb, "second source")
    if r1[0] is not None:
        keep = np.ma.array(np.array(np.ma.getdata(r1[0])), mask=np.array(np.ma.getmaskarray(r1[0])))
        r2 = get(ctx, n, "second")
        ctx.check_array(raw(r2[0]), keep, "second evaluation")
        ctx.check_array(raw(r1[0]), keep, "first evaluation after the second")


def cases(tier):
    q = tier == "quick"
    out = []
    names = list(FUN)
    P = [(None, "up"), ("up", "down"), ("down", None), ("down", "up"), (None, None), ("up", None)]
    for i, f in enumerate(names):
        for j, g in enumerate(names):
            if q and (i * 7 + j * 3) % 4 and not ({f, g} <= {"up", "down", "limit", "add", "mul", "val", "outup", "outdown"}):
                continue
            pos = P[(i + 2 * j) % len(P)]
            out.append(("pair:%s:%s" % (f, g), pair, dict(f=f, g=g, pos=pos[0], wpos=pos[1], chain=False)))
            if not q or (i + j) % 2:
                out.append(("chain:%s:%s" % (f, g), pair, dict(f=f, g=g, pos=pos[1], wpos=pos[0], chain=True)))
    ops = ["+", "-", "*", "/", "//", "neg", "pow", "convert", "inv", "T", "mean", "sum", "iadd", "imul", "num", "setitem"]
    for op in ops:
        for k, (ad, bd) in enumerate(((("t", "y"), ("y", "t")), (("t",), ("t",)), ((), ("t",)), (("y",), ("t", "y")))):
            for j, pos in enumerate(P[:4]):
                out.append(("arr:%s:%d:%d" % (op, k, j), array_ops,
                            dict(op=op, ad=ad, bd=bd, pos=pos, units=(("m", "m"), ("m", "km"))[(k + j) % 2])))
    if not q:
        for i, f in enumerate(names):
            for j, g in enumerate(names):
                for k, h in enumerate(names):
                    if (i + 3 * j + 5 * k) % 7 == 0:
                        out.append(("tri:%s:%s:%s" % (f, g, h), triple, dict(f=f, g=g, h=h)))
    return out
