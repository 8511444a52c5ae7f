"""P11: averages, totals and extremes over named dimensions."""
import itertools

from checks.lib import *    # noqa
from pyconform import functions as F

PROPERTY = dict(
    id="P11",
    title="Reductions reduce exactly the named dimensions over unmasked values",
    statement="mean, sum, min and max over any set of dimension names combine exactly the unmasked elements along those "
              "dimensions, leave the other dimensions in their order, ignore names the data does not have, keep units and "
              "direction, and are masked only where every combined element is masked. The dimensions reduced are "
              "reported as ones the data must not be split along.",
    quantifier=dict(over=["inputs"], text="all values, all masks, all subsets and orders of dimension names, within bounds"),
    why_tests_cant="Wrong axes show only with several reduced dimensions of several array orders; mask effects need particular masks.",
    anchors=dict(files=["pyconform/physarray.py", "pyconform/functions.py"], mechanism=[
        dict(name="array reductions", where="pyconform/physarray.py: PhysArray.mean/sum"),
        dict(name="functions", where="pyconform/functions.py: MeanFunction, SumFunction, MinFunction, MaxFunction"),
        dict(name="sum-like dimensions", where="pyconform/functions.py: Function.add_sumlike_dimensions")]),
)
META = dict(
    how="mean/sum/min/max over all subsets of dimension names, symbolic values and masks; oracle: explicit loops over unmasked elements.",
    bounds=dict(quick="arrays of 1-3 dimensions (sizes 2,3,2), real values, every mask of 1-d and 2x2 data and one symbolic pattern "
                      "of masked elements for larger data; every ordered subset of up to 2 (3 for all) dimension names; 8-, 16- and 32-bit integers near the ends of their "
                      "range, one value symbolic",
                thorough="as quick with every ordered subset, and every mask of 2x3 data"),
    outside="rounding; NaN",
    assumptions=["floats are reals"],
)
SZ = {"t": 2, "y": 3, "x": 2}


TIME = Unit("days since 2000-01-01", calendar="noleap")


def mk(ctx, dims, masks, sizes=SZ, units="km"):
    shape = tuple(sizes[d] for d in dims)
    if masks == "all":
        m = ctx.mask("m", shape)
    else:
        m = np.zeros(shape, dtype=bool)
        if masks == "some":
            b = bool(ctx.bool("m"))
            m[(0,) * len(dims)] = True
            m[(-1,) * len(dims)] = b
            m[(0,) * (len(dims) - 1)] = b
    return phys(ctx, "v", shape, dims, units=units, positive="down", mask=m if masks != "none" else None, lo=-100, hi=100)


def reduce_ref(ctx, op, a, dims, names, symbolic):
    keep = tuple(d for d in dims if d not in names)
    red = tuple(d for d in dims if d in names)
    sz = dict(zip(dims, a.shape))
    shape = tuple(sz[d] for d in keep)
    out = np.empty(shape, dtype=object if symbolic else float)
    mask = np.zeros(shape, dtype=bool)
    data, m = np.ma.getdata(a), np.ma.getmaskarray(a)
    for i in np.ndindex(*shape):
        c = dict(zip(keep, i))
        vals = []
        for j in np.ndindex(*(sz[d] for d in red)):
            e = dict(c)
            e.update(zip(red, j))
            k = tuple(e[d] for d in dims)
            if not m[k]:
                vals.append(data[k])
        if not vals:
            mask[i] = True
            out[i] = 0.0
            continue
        r = vals[0]
        for v in vals[1:]:
            if op in ("mean", "sum"):
                r = r + v
            elif bool(v < r) if op == "min" else bool(v > r):
                r = v
        out[i] = r / len(vals) if op == "mean" else r
    return np.ma.array(out, mask=mask), keep


def expect(ctx, op, r, a, dims, names, what, units="km"):
    red = [d for d in dims if d in names]
    if op in ("min", "max"):
        # bounds every combined element, and is one of them: no case split on the order
        keep = tuple(d for d in dims if d not in names)
        ctx.check(r.dimensions == keep, "%s: dimensions %s, expected %s" % (what, r.dimensions, keep))
        sz = dict(zip(dims, a.shape))
        data, m = np.ma.getdata(a), np.ma.getmaskarray(a)
        ctx.check(r.shape == tuple(sz[d] for d in keep), "%s: shape" % what)
        for i in np.ndindex(*r.shape):
            vals = []
            for j in np.ndindex(*(sz[d] for d in red)):
                e = dict(zip(keep, i))
                e.update(zip(red, j))
                k = tuple(e[d] for d in dims)
                if not m[k]:
                    vals.append(data[k])
            gm = bool(np.ma.getmaskarray(r)[i])
            ctx.check(gm == (not vals), "%s: mask at %s" % (what, i))
            if vals:
                g = np.ma.getdata(r)[i]
                one = False
                for v in vals:
                    ctx.check(g <= v if op == "min" else g >= v, "%s: bound at %s" % (what, i))
                    one = (g == v) if one is False else one | (g == v)
                ctx.check(one, "%s: not one of the elements at %s" % (what, i))
    else:
        want, keep = reduce_ref(ctx, op, a, dims, names, ctx.symbolic)
        ctx.check(r.dimensions == keep, "%s: dimensions %s, expected %s" % (what, r.dimensions, keep))
        ctx.check_array(raw(r), want, what)
    ctx.check(r.units == (Unit(units) if isinstance(units, str) else units) and r.units.calendar == getattr(units, "calendar", None), "%s: units %s" % (what, r.units))
    ctx.check(r.positive == "down", "%s: direction %s" % (what, r.positive))


def function(ctx, op, dims, names, masks, sizes=SZ, units="km"):
    a = mk(ctx, dims, masks, sizes, units)
    a0, snap = raw(a), snapshot(a)
    node = ctx.run("building", lambda: EvalNode(op, F.find_function(op), DataNode(a), *names))
    ctx.check(node.sumlike_dimensions == set(names), "sum-like dimensions %s" % (node.sumlike_dimensions,))
    r = ctx.run("%s over %s" % (op, names), lambda: node[:])
    expect(ctx, op, r, a0, dims, names, "%s over %s" % (op, names), units)
    info = ctx.run("empty request", lambda: node[None])
    ctx.check(info.dimensions == r.dimensions and info.units == r.units and info.positive == r.positive,
              "metadata of an empty request")
    check_unchanged(ctx, a, snap, "source")


def method(ctx, op, dims, names, masks, how):
    a = mk(ctx, dims, masks)
    a0 = raw(a)
    axes = tuple(dims.index(n) for n in names)
    r = ctx.run(op, lambda: {"dims": lambda: getattr(a, op)(dimensions=names), "list": lambda: getattr(a, op)(list(names)),
                             "axis": lambda: getattr(a, op)(axis=axes), "int": lambda: getattr(a, op)(axis=axes[0]),
                             "all": lambda: getattr(a, op)()}[how]())
    nm = dims if how == "all" else names[:1] if how == "int" else names
    expect(ctx, op, r, a0, dims, nm, "%s by %s" % (op, how))


def integers(ctx, op, src, names):
    """small integer types: the combination is that of the numbers"""
    x = int(ctx.int("x", 0, 30))
    hi = {"i1": 127, "u1": 255, "i2": 32767, "u2": 65535, "i4": 2 ** 31 - 1}[src]
    v = [[hi, hi - x, x], [hi - 1, x, 0]]
    m = [[False, False, bool(ctx.bool("m"))], [False, True, False]]
    a = PhysArray(np.ma.array(v, mask=m, dtype=src), name="v", units="km", dimensions=("t", "y"), positive="down")
    a0 = np.ma.array(np.array(v, dtype=float), mask=m)
    r = ctx.run("%s over %s" % (op, names), lambda: EvalNode(op, F.find_function(op), DataNode(a), *names)[:])
    keep = tuple(d for d in ("t", "y") if d not in names)
    ctx.check(r.dimensions == keep and r.units == Unit("km") and r.positive == "down", "dimensions %s, units or direction" % (r.dimensions,))
    want = np.ma.asarray(getattr(a0, op)(axis=tuple(("t", "y").index(n) for n in names)))
    for i in np.ndindex(*want.shape):
        gone = bool(np.ma.getmaskarray(want)[i])
        ctx.check(bool(np.ma.getmaskarray(r)[i]) == gone, "mask at %s" % (i,))
        if not gone:
            g, w = float(np.ma.getdata(r)[i]), float(np.ma.getdata(want)[i])
            ctx.check(abs(g - w) <= 1e-6 * max(1.0, abs(w)), "%s of %s integers at %s: %r, expected %r" % (op, src, i, g, w))


def nested(ctx, ops, dims, n1, n2):
    """one reduction after another"""
    a = mk(ctx, dims, "none")
    a0 = raw(a)
    f, g = ops
    x = EvalNode("x", F.find_function(f), DataNode(a), *n1)
    y = EvalNode("y", F.find_function(g), x, *n2)
    r = ctx.run("nested", lambda: y[:])
    mid, md = reduce_ref(ctx, f, a0, dims, n1, ctx.symbolic)
    expect(ctx, g, r, mid, md, n2, "%s of %s" % (g, f))


def cases(tier):
    q = tier == "quick"
    out = []
    ops = ["mean", "sum", "min", "max"]
    for op in ops:
        for dims in (("t",), ("t", "y"), ("y", "t"), ("t", "y", "x"), ("x", "t", "y")):
            subs = [()] + [p for n in range(1, len(dims) + 1) for p in itertools.permutations(dims, n)]
            for names in subs:
                if q and len(names) == 3 and names != ("x", "y", "t") and names != ("t", "y", "x"):
                    continue
                masks = "some" if len(dims) < 3 or not q else "none" if len(names) % 2 else "some"
                out.append(("fn:%s:%s:%s" % (op, "".join(dims), "".join(names) or "0"), function,
                            dict(op=op, dims=dims, names=names, masks=masks,
                                 sizes={"t": 2, "y": 2, "x": 2} if op in ("min", "max") and len(dims) == 3 else SZ)))
        out.append(("unk:%s" % op, function, dict(op=op, dims=("t", "y"), names=("q", "y"), masks="some")))
        out.append(("unk2:%s" % op, function, dict(op=op, dims=("t", "y"), names=("q",), masks="none")))
        out.append(("mask1:%s" % op, function, dict(op=op, dims=("y",), names=("y",), masks="all")))
        out.append(("time:%s" % op, function, dict(op=op, dims=("t", "y"), names=("y",), masks="some", units=TIME)))
        for nm in (("t",), ("y",), ("t", "y")):
            out.append(("mask2:%s:%s" % (op, "".join(nm)), function,
                        dict(op=op, dims=("t", "y"), names=nm, masks="all", sizes={"t": 2, "y": 2})))
            if not q:
                out.append(("mask3:%s:%s" % (op, "".join(nm)), function, dict(op=op, dims=("t", "y"), names=nm, masks="all")))
    for op in ("mean", "sum"):
        for how in ("dims", "list", "axis", "int", "all"):
            for dims, names in ((("t", "y"), ("y",)), (("t", "y", "x"), ("x", "t")), (("x", "t", "y"), ("t", "x")),
                                (("t", "y", "x"), ("y", "x")), (("y",), ("y",))):
                out.append(("me:%s:%s:%s:%s" % (op, how, "".join(dims), "".join(names)), method,
                            dict(op=op, dims=dims, names=names, masks="some", how=how)))
    for op in ops:
        for src in ("i1", "u1", "i2", "u2", "i4"):
            for names in (("y",), ("t",), ("t", "y")):
                out.append(("int:%s:%s:%s" % (op, src, "".join(names)), integers, dict(op=op, src=src, names=names)))
    for f in ("mean", "sum"):
        for g in ops:
            out.append(("nest:%s:%s" % (f, g), nested, dict(ops=(f, g), dims=("t", "y", "x"), n1=("x",), n2=("t",))))
            out.append(("nest2:%s:%s" % (f, g), nested, dict(ops=(f, g), dims=("t", "y", "x"), n1=("t", "y"), n2=("y", "x"))))
    return out
