"""P10: transposing."""
import itertools

from checks.lib import *    # noqa
from pyconform.physarray import DimensionsError

PROPERTY = dict(
    id="P10",
    title="Reordering dimensions moves names and values together",
    statement="Transposing a quantity to any order of its dimension names (or axis numbers) gives exactly that order, every "
              "element keeps its coordinates along each named dimension, and units, direction and mask are kept; an order "
              "that is not a rearrangement of the dimensions is refused. Storing into part of an array reorders and "
              "converts the stored quantity to fit, and writing a variable with its dimensions in another order than "
              "its definition produces moves every value accordingly.",
    quantifier=dict(over=["inputs"], text="all values and masks within bounds, all permutations of up to 4 dimensions"),
    why_tests_cant="Tests transpose one 2-d array; inverse permutations differ from permutations only from 3 dimensions on.",
    anchors=dict(files=["pyconform/physarray.py", "pyconform/flownodes.py"], mechanism=[
        dict(name="transpose", where="pyconform/physarray.py: PhysArray.transpose, CharArray.transpose"),
        dict(name="assignment", where="pyconform/physarray.py: PhysArray.__setitem__"),
        dict(name="output order", where="pyconform/flownodes.py: ValidateNode.__getitem__")]),
)
META = dict(
    how="All permutations of up to 4 dimensions of symbolic arrays; every element is compared at its named coordinates; also setitem and ValidateNode.",
    bounds=dict(quick="all permutations of 0-4 dimensions of sizes 2,3,2,1 (and all sizes 2), by name and by axis, all real values, "
                      "one masked element", thorough="as quick, with all pairs of successive permutations of 3 dimensions"),
    outside="more than 4 dimensions; repeated dimension names",
    assumptions=["floats are reals"],
)
DIMS = ("t", "y", "x", "z")
SZ = {"t": 2, "y": 3, "x": 2, "z": 1}


def mk(ctx, dims, sizes=SZ):
    shape = tuple(sizes[d] for d in dims)
    m = np.zeros(shape, dtype=bool)
    if dims:
        m[(-1,) * len(dims)] = True
    return phys(ctx, "v", shape, dims, units="m", positive="down", mask=m if dims else None)


def moved(ctx, r, a0, dims, order, what):
    """a0: plain source; every element keeps its coordinates"""
    ctx.check(r.dimensions == tuple(order), "%s: dimensions %s, expected %s" % (what, r.dimensions, tuple(order)))
    ctx.check(str(r.units) == "m" and r.positive == "down", "%s: metadata" % what)
    want = np.ma.array(np.ma.getdata(a0), mask=np.ma.getmaskarray(a0))
    ctx.check(r.shape == tuple(a0.shape[dims.index(d)] for d in order), "%s: shape %s" % (what, r.shape))
    for i in np.ndindex(*np.shape(a0)):
        c = dict(zip(dims, i))
        j = tuple(c[d] for d in order)
        g = np.ma.getdata(r)[j]
        gm = bool(np.ma.getmaskarray(r)[j])
        ctx.check(gm == bool(np.ma.getmaskarray(want)[i]), "%s: mask at %s" % (what, c))
        if not gm:
            ctx.check_eq(g, np.ma.getdata(want)[i], "%s: value at %s" % (what, c))


def perm(ctx, dims, order, how, sizes):
    a = mk(ctx, dims, sizes)
    a0, snap = raw(a), snapshot(a)
    axes = tuple(dims.index(d) for d in order)
    fn = {"names": lambda: a.transpose(*order), "tuple": lambda: a.transpose(tuple(order)),
          "list": lambda: a.transpose(list(order)), "axes": lambda: a.transpose(*axes),
          "axtuple": lambda: a.transpose(axes)}[how]
    r = ctx.run("transpose to %s" % (order,), fn)
    moved(ctx, r, a0, dims, order, "transposed")
    check_unchanged(ctx, a, snap, "source")
    b = ctx.run("back", lambda: r.transpose(*dims))
    moved(ctx, b, a0, dims, dims, "transposed back")


def twice(ctx, dims, p, q):
    a = mk(ctx, dims)
    a0 = raw(a)
    r = ctx.run("two transposes", lambda: a.transpose(*p).transpose(*q))
    moved(ctx, r, a0, dims, q, "transposed twice")


def refused(ctx, dims):
    a = mk(ctx, dims)
    bad = [dims[:-1], dims + ("w",), tuple(d if k else "w" for k, d in enumerate(dims)), dims[:1] * len(dims)]
    for o in bad:
        if set(o) == set(dims):
            continue
        _, err = ctx.call(lambda: a.transpose(*o))
        ctx.check(isinstance(err, DimensionsError), "order %s refused (%r)" % (o, err))


def store(ctx, dims, order, units, part, masked=False):
    """a[part] = b"""
    a = mk(ctx, dims)
    if masked and bool(ctx.bool("am")):
        a.mask = np.ones(a.shape, dtype=bool)
    a0 = np.ma.array(raw(a))
    ix = {d: slice(None) for d in dims}
    if part:
        ix[dims[0]] = slice(1, 2)
    shape = tuple(1 if part and d == dims[0] else SZ[d] for d in order)
    bm = None
    if masked and order:
        bm = np.zeros(shape, dtype=bool)
        bm[(0,) * len(order)] = bool(ctx.bool("bm"))
        bm[(-1,) * len(order)] = not bm[(0,) * len(order)] if bm.size > 1 else bm[(0,) * len(order)]
    b = phys(ctx, "w", shape, order, units=units, positive="down", mask=bm)
    b0 = np.ma.getdata(raw(b))
    ctx.run("assignment", lambda: a.__setitem__({d: i for d, i in ix.items() if i != slice(None)} or slice(None), b))
    f = {"m": 1.0, "km": 1000.0}[units]
    for i in np.ndindex(*a0.shape):
        c = dict(zip(dims, i))
        inside = not part or i[0] == 1
        if inside:
            j = tuple(0 if part and d == dims[0] else c[d] for d in order)
            gone = bm is not None and bool(bm[j])
            ctx.check(bool(np.ma.getmaskarray(a)[i]) == gone, "stored element at %s is %smissing" % (c, "" if gone else "not "))
            if not gone:
                ctx.check_eq(np.ma.getdata(a)[i], b0[j] * f, "stored value at %s" % (c,))
            continue
        gone = bool(np.ma.getmaskarray(a0)[i])
        ctx.check(bool(np.ma.getmaskarray(a)[i]) == gone, "mask of other element at %s" % (c,))
        if not gone:
            ctx.check_eq(np.ma.getdata(a)[i], np.ma.getdata(a0)[i], "other value at %s" % (c,))
    ctx.check(a.dimensions == dims and str(a.units) == "m", "metadata after storing")


def output(ctx, dims, order):
    """the output variable's dimension order"""
    a = mk(ctx, dims)
    a0 = raw(a)
    v = VariableDesc("o", datatype="double", attributes={"units": "m"}, dimensions=[DimensionDesc(d, SZ[d]) for d in order])
    n = ctx.run("building", ValidateNode, v, DataNode(a))
    r = ctx.run("node[:]", lambda: n[{}])
    moved(ctx, r, a0, dims, order, "output")
    part = ctx.run("part", lambda: n[{dims[0]: slice(1, None)}])
    moved(ctx, part, a0[1:], dims, order, "part of the output")
    info = ctx.run("node[None]", lambda: n[None])
    ctx.check(info.dimensions == tuple(order), "dimensions of an empty request")


def cases(tier):
    q = tier == "quick"
    out = []
    eq = {d: 2 for d in DIMS}
    hows = ["names", "tuple", "list", "axes", "axtuple"]
    k = 0
    for n in (0, 1, 2, 3, 4):
        dims = DIMS[:n]
        for order in itertools.permutations(dims):
            for sz, tag in ((SZ, "d"), (eq, "e")):
                if n == 4 and tag == "e" and q:
                    continue
                for h in (hows if n < 3 else [hows[k % 5], hows[(k + 3) % 5]]):
                    if n == 0 and h in ("axes",):
                        continue
                    out.append(("perm:%s:%s:%s" % (tag, h, "".join(order) or "0"), perm,
                                dict(dims=dims, order=order, how=h, sizes=sz)))
                k += 1
            if n > 1 and (n < 4 or k % 3 == 0):
                out.append(("out:%s" % "".join(order), output, dict(dims=dims, order=order)))
                out.append(("st:%s" % "".join(order), store, dict(dims=dims, order=order, units="km", part=bool(k % 2))))
                out.append(("sp:%s" % "".join(order), store, dict(dims=dims, order=order, units="m", part=not k % 2)))
                out.append(("sm:%s" % "".join(order), store, dict(dims=dims, order=order, units="km" if k % 3 else "m", part=bool(k % 2), masked=True)))
    for n in (1, 2, 3):
        out.append(("bad:%d" % n, refused, dict(dims=DIMS[:n])))
    ps = list(itertools.permutations(DIMS[:3]))
    for i, p in enumerate(ps):
        for j, r in enumerate(ps):
            if not q or (i + j) % 3 == 0:
                out.append(("two:%s:%s" % ("".join(p), "".join(r)), twice, dict(dims=DIMS[:3], p=p, q=r)))
    return out
