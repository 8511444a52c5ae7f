"""P04: subsetting by position or by dimension name."""
import itertools

import numpy as np

from checks.lib import *    # noqa
from pyconform import indexing
from pyconform.indexing import align_index, index_tuple

PROPERTY = dict(
    id="P04",
    title="Subsetting by position or dimension name keeps data and names aligned",
    statement="Subsetting an array by position (integers, slices, ellipsis, fewer indices than dimensions) or by "
              "a mapping from dimension names to indices returns exactly the elements the index "
              "denotes on the named dimensions, with only the sliced dimensions left, in their original order, and "
              "with units and direction kept. Names the array does not have are ignored, too many indices are "
              "refused, and an empty request returns a zero-length array with the same dimensions.",
    quantifier=dict(over=["inputs"], text="all arrays, all orders of dimensions, all index expressions positional or by name"),
    why_tests_cant="Tests use a few hand-picked indices; data and names come apart only for particular mixes of integer "
                   "and slice indices, dimension order and missing names.",
    anchors=dict(files=["pyconform/indexing.py", "pyconform/physarray.py"], mechanism=[
        dict(name="index alignment", where="pyconform/indexing.py: align_index, index_tuple"),
        dict(name="subsetting", where="pyconform/physarray.py: PhysArray.__getitem__, __setitem__")]),
)
META = dict(
    how="PhysArray indexing/align_index/index_tuple with symbolic positions and slice bounds on arrays of symbolic elements, against numpy indexing of the plain data.",
    bounds=dict(quick="arrays up to 3 dimensions (sizes 2,3,2), data symbolic, integer indices and slice bounds "
                      "symbolic within -4..4 (enumerated by the solver), every subset of named dimensions",
                thorough="as quick, with steps and sizes up to 4"),
    outside="array and boolean indices, more than 3 dimensions",
    assumptions=["floats are reals"],
)

DIMS = ("t", "y", "x")
SIZES = {"t": 2, "y": 3, "x": 2}


def index_for(ctx, d, kind, n):
    if kind == "i":
        return int(ctx.int("i_" + d, -n, n - 1))
    if kind == "s":
        return slice(int(ctx.int("b_" + d, -n, n)), None)
    if kind == "S":
        a, b = ctx.int("b_" + d, 0, n), ctx.int("e_" + d, 0, n)
        return slice(int(a), int(b))
    if kind == "r":
        return slice(None, None, -1)
    if kind == "f":
        return slice(None)
    raise ValueError(kind)


def mk(ctx, dims, sizes):
    shape = tuple(sizes[d] for d in dims)
    m = np.zeros(shape, dtype=bool)
    m[(0,) * len(dims)] = True
    return phys(ctx, "v", shape, dims, units="m", positive="up", mask=m)


def named(ctx, dims, kinds, extra, sizes=SIZES):
    a = mk(ctx, dims, sizes)
    data = raw(a)
    idx = {d: index_for(ctx, d, k, sizes[d]) for d, k in zip(dims, kinds) if k != "-"}
    full = tuple(idx.get(d, slice(None)) for d in dims)
    q = dict(reversed(list(idx.items())))
    if extra:
        q["nosuch"] = 0
    snap = snapshot(a)
    r = ctx.run("a[%r]" % (q,), lambda: a[q])
    check_result(ctx, r, data, full, dims)
    check_unchanged(ctx, a, snap, "source of the subset")
    al = ctx.run("align", align_index, q, dims)
    ctx.check(al == full, "aligned index %r, expected %r" % (al, full))


def check_result(ctx, r, data, full, dims):
    want = data[full]
    left = tuple(d for d, i in zip(dims, full) if isinstance(i, slice))
    if np.shape(want) == () and not isinstance(r, PhysArray):
        if want is np.ma.masked or (isinstance(want, np.ma.MaskedArray) and np.ma.getmaskarray(want).any()):
            ctx.check(np.ma.is_masked(r), "masked element")
        else:
            ctx.check_eq(r, want.item() if isinstance(want, np.ndarray) else want, "element")
        return
    ctx.check(r.dimensions == left, "dimensions %s, expected %s" % (r.dimensions, left))
    ctx.check(str(r.units) == "m", "units kept")
    ctx.check(r.positive == "up", "direction kept")
    ctx.check_array(raw(r), want, "subset")


def positional(ctx, dims, pat, sizes=SIZES):
    """pat: kinds with 'e' for ellipsis"""
    a = mk(ctx, dims, sizes)
    data = raw(a)
    n = len(dims)
    given = [c for c in pat if c != "e"]
    if "e" in pat:
        p = pat.index("e")
        pos = list(range(p)) + list(range(n - (len(pat) - p - 1), n))
    else:
        pos = list(range(len(pat)))
    full = [slice(None)] * n
    ix = []
    bykind = dict(zip(pos, given))
    vals = {p_: index_for(ctx, dims[p_], k, sizes[dims[p_]]) for p_, k in bykind.items()}
    for p_, v in vals.items():
        full[p_] = v
    it = iter(pos)
    for c in pat:
        ix.append(Ellipsis if c == "e" else vals[next(it)])
    ix = tuple(ix)
    got = ctx.run("index_tuple", index_tuple, ix, n)
    ctx.check(got == tuple(full), "index expands to %r, expected %r" % (got, tuple(full)))
    ctx.check(align_index(ix, dims) == tuple(full), "aligned index")
    r = ctx.run("a[%r]" % (ix,), lambda: a[ix])
    check_result(ctx, r, data, tuple(full), dims)


def single(ctx, kind):
    """a bare (non-tuple) index"""
    a = mk(ctx, DIMS, SIZES)
    data = raw(a)
    i = index_for(ctx, "t", kind, 2)
    r = ctx.run("a[%r]" % (i,), lambda: a[i])
    check_result(ctx, r, data, (i, slice(None), slice(None)), DIMS)


def too_many(ctx, ndim):
    nidx = int(ctx.int("nidx", 0, 5))
    withell = bool(ctx.bool("ellipsis"))
    ix = (slice(None),) * nidx + ((Ellipsis,) if withell else ())
    r, err = ctx.call(index_tuple, ix, ndim)
    if nidx > ndim:
        ctx.check(isinstance(err, IndexError), "too many indices refused")
    else:
        ctx.check(err is None and r == (slice(None),) * ndim, "as many indices as dimensions: %r" % (r,))
    _, err = ctx.call(index_tuple, (Ellipsis, Ellipsis), ndim)
    ctx.check(isinstance(err, IndexError), "two ellipses refused")


def empty(ctx, dims):
    a = mk(ctx, dims, SIZES)
    r = ctx.run("a[None]", lambda: a[None])
    ctx.check(r.dimensions == dims and r.shape == (0,) * len(dims), "empty request")
    ctx.check(str(r.units) == "m" and r.positive == "up", "metadata of an empty request")


def scalar(ctx):
    v = ctx.real("v")
    a = PhysArray(farr(ctx, v), name="s", units="m", dimensions=())
    for q in (None, (), slice(None), {"t": 0}, {}, Ellipsis):
        r = ctx.run("scalar[%r]" % (q,), lambda: a[q])
        ctx.check(r.dimensions == () and str(r.units) == "m", "scalar metadata")
        ctx.check_eq(np.ma.getdata(r).item(), v, "scalar value")


def assign(ctx, dims, kinds, vdims):
    """element assignment by name, with values carrying their own dimension order and units"""
    a = mk(ctx, dims, SIZES)
    before = raw(a)
    idx = {d: index_for(ctx, d, k, SIZES[d]) for d, k in zip(dims, kinds) if k != "-"}
    full = tuple(idx.get(d, slice(None)) for d in dims)
    shape = {d: len(range(*i.indices(SIZES[d]))) for d, i in zip(dims, full)}
    ctx.assume(all(shape.values()))
    v = phys(ctx, "w", tuple(shape[d] for d in vdims), vdims, units="km")
    ctx.run("assignment", lambda: a.__setitem__(idx, v))
    want = before.copy()
    perm = [vdims.index(d) for d in dims]
    want[full] = raw(v).transpose(perm) * 1000.0
    ctx.check_array(raw(a), want, "assigned array")
    ctx.check(a.dimensions == dims and str(a.units) == "m", "metadata after assignment")


def cases(tier):
    q = tier == "quick"
    out = []
    kinds = "-isr" if q else "-isSrf"
    for dims in (("t",), ("y", "t"), ("x", "t", "y")):
        for ks in itertools.product(kinds, repeat=len(dims)):
            if len(dims) == 3 and sum(k in "sS" for k in ks) > 1:
                continue
            if q and len(dims) == 3 and ks.count("-") == 0 and "r" in ks:
                continue
            ks = "".join(ks)
            out.append(("named:%s:%s" % ("".join(dims), ks), named, dict(dims=dims, kinds=ks, extra=ks.count("-") == 1)))
    for dims, pats in ((("t", "y"), ["", "s", "i", "es", "ie", "si", "eis", "ri", "e", "ise"]),
                       (("t", "y", "x"), ["i", "si", "ei", "ies", "sei", "er", "ifi", "rei", "iie", "Sie"])):
        for p_ in pats:
            out.append(("pos:%d:%s" % (len(dims), p_), positional, dict(dims=dims, pat=p_)))
    for k in "isSr":
        out.append(("single:%s" % k, single, dict(kind=k)))
    for n in (1, 2, 3):
        out.append(("toomany:%d" % n, too_many, dict(ndim=n)))
        out.append(("empty:%d" % n, empty, dict(dims=DIMS[:n])))
    out.append(("scalar", scalar, {}))
    for dims, ks, vd in ((("t", "y"), "-S", ("y", "t")), (("t", "y"), "s-", ("t", "y")), (("y", "t"), "--", ("t", "y")),
                         (("t", "y", "x"), "-s-", ("x", "t", "y"))):
        out.append(("assign:%s:%s" % ("".join(dims), ks), assign, dict(dims=dims, kinds=ks, vdims=vd)))
    return out
