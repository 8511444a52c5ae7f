"""P05: a request for part of a node's data equals the part of all its data."""
import itertools

import numpy as np

from checks.lib import *    # noqa
from pyconform import functions as F

PROPERTY = dict(
    id="P05",
    title="Requesting part of any node equals taking that part of the whole",
    statement="For every kind of data-flow node (data in memory, variable read from file with any read index, renamed "
              "dimensions, operator or built-in function) a request for part of its output, by dimension name (or by "
              "position, where its inputs have the same dimensions), gives the same values, dimensions, units and direction as taking that part "
              "of the complete output. An empty request reports the same dimensions, units and direction "
              "without data.",
    quantifier=dict(over=["inputs", "programs"],
                    text="all node kinds and nestings within bounds, all data, all requests by integer, slice or name"),
    why_tests_cant="Chunked output relies on this for every node and every request; tests check a few requests "
                   "on each node class.",
    anchors=dict(files=["pyconform/flownodes.py", "pyconform/functions.py", "pyconform/indexing.py"], mechanism=[
        dict(name="reading a variable", where="pyconform/flownodes.py: ReadNode.__getitem__"),
        dict(name="renaming dimensions", where="pyconform/flownodes.py: MapNode.__getitem__"),
        dict(name="evaluating", where="pyconform/flownodes.py: EvalNode.__getitem__; pyconform/functions.py"),
        dict(name="memory", where="pyconform/flownodes.py: DataNode.__getitem__")]),
)
META = dict(
    how="Every node type is asked for a symbolic part and for everything; the part of the whole is the oracle, element by element, plus metadata, plus the empty request.",
    bounds=dict(quick="arrays up to 3 dimensions (sizes 2-3), data symbolic, ~10 read indices x requests "
                      "with symbolic integer and slice bounds within -3..3, nesting up to 3 nodes",
                thorough="as quick with all pairs of read index and request kinds"),
    outside="requests splitting a dimension that is summed over (refused by design, see P15); functions of the "
            "add-on modules",
    assumptions=["netCDF4.Dataset replaced by an in-memory stand-in in symbolic runs", "floats are reals"],
)

SIZES = {"t": 2, "y": 3, "x": 2, "s": 1}


def read_node(ctx, dims, index, units="m", name="v", fname="in.nc"):
    p = path(ctx, fname)
    shape = tuple(SIZES[d] for d in dims)
    d = ctx.reals(name, shape)
    m = np.zeros(shape, dtype=bool)
    m[(-1,) * len(dims)] = True
    ctx.write_nc(p, OrderedDict((k, SIZES[k] if k != "t" else None) for k in dims),
                 OrderedDict([(name, ("f8", dims, np.ma.array(d, mask=m) if dims else d,
                                      {"units": units, "positive": "up", "_FillValue": 1e20}))]))
    ds = InputDatasetDesc(filenames=[p])
    return ReadNode(ds.variables[name], index=index), np.ma.array(d, mask=m)


def expect(whole, idx):
    """what the request `idx` on the complete result denotes: (array, dims)"""
    dims = whole.dimensions
    if isinstance(idx, dict):
        full = tuple(idx.get(d, slice(None)) for d in dims)
    else:
        t = idx if isinstance(idx, tuple) else (idx,)
        if Ellipsis in [x if x is Ellipsis else None for x in t]:
            p = [k for k, x in enumerate(t) if x is Ellipsis][0]
            full = t[:p] + (slice(None),) * (len(dims) - len(t) + 1) + t[p + 1:]
        else:
            full = t + (slice(None),) * (len(dims) - len(t))
    w = np.ma.array(np.ma.getdata(whole), mask=np.ma.getmaskarray(whole))
    return w[full] if len(dims) else w, tuple(d for d, i in zip(dims, full) if isinstance(i, slice))


def same(ctx, part, whole, idx, what):
    want, dims = expect(whole, idx)
    ctx.check(part.dimensions == dims, "%s: dimensions %s, expected %s" % (what, part.dimensions, dims))
    ctx.check(part.units == whole.units, "%s: units %s, expected %s" % (what, part.units, whole.units))
    ctx.check(part.positive == whole.positive, "%s: direction %s" % (what, part.positive))
    ctx.check_array(raw(part), np.ma.asarray(want), what)


def request(ctx, dims, shape, kind):
    """kind: string over dims, one letter per dimension; prefix n = by name, p = positional, e = ellipsis"""
    how, kinds = kind[0], kind[1:]
    vals = []
    if how == "e":
        kinds = kinds.rjust(len(dims), "f")[-len(dims):]
    for d, n, k in zip(dims, shape, kinds):
        if k == "i":
            vals.append(int(ctx.int("q_" + d, -n, n - 1)))
        elif k == "s":
            a, b = ctx.int("qa_" + d, -n, n), ctx.int("qb_" + d, -n, n)
            vals.append(slice(int(a), int(b)))
        elif k == "r":
            vals.append(slice(None, None, -1))
        elif k == "S":
            vals.append(slice(int(ctx.int("qa_" + d, 0, n - 1)), None))
        else:
            vals.append(slice(None))
    if how == "n":
        return {d: v for d, v in zip(dims, vals) if v != slice(None)}
    if how == "e":
        return (Ellipsis, vals[-1])
    return tuple(vals)


def consistent(ctx, node, kinds):
    whole = ctx.run("node[:]", lambda: node[:])
    snap = (np.array(np.ma.getdata(whole)), np.array(np.ma.getmaskarray(whole)))
    info = ctx.run("node[None]", lambda: node[None])
    ctx.check(info.dimensions == whole.dimensions, "empty request: dimensions %s" % (info.dimensions,))
    ctx.check(info.units == whole.units, "empty request: units %s, expected %s" % (info.units, whole.units))
    ctx.check(info.positive == whole.positive, "empty request: direction %s, expected %s" %
              (info.positive, whole.positive))
    if len(whole.dimensions):
        ctx.check(info.size == 0, "empty request has no data")
    k = ctx.choice("kind", kinds)
    idx = request(ctx, whole.dimensions, whole.shape, k)
    part = ctx.run("node[%r]" % (idx,), lambda: node[idx])
    same(ctx, part, whole, idx, "node[%r]" % (idx,))
    again = ctx.run("node[:] again", lambda: node[:])
    ctx.check_array(raw(again), np.ma.array(snap[0], mask=snap[1]), "the node gives the same data again")
    return whole


def full_read(ctx, dims, how, kinds):
    """variable read with a read index, then a request"""
    ridx = {"all": slice(None), "none": (), "i": (1,), "s": (slice(1, None),), "r": (slice(None, None, -1),),
            "ss": (slice(0, 2), slice(1, 3)), "is": (-1, slice(0, 2)), "si": (slice(None), -1),
            "e": (Ellipsis, 1), "d": {"y": slice(1, None)}, "di": {"t": 0, "y": slice(None, None, 2)},
            "neg": (slice(-2, None), slice(None, -1)), "r2": (slice(None), slice(None, None, -2))}[how]
    node, d = read_node(ctx, dims, ridx)
    whole = consistent(ctx, node, kinds)
    base = PhysArray(d, name="v", units="m", dimensions=dims, positive="up")
    want, wd = expect(base, ridx if ridx != () else slice(None))
    ctx.check(whole.dimensions == wd, "read: dimensions %s, expected %s" % (whole.dimensions, wd))
    ctx.check_array(raw(whole), np.ma.asarray(want), "read data")
    ctx.check(str(whole.units) == "m" and whole.positive == "up", "attributes of the file variable")


def data_node(ctx, dims, kinds):
    a = phys(ctx, "v", tuple(SIZES[d] for d in dims), dims, units="km", positive="down")
    consistent(ctx, DataNode(a), kinds)


def map_node(ctx, dims, dmap, kinds, inner):
    if inner == "data":
        a = phys(ctx, "v", tuple(SIZES[d] for d in dims), dims, units="km", positive="down")
        src = DataNode(a)
        vals = raw(a)
    else:
        src, vals = read_node(ctx, dims, ())
    node = MapNode("m", src, dict(dmap))
    whole = ctx.run("map[:]", lambda: node[:])
    ctx.check(whole.dimensions == tuple(dmap.get(d, d) for d in dims), "renamed dimensions %s" % (whole.dimensions,))
    ctx.check_array(raw(whole), vals, "data unchanged by renaming")
    consistent(ctx, node, kinds)


def eval_node(ctx, make, kinds, args):
    nodes = []
    for k, (dims, units, pos) in enumerate(args):
        a = phys(ctx, "v%d" % k, tuple(SIZES[d] for d in dims), dims, units=units, positive=pos, lo=1, hi=100)
        nodes.append(DataNode(a))
    consistent(ctx, make(*nodes), kinds)


def ev(name, *extra, **kw):
    def make(*nodes):
        if name in "+-*/**":
            op = F.find_operator(name, len(nodes) + len(extra))
            return EvalNode(name, op, *(nodes + extra))
        return EvalNode(name, F.find_function(name), *(nodes + extra), **kw)
    return make


def chain(ctx, kinds):
    """file -> arithmetic -> renaming"""
    n1, a = read_node(ctx, ("t", "y"), (slice(None), slice(None, None, -1)))
    n2, b = read_node(ctx, ("y", "t"), (), name="w", fname="in2.nc")
    e = EvalNode("+", F.find_operator("+", 2), EvalNode("*", F.find_operator("*", 2), n1, 2.0), n2)
    m = MapNode("m", e, {"t": "T", "y": "Y"})
    whole = consistent(ctx, m, kinds)
    want = np.ma.array(np.ma.getdata(a)[:, ::-1] * 2.0 + np.ma.getdata(b).T,
                       mask=np.ma.getmaskarray(a)[:, ::-1] | np.ma.getmaskarray(b).T)
    ctx.check(whole.dimensions == ("T", "Y"), "dimensions")
    ctx.check_array(raw(whole), want, "chain")


def cases(tier):
    q = tier == "quick"
    out = []
    k1, k2 = ["ni", "ns", "pi", "ps", "pr"], ["nis", "nsf", "nfi", "pii", "psi", "pfS", "ef", "ei", "nrr", "pSS"]
    k3 = ["nifi", "nfsf", "pisf", "pSfi", "nrfS", "efi"]
    for how in ("all", "none", "s", "r", "ss", "e", "d", "neg", "r2", "i", "is", "si", "di"):
        kk = k2 if how in ("all", "none", "s", "r", "ss", "d", "neg", "r2") else k1
        if q and kk is k2:
            kk = k2[:6] if how in ("ss", "none", "neg") else k2[2:8]
        out.append(("read2:%s" % how, full_read, dict(dims=("t", "y"), how=how, kinds=kk)))
    out.append(("read3:all", full_read, dict(dims=("t", "y", "x"), how="all", kinds=k3)))
    out.append(("read3:i", full_read, dict(dims=("t", "y", "x"), how="i", kinds=k2[:4])))
    out.append(("read3:r2", full_read, dict(dims=("t", "y", "x"), how="r2", kinds=k3[:3])))
    for dims, kk in ((("y",), k1), (("t", "y"), k2), (("x", "t", "y"), k3)):
        out.append(("data:%d" % len(dims), data_node, dict(dims=dims, kinds=kk)))
    for nm, dm in (("two", {"t": "T", "y": "Y"}), ("one", {"y": "Y"}), ("none", {}), ("extra", {"y": "Y", "z": "Z"})):
        for inner in ("data", "read"):
            out.append(("map:%s:%s" % (nm, inner), map_node, dict(dims=("t", "y"), dmap=dm, kinds=k2[:6], inner=inner)))
    out.append(("map:swap", map_node, dict(dims=("t", "x"), dmap={"t": "x", "x": "t"}, kinds=k2[:6], inner="data")))
    m, none = "m", None
    two = [(("t", "y"), "m", none), (("t", "y"), "km", none)]
    mixed = [(("t", "y"), "m", "up"), (("y", "t"), "m", "up")]
    low = [(("t", "y"), "m", none), (("y",), "m", none)]
    one = [(("t", "y"), "m", "up")]
    nopos = [(("t", "y"), "m", none)]
    for nm, mk, ar in (("add", ev("+"), two), ("sub", ev("-"), mixed), ("mul", ev("*"), two), ("div", ev("/"), mixed),
                       ("addlow", ev("+"), low), ("mullow", ev("*"), list(reversed(low))), ("neg", ev("-"), one),
                       ("pow", ev("**", 2), one), ("addc", ev("*", 2.5), one),
                       ("sqrt", ev("sqrt"), [(("t", "y"), "m2", none)]),
                       ("up", ev("up"), one), ("down", ev("down"), one), ("down0", ev("down"), nopos),
                       ("limit", ev("limit", above=50.0, below=10.0), [(("t", "x"), "m", none)]),
                       ("chunits", ev("chunits", units="km"), one), ("rmunits", ev("rmunits"), one)):
        kk = (k2[:5] if nm != "limit" else k2[2:4]) if q else k2
        if nm in ("sub", "div", "addlow", "mullow"):
            kk = [x for x in k2 if x[0] == "n"] + ["nsi", "nSf", "nrS"]
        out.append(("eval:%s" % nm, eval_node, dict(make=mk, kinds=kk, args=ar)))
    kn = ["ni", "ns", "nr"]
    for nm in ("mean", "sum", "min", "max"):
        out.append(("eval:%s" % nm, eval_node, dict(make=ev(nm, "y"), kinds=kn,
                                                    args=[(("t", "y"), "m", "up")])))
    out.append(("eval:mean2", eval_node, dict(make=ev("mean", "y", "x"), kinds=kn, args=[(("t", "y", "x"), "m", "up")])))
    for nm in ("min", "max", "mean"):
        out.append(("eval:%s3" % nm, eval_node, dict(make=ev(nm, "t"), kinds=["nis", "nfi", "nsf"], args=[(("x", "t", "s"), "m", "up")])))
        out.append(("eval:%s0" % nm, eval_node, dict(make=ev(nm, "q"), kinds=["nis", "nsf"], args=[(("t", "y"), "m", "down")])))
    out.append(("eval:sum3", eval_node, dict(make=ev("sum", "y"), kinds=["nis", "nsf", "nii", "nrS"], args=[(("t", "y", "x"), "m", "up")])))
    for j, nm in enumerate((("T",), ("T", "Y"), ("y", "t"), ("x",))):
        out.append(("chdims:%d" % j, eval_node, dict(make=ev("chdims", *nm), kinds=k2, args=[(("t", "y"), "m", "up")])))
    out.append(("chain", chain, dict(kinds=["nis", "psf", "pfi", "ei"])))
    return out
