"""P02: what ends up in an output file does not depend on how it is chunked."""
import itertools
import os
from collections import OrderedDict

import numpy as np

from checks.lib import *    # noqa

PROPERTY = dict(
    id="P02",
    title="Output file contents do not depend on chunking; reversed axes are consistent",
    statement="Whatever chunk sizes are used to write a file, every variable in it is complete and holds "
              "the same values and missing-value positions as when it is written in one piece. When a "
              "coordinate (a one-dimensional variable with an axis) runs opposite to its requested direction, the coordinate and every "
              "variable in the file on that dimension are reversed along it exactly once, so each value stays "
              "attached to its coordinate value; all other dimensions keep their order.",
    quantifier=dict(over=["inputs", "configurations"],
                    text="all data and coordinate values, all missing-value patterns, all chunk sizes on every subset of "
                         "dimensions, any mix of variables sharing dimensions, all direction requests"),
    why_tests_cant="A test writes one file with one chunking; the guarantee relates all chunkings, dimension "
                   "orders and directions, and fails only for particular combinations.",
    anchors=dict(files=["pyconform/flownodes.py", "pyconform/dataflow.py"], mechanism=[
        dict(name="chunked writing", where="pyconform/flownodes.py: WriteNode.execute"),
        dict(name="direction check", where="pyconform/flownodes.py: WriteNode._open_, _direction_, _invert_dims_"),
        dict(name="chunk specification", where="pyconform/dataflow.py: DataFlow.execute")]),
)

META = dict(
    how="A complete data flow (or WriteNode) is executed against the in-memory netCDF stand-in with symbolic data, chunk sizes chosen by the solver and coordinates whose direction is a branch; the stored arrays are compared element by element with what the definition says (reversed along inverted axes).",
    bounds=dict(
        quick="dimension sizes 2x3(x2), every chunk size 1..size+1 or none per dimension, data and "
              "coordinate values symbolic, single masked cell at any position, direction increasing/decreasing/"
              "absent on one or two coordinates (also of one dimension), coordinate/data/scalar/text variables in one file",
        thorough="sizes up to 4x3x2, more variable mixes, any mask pattern of a 2x2 variable"),
    outside="larger arrays, real netCDF encodings (compression, packing) beyond the replayed witnesses, MPI",
    assumptions=["netCDF4.Dataset replaced by an in-memory stand-in in the symbolic runs (witnesses and "
                 "counterexamples use the real library)",
                 "floats are reals"],
)


def build(ctx, spec, chunks, sizes, cdir=(), unlimited=(), mask=None):
    """
    spec: list of (name, dims, kind).  kind: data | coord | scalar | char.  cdir: coord -> (actual, wanted)
    """
    ddesc = {d: DimensionDesc(d, size=n, unlimited=d in unlimited) for d, n in sizes.items()}
    vnodes, vdescs, want = [], [], OrderedDict()
    for name, dims, kind in spec:
        shape = tuple(sizes[d] for d in dims)
        attrs = OrderedDict()
        dtype = "double"
        if kind == "char":
            data = np.array([b"abcdefgh"[i:i + shape[1]] for i in range(shape[0])], dtype="S")
            arr = CharArray(data, name=name, dimensions=dims)
            dtype = "char"
            exp = np.ma.getdata(arr)
        else:
            data = ctx.reals(name, shape)
            if kind == "plain":         # a direction on something that is no coordinate means nothing
                if len(shape) > 1:
                    attrs["axis"] = "X"
                attrs["direction"] = ctx.choice("idle_" + name, ["increasing", "decreasing"])
            if kind == "coord":
                attrs["axis"] = "X"
                actual, wanted = cdir.get(name, ("increasing", None))
                if wanted:
                    attrs["direction"] = wanted
                for i in range(shape[0] - 1):
                    ctx.assume(data[i] < data[i + 1] if actual == "increasing" else data[i] > data[i + 1])
                    ctx.prefer(abs(data[i] - data[i + 1]) > 1 if ctx.symbolic else True)
            exp = data
            if kind == "masked":
                exp = np.ma.array(data, mask=ctx.mask(name + "_m", shape) if mask is None else mask)
            arr = PhysArray(exp, name=name, units="1", dimensions=dims)
        want[name] = [exp, dims]
        attrs["units"] = "1" if kind != "char" else "no unit"
        if kind == "char":
            del attrs["units"]
        vd = VariableDesc(name, datatype=dtype, dimensions=[ddesc[d] for d in dims], attributes=attrs)
        vdescs.append(vd)
    fname = path(ctx, "out.nc")
    fdesc = FileDesc(fname, variables=vdescs, deflate=1)
    for vd in vdescs:
        e, dims = want[vd.name]
        arr = CharArray(e, name=vd.name, dimensions=dims) if vd.datatype == "char" else \
            PhysArray(e, name=vd.name, units="1", dimensions=dims)
        vnodes.append(ValidateNode(vd, DataNode(arr)))
    return fname, fdesc, vnodes, want


def write(ctx, fname, fdesc, vnodes, chunks):
    def go():
        WriteNode(fdesc, inputs=vnodes).execute(chunks=chunks)
    ctx.run("writing with chunks %s" % (dict(chunks),), go)
    got = ctx.read_nc(fname)
    ctx.check(got is not None, "the file exists")
    return got


def compare(ctx, got, want, inverted, kinds):
    ctx.check(set(got["vars"]) == set(want), "variables in the file: %s" % sorted(got["vars"]))
    for name, (exp, dims) in want.items():
        g = got["vars"][name]
        ctx.check(tuple(g["dims"]) == tuple(dims), "dimensions of %s" % name)
        e = exp
        for ax, d in enumerate(dims):
            if d in inverted:
                e = np.flip(e, axis=ax)
        if kinds[name] == "char":
            ctx.check(np.shape(g["data"]) == np.shape(e) and bool(np.all(np.ma.filled(g["data"], b"") == e)),
                      "text variable %s" % name)
        else:
            ctx.check_array(g["data"], e, name)


def case_write(ctx, spec, sizes, over, cdir, unlimited=(), mask=None):
    chunks = OrderedDict()
    for d in over:
        c = ctx.choice("chunk_" + d, [None] + list(range(1, sizes[d] + 2)))
        if c is not None:
            chunks[d] = c
    kinds = {n: k for n, _, k in spec}
    dirs, inverted = {}, set()
    for c, dim in cdir.items():
        actual = ctx.choice("dir_" + c, ["increasing", "decreasing"])
        wanted = ctx.choice("want_" + c, [None, "increasing", "decreasing"])
        dirs[c] = (actual, wanted)
        if wanted and wanted != actual:
            inverted.add(dim)
    fname, fdesc, vnodes, want = build(ctx, spec, chunks, OrderedDict(sizes), dirs, unlimited, mask)
    got = write(ctx, fname, fdesc, vnodes, chunks)
    compare(ctx, got, want, inverted, kinds)


def case_no_direction(ctx, n):
    """a coordinate that is not monotonic has no direction: refused, never written"""
    x = ctx.reals("x", (n,))
    mono_up = all(bool(x[i] < x[i + 1]) for i in range(n - 1))
    mono_dn = all(bool(x[i] > x[i + 1]) for i in range(n - 1))
    wanted = ctx.choice("want", ["increasing", "decreasing"])
    dd = DimensionDesc("x", size=n)
    vd = VariableDesc("x", datatype="double", dimensions=[dd], attributes={"units": "1", "axis": "X",
                                                                         "direction": wanted})
    fname = path(ctx, "o.nc")
    fd = FileDesc(fname, variables=[vd])
    node = ValidateNode(vd, DataNode(PhysArray(x, name="x", units="1", dimensions=("x",))))
    _, err = ctx.call(lambda: WriteNode(fd, inputs=[node]).execute())
    if mono_up or mono_dn:
        ctx.check(err is None, "monotonic coordinate accepted: %r" % (err,))
        e = x if (wanted == "increasing") == mono_up else x[::-1]
        ctx.check_array(ctx.read_nc(fname)["vars"]["x"]["data"], e, "coordinate")
    else:
        ctx.check(isinstance(err, ValueError), "no direction to be had: refused")
        ctx.check(not os.path.exists(fname), "no file")


def case_flow(ctx, definition, fn, dims, over, wanted, nt=3, ny=2):
    """from input file to output file through a definition, chunked and not"""
    a = ctx.reals("a", (nt, ny))
    b = ctx.reals("b", (ny, nt))
    y = ctx.reals("y", (ny,))
    ctx.assume(y[0] < y[1])
    t = np.arange(nt) * 1.0
    inp = path(ctx, "in.nc")
    ctx.write_nc(inp, OrderedDict([("t", None), ("y", ny)]), OrderedDict([
        ("t", ("f8", ("t",), t, {"units": "days since 2000-01-01", "calendar": "noleap"})),
        ("y", ("f8", ("y",), y, {"units": "degrees_north"})),
        ("a", ("f8", ("t", "y"), a, {"units": "m"})),
        ("b", ("f8", ("y", "t"), b, {"units": "m"}))]))
    out = path(ctx, "sub/out.nc")
    attrs = {"units": "degrees_north", "axis": "Y"}
    if wanted:
        attrs["direction"] = wanted
    od = OrderedDict([
        ("time", outvar(["time"], "t", attributes={"units": "days since 2000-01-01", "calendar": "noleap",
                                                   "axis": "T"})),
        ("lat", outvar(["lat"], "y", attributes=attrs)),
        ("v", outvar(dims, definition, fname=out, attributes={"units": "m"}, metavars=["time", "lat"]))])
    chunks = OrderedDict()
    sizes = {"time": nt, "lat": ny}
    for d in over:
        c = ctx.choice("chunk_" + d, [None] + list(range(1, sizes[d] + 2)))
        if c is not None:
            chunks[d] = c

    def go():
        flow([inp], od).execute(chunks=chunks, serial=True)
    ctx.run("flow", go)
    got = ctx.read_nc(out)
    ctx.check(got is not None, "file exists")
    v = fn(a, b)        # on (t, y)
    if wanted == "decreasing":
        v, y = v[:, ::-1], y[::-1]
    ctx.check_array(got["vars"]["v"]["data"], v if tuple(dims) == ("time", "lat") else v.T, "v")
    ctx.check_array(got["vars"]["lat"]["data"], y, "lat")
    ctx.check_array(got["vars"]["time"]["data"], t, "time")
    ctx.check(got["dims"]["time"] == (nt, True) and got["dims"]["lat"] == (ny, False), "dimensions of the file")


DEFS = {
    "a": lambda a, b: a, "b": lambda a, b: b.T, "a+b": lambda a, b: a + b.T,
    "2*b-a": lambda a, b: 2 * b.T - a, "limit(a, above=3.0, below=-2.0)":
        lambda a, b: clip(a, -2.0, 3.0),
}


def clip(a, lo, hi):
    out = np.array(a)
    for i in np.ndindex(*a.shape):
        if out[i] > hi:
            out[i] = hi
        if out[i] < lo:
            out[i] = lo
    return out


def cases(tier):
    q = tier == "quick"
    out = []
    s23 = [("x", 2), ("y", 3)]
    two = [("x", ("x",), "coord"), ("y", ("y",), "coord"), ("v", ("x", "y"), "data"), ("w", ("y", "x"), "data"),
           ("s", (), "data")]
    for over in ([], ["x"], ["y"], ["x", "y"]):
        out.append(("two:%s" % "".join(over), case_write,
                    dict(spec=two, sizes=dict(s23), over=over, cdir={"x": "x", "y": "y"})))
    three = [("y", ("y",), "coord"), ("v", ("t", "y", "x"), "data"), ("u", ("y",), "data"), ("t", ("t",), "coord")]
    s3 = dict([("t", 3), ("y", 2), ("x", 2)])
    for over in (["t"], ["t", "y"], ["y", "x"], ["t", "y", "x"]):
        out.append(("three:%s" % "".join(over), case_write,
                    dict(spec=three, sizes=s3, over=over, cdir={"y": "y"}, unlimited=("t",))))
    msk = [("x", ("x",), "coord"), ("v", ("x", "y"), "masked")]
    for k in range(6):
        m = np.zeros((2, 3), dtype=bool)
        m[k // 3, k % 3] = True
        out.append(("masked:%d" % k, case_write,
                    dict(spec=msk, sizes=dict(s23), over=["x", "y"], cdir={"x": "x"}, mask=m)))
    chars = [("names", ("x", "n"), "char"), ("x", ("x",), "coord"), ("v", ("x",), "data")]
    out.append(("char", case_write, dict(spec=chars, sizes=dict([("x", 3), ("n", 2)]), over=["x"], cdir={"x": "x"})))
    pair = [("y", ("y",), "coord"), ("v", ("y", "x"), "data"), ("y2", ("y",), "coord"), ("x", ("x",), "coord")]
    for over in ([], ["y"], ["y", "x"]):
        out.append(("pair:%s" % "".join(over), case_write, dict(spec=pair, sizes=dict([("y", 3), ("x", 2)]), over=over, cdir={"y": "y", "y2": "y"} if over or q else {"y": "y", "y2": "y", "x": "x"})))
    idle = [("x", ("x",), "coord"), ("u", ("y",), "plain"), ("v", ("x", "y"), "plain"), ("w", ("y", "x"), "data"), ("s", (), "data")]
    for over in ([], ["x", "y"]):
        out.append(("idle:%s" % "".join(over), case_write, dict(spec=idle, sizes=dict(s23), over=over, cdir={"x": "x"})))
    out.append(("direction:2", case_no_direction, dict(n=2)))
    out.append(("direction:3", case_no_direction, dict(n=3)))
    for d, dims in itertools.product(sorted(DEFS), (("time", "lat"), ("lat", "time"))):
        for w in (None, "decreasing"):
            if q and d.startswith("limit") and (w or dims[0] == "lat"):
                continue
            if q and d in ("a", "a+b") and w is None:
                continue
            lim = d.startswith("limit")
            over = ["time", "lat"] if not (q and lim) else ["time"]
            out.append(("flow:%s:%s:%s" % (d, "".join(x[0] for x in dims), w), case_flow,
                        dict(definition=d, fn=DEFS[d], dims=dims, over=over, wanted=w,
                             nt=2 if lim and q else 3)))
    if not q:
        s43 = dict([("x", 4), ("y", 3)])
        for over in (["x"], ["y"], ["x", "y"]):
            out.append(("two43:%s" % "".join(over), case_write,
                        dict(spec=two, sizes=s43, over=over, cdir={"x": "x", "y": "y"})))
        s432 = dict([("t", 4), ("y", 3), ("x", 2)])
        out.append(("three432", case_write, dict(spec=three, sizes=s432, over=["t", "y", "x"],
                                                 cdir={"y": "y"}, unlimited=("t",))))
        out.append(("anymask", case_write, dict(spec=msk, sizes=dict([("x", 2), ("y", 2)]), over=["x", "y"],
                                                cdir={"x": "x"})))
        out.append(("direction:4", case_no_direction, dict(n=4)))
    return out
