"""P14: input dimensions are identified with output dimensions."""
import itertools

from checks.lib import *    # noqa
from pyconform import functions as F

PROPERTY = dict(
    id="P14",
    title="Output dimensions are matched to input dimensions consistently",
    statement="Every output dimension takes its size from one input dimension, the same one for all variables of the dataset: the "
              "one given by a variable over that dimension alone (or over fewer dimensions) if there is one, otherwise by position among "
              "the dimensions not yet matched. Every value is written at the output position of its input "
              "coordinates, whatever order of dimensions the definition and the output have. "
              "A variable whose dimensions cannot be matched one to one is refused and no file is written under its name.",
    quantifier=dict(over=["inputs", "configurations"],
                    text="all data; all orders of input and output dimensions, all subsets of coordinate variables, sizes 1-3"),
    why_tests_cant="No reliable test executes a data flow with renamed and reordered dimensions; equal sizes hide exchanges.",
    anchors=dict(files=["pyconform/dataflow.py", "pyconform/flownodes.py"], mechanism=[
        dict(name="dimension maps", where="pyconform/dataflow.py: DataFlow._compute_dimension_maps_/_create_map_nodes_"),
        dict(name="renaming", where="pyconform/flownodes.py: MapNode"),
        dict(name="reordering", where="pyconform/flownodes.py: ValidateNode.__getitem__")]),
)
META = dict(
    how="Whole data flows (input file to output file) over symbolic data with every order of input and output dimensions, "
        "every subset of one-dimensional coordinate variables and solver-chosen sizes; the stored array is compared element by "
        "element with the input at the matched coordinates.",
    bounds=dict(quick="1-3 dimensions of sizes 1-3 (also equal ones), all input orders, all output orders, coordinate subsets; pairs of variables sharing "
                      "dimensions; unmatched dimension counts and names",
                thorough="as quick, all combinations, with every chunk size on one dimension"),
    outside="several output dimensions from the same input dimension (refused when the file is written)",
    assumptions=["netCDF4 replaced by an in-memory stand-in in symbolic runs", "floats are reals"],
)
IN = ("i1", "i2", "i3")
OUT = ("o1", "o2", "o3")


def write_input(ctx, sizes, arrays, units="m"):
    p = path(ctx, "in.nc")
    ctx.write_nc(p, OrderedDict((d, sizes[d]) for d in sizes),
                 OrderedDict((n, ("f8", dims, a, {"units": units})) for n, (dims, a) in arrays.items()))
    return p


def run_flow(ctx, inp, od, chunks=None):
    df = ctx.run("building the flow", flow, [inp], od)
    ctx.run("executing the flow", lambda: df.execute(chunks=dict(chunks or {}), serial=True))
    return df


def matched(indims, outdims, known):
    """dimensions identified by coordinates, others by position among the rest"""
    o2i = {o: known[o] for o in outdims if o in known}
    ro = [o for o in outdims if o not in o2i]
    ri = [i for i in indims if i not in o2i.values()]
    assert len(ro) == len(ri)
    o2i.update(zip(ro, ri))
    return o2i


def check_var(ctx, got, name, a, indims, outdims, o2i):
    ctx.check(tuple(got["vars"][name]["dims"]) == tuple(outdims), "dimensions of %s" % name)
    g = got["vars"][name]["data"]
    want = np.asarray(a)
    if len(indims) > 1:
        want = want.transpose([indims.index(o2i[o]) for o in outdims])
    ctx.check_array(g, want, name)


def one(ctx, indims, outdims, coords, sizes, chunk=None):
    """coords: output dimensions with a variable of their own; o<k> belongs to i<k>"""
    n = len(indims)
    sz = {}
    for d in sorted(indims):
        sz[d] = ctx.choice("n_" + d, sizes) if isinstance(sizes, list) else sizes[d]
    a = ctx.reals("v", tuple(sz[d] for d in indims))
    arrays = OrderedDict(v=(indims, a))
    od = OrderedDict([("v", outvar(outdims, "v", fname=path(ctx, "out.nc"), attributes={"units": "m"},
                                   metavars=["c_" + o for o in coords]))])
    cv = {}
    for o in coords:
        i = "i" + o[1]
        cv[o] = ctx.reals("x" + o, (sz[i],))
        arrays["x" + i] = ((i,), cv[o])
        od["c_" + o] = outvar([o], "x" + i, attributes={"units": "m"})
    o2i = matched(indims, outdims, {o: "i" + o[1] for o in coords})
    inp = write_input(ctx, sz, arrays)
    chunks = {}
    if chunk:
        c = ctx.choice("chunk", [None, 1, 2])
        if c:
            chunks[chunk] = c
    df = run_flow(ctx, inp, od, chunks)
    ctx.check({i: o for o, i in o2i.items()} == dict(df.dimension_map), "dimension map %s, expected %s" % (dict(df.dimension_map), o2i))
    got = ctx.read_nc(path(ctx, "out.nc"))
    ctx.check(got is not None, "file written")
    for o in outdims:
        ctx.check(got["dims"][o][0] == sz[o2i[o]], "size of %s: %s" % (o, got["dims"][o]))
    check_var(ctx, got, "v", a, indims, outdims, o2i)
    for o in coords:
        ctx.check_array(got["vars"]["c_" + o]["data"], cv[o], "coordinate " + o)


def two(ctx, d1, o1, d2, o2, names=("A", "B")):
    """two variables sharing dimensions: the one over fewer dimensions (then the first by name) matches them"""
    sz = {"i1": 2, "i2": 2, "i3": 3}
    a = ctx.reals("a", tuple(sz[d] for d in d1))
    b = ctx.reals("b", tuple(sz[d] for d in d2))
    inp = write_input(ctx, sz, OrderedDict(a=(d1, a), b=(d2, b)))
    od = OrderedDict([(names[1], outvar(o2, "b", fname=path(ctx, "b.nc"), attributes={"units": "m"})),
                      (names[0], outvar(o1, "a", fname=path(ctx, "a.nc"), attributes={"units": "m"}))])
    m = matched(d1, o1, {})
    m2 = matched(d2, o2, m)
    df = run_flow(ctx, inp, od)
    ctx.check({i: o for o, i in m2.items()} == dict(df.dimension_map) or
              {i: o for o, i in dict(m, **m2).items()} == dict(df.dimension_map), "dimension map %s" % (dict(df.dimension_map),))
    check_var(ctx, ctx.read_nc(path(ctx, "a.nc")), names[0], a, d1, o1, m)
    check_var(ctx, ctx.read_nc(path(ctx, "b.nc")), names[1], b, d2, o2, m2)


def refused(ctx, indims, outdims, coords):
    sz = {"i1": 2, "i2": 3, "i3": 2}
    a = ctx.reals("v", tuple(sz[d] for d in indims))
    arrays = OrderedDict(v=(indims, a))
    od = OrderedDict([("v", outvar(outdims, "v", fname=path(ctx, "out.nc"), attributes={"units": "m"},
                                   metavars=["c_" + o for o, _ in coords]))])
    for o, i in coords:
        arrays["x" + i] = ((i,), ctx.reals("x" + i, (sz[i],)))
        od["c_" + o] = outvar([o], "x" + i, attributes={"units": "m"})
    inp = write_input(ctx, sz, arrays)
    _, err = ctx.call(lambda: flow([inp], od).execute(serial=True))
    ctx.check(err is not None, "%s over %s is not written over %s" % ("v", indims, outdims))
    ctx.check(not os.path.exists(path(ctx, "out.nc")), "no file")


def given(ctx, withdef):
    """variables whose data is declared: written as given, on their own dimensions"""
    x = [float(v) for v in range(3)]
    od = OrderedDict([("k", outvar(["z"], x, fname=path(ctx, "out.nc"), attributes={"units": "m"}, metavars=["w"] if withdef else []))])
    v = ctx.reals("v", (2,))
    inp = write_input(ctx, {"i1": 2}, OrderedDict(v=(("i1",), v)))
    if withdef:
        od["w"] = outvar(["o1"], "2*v", attributes={"units": "m"})
    run_flow(ctx, inp, od)
    got = ctx.read_nc(path(ctx, "out.nc"))
    ctx.check_array(got["vars"]["k"]["data"], np.array(x), "declared data")
    ctx.check(got["dims"]["z"][0] == 3, "its dimension")
    if withdef:
        ctx.check_array(got["vars"]["w"]["data"], 2 * v, "w")


class VpPlain(F.Function):
    """an add-on function whose result has no dimension names (only its answer without data has)"""
    key = "vp_plain"

    def __init__(self, d):
        super(VpPlain, self).__init__(d)

    def __getitem__(self, index):
        d = self.arguments[0][index]
        return d if index is None else PhysArray(np.ma.asarray(d), name="vp_plain", units=d.units)


def plain(ctx, indims, outdims):
    """results without dimension names are mapped by position"""
    sz = {"i1": 2, "i2": 3}
    a = ctx.reals("v", tuple(sz[d] for d in indims))
    inp = write_input(ctx, sz, OrderedDict(v=(indims, a)))
    od = OrderedDict([("v", outvar(outdims, "vp_plain(v)", fname=path(ctx, "out.nc"), attributes={"units": "m"}))])
    run_flow(ctx, inp, od)
    check_var(ctx, ctx.read_nc(path(ctx, "out.nc")), "v", a, indims, outdims, matched(indims, outdims, {}))


def cases(tier):
    q = tier == "quick"
    out = []
    k = 0
    for n in (1, 2, 3):
        for ip in itertools.permutations(IN[:n]):
            for op in itertools.permutations(OUT[:n]):
                for r in range(n + 1):
                    for co in itertools.combinations(OUT[:n], r):
                        k += 1
                        if q and n == 3 and (k % 4 or (r == 3 and k % 3)):
                            continue
                        sizes = [1, 2, 3] if n == 1 else [2, 3] if n == 2 else {"i1": 2, "i2": 2, "i3": 2} if k % 8 else \
                            {"i1": 2, "i2": 3, "i3": 1}
                        out.append(("one:%s-%s:%s" % ("".join(d[1] for d in ip), "".join(d[1] for d in op), "".join(d[1] for d in co)), one,
                                    dict(indims=ip, outdims=op, coords=co, sizes=sizes, chunk=None if q and k % 3 else op[0])))
    for d1, o1, d2, o2 in ((("i1", "i2"), ("o1", "o2"), ("i2", "i1"), ("o1", "o2")),
                           (("i1", "i2"), ("o2", "o1"), ("i1", "i2"), ("o1", "o2")),
                           (("i1",), ("o1",), ("i2", "i1"), ("o1", "o2")),
                           (("i2",), ("o1",), ("i2", "i1"), ("o2", "o1")),
                           (("i1", "i2"), ("o1", "o2"), ("i3", "i2", "i1"), ("o1", "o2", "o3")),
                           (("i1", "i2"), ("o2", "o1"), ("i1", "i3", "i2"), ("o3", "o1", "o2")),
                           (("i3",), ("o1",), ("i1", "i2", "i3"), ("o1", "o2", "o3"))):
        out.append(("two:%s-%s:%s-%s" % tuple("".join(x[1] for x in t) for t in (d1, o1, d2, o2)), two,
                    dict(d1=d1, o1=o1, d2=d2, o2=o2)))
        if len(d1) < len(d2):       # the number of dimensions counts before the name
            out.append(("two:%s-%s:%s-%s:names" % tuple("".join(x[1] for x in t) for t in (d1, o1, d2, o2)), two,
                        dict(d1=d1, o1=o1, d2=d2, o2=o2, names=("Z", "B"))))
    for j, (i, o, c) in enumerate(((("i1",), ("o1", "o2"), ()), (("i1", "i2"), ("o1",), ()), ((), ("o1",), ()), (("i1",), (), ()),
                                   (("i1",), ("o1",), (("o1", "i2"),)), (("i1", "i2"), ("o1", "o2"), (("o1", "i3"),)),
                                   (("i2",), ("o1", "o2"), (("o1", "i1"),)), (("i1", "i2"), ("o1", "o2"), (("o1", "i1"), ("o2", "i3"))))):
        out.append(("refused:%d" % j, refused, dict(indims=i, outdims=o, coords=c)))
    for i, o in ((("i1",), ("o1",)), (("i1", "i2"), ("o1", "o2")), (("i1", "i2"), ("o2", "o1"))):
        out.append(("plain:%d:%s" % (len(i), o[0]), plain, dict(indims=i, outdims=o)))
    out.append(("given:0", given, dict(withdef=False)))
    out.append(("given:1", given, dict(withdef=True)))
    return out
