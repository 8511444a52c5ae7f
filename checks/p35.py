"""P35: text."""
import itertools

from checks.lib import *    # noqa
from pyconform.physarray import UnitsError, DimensionsError

PROPERTY = dict(
    id="P35",
    title="Text variables keep every character, at its place",
    statement="A text variable given by labels in the specification or read from a character variable of the input (whole or indexed) is written with each character at its position in its label and each label at "
              "its place, whatever the lengths of the labels and the chunks, along the labels or along the characters. Where the length of the output is larger than the label the rest is empty; an output length declared "
              "by shorter labels grows to that of the input. Text has no units and no positive direction, and giving it any, converting it or inverting it is refused.",
    quantifier=dict(over=["inputs", "configurations"], text="all numbers and lengths of labels, lengths of the dimension, indices and chunk sizes within bounds"),
    why_tests_cant="One test writes one list of labels and one character variable of fixed lengths without chunks.",
    anchors=dict(files=["pyconform/physarray.py", "pyconform/dataflow.py", "pyconform/flownodes.py", "pyconform/datasets.py"], mechanism=[
        dict(name="arrays of characters", where="pyconform/physarray.py: CharArray"),
        dict(name="lengths", where="pyconform/datasets.py: OutputDatasetDesc.__init__; pyconform/dataflow.py: DataFlow._compute_dimension_maps_"),
        dict(name="writing", where="pyconform/flownodes.py: WriteNode.execute")]),
)
META = dict(
    how="Numbers and lengths of labels, sizes of the dimensions, indices and chunk sizes are solver variables; the characters are distinct constants (the code compares them only with the empty character), and the output "
        "of the whole data flow is compared character by character with the labels.",
    bounds=dict(quick="up to 3 labels of 0-4 characters, 7 kinds of index, chunks 1-4 along either dimension, two text variables sharing a length",
                thorough="up to 4 labels of 0-5 characters"),
    outside="characters beyond ASCII, labels declared with different lengths for one dimension of the output (refused), reordering of the length of the text",
    assumptions=["netCDF4 replaced by an in-memory stand-in in symbolic runs", "characters other than the empty one are treated alike (the code only compares them with the empty one)"],
)
ABC = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"


def labels(ctx, name, n, lo, hi, base=0):
    """labels of solver-chosen lengths, all characters different"""
    out, k = [], base
    for i in range(n):
        m = int(ctx.int("%s%d" % (name, i), lo, hi))
        out.append(ABC[k:k + m])
        k += m
    return out


def grid(labs, width):
    return np.array([[(w[j].encode() if j < len(w) else b"") for j in range(width)] for w in labs], dtype="S1").reshape(len(labs), width)


def text_of(g):
    return np.array(np.ma.filled(g["data"], b""), dtype="S1")


def same(ctx, g, dims, want, what):
    got = text_of(g)
    ctx.check(tuple(g["dims"]) == tuple(dims), "%s: dimensions %s" % (what, g["dims"]))
    ctx.check(got.shape == want.shape, "%s: shape %s, expected %s" % (what, got.shape, want.shape))
    ctx.check(got.tolist() == want.tolist(), "%s: %s, expected %s" % (what, got.tolist(), want.tolist()))


def source(ctx, labs, width, extra=None):
    p = path(ctx, "in.nc")
    n = len(labs)
    vs = OrderedDict([("cat", ("S1", ("cat", "len"), grid(labs, width), {})),
                      ("q", ("f8", ("cat",), ctx.reals("q", (n,)), {"units": "1"}))])
    ctx.write_nc(p, OrderedDict([("cat", n), ("len", width)]), vs)
    return p


def some_chunks(ctx, dims, hi):
    ch = OrderedDict()
    for d in dims:
        c = ctx.int("chunk_" + d, 0, hi)
        if bool(c > 0):
            ch[d] = int(c)
    return ch


def execute(ctx, f, od, chunks):
    def go():
        flow([f] if f else [], od).execute(chunks=chunks, serial=True)
    ctx.run("data flow with chunks %s" % (dict(chunks),), go)


def literal(ctx, n, hi, kind):
    """labels of the specification"""
    labs = labels(ctx, "l", n, 0, hi)
    width = max(len(w) for w in labs)
    ctx.assume(width > 0)
    given = {"list": list, "tuple": tuple}[kind](labs)
    o = path(ctx, "o.nc")
    src = path(ctx, "in.nc")
    ctx.write_nc(src, OrderedDict(x=2), OrderedDict(x=("f8", ("x",), farr(ctx, [1.0, 2.0]), {"units": "1"})))
    od = OrderedDict(B=outvar(("b", "n"), given, fname=o, datatype="char"))
    execute(ctx, src, od, {})
    same(ctx, ctx.read_nc(o)["vars"]["B"], ("b", "n"), grid(labs, width), "labels %s" % labs)


def nested(ctx, hi):
    labs = labels(ctx, "l", 4, 0, hi)
    width = max(len(w) for w in labs)
    ctx.assume(width > 0)
    o, src = path(ctx, "o.nc"), path(ctx, "in.nc")
    ctx.write_nc(src, OrderedDict(x=2), OrderedDict(x=("f8", ("x",), farr(ctx, [1.0, 2.0]), {"units": "1"})))
    od = OrderedDict(B=outvar(("a", "b", "n"), [labs[:2], labs[2:]], fname=o, datatype="char"))
    execute(ctx, src, od, {})
    same(ctx, ctx.read_nc(o)["vars"]["B"], ("a", "b", "n"), grid(labs, width).reshape(2, 2, width), "labels %s" % labs)


INDEX = {"": (slice(None), slice(None)), "[::-1]": (slice(None, None, -1), slice(None)), "[1]": (1, slice(None)), "[-1]": (-1, slice(None)),
         "[:,0:2]": (slice(None), slice(0, 2)), "[:,1:]": (slice(None), slice(1, None)), "[:,0]": (slice(None), 0)}


def read(ctx, n, width, ind, chunked):
    """a character variable of the input, with chunks; a numeric variable in the same file"""
    labs = labels(ctx, "l", n, 0, width)
    src = source(ctx, labs, width)
    full = grid(labs, width)
    # an indexed dimension keeps the size of the input in the output: what is beyond is empty
    part = full[INDEX[ind]]
    o = path(ctx, "o.nc")
    od = OrderedDict()
    if ind == "[1]" or ind == "[-1]":
        dims, want = ("n",), part
    elif ind == "[:,0]":
        dims, want = ("c",), part
    else:
        dims = ("c", "n")
        want = np.zeros((n, width), dtype="S1")
        want[:, :part.shape[1]] = part
    od["A"] = outvar(dims, "cat" + ind, fname=o, datatype="char", metavars=["Q"])
    od["Q"] = outvar(("c",), "q", attributes={"units": "1"})
    ch = some_chunks(ctx, [d for d in ("c", "n") if d in chunked and (d in dims or d == "c")], max(n, width))
    execute(ctx, src, od, ch)
    got = ctx.read_nc(o)
    same(ctx, got["vars"]["A"], dims, want, "cat%s of %s in chunks %s" % (ind, labs, dict(ch)))
    ctx.check_array(got["vars"]["Q"]["data"], ctx.reals("q", (n,)), "the other variable")


def shared(ctx, hi, width, chunked):
    """labels of the specification and a character variable with one length"""
    labs = labels(ctx, "l", 2, 1, hi)
    cat = labels(ctx, "c", 2, 0, width, base=20)
    src = source(ctx, cat, width)
    wl = max(len(w) for w in labs)
    out = max(wl, width)
    o1, o2 = path(ctx, "o1.nc"), path(ctx, "o2.nc")
    one = bool(ctx.bool("one_file"))
    od = OrderedDict(C=outvar(("c", "n"), "cat", fname=o1, datatype="char", metavars=["B"] if one else None),
                     B=outvar(("b", "n"), labs, fname=None if one else o2, datatype="char"))
    ch = some_chunks(ctx, chunked, 4)
    execute(ctx, src, od, ch)
    g = ctx.read_nc(o1)["vars"]
    same(ctx, g["C"], ("c", "n"), grid(cat, out), "input %s with labels %s, chunks %s" % (cat, labs, dict(ch)))
    gb = g if one else ctx.read_nc(o2)["vars"]
    same(ctx, gb["B"], ("b", "n"), grid(labs, out), "labels %s with input %s, chunks %s" % (labs, cat, dict(ch)))


def single(ctx, hi, width):
    """one label, along the characters alone, in an output of the length of the input"""
    lab = labels(ctx, "l", 1, 1, hi)[0]
    cat = labels(ctx, "c", 2, 0, width, base=20)
    src = source(ctx, cat, width)
    out = max(len(lab), width)
    o = path(ctx, "o.nc")
    od = OrderedDict(C=outvar(("c", "n"), "cat", fname=o, datatype="char", metavars=["B"]),
                     B=outvar(("n",), lab, datatype="char"))
    od["B"]["definition"] = [lab[j] for j in range(len(lab))]
    execute(ctx, src, od, some_chunks(ctx, "n", 3))
    g = ctx.read_nc(o)["vars"]
    same(ctx, g["C"], ("c", "n"), grid(cat, out), "input %s" % cat)
    same(ctx, g["B"], ("n",), grid([lab], out)[0], "label %s" % lab)


def array(ctx, n, hi):
    """CharArray by itself"""
    labs = labels(ctx, "l", n, 0, hi)
    width = max(len(w) for w in labs)
    ctx.assume(width > 1)
    a = ctx.run("CharArray", CharArray, labs, name="A", dimensions=("c", "n"))
    want = grid(labs, width)
    ctx.check(a.shape == want.shape and np.ma.filled(a, b"").tolist() == want.tolist(), "array of %s: %s" % (labs, np.ma.filled(a, b"").tolist()))
    m = np.ma.getmaskarray(a)
    ctx.check(m.tolist() == (want == b"").tolist(), "empty characters are missing")
    b = ctx.run("PhysArray of labels", PhysArray, labs, name="A", dimensions=("c", "n"))
    ctx.check(type(b) is CharArray and np.ma.filled(b, b"").tolist() == want.tolist(), "PhysArray of labels is a CharArray")
    k = int(ctx.int("new", 1, hi + 2))
    s = ctx.run("stretch", a.stretch, k)
    w2 = grid(labs, max(k, width))
    ctx.check(type(s) is CharArray and s.dimensions == ("c", "n") and s.name == "A" and s.shape == w2.shape and
              np.ma.filled(s, b"").tolist() == w2.tolist(), "stretched to %d: %s" % (k, np.ma.filled(s, b"").tolist()))
    ctx.check(np.ma.filled(a, b"").tolist() == want.tolist(), "the original is unchanged")
    lo = int(ctx.int("from", 0, n - 1))
    p = a[{"c": slice(lo, None)}] if bool(ctx.bool("by_name")) else a[lo:]
    ctx.check(type(p) is CharArray and p.dimensions == ("c", "n") and np.ma.filled(p, b"").tolist() == want[lo:].tolist(), "part from %d" % lo)


def refusals(ctx, what):
    labs = labels(ctx, "l", 2, 1, 3)
    ctx.assume(max(len(w) for w in labs) > 1)
    a = CharArray(labs, name="A", dimensions=("c", "n"))
    want = np.ma.filled(a, b"").tolist()

    def units():
        a.units = ctx.choice("u", ["m", "1", "K", "days since 2000-01-01"])

    def positive():
        a.positive = ctx.choice("p", ["up", "down"])
    fn, err = {"units": (units, UnitsError), "positive": (positive, ValueError), "invert": (a.invert, NotImplementedError),
               "convert": (lambda: a.convert(Unit(ctx.choice("u", ["m", "1", "K"]))), UnitsError),
               "transpose": (lambda: a.transpose("n", "c"), DimensionsError)}[what]
    _, e = ctx.call(fn)
    ctx.check(isinstance(e, err), "%s of text is refused (%r)" % (what, e))
    ctx.check(np.ma.filled(a, b"").tolist() == want and a.dimensions == ("c", "n") and a.units.is_no_unit() and a.positive is None, "%s left the text alone" % what)


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        for kind in ("list", "tuple"):
            if q and n == 3 and kind == "tuple":
                continue
            out.append(("literal:%d:%s" % (n, kind), literal, dict(n=n, hi=(3 if n == 3 else 4) if q else (5 if n < 4 else 3), kind=kind)))
    out.append(("nested", nested, dict(hi=2 if q else 3)))
    for ind in INDEX:
        for ch in ("", "c", "n", "cn"):
            out.append(("read:%s:%s" % (ind, ch), read, dict(n=2, width=3, ind=ind, chunked=ch)))
    if not q:
        out.append(("read:3:4", read, dict(n=3, width=4, ind="", chunked="cn")))
    for ch in ("", "c", "n"):
        out.append(("shared:%s" % ch, shared, dict(hi=4, width=2 if q else 3, chunked=ch)))
    out.append(("single", single, dict(hi=4, width=2 if q else 3)))
    out.append(("array:2", array, dict(n=2, hi=3)))
    if not q:
        out.append(("array:3", array, dict(n=3, hi=3)))
    for w in ("units", "positive", "invert", "convert", "transpose"):
        out.append(("refused:" + w, refusals, dict(what=w)))
    return out
