"""P17: descriptors of a dataset agree with each other."""
import itertools

from checks.lib import *    # noqa
from pyconform import datasets
from pyconform.datasets import DatasetDesc

PROPERTY = dict(
    id="P17",
    title="Dimensions and variables of a dataset are consistent across its files",
    statement="A dataset is accepted exactly when every dimension name has one size, limited/unlimited and text-length status wherever it is set, and "
              "every variable name one datatype and one list of dimensions. In an accepted dataset there is one descriptor "
              "per dimension and per variable, shared by all files and variables that use it, so that setting a dimension sets it everywhere. "
              "Nothing given is lost: every file, variable and dimension is there under its name, in the given order.",
    quantifier=dict(over=["inputs", "configurations"], text="all sizes and flags, all ways of sharing names between files and variables within bounds"),
    why_tests_cant="Tests build a few fixed descriptors; conflicts hide in particular combinations of names and positions.",
    anchors=dict(files=["pyconform/datasets.py"], mechanism=[
        dict(name="unique descriptors", where="pyconform/datasets.py: DimensionDesc.unique, VariableDesc.unique, FileDesc.unique"),
        dict(name="sharing", where="pyconform/datasets.py: FileDesc.__init__, DatasetDesc.__init__"),
        dict(name="reading", where="pyconform/datasets.py: InputDatasetDesc.__init__")]),
)
META = dict(
    how="Sizes are symbolic integers, flags symbolic booleans, names and datatypes solver-chosen; acceptance is compared with a "
        "logical formula over them, and identity of descriptors is checked on every accepting path.",
    bounds=dict(quick="up to 3 dimension descriptors, 2 files of 2 variables over 2 dimensions, sizes 0-3 (compared only for equality) or unset, all flags",
                thorough="up to 4 descriptors, 3 files"),
    outside="-",
    assumptions=["the built-in int() is the identity on integers (shadowed so that sizes stay symbolic)", "netCDF4 replaced by an in-memory stand-in in symbolic runs"],
)


def eq(a, b):
    """both set and equal"""
    return a == b


def dims_unique(ctx, n):
    ctx.inject(datasets, "int", SYM_INT)
    names = [ctx.choice("name%d" % i, ["x", "y"] if i else ["x"]) for i in range(n)]
    descs, st = [], []
    for i in range(n):
        if bool(ctx.bool("set%d" % i)):
            size, unl, sl = ctx.int("size%d" % i, 0, 3), ctx.bool("unl%d" % i), ctx.bool("sl%d" % i)
            d = DimensionDesc(names[i], size=size, unlimited=bool(unl), stringlen=bool(sl))
            st.append((size, bool(unl), bool(sl)))
        else:
            d = DimensionDesc(names[i])
            st.append(None)
        descs.append(d)
    r, err = ctx.call(DimensionDesc.unique, descs)
    ok = True
    for i, j in itertools.combinations(range(n), 2):
        if names[i] == names[j] and st[i] and st[j]:
            ok = ok and bool(st[i][0] == st[j][0]) and st[i][1:] == st[j][1:]
    if not ok:
        ctx.check(isinstance(err, ValueError), "conflicting dimensions refused (%r)" % (err,))
        return
    if err is not None:
        ctx.fail("consistent dimensions raised %r" % (err,))
    ctx.check(list(r) == [x for k, x in enumerate(names) if x not in names[:k]], "names %s" % list(r))
    for nm, d in r.items():
        group = [k for k in range(n) if names[k] == nm]
        setd = [k for k in group if st[k]]
        ctx.check(any(d is descs[k] for k in (setd or group)), "the set descriptor is kept")
        ctx.check(d.name == nm and d.is_set() == bool(setd), "descriptor of %s" % nm)
        if setd:
            ctx.check_eq(d.size, st[setd[0]][0], "its size")


def dims_eq(ctx):
    """equality means equal in every respect; set() copies every respect"""
    ctx.inject(datasets, "int", SYM_INT)
    s1, s2 = ctx.int("s1", 1, 100), ctx.int("s2", 1, 100)
    n2 = ctx.choice("n2", ["x", "y"])
    u1, u2, l1, l2 = [bool(ctx.bool(c)) for c in ("u1", "u2", "l1", "l2")]
    a, b = DimensionDesc("x", s1, u1, l1), DimensionDesc(n2, s2, u2, l2)
    want = n2 == "x" and bool(s1 == s2) and u1 == u2 and l1 == l2
    ctx.check(bool(a == b) == want and bool(a != b) == (not want), "equality")
    ctx.check(not (a == "x"), "not equal to something else")
    a.set(b)
    ctx.check(bool(a.size == s2) and a.unlimited == u2 and a.stringlen == l2 and a.name == "x", "set() copies everything but the name")
    _, err = ctx.call(a.set, 3)
    ctx.check(isinstance(err, TypeError), "set() from anything else refused")
    a.unset()
    ctx.check(not a.is_set() and a.size is None and not a.unlimited, "unset")


DT = ("double", "float")
VD = ((), ("x",), ("x", "y"), ("y", "x"))


def dataset(ctx, nfiles, nvars, setting):
    """files with variables over shared dimensions"""
    ctx.inject(datasets, "int", SYM_INT)
    files, spec, sizes = [], [], {}
    ok = True
    seen = {}
    for f in range(nfiles):
        vs = []
        for v in range(nvars):
            nm = ctx.choice("v%d%d" % (f, v), ["a", "b"] if v or f else ["a"])
            if any(nm == x.name for x in vs):
                ctx.assume(False)
            dt = ctx.choice("t%d%d" % (f, v), list(DT)) if nm == "a" else "double"
            dims = VD[ctx.choice("d%d%d" % (f, v), [1, 2, 3] if nm == "a" else [0, 1])]
            dd = []
            for d in dims:
                size = None
                if setting == "all" or (setting == "first" and f == 0):
                    size = ctx.int("s%d%d%s" % (f, v, d), 0, 3)
                x = DimensionDesc(d, size=size)
                if size is not None:
                    if d in sizes:
                        ok = ok and bool(sizes[d] == size)
                    else:
                        sizes[d] = size
                dd.append(x)
            ok = ok and seen.setdefault(nm, (dt, dims)) == (dt, dims)
            vs.append(VariableDesc(nm, datatype=dt, dimensions=dd))
        spec.append([v.name for v in vs])
        fd, err = ctx.call(FileDesc, "f%d" % f, variables=vs)
        if err is not None:
            ctx.check(isinstance(err, ValueError) and not ok, "a consistent file was refused: %r" % (err,))
            return
        files.append(fd)
    ds, err = ctx.call(DatasetDesc, "ds", files)
    if not ok:
        ctx.check(isinstance(err, ValueError), "an inconsistent dataset is refused (%r)" % (err,))
        return
    if err is not None:
        ctx.fail("consistent dataset raised %r" % (err,))
    ctx.check(list(ds.files) == ["f%d" % k for k in range(nfiles)], "files %s" % list(ds.files))
    ctx.check(set(ds.variables) == set(seen), "variables %s" % list(ds.variables))
    ctx.check(set(ds.dimensions) == set(d for _, dims in seen.values() for d in dims), "dimensions %s" % list(ds.dimensions))
    for fn, fd in ds.files.items():
        k = int(fn[1])
        ctx.check(list(fd.variables) == spec[k], "variables of %s: %s" % (fn, list(fd.variables)))
        for nm, vd in fd.variables.items():
            ctx.check(vd is ds.variables[nm], "one descriptor per variable")
            ctx.check(fn in vd.files and vd.files[fn] is fd, "the variable knows its file")
            ctx.check(tuple(vd.dimensions) == seen[nm][1] and vd.datatype == seen[nm][0], "variable kept")
            for d in vd.dimensions:
                ctx.check(vd.dimensions[d] is ds.dimensions[d] and fd.dimensions[d] is ds.dimensions[d], "one descriptor per dimension")
    for d in ds.dimensions:
        if d in sizes:
            ctx.check_eq(ds.dimensions[d].size, sizes[d], "size of %s" % d)
        else:
            ctx.check(not ds.dimensions[d].is_set(), "%s is not set" % d)
            ds.dimensions[d].set(DimensionDesc(d, size=4))
            ctx.check(all(v.dimensions[d].size == 4 for v in ds.variables.values() if d in v.dimensions), "set everywhere")


def three(ctx):
    """three files of one variable, of which any may differ"""
    k = ctx.choice("which", [None, 0, 1, 2])
    what = ctx.choice("what", ["type", "dims", "size"])
    files = []
    for i in range(3):
        odd = i == k
        dd = [DimensionDesc(d, size=3 if odd and what == "size" and d == "x" else 2) for d in (("y", "x") if odd and what == "dims" else ("x", "y"))]
        files.append(FileDesc("f%d" % i, variables=[VariableDesc("v", datatype="double" if odd and what == "type" else "float", dimensions=dd)]))
    ds, err = ctx.call(DatasetDesc, "ds", files)
    if k is not None:
        ctx.check(isinstance(err, ValueError), "file %d differs in %s: refused (%r)" % (k, what, err))
        return
    if err is not None:
        ctx.fail("consistent dataset raised %r" % (err,))
    ctx.check(all(f.variables["v"] is ds.variables["v"] for f in ds.files.values()) and list(ds.variables["v"].files) == ["f0", "f1", "f2"], "one variable in three files")


def read(ctx, two):
    """what is read from file headers"""
    sx, sy = ctx.choice("sx", [1, 2, 3]), ctx.choice("sy", [1, 2])
    unl = bool(ctx.bool("unl"))
    sx2 = ctx.choice("sx2", [1, 2, 3]) if two else sx
    p1, p2 = path(ctx, "1.nc"), path(ctx, "2.nc")
    for p, s in ((p1, sx),) + (((p2, sx2),) if two else ()):
        ctx.write_nc(p, OrderedDict([("x", None if unl else s), ("y", sy), ("unused", 7)]), OrderedDict([
            ("v", ("f4", ("y", "x"), np.zeros((sy, s)), {"units": "m", "long_name": "V"})),
            ("x", ("f8", ("x",), np.arange(s) * 1.0, {}))]))
    ds, err = ctx.call(InputDatasetDesc, filenames=[p1] + ([p2] if two else []))
    if sx2 != sx:
        ctx.check(isinstance(err, ValueError), "files of different sizes are not one dataset (%r)" % (err,))
        return
    if err is not None:
        ctx.fail("reading headers raised %r" % (err,))
    ctx.check(set(ds.variables) == {"v", "x"} and set(ds.dimensions) == {"x", "y"}, "names")
    ctx.check(ds.dimensions["x"].size == sx and ds.dimensions["x"].unlimited == unl and ds.dimensions["y"].size == sy, "sizes")
    v = ds.variables["v"]
    ctx.check(tuple(v.dimensions) == ("y", "x") and v.datatype == "float" and dict(v.attributes) == {"units": "m", "long_name": "V"}, "header of v")
    ctx.check(set(v.files) == {p1} | ({p2} if two else set()), "files of v")


TYPES = {"i1": "byte", "u1": "ubyte", "S1": "char", "i2": "short", "u2": "ushort", "i4": "int", "u4": "uint", "i8": "int64", "u8": "uint64", "f4": "float", "f8": "double"}


def headers(ctx, what):
    """two files that differ in one respect (or in none)"""
    same = bool(ctx.bool("same"))
    t = ctx.choice("type", sorted(TYPES)) if what == "type" else "f4"
    t2 = t if same or what != "type" else ctx.choice("other", [x for x in sorted(TYPES) if x != t])
    u, shape = [True, True], [("t", "x"), ("t", "x")]
    if not same and what == "unlimited":
        u[ctx.choice("limited", [0, 1])] = False
    if not same and what == "dimensions":
        shape[ctx.choice("which", [0, 1])] = ctx.choice("shape", [("x", "t"), ("t",), ("x",), (), ("t", "y")])
    fill = {"S1": b"a"}
    text = ctx.choice("text", [None, "len", "x"]) if what == "text" else None
    ps, atts = [], []
    for k in (0, 1):
        p = path(ctx, "%d.nc" % k)
        tt = (t, t2)[k]
        sz = {"t": 2, "x": 3, "y": 3, "len": 4}
        v = OrderedDict([("v", (tt, shape[k], np.full([sz[d] for d in shape[k]], fill.get(tt, 0), dtype=tt), {"units": "K%d" % k}))])
        if text and not (k and not same):
            v["c"] = ("S1", ("t", text), np.full((2, sz[text]), b"a", dtype="S1"), {})
        if k and text and not same:             # the last dimension of text is a length, that of numbers is not
            v["c"] = ("S1", (text, "t"), np.full((sz[text], 2), b"a", dtype="S1"), {})
        at = {"title": "file %d" % k}
        ctx.write_nc(p, OrderedDict([("t", None if u[k] else 2)] + [(d, sz[d]) for d in ("x", "y", "len")]), v, at)
        ps.append(p)
        atts.append(at)
    ds, err = ctx.call(InputDatasetDesc, filenames=ps)
    if not same and (what != "text" or text):
        ctx.check(isinstance(err, ValueError), "files that differ are not one dataset (%r)" % (err,))
        return
    if err is not None:
        ctx.fail("reading headers raised %r" % (err,))
    d = ds.variables["v"]
    ctx.check(d.datatype == TYPES[t] and (ctx.symbolic or d.dtype == np.dtype(t)) and tuple(d.dimensions) == ("t", "x"), "variable read as %s %s %s" % (d.datatype, d.dtype, tuple(d.dimensions)))
    ctx.check([(x.size, x.unlimited) for x in d.dimensions.values()] == [(2, True), (3, False)], "dimensions")
    if text == "len":
        ctx.check(ds.dimensions["len"].stringlen and not ds.dimensions["t"].stringlen and not ds.dimensions["x"].stringlen, "length of text")
    for k, p in enumerate(ps):
        ctx.check(dict(ds.files[p].attributes) == atts[k], "attributes of file %d: %s" % (k, ds.files[p].attributes))
    ctx.check(list(ds.files) == ps and set(d.files) == set(ps), "files")
    ctx.check(d.attributes["units"] in ("K0", "K1"), "attributes of the variable")


def repeated(ctx, n):
    """files of one name"""
    ctx.inject(datasets, "int", SYM_INT)
    names = [ctx.choice("f%d" % i, ["f", "g"]) for i in range(n)]
    vs = [ctx.choice("v%d" % i, ["a", "b", "ab"]) for i in range(n)]
    files = [FileDesc(names[i], variables=[VariableDesc(c, datatype="double", dimensions=[DimensionDesc("x" + c, size=3)]) for c in vs[i]]) for i in range(n)]
    ok = all(vs[i] == vs[j] for i in range(n) for j in range(i) if names[i] == names[j])
    ds, err = ctx.call(DatasetDesc, "ds", files)
    if not ok:
        ctx.check(isinstance(err, ValueError), "different files of one name are refused (%r)" % (err,))
        return
    if err is not None:
        ctx.fail("consistent dataset raised %r" % (err,))
    ctx.check(list(ds.files) == [x for k, x in enumerate(names) if x not in names[:k]], "files %s" % list(ds.files))
    for nm, fd in ds.files.items():
        ctx.check(list(fd.variables) == list(vs[names.index(nm)]), "variables of %s" % nm)
        for vn in fd.variables:
            ctx.check(fd.variables[vn] is ds.variables[vn] and nm in ds.variables[vn].files, "one descriptor per variable")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        out.append(("dims:%d" % n, dims_unique, dict(n=n)))
    out.append(("dimeq", dims_eq, {}))
    for nf, nv in ((1, 1), (1, 2), (2, 1)) + (() if q else ((2, 2), (3, 1))):
        for s in ("none", "first", "all"):
            out.append(("ds:%d:%d:%s" % (nf, nv, s), dataset, dict(nfiles=nf, nvars=nv, setting=s)))
    out.append(("three", three, {}))
    if q:
        out.append(("ds:2:2:none", dataset, dict(nfiles=2, nvars=2, setting="none")))
    for w in ("type", "unlimited", "dimensions", "text"):
        out.append(("headers:" + w, headers, dict(what=w)))
    for n in (2, 3):
        out.append(("repeated:%d" % n, repeated, dict(n=n)))
    out.append(("read:1", read, dict(two=False)))
    out.append(("read:2", read, dict(two=True)))
    return out
