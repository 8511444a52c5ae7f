"""P03: two index expressions applied in turn equal their combination."""
import itertools

import numpy as np

from pyconform import indexing
from pysym.values import RangeShim, SliceShim, len_shim, slice_count, slice_indices

PROPERTY = dict(
    id="P03",
    title="Combining two index expressions selects exactly the same elements",
    statement="For every array shape and every pair of index expressions (integers, slices with "
              "any start, stop and step of either sign, ellipsis, fewer indices than dimensions), "
              "indexing the array once with the combined expression gives the same elements, in the "
              "same order and shape, as applying the two expressions one after the other. An "
              "integer that is out of range for either step is rejected with an index error, never "
              "mapped to some other element.",
    quantifier=dict(over=["inputs"], text="all array sizes, all slice starts/stops/integers, "
                                          "positive and negative steps, all mixes of integer, slice and ellipsis"),
    why_tests_cant="Tests enumerate a few shapes and slices; the arithmetic on start, stop, step and "
                   "length has corner cases at negative, out-of-range, empty and reversed slices for every size.",
    anchors=dict(files=["pyconform/indexing.py"], mechanism=[
        dict(name="composition of slices", where="pyconform/indexing.py: join"),
        dict(name="expansion of an index", where="pyconform/indexing.py: index_tuple")]),
)

META = dict(
    how="`indexing.join` runs on slices with symbolic start/stop/step and symbolic integers; the combined index is compared with applying the two in turn, via the arithmetic of slice indices.",
    bounds=dict(
        quick="1 dimension: size, starts, stops and integers symbolic in [-10^6, 10^6] (each also absent), "
              "steps from {none, +-1, +-2, 3, -3} in both slices; 2-3 dimensions: every mix of slice, "
              "integer, ellipsis, omitted, with symbolic size/start/stop",
        thorough="as quick with steps from {none, +-1..+-5} in both slices and more mixes in 3 dimensions"),
    outside="more than 3 dimensions, steps beyond the listed ones, zero steps, array/boolean indices",
    assumptions=["slice.indices follows CPython's definition (re-stated as terms)"],
)

N = 10 ** 6


def shims(ctx):
    for name, shim in (("slice", SliceShim), ("range", RangeShim), ("len", len_shim)):
        ctx.inject(indexing, name, shim)


def maybe(ctx, name, none):
    return None if none else ctx.int(name, -N, N)


def expected_1d(l0, s1, s2):
    a1, b1, c1 = slice_indices(s1, l0)
    n1 = slice_count(a1, b1, c1)
    a2, b2, c2 = slice_indices(s2, n1)
    n2 = slice_count(a2, b2, c2)
    return a1, c1, n1, a2, c2, n2


def one_slices(ctx, st1, st2, nones):
    shims(ctx)
    l0 = ctx.int("size", 0, N)
    v = [maybe(ctx, n, x) for n, x in zip(("start1", "stop1", "start2", "stop2"), nones)]
    s1, s2 = ctx.slice(v[0], v[1], st1), ctx.slice(v[2], v[3], st2)
    j = ctx.run("join", indexing.join, (l0,), (s1,), (s2,))
    ctx.check(isinstance(j, tuple) and len(j) == 1 and isinstance(j[0], slice),
              "the combination is one slice")
    if not ctx.symbolic:
        a = np.arange(l0)
        same(ctx, a[s1][s2], a[j])
        return
    a1, c1, n1, a2, c2, n2 = expected_1d(l0, s1, s2)
    a12, b12, c12 = slice_indices(j[0], l0)
    n12 = slice_count(a12, b12, c12)
    ctx.check_eq(n12, n2, "number of selected elements")
    if n2 > 0:
        ctx.check_eq(a12, a1 + a2 * c1, "first selected element")
        if n2 > 1:
            ctx.check_eq(c12, c1 * c2, "distance between selected elements")


def same(ctx, want, got):
    ctx.check(np.shape(want) == np.shape(got), "shape %s != %s" % (np.shape(got), np.shape(want)))
    ctx.check(bool(np.all(np.asarray(want) == np.asarray(got))), "elements differ")


def one_int_after(ctx, st1, nones):
    """slice, then integer"""
    shims(ctx)
    l0 = ctx.int("size", 0, N)
    s1 = ctx.slice(maybe(ctx, "start1", nones[0]), maybe(ctx, "stop1", nones[1]), st1)
    i2 = ctx.int("i2", -N, N)
    a1, b1, c1 = slice_indices(s1, l0)
    n1 = slice_count(a1, b1, c1)
    ok = (i2 < n1) if i2 >= 0 else (i2 >= -n1)
    j, err = ctx.call(indexing.join, (l0,), (s1,), (i2,))
    if ok:
        ctx.check(err is None, "an index in range is accepted")
        k = i2 if i2 >= 0 else i2 + n1
        got = j[0]
        ctx.check(len(j) == 1 and not isinstance(got, slice), "one integer")
        got = got if got >= 0 else got + l0
        ctx.check_eq(got, a1 + k * c1, "selected element")
    else:
        ctx.check(isinstance(err, IndexError), "an index out of range is rejected")


def one_int_first(ctx):
    shims(ctx)
    l0 = ctx.int("size", 0, N)
    i1 = ctx.int("i1", -N, N)
    j, err = ctx.call(indexing.join, (l0,), (i1,), ())
    if (i1 < l0) if i1 >= 0 else (i1 >= -l0):
        ctx.check(err is None and len(j) == 1, "accepted")
        got = j[0] if j[0] >= 0 else j[0] + l0
        ctx.check_eq(got, i1 if i1 >= 0 else i1 + l0, "selected element")
    else:
        ctx.check(isinstance(err, IndexError), "rejected")


def multi(ctx, shape1, shape2, ndim, steps):
    """
    shape1/shape2: strings over s (slice), i (integer), e (ellipsis).  Sizes and bounds symbolic.
    """
    lim = 60
    shims(ctx)
    dims = [ctx.int("n%d" % k, 1, lim) for k in range(ndim)]
    k = [0]

    def build(pat, tag):
        out = []
        for c in pat:
            k[0] += 1
            if c == "e":
                out.append(Ellipsis)
            elif c == "i":
                out.append(ctx.int("%s_i%d" % (tag, k[0]), -lim, lim))
            else:
                st = steps[k[0] % len(steps)]
                b = ctx.int("%s_b%d" % (tag, k[0]), -lim, lim)
                e = None if k[0] % 3 == 0 else ctx.int("%s_e%d" % (tag, k[0]), -lim, lim)
                out.append(ctx.slice(b, e, st))
        return tuple(out)
    i1, i2 = build(shape1, "x"), build(shape2, "y")
    j, err = ctx.call(indexing.join, tuple(dims), i1, i2)
    if not ctx.symbolic:
        a = np.arange(int(np.prod(dims))).reshape(dims)
        try:
            want = a[i1][i2]
        except IndexError:
            ctx.check(isinstance(err, IndexError), "out of range accepted")
            return
        ctx.check(err is None, "raised %r" % (err,))
        same(ctx, want, a[j])
        return

    def expand(ix, n):
        if Ellipsis in [x for x in ix if x is Ellipsis]:
            p = [q for q, x in enumerate(ix) if x is Ellipsis][0]
            return ix[:p] + (slice(None),) * (n - len(ix) + 1) + ix[p + 1:]
        return ix + (slice(None),) * (n - len(ix))
    e1 = expand(i1, ndim)
    kept = [d for d in range(ndim) if isinstance(e1[d], slice)]
    e2 = dict(zip(kept, expand(i2, len(kept))))
    bad = False
    for d in range(ndim):
        if not isinstance(e1[d], slice):
            if not ((e1[d] < dims[d]) if e1[d] >= 0 else (e1[d] >= -dims[d])):
                bad = True
        elif not isinstance(e2[d], slice):
            n1 = slice_count(*slice_indices(e1[d], dims[d]))
            if not ((e2[d] < n1) if e2[d] >= 0 else (e2[d] >= -n1)):
                bad = True
    if bad:
        ctx.check(isinstance(err, IndexError), "out of range index accepted")
        return
    ctx.check(err is None, "raised %r" % (err,))
    ctx.check(len(j) == ndim, "one index per dimension")
    for d in range(ndim):
        a1, b1, c1 = (slice_indices(e1[d], dims[d]) if isinstance(e1[d], slice) else (None,) * 3)
        if a1 is None:
            ctx.check(not isinstance(j[d], slice), "integer kept")
            ctx.check_eq(j[d] if j[d] >= 0 else j[d] + dims[d],
                         e1[d] if e1[d] >= 0 else e1[d] + dims[d], "element dim %d" % d)
            continue
        n1 = slice_count(a1, b1, c1)
        if not isinstance(e2[d], slice):
            ctx.check(not isinstance(j[d], slice), "integer kept")
            q = e2[d] if e2[d] >= 0 else e2[d] + n1
            ctx.check_eq(j[d] if j[d] >= 0 else j[d] + dims[d], a1 + q * c1, "element dim %d" % d)
            continue
        ctx.check(isinstance(j[d], slice), "slice kept")
        a2, b2, c2 = slice_indices(e2[d], n1)
        n2 = slice_count(a2, b2, c2)
        a12, b12, c12 = slice_indices(j[d], dims[d])
        ctx.check_eq(slice_count(a12, b12, c12), n2, "count dim %d" % d)
        if n2 > 0:
            ctx.check_eq(a12, a1 + a2 * c1, "first element dim %d" % d)
            if n2 > 1:
                ctx.check_eq(c12, c1 * c2, "step dim %d" % d)


def cases(tier):
    out = []
    steps = [None, -1, 2, -2, 3, -3] if tier == "quick" else [None, 1, -1, 2, -2, 3, -3, 4, -4, 5, -5]
    for a, b in itertools.product(steps, steps):
        for nones in itertools.product((False, True), repeat=4):
            if tier == "quick" and sum(nones) not in (0, 1, 4):
                continue
            out.append(("slices:%s:%s:%s" % (a, b, "".join("n" if x else "v" for x in nones)),
                        one_slices, dict(st1=a, st2=b, nones=nones)))
    for a in steps + ([4, -4] if tier == "quick" else []):
        for nones in itertools.product((False, True), repeat=2):
            out.append(("int-after:%s:%s" % (a, "".join("n" if x else "v" for x in nones)),
                        one_int_after, dict(st1=a, nones=nones)))
    out.append(("int-first", one_int_first, {}))
    pats = [("si", "s", 2), ("s", "i", 2), ("e", "si", 2), ("is", "e", 2), ("es", "ie", 2),
            ("i", "si", 3), ("ei", "ei", 3), ("ies", "i", 3), ("ss", "es", 2), ("sei", "ei", 3),
            ("ise", "s", 2), ("esi", "e", 2), ("s", "es", 1), ("ie", "e", 1), ("ies", "se", 2)]
    if tier == "thorough":
        pats += [("ss", "ss", 2), ("sss", "sis", 3), ("se", "es", 3), ("esi", "is", 3), ("iei", "i", 3),
                 ("e", "iii", 3), ("sis", "es", 3), ("sss", "e", 3), ("e", "sss", 3)]
    for a, b, n in pats:
        for st in ([[None, -2, 2, -1]] if tier == "quick" else [[None, -2, 2, -1], [-1, 3], [2, -3, None]]):
            out.append(("multi:%s:%s:%d:%s" % (a, b, n, "/".join(map(str, st))), multi,
                        dict(shape1=a, shape2=b, ndim=n, steps=st)))
    return out
