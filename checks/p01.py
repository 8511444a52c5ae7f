"""P01: write chunks tile the output index space."""
import itertools
from collections import OrderedDict

import numpy as np
import z3

from pyconform import flownodes
from pyconform.flownodes import WriteNode
from checks.lib import SYM_INT
from pysym.values import SymBool, SymInt, as_int_term, is_sym, slice_count, slice_indices, wrap

PROPERTY = dict(
    id="P01",
    title="Write chunks tile the output exactly",
    statement="For every set of dimension sizes and chunk sizes, the chunks in which a file is written "
              "cover every cell of the output exactly once and nothing outside it; dimensions without a "
              "chunk size are not split, and no chunk is longer than the size asked for. For a dimension that is "
              "written in reverse, the part read for each chunk is the mirror image of the part "
              "written, element by element in reverse order, also for the last, shorter chunk.",
    quantifier=dict(over=["inputs", "configurations"],
                    text="all dimension sizes, all chunk sizes (dividing or not, larger than the dimension), all "
                         "subsets of reversed dimensions"),
    why_tests_cant="Tests try a few sizes; off-by-one errors at the last chunk, at sizes that are or are "
                   "not multiples of the chunk, or in the mirrored part depend on the exact sizes.",
    anchors=dict(files=["pyconform/flownodes.py"], mechanism=[
        dict(name="chunk iterator", where="pyconform/flownodes.py: WriteNode._chunk_iter_"),
        dict(name="mirroring", where="pyconform/flownodes.py: WriteNode._invert_dims_")]),
)

META = dict(
    how="Symbolic dimension sizes and chunk sizes drive `WriteNode._chunk_iter_`/`_invert_dims_`; a symbolic cell must lie in exactly one chunk, and each reversed read slice is compared position by position with the mirror image of the written slice.",
    bounds=dict(
        quick="1 dimension: chunk in {none,1..7,12,365}, size symbolic with at most 6 chunks; 2 dimensions: "
              "chunks in {none,1,2,3,5}, sizes symbolic with at most 3x3 chunks; 3 dimensions: at most 2x2x2; "
              "mirroring: size, chunk bounds symbolic up to 10^6",
        thorough="1 dimension: chunks up to 64 and 365/366/1000, at most 12 chunks; 2 dimensions: at most 4x4 chunks, chunk sizes 1..8; "
                 "3 dimensions: at most 3x2x2"),
    outside="more chunks than stated, more than 3 dimensions",
    assumptions=["the built-in int() is the identity on integers (shadowed so that counts stay symbolic)",
                 "slice.indices follows CPython's definition"],
)


def inside(p, sl, size):
    """p is selected by the slice, as a 0/1 integer"""
    a, b, c = slice_indices(sl, size)
    if c != 1:
        raise AssertionError("chunk slices have step 1")
    if not any(is_sym(x) for x in (p, a, b)):
        return 1 if a <= p < b else 0
    pt, at, bt = as_int_term(p), as_int_term(a), as_int_term(b)
    return wrap(z3.If(z3.And(at <= pt, pt < bt), z3.IntVal(1), z3.IntVal(0)))


def tiles(ctx, chunks, counts):
    ctx.inject(flownodes, "int", SYM_INT)
    names = ["d%d" % k for k in range(len(chunks))]
    sizes = OrderedDict()
    for n, c, k in zip(names, chunks, counts):
        sizes[n] = ctx.int("size_" + n, 1, 10 ** 6 if c is None else c * k)
    cells = {n: ctx.int("cell_" + n, 0, 10 ** 6) for n in names}
    for n in names:
        ctx.assume(cells[n] < sizes[n])
    cd = {n: c for n, c in zip(names, chunks) if c is not None}
    got = ctx.run("chunk iterator", lambda: list(WriteNode._chunk_iter_(sizes, chunks=cd)))
    ctx.check(len(got) > 0, "at least one chunk")
    total = 0
    for ch in got:
        ctx.check(list(ch) == names, "a chunk names every dimension")
        hit = 1
        for n, c in zip(names, chunks):
            s = ch[n]
            ctx.check(isinstance(s, slice), "a chunk is a slice")
            cnt = slice_count(*slice_indices(s, sizes[n]))
            ctx.check(cnt >= 1, "no empty chunk")
            if s.stop is not None:
                ctx.check(s.stop <= sizes[n], "chunk inside the dimension")
            if c is None:
                ctx.check_eq(cnt, sizes[n], "unsplit dimension")
            else:
                ctx.check(cnt <= c, "chunk no longer than asked")
            hit = hit * inside(cells[n], s, sizes[n])
        total = total + hit
    ctx.check_eq(total, 1, "every cell is in exactly one chunk")
    seen = set()
    if not ctx.symbolic:
        for ch in got:
            key = tuple(slice_indices(ch[n], sizes[n]) for n in names)
            ctx.check(key not in seen, "chunk repeated")
            seen.add(key)


def mirror(ctx, inv, last):
    n = ctx.int("size", 1, 10 ** 6)
    a = ctx.int("start", 0, 10 ** 6)
    b = None if last else ctx.int("stop", 1, 10 ** 6)
    ctx.assume(a < n)
    if b is not None:
        ctx.assume(a < b)
        ctx.assume(b < n)
    m = ctx.int("other", 1, 10 ** 6)
    sizes = OrderedDict([("x", n), ("y", m)])
    chunk = OrderedDict([("x", slice(a, b)), ("y", slice(0, None))])
    got = ctx.run("mirror", WriteNode._invert_dims_, sizes, chunk, idims=set(["x"] if inv else []))
    ctx.check(list(got) == ["x", "y"], "same dimensions")
    x0, x1, x2 = slice_indices(got["x"], n)
    count = slice_count(x0, x1, x2)
    ctx.check_eq(count, (n if b is None else b) - a, "same number of elements")
    # element k of what is written comes from ...
    k = ctx.int("k", 0, 10 ** 6)
    ctx.assume(k < count)
    want = (n - 1 - (a + k)) if inv else a + k
    ctx.check_eq(x0 + k * x2, want, "source of element k")
    y0, y1, y2 = slice_indices(got["y"], m)
    ctx.check_eq(slice_count(y0, y1, y2), m, "other dimension untouched")
    ctx.check_eq(y0, 0, "other dimension untouched")
    if m > 1:
        ctx.check_eq(y2, 1, "other dimension untouched")


def chunked_mirror(ctx, chunk, count):
    """chunk iterator and mirror together: the read parts tile the reversed axis too"""
    ctx.inject(flownodes, "int", SYM_INT)
    n = ctx.int("size", 1, chunk * count)
    p = ctx.int("cell", 0, chunk * count)
    ctx.assume(p < n)
    sizes = OrderedDict([("x", n)])

    def go():
        out = []
        for ch in WriteNode._chunk_iter_(sizes, chunks={"x": chunk}):
            out.append((ch, WriteNode._invert_dims_(sizes, ch, idims=set(["x"]))))
        return out
    found = 0
    for w, r in ctx.run("chunks", go):
        a, b, _ = slice_indices(w["x"], n)
        if (a <= p) & (p < b) if is_sym(a <= p) or is_sym(p < b) else (a <= p and p < b):
            x0, x1, x2 = slice_indices(r["x"], n)
            ctx.check_eq(slice_count(x0, x1, x2), b - a, "as many read as written")
            ctx.check_eq(x0 + (p - a) * x2, n - 1 - p, "mirror image")
            found += 1
    ctx.check_eq(found, 1, "cell written once")


def cases(tier):
    out = []
    q = tier == "quick"
    one = [None] + list(range(1, 8)) + [12, 365] + ([] if q else [c for c in range(8, 65) if c != 12] + [366, 1000])
    for c in one:
        out.append(("1d:%s" % c, tiles, dict(chunks=[c], counts=[6 if q else 12])))
        if c:
            out.append(("mirror-chunks:%s" % c, chunked_mirror, dict(chunk=c, count=5 if q else 10)))
    two = [None, 1, 2, 3, 5] if q else [None, 1, 2, 3, 4, 5, 6, 7, 8]
    for a, b in itertools.product(two, two):
        k = 3 if q else 4
        out.append(("2d:%s:%s" % (a, b), tiles, dict(chunks=[a, b], counts=[k, k])))
    for t in ([(2, 2, 1), (None, 2, 3), (2, None, 2), (3, 2, None)] if q else
              list(itertools.product([None, 1, 2, 3], repeat=3))):
        out.append(("3d:%s" % ":".join(map(str, t)), tiles,
                    dict(chunks=list(t), counts=[2, 2, 2] if q else [3, 2, 2])))
    for inv in (True, False):
        for last in (True, False):
            out.append(("mirror:%s:%s" % (inv, last), mirror, dict(inv=inv, last=last)))
    return out
