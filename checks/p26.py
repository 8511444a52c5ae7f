"""P26: functions that select, combine and rearrange (land use, soil pools, basins, sea ice, hemispheres)."""
from checks.modlib import *    # noqa
from pyconform.modules import commonfunctions    # noqa

PROPERTY = dict(
    id="P26",
    title="Functions that select and rearrange put every value in its documented place",
    statement="reduce_lu turns nine land-use tiles into four (the first, zero, the second, the sum of the last three); get_soilpools joins three pools along the pool dimension in their order; "
              "get_nonwoodyveg gives grass (the sum of plant types 12-14), 0, 100 where there is crop, and 0 for cells of land, missing outside; expand_latlon repeats a series over the grid; "
              "ocean_basin gives, for one component of the transport, Atlantic, global less Atlantic, and global with its last two axes exchanged; hemisphere gives the upper (>) or lower (<) half "
              "along the named axis; cice_where takes var where the comparison with the constant holds and the value elsewhere; cice_regions sums over each strait's cell faces the mean "
              "concentration times the mean velocity times the length of the face, without cells that have no data; masked_invalid masks NaN and infinite values and changes nothing else. Missing "
              "values stay missing, units and dimension names as documented, also without data; inputs unchanged.",
    quantifier=dict(over=["inputs"], text="all data values and shapes within bounds"),
    why_tests_cant="No test calls these functions; an exchanged index shows only in values.",
    anchors=dict(files=["pyconform/modules/commonfunctions.py"], mechanism=[
        dict(name="rearranging", where="pyconform/modules/commonfunctions.py: reduce_lu, get_soilpools, get_nonwoodyveg, expand_latlon, ocean_basin"),
        dict(name="selection", where="pyconform/modules/commonfunctions.py: hemisphere, cice_where, cice_regions, masked_invalid")]),
)
META = dict(
    how="Each element of the result is compared with its definition over the input elements, all of which are solver variables.",
    bounds=dict(quick="1-2 times, grids up to 2x3 (cice_regions: its fixed grid, symbolic at the faces of one strait at a time)", thorough="more shapes"),
    outside="evaluation on parts of the selected dimension",
    assumptions=["floats are reals", "reduce_lu keeps missing cells as the fill value 1e20"],
)


def grid(ctx, name, shape, holes=(), lo=-1000, fill=1e36):
    d = ctx.reals(name, shape, lo=lo, hi=1000)
    return put(ctx, d, holes, fill)


def lu(ctx, nt, ny, nx, hole):
    hs = [(slice(None), slice(None), 0, 0)] if hole else []
    d = grid(ctx, "v", (nt, 9, ny, nx), hs)
    L = mkphys(farr(ctx, [0., 1., 2., 3.]), "lu", ("landUse",))

    def want(t, l, j, i):
        if hole and (j, i) == (0, 0) and l != 1:
            return 1e20
        return (d[t, 0, j, i], 0.0, d[t, 1, j, i], d[t, 6, j, i] + d[t, 7, j, i] + d[t, 8, j, i])[l]
    w = table(ctx, (nt, 4, ny, nx), want)
    apply(ctx, "reduce_lu", [mkphys(d, "v", ("t", "tile", "y", "x"), "%"), L], w, ("t", "landUse", "y", "x"), "%")


def pools(ctx, nt, ny, nx, hole):
    ds = [grid(ctx, "v%d_" % k, (nt, ny, nx), [(slice(None), 0, 0)] if hole == k else []) for k in range(3)]
    P = mkphys(farr(ctx, [1., 2., 3.]), "pool", ("pool",))
    w = table(ctx, (nt, 3, ny, nx), lambda t, p, j, i: None if hole == p and (j, i) == (0, 0) else ds[p][t, j, i])
    apply(ctx, "get_soilpools", [mkphys(d, "v%d" % k, ("t", "y", "x"), "kg m-2") for k, d in enumerate(ds)] + [P], w, ("t", "pool", "y", "x"), "kg m-2")


def nonwoody(ctx, nt, ny, nx, hole):
    n = grid(ctx, "n", (nt, 15, ny, nx), [(slice(None), slice(None), 0, 0)] if hole else [], lo=0)
    c = grid(ctx, "c", (nt, 2, ny, nx), lo=0)
    lf = grid(ctx, "lf", (ny, nx), [(0, 0)] if hole else [], lo=0)
    land = {p: not (hole and p == (0, 0)) and bool(lf[p] <= 1) for p in np.ndindex(ny, nx)}
    L = mkphys(farr(ctx, [0., 1., 2., 3.]), "lu", ("landUse",))

    def want(t, l, j, i):
        if l == 0:
            return None if hole and (j, i) == (0, 0) else n[t, 12, j, i] + n[t, 13, j, i] + n[t, 14, j, i]
        if not land[j, i]:
            return None
        return (100.0 if bool(c[t, 1, j, i] > 0) else 0.0) if l == 2 else 0.0
    w = table(ctx, (nt, 4, ny, nx), want)
    apply(ctx, "get_nonwoodyveg", [mkphys(n, "n", ("t", "pft", "y", "x"), "%"), mkphys(c, "c", ("t", "cft", "y", "x"), "%"), mkphys(lf, "lf", ("y", "x")), L], w, ("t", "landUse", "y", "x"), "%")


def expand(ctx, nt, ny, nx, hole):
    d = grid(ctx, "v", (nt,), [0] if hole else [])
    lat, lon = mkphys(farr(ctx, [float(k) for k in range(ny)]), "lat", ("lat",)), mkphys(farr(ctx, [float(k) for k in range(nx)]), "lon", ("lon",))
    apply(ctx, "expand_latlon", [mkphys(d, "v", ("t",), "ppm"), lat, lon], table(ctx, (nt, ny, nx), lambda t, j, i: None if hole and t == 0 else d[t]), ("t", "lat", "lon"), "ppm")


def basin(ctx, nt, nl, ny, comp, hole):
    d = grid(ctx, "v", (nt, 2, 3, nl, ny), [(slice(None), slice(None), slice(None), 0, 0)] if hole else [])
    B = mkphys(farr(ctx, [0., 1., 2.]), "basin", ("basin",))

    def want(t, y, z, b):
        g, a = d[t, 0, comp, z, y], d[t, 1, comp, z, y]
        if hole and (z, y) == (0, 0):
            return 0.0 if b == 1 else None
        return (a, g - a, g)[b]
    apply(ctx, "ocean_basin", [mkphys(d, "v", ("t", "region", "comp", "z", "y"), "m3 s-1"), comp, B], table(ctx, (nt, ny, nl, 3), want), ("t", "y", "z", "basin"), "m3 s-1")


def half(ctx, shape, dim, dr, hole):
    d = grid(ctx, "v", shape)
    dims = ("time", "lat", "lon")
    k = dims.index(dim)
    n = shape[k]
    s = slice(n // 2, n) if dr == ">" else slice(0, n // 2)
    sl = tuple(s if j == k else slice(None) for j in range(3))
    data = np.ma.array(d, mask=np.zeros(shape, bool))
    if hole:
        data.mask[0, -1, 0] = True
        data.mask[0, 0, 0] = True
    apply(ctx, "hemisphere", [mkphys(data, "v", dims, "K")], data[sl], dims, "K", kw=dict(dim=dim, dr=dr))


OPS = {">=": lambda a, b: a >= b, "<=": lambda a, b: a <= b, "==": lambda a, b: a == b, "<": lambda a, b: a < b, ">": lambda a, b: a > b}


def where(ctx, nt, ny, nx, op, hole):
    d = grid(ctx, "v", (nt, ny, nx))
    area = grid(ctx, "a", (ny, nx))
    data = np.ma.array(d, mask=np.zeros(d.shape, bool))
    if hole:
        data.mask[:, 0, 0] = True
    c, other = ctx.choice("constants", [(15.0, -1.0), (0, 0), (-2, 3), (0.5, 1e3)])
    want = table(ctx, d.shape, lambda t, j, i: None if hole and (j, i) == (0, 0) else (area[j, i] if bool(OPS[op](d[t, j, i], c)) else other))
    apply(ctx, "cice_where", [mkphys(data, "v", ("t", "y", "x")), op, c, mkphys(area, "area", ("y", "x"), "m2"), other], want, ("t", "y", "x"), "m2")


# faces of each strait: (axis crossed, j, i)
FACES = [
    [("e", j, 92) for j in range(370, 381)],
    [(a, j, 214) for j in range(375, 377) for a in "en"] + [(a, 366, i) for i in range(240, 244) for a in "en"],
    [("e", j, 85) for j in range(344, 366)],
    [("n", 333, i) for i in range(198, 201)],
]


def regions(ctx, r, nt, part, hole):
    ny, nx = 382, 246
    multiple = -1.5 if r == 2 else 2.0 + part
    faces = FACES[r]
    use = faces[part::3] if len(faces) > 8 else faces
    if r == 1:
        use = [f for k, f in enumerate(faces) if (k // 2) % 3 == part]
    dt = object if ctx.symbolic else float
    c, u, v = [np.zeros((nt, ny, nx), dtype=dt) for _ in range(3)]
    hte, htn = np.zeros((ny, nx), dtype=dt), np.zeros((ny, nx), dtype=dt)
    sym = set()

    def s(arr, name, p):
        if (name, p) not in sym:
            sym.add((name, p))
            arr[p] = ctx.real("%s_%s" % (name, "_".join(map(str, p))), lo=0 if name != "u" and name != "v" else -10, hi=10)
    total = []
    for t in range(nt):
        terms = []
        for a, j, i in use:
            n = (j, i + 1) if a == "e" else (j + 1, i)
            b = (j - 1, i) if a == "e" else (j, i - 1)
            s(c, "c", (t, j, i)), s(c, "c", (t,) + n)
            vel, ln = (u, hte) if a == "e" else (v, htn)
            s(vel, "u" if a == "e" else "v", (t, j, i)), s(vel, "u" if a == "e" else "v", (t,) + b)
            s(ln, "hte" if a == "e" else "htn", (j, i))
        if hole:
            a, j, i = use[0]
            c[t, j, i] = 1e30 if hole == "c" else c[t, j, i]
            if hole == "u":
                (u if a == "e" else v)[t, j, i] = 1e30
        for a, j, i in use:
            n = (j, i + 1) if a == "e" else (j + 1, i)
            b = (j - 1, i) if a == "e" else (j, i - 1)
            if hole == "c" and ((j, i) == use[0][1:] or n == use[0][1:]):
                continue
            vel, ln = (u, hte) if a == "e" else (v, htn)
            x, y = [0.0 if hole == "u" and q == use[0][1:] and a == use[0][0] else vel[(t,) + q] for q in ((j, i), b)]
            terms.append((c[t, j, i] + c[(t,) + n]) / 2 * (x + y) / 2 * ln[j, i])
        total.append(sum(terms[1:], terms[0]) * multiple if terms else 0.0)
    want = table(ctx, (nt, 4), lambda t, k: total[t] if k == r else 0.0)
    before = [list(x.flat) for x in (c, u, v)]
    D = ("t", "j", "i")
    args = [mkphys(c, "aice", D), mkphys(u, "uvel", D, "m s-1"), mkphys(v, "vvel", D, "m s-1"), mkphys(hte, "HTE", D[1:], "m"), mkphys(htn, "HTN", D[1:], "m"),
            mkphys(farr(ctx, [0., 1., 2., 3.]), "siline", ("siline",)), multiple]
    node = node_of(ctx, "cice_regions", args)
    for x in (ctx.run("empty request", lambda: node[None]) if r == 3 and not hole else None, ctx.run("cice_regions", lambda: node[:])):
        if x is not None:
            ctx.check(x.dimensions == ("t", "siline") and x.units == Unit("m s-1"), "cice_regions: %s %s" % (x.dimensions, x.units))
    ctx.check_array(raw(x), want, "cice_regions")
    for o, b, n in zip((c, u, v), before, ("concentration", "u", "v")):
        ctx.check(all(x is y or (type(x) is type(y) and isinstance(x, float) and x == y) for x, y in zip(o.flat, b)), "%s changed" % n)


def invalid(ctx, bad, pre):
    d = grid(ctx, "v", (2, 2))
    vals = np.array(d)
    m = np.zeros((2, 2), bool)
    if bad is not None:
        vals[0, 1] = bad
        m[0, 1] = True
    if pre:
        m[1, 0] = True
    data = np.ma.array(vals, mask=[[False, False], [pre, False]])
    node = node_of(ctx, "masked_invalid", [mkphys(data, "v", ("y", "x"), "K")])
    for x in (ctx.run("empty request", lambda: node[None]), ctx.run("masked_invalid", lambda: node[:])):
        ctx.check(x.dimensions == ("y", "x") and x.units == Unit("K"), "masked_invalid: %s %s" % (x.dimensions, x.units))
    ctx.check_array(raw(x), np.ma.array(d, mask=m), "masked_invalid")


def cases(tier):
    q = tier == "quick"
    out = []
    shapes = [(2, 1, 2), (1, 2, 3)] if q else [(2, 1, 2), (1, 2, 3), (3, 2, 2), (1, 3, 1), (2, 3, 2)]
    for sh in shapes:
        tag = "%d%d%d" % sh
        for hole in (False, True):
            h = "hole" if hole else "full"
            kw = dict(nt=sh[0], ny=sh[1], nx=sh[2], hole=hole)
            out.append(("lu:%s:%s" % (tag, h), lu, kw))
            out.append(("expand:%s:%s" % (tag, h), expand, kw))
            if sh[1] * sh[2] <= (2 if q else 3):
                out.append(("nonwoody:%s:%s" % (tag, h), nonwoody, kw))
            for comp in range(3):
                if q and comp and hole:
                    continue
                out.append(("basin:%s:%s:%d" % (tag, h, comp), basin, dict(nt=sh[0], nl=sh[1], ny=sh[2], comp=comp, hole=hole)))
            for op in OPS:
                if np.prod(sh) <= 6 and not (q and hole and op != ">="):
                    out.append(("where:%s:%s:%s" % (tag, h, op), where, dict(kw, op=op)))
        for hole in (None, 0, 1, 2):
            out.append(("pools:%s:%s" % (tag, hole), pools, dict(nt=sh[0], ny=sh[1], nx=sh[2], hole=hole)))
    for shape in ((2, 4, 1), (2, 3, 2), (3, 2, 4), (1, 5, 3)):
        for dim in ("time", "lat", "lon"):
            for dr in "<>":
                out.append(("half:%s:%s:%s" % ("".join(map(str, shape)), dim, dr), half, dict(shape=shape, dim=dim, dr=dr, hole=shape[1] == 3)))
    for r in range(4):
        for part in range(3 if r < 3 else 1):
            for hole in (None, "c", "u"):
                if q and hole and part:
                    continue
                out.append(("regions:%d:%d:%s" % (r, part, hole), regions, dict(r=r, nt=2 if r == 3 else 1, part=part, hole=hole)))
    for bad in (None, float("nan"), float("inf"), float("-inf")):
        for pre in (False, True):
            out.append(("invalid:%s:%d" % (bad, pre), invalid, dict(bad=bad, pre=pre)))
    return with_hidden(out, lambda kw: kw.get("hole") not in (None, False))
