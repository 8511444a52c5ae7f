"""P25: CLM results on vectors of land units and plant types are put on the grid."""
from checks.modlib import *    # noqa
from pyconform.modules import CLM_landunit_to_CMIP6_Lut, CLM_pft_to_CMIP6_vegtype    # noqa

PROPERTY = dict(
    id="P25",
    title="CLM land-unit and plant vectors go to the right grid cell, tile and mean",
    statement="CLM_landunit_to_CMIP6_Lut puts into each grid cell the value of its active vegetated land unit (veg, type 1), of its crop unit (crop, type 2), and the mean, weighted by their fraction "
              "of the cell, of its urban units (urban, types 7-9); 'all' gives the four tiles in the order veg, pasture, crop, urban. CLM_pft_to_CMIP6_vegtype gives the mean over the active grass "
              "(types 12-14), shrub (9-11) or tree (1-8) plants of the cell, weighted by their fraction of the land unit, where the cell has a vegetated land unit. Inactive units and those with no "
              "fraction of the cell have no influence; a cell without such a unit, pasture, and cells that are not land are missing, also where the unit's value is missing; units come from the "
              "data, dimensions from the coordinates, also in the answer to an empty request; inputs are unchanged.",
    quantifier=dict(over=["inputs"], text="all values, fractions, types, activity flags and positions of the units within bounds"),
    why_tests_cant="No test calls these functions; a unit assigned to the wrong cell or tile shows only for particular distributions of units.",
    anchors=dict(files=["pyconform/modules/CLM_landunit_to_CMIP6_Lut.py", "pyconform/modules/CLM_pft_to_CMIP6_vegtype.py"], mechanism=[
        dict(name="land units", where="pyconform/modules/CLM_landunit_to_CMIP6_Lut.py"),
        dict(name="plant types", where="pyconform/modules/CLM_pft_to_CMIP6_vegtype.py")]),
)
META = dict(
    how="Values, fractions, types and activity of every unit are solver variables, the paths of the real code branch on them; each grid value is compared with its definition over the units of the cell.",
    bounds=dict(quick="grids 1x2, 2x1, 2x2 with 1-3 land cells, 2-3 units, 1-2 times", thorough="3-4 units, 1-3 times"),
    outside="several vegetated or crop units in one cell (CLM has one of each), plants of a type present with zero fraction of the land unit but not of the cell",
    assumptions=["floats are reals", "at most one active unit of type 1 and one of type 2 with a fraction of the cell, per cell"],
)
LON = [0.0, 1.25, 2.5]
LAT = [-30.0, 10.0, 45.0]


def grid(ctx, ny, nx, land):
    """coordinates and the 1d list of land cells: land = [(j, i)...]"""
    lat = mkphys(farr(ctx, LAT[:ny]), "lat", ("lat",), "degrees_north")
    lon = mkphys(farr(ctx, LON[:nx]), "lon", ("lon",), "degrees_east")
    g = [np.array([i + 1 for j, i in land]), np.array([j + 1 for j, i in land]), np.array([LON[i] for j, i in land]), np.array([LAT[j] for j, i in land])]
    g = [mkphys(v, n, ("gridcell",)) for v, n in zip(g, ("ixy", "jxy", "glon", "glat"))]
    return lat, lon, g


def lonlat(cells, dim):
    return [mkphys(np.array([LON[i] for j, i in cells]), dim + "lon", (dim,)), mkphys(np.array([LAT[j] for j, i in cells]), dim + "lat", (dim,))]


def mean(vals, wts):
    s = vals[0] * wts[0]
    w = wts[0]
    for a, b in zip(vals[1:], wts[1:]):
        s, w = s + a * b, w + b
    return s / w


def holds(v):
    return bool(v)


def data(ctx, nt, n, miss):
    d = ctx.reals("v", (nt, n), lo=-1000, hi=1000)
    for k in miss:
        d[:, k] = 1e36
    return d


def kinds(ctx, types):
    """types and activity of the units: symbolic where a range of types is given"""
    ty = np.empty(len(types), dtype=object if ctx.symbolic else int)
    act = np.ones(len(types), dtype=object if ctx.symbolic else int)
    for k, (a, b) in enumerate(types):
        ty[k] = a
        if a < b:
            ty[k], act[k] = ctx.int("ty%d" % k, a, b), ctx.int("act%d" % k, 0, 1)
    return ty, act


def tiles(ctx, nt, ny, nx, land, units, types, veg, miss=()):
    """units: cell of each land unit; types: (lo, hi) of each type; veg: what is asked for"""
    n = len(units)
    lat, lon, g = grid(ctx, ny, nx, land)
    ty, act = kinds(ctx, types)
    w = np.array([ctx.real("w%d" % k, lo=0 if types[k][0] < types[k][1] else 0.0078125, hi=1) for k in range(n)], dtype=object if ctx.symbolic else float)
    d = data(ctx, nt, n, miss)
    time = mkphys(farr(ctx, [float(t) for t in range(nt)]), "time", ("time",))
    lu = mkphys(farr(ctx, [0., 1., 2., 3.]), "landUse", ("landUse",))
    used = [holds(act[k] == 1) and holds(w[k] > 0) for k in range(n)]
    for k in range(n):
        if used[k]:
            ctx.assume(w[k] >= 0.0078125)
    kind = {}
    for k in range(n):
        if used[k]:
            kind[k] = "veg" if holds(ty[k] == 1) else "crop" if holds(ty[k] == 2) else "urban" if holds(ty[k] >= 7) and holds(ty[k] <= 9) else "other"
    at = {}
    for k in kind:
        at.setdefault((units[k], kind[k]), []).append(k)
    ctx.assume(all(len(v) == 1 for (c, t), v in at.items() if t in ("veg", "crop")))
    args = [mkphys(d, "v", ("time", "landunit"), "W m-2"), veg, time, lat, lon] + g + lonlat(units, "landunit") + \
        [mkphys(ty, "ty", ("landunit",)), mkphys(act, "act", ("landunit",)), mkphys(w, "w", ("landunit",)), lu]

    def want(tile, t, j, i):
        ks = at.get(((j, i), tile), [])
        if (j, i) not in land or not ks or any(k in miss for k in ks):
            return None
        return mean([d[t, k] for k in ks], [w[k] for k in ks])
    if veg == "all":
        order = ("veg", "pasture", "crop", "urban")
        exp = table(ctx, (nt, 4, ny, nx), lambda t, l, j, i: want(order[l], t, j, i))
        apply(ctx, "CLM_landunit_to_CMIP6_Lut", args, exp, ("time", "landUse", "lat", "lon"), "W m-2")
    else:
        exp = table(ctx, (nt, ny, nx), lambda t, j, i: want(veg, t, j, i))
        apply(ctx, "CLM_landunit_to_CMIP6_Lut", args, exp, ("time", "lat", "lon"), "W m-2")


RANGE = dict(grass=(12, 14), shrub=(9, 11), tree=(1, 8))


def plants(ctx, nt, ny, nx, land, units, cells, veg, types, miss=()):
    """units: cells of the land units (types symbolic); cells: cell of each plant"""
    n = len(cells)
    lat, lon, g = grid(ctx, ny, nx, land)
    lt = np.array([ctx.int("lt%d" % k, 1, 2) for k in range(len(units))], dtype=object if ctx.symbolic else int)
    ty, act = kinds(ctx, types)
    wc = np.array([ctx.real("wc%d" % k, lo=0 if types[k][0] < types[k][1] else 0.0078125, hi=1) for k in range(n)], dtype=object if ctx.symbolic else float)
    w = ctx.reals("w", (n,), lo=0.0078125, hi=1)
    d = data(ctx, nt, n, miss)
    time = mkphys(farr(ctx, [float(t) for t in range(nt)]), "time", ("time",))
    lo, hi = RANGE[veg]
    vegcells = [c for c, v in zip(units, lt) if holds(v == 1)]
    at = {}
    for k in range(n):
        if holds(act[k] == 1) and holds(wc[k] > 0) and holds(ty[k] >= lo) and holds(ty[k] <= hi):
            at.setdefault(cells[k], []).append(k)
    args = [mkphys(d, "v", ("time", "pft"), "g m-2"), veg, time, lat, lon] + g + lonlat(units, "landunit") + [mkphys(lt, "lt", ("landunit",))] + lonlat(cells, "pft") + \
        [mkphys(act, "act", ("pft",)), mkphys(ty, "ty", ("pft",)), mkphys(wc, "wc", ("pft",)), mkphys(w, "w", ("pft",))]

    def want(t, j, i):
        ks = at.get((j, i), [])
        if (j, i) not in land or (j, i) not in vegcells or not ks or any(k in miss for k in ks):
            return None
        return mean([d[t, k] for k in ks], [w[k] for k in ks])
    apply(ctx, "CLM_pft_to_CMIP6_vegtype", args, table(ctx, (nt, ny, nx), want), ("time", "lat", "lon"), "g m-2")


def cases(tier):
    q = tier == "quick"
    out = []
    a, b, c, e = (0, 0), (0, 1), (1, 0), (1, 1)
    lands = [("12", 1, 2, [a, b], [a, b, a]), ("21", 2, 1, [c], [c, c]), ("22", 2, 2, [b, c], [c, b, b])]
    if not q:
        lands += [("22b", 2, 2, [a, e, c], [e, a, c, e]), ("13", 1, 3, [b, (0, 2)], [(0, 2), b, b])]

    def mix(k, n, free, *fixed):
        """types of the units: unit k (and in the deep runs the next) is free"""
        t = [fixed[i % len(fixed)] for i in range(n)]
        t = [(x, x) for x in t]
        t[k] = free
        if not q or n == 2:
            t[(k + 1) % n] = free
        return t
    for tag, ny, nx, land, units in lands:
        n = len(units)
        for k in range(1 if n == 2 else n):
            for veg, free, fixed in (("veg", (1, 2), (3, 4)), ("crop", (1, 3), (8, 1)), ("urban", (6, 7), (8, 9)), ("urban", (9, 10), (7, 2)), ("pasture", (1, 2), (2, 7)), ("all", (6, 7), (1, 2, 9, 8)), ("all", (2, 3), (9, 1, 8, 7))):
                if veg == "pasture" and k:
                    continue
                out.append(("tiles:%s:%d:%s%d" % (tag, k, veg, free[0]), tiles, dict(nt=1 + k % 2, ny=ny, nx=nx, land=land, units=units, types=mix(k, n, free, *fixed), veg=veg)))
            for veg, (lo, hi) in RANGE.items():
                for edge, free, fixed in (("lo", (lo - 1, lo), (hi, lo)), ("hi", (hi, hi + 1), (lo, hi - 1))):
                    out.append(("plants:%s:%d:%s:%s" % (tag, k, veg, edge), plants, dict(nt=2 - k % 2, ny=ny, nx=nx, land=land, units=land, cells=units, veg=veg, types=mix(k, n, free, *fixed))))
        out.append(("tiles:%s:miss" % tag, tiles, dict(nt=1, ny=ny, nx=nx, land=land, units=units, types=[(1, 1)] + [(8, 9)] + [(9, 9)] * (n - 2), veg="all", miss=(1,))))
        out.append(("plants:%s:miss" % tag, plants, dict(nt=1, ny=ny, nx=nx, land=land, units=land, cells=units, veg="tree", types=[(3, 4)] + [(8, 8)] * (n - 1), miss=(0,))))
    return out
