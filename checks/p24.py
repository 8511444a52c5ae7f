"""P24: ocean functions of the number of levels in each column (KMT)."""
from checks.modlib import *    # noqa
from pyconform.modules import commonfunctions    # noqa

PROPERTY = dict(
    id="P24",
    title="Ocean functions use exactly the levels above the sea floor of each column",
    statement="KMT gives the number of ocean levels of each column: POP_bottom_layer gives the value at the deepest of them; diff_axis1_ind0bczero_4d the first level and then the differences of "
              "adjacent levels; rsdoabsorb the value less that of the next ocean level; both missing from level KMT on; POP_surf_mean and POP_3D_mean are means over the ocean cells weighted by "
              "area and (3D) layer thickness; POP_layer_sum_mult the sum over the ocean levels of the products, missing on land; POP_bottom_layer_multadd the sum over the columns with data of the "
              "product at the deepest level; sftof is 1 in the ocean and 0 on land. Values of land and of levels below the floor have no influence; missing values stay missing; units, "
              "dimensions, answers to empty requests and inputs as documented, whatever the values and KMT.",
    quantifier=dict(over=["inputs"], text="all data, areas, thicknesses and every KMT within bounds"),
    why_tests_cant="No test calls these functions; a wrong level shows only where the floor has a particular depth.",
    anchors=dict(files=["pyconform/modules/commonfunctions.py"], mechanism=[
        dict(name="levels", where="pyconform/modules/commonfunctions.py: POP_*, diff_axis1_ind0bczero_4d, rsdoabsorb, sftof")]),
)
META = dict(
    how="Data, areas and thicknesses are solver variables, as is KMT (paths of the real code branch on it); each result is compared with its definition over the ocean levels.",
    bounds=dict(quick="1-2 times, 1-3 levels, 2 columns (1x2, 2x1), KMT 0..levels", thorough="1-3 times, 1-4 levels, up to 4 columns"),
    outside="evaluation on parts of the levels",
    assumptions=["floats are reals", "land and levels below the floor hold missing values or anything at all"],
)


def setup(ctx, nt, nz, ny, nx, holes):
    k = ctx.ints("k", (ny, nx), lo=0, hi=nz)
    kmt = np.zeros((ny, nx), dtype=int)         # the numbers of levels on this path
    for ji in np.ndindex(ny, nx):
        kmt[ji] = depth(ctx, k[ji], nz)
    d = ctx.reals("v", (nt, nz, ny, nx), lo=-1000, hi=1000)
    K = mkphys(kmt, "KMT", ("j", "i"))
    if holes:
        d = masked(ctx, d, holes)
    return kmt, d, K


def masked(ctx, d, holes):
    return np.ma.array(d, mask=holes)


def depth(ctx, k, top):
    """concrete number of levels on this path"""
    for n in range(top + 1):
        if bool(k == n):
            return n
    raise AssertionError


def levels(ctx, kmt, nz):
    return {ji: int(kmt[ji]) for ji in np.ndindex(*kmt.shape)}


def bottom(ctx, nt, nz, ny, nx):
    kmt, d, K = setup(ctx, nt, nz, ny, nx, None)
    lev = levels(ctx, kmt, nz)
    mask = np.zeros(d.shape, dtype=bool)
    for (j, i), n in lev.items():
        mask[:, n:, j, i] = True
    dd = np.ma.array(d, mask=mask)
    want = table(ctx, (nt, ny, nx), lambda t, j, i: d[t, lev[j, i] - 1, j, i] if lev[j, i] else None)
    apply(ctx, "POP_bottom_layer", [K, mkphys(dd, "v", ("t", "z", "y", "x"), "K")], want, ("t", "y", "x"), "K")


def profile(ctx, nt, nz, ny, nx, key):
    kmt, d, K = setup(ctx, nt, nz, ny, nx, None)
    lev = levels(ctx, kmt, nz)
    Z = mkphys(farr(ctx, [float(k) for k in range(nz)]), "z_t", ("lev",), "m")

    def want(t, k, j, i):
        n = lev[j, i]
        if k >= n:
            return None
        if key == "rsdoabsorb":
            return d[t, k, j, i] - d[t, k + 1, j, i] if k + 1 < n else d[t, k, j, i]
        return d[t, k, j, i] - d[t, k - 1, j, i] if k else d[t, k, j, i]
    apply(ctx, key, [K, Z, mkphys(d, "v", ("t", "z", "y", "x"), "W m-2")], table(ctx, d.shape, want), ("t", "lev", "y", "x"), "W m-2")


def areas(ctx, ny, nx):
    return ctx.reals("a", (ny, nx), lo=1, hi=1000)


def surf(ctx, nt, ny, nx):
    kmt, d, K = setup(ctx, nt, 1, ny, nx, None)
    lev = levels(ctx, kmt, 1)
    d = d[:, 0]
    a = areas(ctx, ny, nx)
    sea = [p for p in lev if lev[p]]
    if not sea:
        return
    den = sum((a[p] for p in sea[1:]), a[sea[0]])
    want = table(ctx, (nt,), lambda t: sum((a[p] * d[(t,) + p] for p in sea[1:]), a[sea[0]] * d[(t,) + sea[0]]))
    args = [K, mkphys(a, "TAREA", ("j", "i"), "cm2"), mkphys(d, "v", ("t", "y", "x"), "K")]
    scaled(ctx, "POP_surf_mean", args, want, den)


def scaled(ctx, key, args, want, den):
    """key(*args) times the sum of the weights is `want`"""
    node = node_of(ctx, key, args)
    for x in (ctx.run("empty request", lambda: node[None]), ctx.run(key, lambda: node[:])):
        ctx.check(x.dimensions == ("t",) and x.units == Unit("K") and x.positive is None, "%s: %s %s" % (key, x.dimensions, x.units))
    got = raw(x)
    ctx.check_array(np.ma.array(np.ma.getdata(got) * den), want, key)


def mean3(ctx, nt, nz, ny, nx):
    kmt, d, K = setup(ctx, nt, nz, ny, nx, None)
    lev = levels(ctx, kmt, nz)
    a = areas(ctx, ny, nx)
    dz = ctx.reals("dz", (nz,), lo=1, hi=100)
    sea = [(k,) + p for p in lev for k in range(lev[p])]
    if not sea:
        return
    w = {c: dz[c[0]] * a[c[1:]] for c in sea}
    den = sum((w[c] for c in sea[1:]), w[sea[0]])
    want = table(ctx, (nt,), lambda t: sum((w[c] * d[(t,) + c] for c in sea[1:]), w[sea[0]] * d[(t,) + sea[0]]))
    args = [K, mkphys(dz, "dz", ("z",), "cm"), mkphys(a, "TAREA", ("j", "i"), "cm2"), mkphys(d, "v", ("t", "z", "y", "x"), "K")]
    scaled(ctx, "POP_3D_mean", args, want, den)


def sums(ctx, nt, nz, ny, nx):
    kmt, d, K = setup(ctx, nt, nz, ny, nx, None)
    lev = levels(ctx, kmt, nz)
    for (j, i), n in lev.items():
        d[:, n:, j, i] = 1e20
    dz = ctx.reals("dz", (nz,), lo=1, hi=100)
    D = mkphys(d, "v", ("t", "z", "y", "x"), "K")
    Z = mkphys(dz, "dz", ("z",), "cm")

    def want(t, j, i):
        n = lev[j, i]
        if not n:
            return None
        return sum((dz[k] * d[t, k, j, i] for k in range(1, n)), dz[0] * d[t, 0, j, i])
    apply(ctx, "POP_layer_sum_mult", [K, Z, D], table(ctx, (nt, ny, nx), want), ("t", "y", "x"), "cm K")

    def bot(t):
        r = 0.0
        for (j, i), n in lev.items():
            if n:
                r = r + dz[n - 1] * d[t, n - 1, j, i]
        return r
    apply(ctx, "POP_bottom_layer_multadd", [K, Z, D], table(ctx, (nt,), bot), ("t",), "cm K")


def land(ctx, ny, nx):
    kmt, d, K = setup(ctx, 1, 5, ny, nx, None)
    lev = levels(ctx, kmt, 5)
    apply(ctx, "sftof", [K], table(ctx, (ny, nx), lambda j, i: 1.0 if lev[j, i] else 0.0), ("j", "i"), "1")


def cases(tier):
    q = tier == "quick"
    out = []
    shapes = [(2, 1, 1, 2), (1, 2, 2, 1), (2, 3, 1, 1), (1, 3, 1, 2)]
    if not q:
        shapes += [(1, 4, 1, 2), (3, 2, 2, 1), (1, 2, 1, 3), (1, 1, 2, 2), (2, 2, 1, 2)]
    for nt, nz, ny, nx in shapes:
        s = dict(nt=nt, nz=nz, ny=ny, nx=nx)
        tag = "%d%d%d%d" % (nt, nz, ny, nx)
        out.append(("bottom:" + tag, bottom, s))
        for key in ("diff_axis1_ind0bczero_4d", "rsdoabsorb"):
            out.append(("%s:%s" % (key, tag), profile, dict(s, key=key)))
        out.append(("mean3:" + tag, mean3, s))
        out.append(("sums:" + tag, sums, s))
        out.append(("surf:" + tag, surf, dict(nt=nt, ny=ny, nx=nx)))
    out.append(("sftof:22", land, dict(ny=2, nx=1)))
    return out
