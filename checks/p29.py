"""P29: DynVarMIP diagnostics."""
from checks.modlib import *    # noqa
from pyconform.modules import dynvarmipdiags, dynvarmipfunctions    # noqa

PROPERTY = dict(
    id="P29",
    title="DynVarMIP diagnostics satisfy the transformed Eulerian mean equations",
    statement="With pressure p = 100 lev, latitude phi, psi = v'theta' / (d theta/dp), omega = -w p/H, f = 2 Omega sin phi and m = f - d(u cos phi)/(a cos phi d phi): vtem = v - d psi/dp; "
              "omega* = omega + d(psi cos phi)/(a cos phi d phi) and wtem = -H omega*/p; utendvtem = vtem m; utendwtem = -omega* du/dp; F_phi = a cos phi (psi du/dp - u'v') and epfy = F_phi p/p0; "
              "F_p = a cos phi (m psi - u'omega') and epfz = -H F_p/p0; utendepfd = (d(F_phi cos phi)/(a cos phi d phi) + dF_p/dp)/(a cos phi); psitem = 2 pi a cos phi / g (integral of v from p = 0 - psi), "
              "with three-point derivatives and the spline integral, for every time on its own. The units are those of these expressions (tendencies: m s-2), dimensions those of the last argument, also without data, and inputs do not change.",
    quantifier=dict(over=["inputs"], text="all zonal mean fields within bounds"),
    why_tests_cant="No test calls these functions; a sign or factor shows only in values.",
    anchors=dict(files=["pyconform/modules/dynvarmipdiags.py", "pyconform/modules/dynvarmipfunctions.py"], mechanism=[
        dict(name="diagnostics", where="pyconform/modules/dynvarmipdiags.py"),
        dict(name="functions", where="pyconform/modules/dynvarmipfunctions.py")]),
)
META = dict(
    how="The zonal mean fields are solver variables; the result of each function is compared with its equation, with Lagrange derivatives written out.",
    bounds=dict(quick="3-4 levels, 3 latitudes, 1-2 times; potential temperature symbolic at one place at a time", thorough="3-4 levels, 3-4 latitudes"),
    outside="missing values, levels in other units than hPa, the poles",
    assumptions=["floats are reals", "potential temperature decreases with pressure"],
)
A, OM, H, P0, G = 6.37123e6, 7.29212e-5, 7000.0, 101325.0, 9.80665
LEV = {3: [100., 300., 1000.], 4: [50., 100., 300., 1000.]}
LAT = {3: [-50., 10., 40.], 4: [-70., -50., 10., 40.]}


class Coordinates(object):
    """symbolic runs: vectors hold coordinates, which are plain numbers (dividing them by zero is no error)"""

    def __init__(self, real):
        self._real = real

    def __getattr__(self, k):
        return getattr(self._real, k)

    def zeros(self, shape, *args, **kw):
        return np.zeros(shape, *args, **kw) if np.ndim(shape) == 0 or len(shape) == 1 else self._real.zeros(shape, *args, **kw)


def ddx(x, y, i):
    n = len(x)
    k = min(max(i, 1), n - 2)
    a, b, c = x[k - 1], x[k], x[k + 1]
    at = x[i]
    return y[k - 1] * ((2 * at - b - c) / ((a - b) * (a - c))) + y[k] * ((2 * at - a - c) / ((b - a) * (b - c))) + y[k + 1] * ((2 * at - a - b) / ((c - a) * (c - b)))


class Fields(object):
    def __init__(self, ctx, nt, nl, ny, free, th):
        self.nt, self.nl, self.ny = nt, nl, ny
        self.p = [100 * v for v in LEV[nl]]
        self.phi = [math.radians(v) for v in LAT[ny]]
        self.cos = [math.cos(v) for v in self.phi]
        sh = (nt, nl, ny)
        for k, n in enumerate(("u", "v", "w", "vth", "uv", "uw")):
            if n in free:
                setattr(self, n, ctx.reals(n, sh, lo=-100, hi=100))
            else:
                setattr(self, n, np.array([7.0 * math.sin(5 + 3.7 * j + 11.3 * k) for j in range(nt * nl * ny)]).reshape(sh))
        t = np.empty(sh, dtype=object if ctx.symbolic else float)
        for i in np.ndindex(*sh):
            t[i] = 400.0 - 30.0 * i[1] ** 1.5 + 2 * i[2] + 5 * i[0]
        if th is not None:
            t[th] = t[th] + ctx.real("th", lo=-1, hi=1)
        self.th = t

    def psi(self, t, z, y):
        return self.vth[t, z, y] / ddx(self.p, self.th[t, :, y], z)

    def m(self, t, z, y):
        uc = [self.u[t, z, k] * self.cos[k] for k in range(self.ny)]
        return 2 * OM * math.sin(self.phi[y]) - ddx(self.phi, uc, y) / (A * self.cos[y])

    def vtem(self, t, z, y):
        return self.v[t, z, y] - ddx(self.p, [self.psi(t, k, y) for k in range(self.nl)], z)

    def omega(self, t, z, y):
        pc = [self.psi(t, z, k) * self.cos[k] for k in range(self.ny)]
        return self.w[t, z, y] * (-self.p[z] / H) + ddx(self.phi, pc, y) / (A * self.cos[y])

    def wtem(self, t, z, y):
        return self.omega(t, z, y) * (-H / self.p[z])

    def utendvtem(self, t, z, y):
        return self.vtem(t, z, y) * self.m(t, z, y)

    def utendwtem(self, t, z, y):
        return -self.omega(t, z, y) * ddx(self.p, self.u[t, :, y], z)

    def fphi(self, t, z, y):
        return (ddx(self.p, self.u[t, :, y], z) * self.psi(t, z, y) - self.uv[t, z, y]) * (A * self.cos[y])

    def epfy(self, t, z, y):
        return self.fphi(t, z, y) * (self.p[z] / P0)

    def fp(self, t, z, y):
        return (self.m(t, z, y) * self.psi(t, z, y) + self.uw[t, z, y] * (self.p[z] / H)) * (A * self.cos[y])

    def epfz(self, t, z, y):
        return self.fp(t, z, y) * (-H / P0)

    def utendepfd(self, t, z, y):
        a = ddx(self.phi, [self.fphi(t, z, k) * self.cos[k] for k in range(self.ny)], y) / (A * self.cos[y])
        b = ddx(self.p, [self.fp(t, k, y) for k in range(self.nl)], z)
        return (a + b) / (A * self.cos[y])

    def psitem(self, t, z, y):
        from pyconform.modules.idl import int_tabulated
        n = z + 2
        vals = np.empty((n,), dtype=self.v.dtype)
        vals[0] = 0.0
        vals[1:] = self.v[t, :z + 1, y]
        i = int_tabulated(np.array([0.0] + self.p[:z + 1]), vals)
        return (i - self.psi(t, z, y)) * (2 * math.pi * A * self.cos[y] / G)


SPEC = dict(    # arguments, units, direction, size of the values
    wtem=("w vth th", "m s-1", None, 1.0), utendwtem=("u w vth th", "m s-2", None, 1e-2), vtem=("v vth th", "m s-1", None, 1.0), utendvtem=("u v vth th", "m s-2", None, 1e-3),
    epfy=("u uv vth th", "m3 s-2", None, 1e7), epfz=("u uw vth th", "m3 s-2", "up", 1e4), utendepfd=("u uv uw vth th", "m s-2", None, 1e-1), psitem=("v vth th", "kg s-1", None, 1e12),
)


def diag(ctx, name, nt, nl, ny, free, th):
    if ctx.symbolic:
        ctx.inject(dynvarmipdiags, "numpy", Coordinates(vars(dynvarmipdiags)["numpy"]))
    f = Fields(ctx, nt, nl, ny, free, th)
    fields, units, pos, size = SPEC[name]
    D = ("time", "lev", "lat")
    args = [mkphys(np.arange(float(nt)), "time", D[:1], "days since 2000-01-01"), mkphys(np.array(LEV[nl]), "lev", D[1:2], "hPa"),
            mkphys(np.array(LAT[ny]), "lat", D[2:], "degrees_north")]
    args += [mkphys(getattr(f, n), n, D, "K" if n == "th" else "m s-1") for n in fields.split()]
    want = table(ctx, (nt, nl, ny), getattr(f, name))
    apply(ctx, "dynvarmip_" + name, args, want, D, units, positive=pos, scale=100.0 / size)


def chunked(ctx, name):
    """levels and latitudes are never taken in parts"""
    f = Fields(ctx, 1, 3, 3, [], None)
    D = ("time", "lev", "lat")
    args = [mkphys(np.arange(1.), "time", D[:1], "days since 2000-01-01"), mkphys(np.array(LEV[3]), "lev", D[1:2], "hPa"), mkphys(np.array(LAT[3]), "lat", D[2:], "degrees_north")]
    fields, units, pos, size = SPEC[name]
    args += [mkphys(getattr(f, n), n, D) for n in fields.split()]
    node = node_of(ctx, "dynvarmip_" + name, args)
    ctx.check({"lev", "lat"} <= set(node.sumlike_dimensions), "dimensions not to be split: %s" % (node.sumlike_dimensions,))


def cases(tier):
    q = tier == "quick"
    out = []
    for name in SPEC:
        out.append(("whole:" + name, chunked, dict(name=name)))
        sizes = [(1, 3, 3), (2, 3, 3), (1, 4, 3)] if q else [(1, 3, 3), (2, 3, 3), (1, 4, 3), (1, 3, 4), (2, 4, 4)]
        for nt, nl, ny in sizes:
            tag = "%s:%d%d%d" % (name, nt, nl, ny)
            for g, free in (("u", "u uv uw"), ("v", "v w vth uv uw"), ("all", "u v w vth uv uw")):
                if g == "u" and "u" not in SPEC[name][0].split():
                    continue
                out.append((tag + ":" + g, diag, dict(name=name, nt=nt, nl=nl, ny=ny, free=free.split(), th=None)))
            if nl * ny <= 9 and nt == 1:
                for th in ((0, 1, 1), (0, 0, 0)) if q else np.ndindex(1, 3, 3):
                    out.append(("%s:th%s" % (tag, "".join(map(str, th))), diag, dict(name=name, nt=nt, nl=nl, ny=ny, free=[], th=tuple(th))))
    return out
