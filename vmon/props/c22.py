"""C22 meshes, starting averages and built-in initial conditions"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C22"
LEVEL = "exploration"
RULE = (
    "every built-in initial condition with random subsets of random parameters, directions and "
    "coordinates against a per-point reference; meshes and starting averages of new solvers on "
    "random domains, in the three kinds of initial data. distinct by condition, parameters, direction"
)
ASSUMPTIONS = [
    "points within rounding of a curved or shifted discontinuity are not compared; points exactly on a plane "
    "given by one number are",
]
REQUIRE = {"points compared": 100000, "meshes checked": 150, "starting states checked": 250, "initial conditions drawn": 450,
           "convergence of averages": 60, "points on a discontinuity": 600}
KINDS, kind = registry()


def two(rng, a=0.1, b=3.0):
    return tuple(float(v) for v in rng.uniform(a, b, 2))


def some(rng, full):
    """a random subset of the keyword arguments"""
    return {k: v for k, v in full.items() if rng.random() < 0.7}


def rows(*r):
    s = np.broadcast(*r).shape
    return np.stack([np.broadcast_to(np.asarray(a, float), s) for a in r])


def dims_of(rng):
    return work.pick(rng, ["x", "y", "z", "xy", "xz", "yz", "xyz", "yx", "zxy"])


# each entry: (rng) -> keyword arguments ; (kw, X) -> fields, distance to the nearest discontinuity


def sinus(rng):
    return some(rng, dict(dims=dims_of(rng), rho_min_max=two(rng), P=float(rng.uniform(0.1, 5)), vx=float(rng.normal()), vy=float(rng.normal()), vz=float(rng.normal())))


def sinus_ref(kw, X):
    d = kw.get("dims", "x")
    lo, hi = kw.get("rho_min_max", (1, 2))
    r = sum(X["xyz".index(c)] for c in d)
    rho = lo + (hi - lo) * (1 + np.sin(2 * np.pi * r)) / 2
    z = 0 * r
    return rows(rho, z + kw.get("vx", 1), z + kw.get("vy", 0), z + kw.get("vz", 0), z + kw.get("P", 1)), None


def square_ref(kw, X):
    d = kw.get("dims", "x")
    lo, hi = kw.get("rho_min_max", (1, 2))
    ins = np.ones(X[0].shape, bool)
    dist = np.full(X[0].shape, np.inf)
    for c in d:
        r = X["xyz".index(c)]
        ins &= (np.abs(r - 0.5) < 0.25)
        dist = np.minimum(dist, np.abs(np.abs(r - 0.5) - 0.25))
    z = np.zeros(X[0].shape)
    return rows(np.where(ins, hi, lo), z + kw.get("vx", 1), z + kw.get("vy", 0), z + kw.get("vz", 0), z + kw.get("P", 1)), dist


def disk(rng):
    return some(rng, dict(rho_min_max=two(rng), P=float(rng.uniform(0.1, 5))))


def disk_ref(kw, X):
    x, y = X[0], X[1]
    lo, hi = kw.get("rho_min_max", (1, 2))
    r = np.hypot(x - 0.5, y - 0.75)
    slot = (np.abs(x - 0.5) < 0.025) & (y < 0.85)
    rho = np.where((r < 0.15) & ~slot, hi, lo)
    dist = np.min([np.abs(r - 0.15), np.abs(np.abs(x - 0.5) - 0.025), np.abs(y - 0.85)], axis=0)
    return rows(rho, 0.5 - y, x - 0.5, 0 * x, 0 * x + kw.get("P", 1)), dist


def along(d, v):
    z = np.zeros_like(v)
    return [v if c == d else z for c in "xyz"]


def shock(rng):
    return some(rng, dict(dim=work.pick(rng, ["x", "y", "z"]), position=float(rng.uniform(-0.2, 1.2)), rho_left_right=two(rng), P_left_right=two(rng), v_left_right=two(rng, -2, 2)))


def shock_ref(kw, X):
    d = kw.get("dim", "x")
    r = X["xyz".index(d)]
    pos = kw.get("position", 0.5)
    side = lambda t: np.where(r - pos < 0, float(t[0]), float(t[1]))
    v = side(kw.get("v_left_right", (0, 0)))
    return rows(side(kw.get("rho_left_right", (1, 0.125))), *along(d, v), side(kw.get("P_left_right", (1, 0.1)))), np.abs(r - pos)


def dshock(rng):
    tri = lambda a=0.1, b=3: tuple(float(v) for v in rng.uniform(a, b, 3))
    return some(rng, dict(dim=work.pick(rng, ["x", "y", "z"]), positions=tuple(sorted(two(rng, -0.2, 1.2))), rhos=tri(), vs=tri(-2, 2), Ps=tri()))


def dshock_ref(kw, X):
    d = kw.get("dim", "x")
    r = X["xyz".index(d)]
    a, b = kw.get("positions", (0.1, 0.9))
    idx = (r >= a).astype(int) + (r >= b)
    g = lambda t: np.array([float(v) for v in t])[idx]
    return rows(g(kw.get("rhos", (1, 1, 1))), *along(d, g(kw.get("vs", (0, 0, 0)))), g(kw.get("Ps", (1e3, 1e-2, 1e2)))), np.minimum(np.abs(r - a), np.abs(r - b))


def shu(rng):
    return some(rng, dict(dim=work.pick(rng, ["x", "y", "z"])))


def shu_ref(kw, X):
    d = kw.get("dim", "x")
    r = X["xyz".index(d)]
    left = r < 1
    return rows(np.where(left, 3.857143, 1 + 0.2 * np.sin(5 * (r - 5))), *along(d, np.where(left, 2.629369, 0.0)), np.where(left, 10.33333, 1.0)), np.abs(r - 1)


def kh(rng):
    return some(rng, dict(sigma=float(10 ** rng.uniform(-1.7, 0.7)), w0=float(rng.uniform(-0.5, 0.5))))


def kh_ref(kw, X):
    x, y = X[0], X[1]
    s = kw.get("sigma", 0.05 * 2**0.5)
    ins = np.abs(y - 0.5) < 0.25
    bump = sum(np.exp(-((y - c) ** 2) / (2 * s**2)) for c in (0.25, 0.75))
    vy = kw.get("w0", 0.1) * np.sin(4 * np.pi * x) * bump
    return rows(np.where(ins, 2.0, 1.0), np.where(ins, 0.5, -0.5), vy, 0 * x, 0 * x + 2.5), np.abs(np.abs(y - 0.5) - 0.25)


def dmr(rng):
    return some(rng, dict(gamma=float(rng.uniform(1.1, 2))))


def dmr_ref(kw, X):
    x, y = X[0], X[1]
    s = x - y / 3**0.5 - 1 / 6
    post = s < 0
    g = kw.get("gamma", 1.4)
    return rows(np.where(post, 8.0, g), np.where(post, 7.145, 0.0), np.where(post, -4.125, 0.0), 0 * x, np.where(post, 116.5, 1.0)), np.abs(s)


def tube(rng):
    io = dict(rho_in_out=two(rng), P_in_out=two(rng), vx_in_out=two(rng, -2, 2), vy_in_out=two(rng, -2, 2), vz_in_out=two(rng, -2, 2))
    kw = some(rng, io)
    if rng.random() < 0.5:
        kw["mode"] = "cube"
        for c in work.pick(rng, ["x", "y", "z", "xy", "xyz", "yz"]):
            kw[c + "_cube"] = tuple(sorted(two(rng, -0.5, 1.5)))
    else:
        d = dims_of(rng)
        kw["dims"] = d
        if len(d) == 1:
            if rng.random() < 0.8:
                kw["center"] = float(rng.uniform(0, 1)) if rng.random() < 0.5 else (float(rng.uniform(0, 1)),)
        else:
            kw["center"] = tuple(float(v) for v in rng.uniform(0, 1, len(d)))
        if rng.random() < 0.7:
            kw["radius"] = float(rng.uniform(0.1, 0.7))
        if rng.random() < 0.3:
            kw["mode"] = "tube"
    return kw


def tube_ref(kw, X):
    if kw.get("mode", "tube") == "cube":
        ins, dist = np.ones(X[0].shape, bool), np.full(X[0].shape, np.inf)
        for j, c in enumerate("xyz"):
            if c + "_cube" in kw:
                a, b = kw[c + "_cube"]
                ins &= (X[j] >= a) & (X[j] <= b)
                dist = np.minimum(dist, np.minimum(np.abs(X[j] - a), np.abs(X[j] - b)))
    else:
        d = kw.get("dims", "x")
        cen = kw.get("center", 0.0)
        cen = (cen,) if np.isscalar(cen) else cen
        r2 = 0
        for c, v in zip(d, cen):
            r2 = r2 + (X["xyz".index(c)] - v) ** 2
        R = kw.get("radius", 0.5)
        ins = np.sqrt(r2) < R
        dist = np.abs(np.sqrt(r2) - R)
    g = lambda k, dft: np.where(ins, *[float(v) for v in kw.get(k, dft)])
    return rows(g("rho_in_out", (1, 0.125)), g("vx_in_out", (0, 0)), g("vy_in_out", (0, 0)), g("vz_in_out", (0, 0)), g("P_in_out", (1, 0.1))), dist


def blast(rng):
    return {}


def blast_ref(kw, X):
    r = np.hypot(X[0], X[1])
    o = np.zeros_like(r)
    return rows(o + 1, o, o, o, np.where(r < 0.1, 10.0, 0.1)), np.abs(r - 0.1)


TABLE = {
    "Sinus": (sinus, sinus_ref, (0, 1)),
    "Square": (sinus, square_ref, (0, 1)),
    "SlottedDisk": (disk, disk_ref, (0.3, 1.0)),
    "Shock1D": (shock, shock_ref, (-0.2, 1.2)),
    "DoubleShock1D": (dshock, dshock_ref, (-0.2, 1.2)),
    "ShuOsher1D": (shu, shu_ref, (-1, 11)),
    "KelvinHelmholtz2D": (kh, kh_ref, (0, 1)),
    "DoubleMachReflection2D": (dmr, dmr_ref, (0, 1.5)),
    "ShockTube": (tube, tube_ref, (-0.3, 1.3)),
    "AthenaBlast": (blast, blast_ref, (-0.3, 0.3)),
}


def make(name, kw):
    import fvhoe.initial_conditions as ic

    return getattr(ic, name)(**kw)


@kind("fields", 500, 12000)
def fields(rng, mon, i):
    """point values of every built-in initial condition"""
    from fvhoe.hydro import HydroState

    name = sorted(TABLE)[i % len(TABLE)]
    gen, reference, (lo, hi) = TABLE[name]
    kw = gen(rng)
    n = tuple(int(v) for v in rng.integers(1, 14, 3))
    if rng.random() < 0.5:
        X = [rng.uniform(lo, hi, n) for _ in range(3)]
    else:
        a = rng.uniform(lo, (lo + hi) / 2, 3)
        X = list(np.meshgrid(*[ref.centres(n[d], (a[d], a[d] + (hi - lo) / 2)) for d in range(3)], indexing="ij"))
    if rng.random() < 0.2:
        # symmetric problems probed exactly on round numbers
        X = [np.round(x, 1) for x in X]
    names = [f"dye{k}" for k in range(int(rng.integers(0, 3)))]
    coef = rng.uniform(-1, 1, (len(names), 4))
    pas = {nm: (lambda x, y, z, c=c: c[0] + c[1] * x + c[2] * y + c[3] * z) for nm, c in zip(names, coef)}
    order = list(rng.permutation(names)) if names else []
    hs = HydroState(passive_scalars=tuple(names))
    fn = make(name, kw).build_ic(hs, {k: pas[k] for k in order} if order else None)
    keep = [np.array(x) for x in X]
    got = fn(*X) if i % 2 else fn(x=X[0], y=X[1], z=X[2])
    want, dist = reference(kw, X)
    for k, nm in enumerate(names):
        want = np.concatenate([want, pas[nm](*X)[None]])
    ok = np.ones(n, bool) if dist is None else dist > 1e-9
    mon.event("initial conditions drawn")
    mon.event("points compared", int(ok.sum()) * len(want))
    wit = dict(condition=name, parameters=str(kw), scalars=len(names))
    if not mon.check(got.shape == want.shape, "shape of the initial field", got=got.shape, want=want.shape, **wit):
        return
    mon.close(np.where(ok, got, 0.0), np.where(ok, want, 0.0), 1e-12, f"field of {name}", scale=np.maximum(1.0, np.abs(want)), **wit)
    mon.check(all(np.array_equal(a, b) for a, b in zip(X, keep)), "an initial condition modified the coordinates", **wit)
    mon.see(name, *sorted(kw), kw.get("dims", kw.get("dim")), kw.get("mode"), len(names))
    mon.sample = dict(condition=name, parameters=str(kw))


@kind("on the discontinuity", 120, 2000)
def on_the_line(rng, mon, i):
    """a mesh with points exactly on the planes that bound a region: every variable takes the same side"""
    from fvhoe.hydro import HydroState

    name = ["Shock1D", "DoubleShock1D", "ShockTube", "Square", "KelvinHelmholtz2D", "ShuOsher1D"][i % 6]
    gen, reference, (lo, hi) = TABLE[name]
    kw = gen(rng)
    if name == "ShockTube":
        while kw.get("mode") != "cube":
            kw = gen(rng)
    special = {
        "Shock1D": lambda: [[kw.get("position", 0.5)]] * 3,
        "DoubleShock1D": lambda: [list(kw.get("positions", (0.1, 0.9)))] * 3,
        "ShockTube": lambda: [list(kw.get(c + "_cube", (0.5,))) for c in "xyz"],
        "Square": lambda: [[0.25, 0.75]] * 3,
        "KelvinHelmholtz2D": lambda: [[0.3], [0.25, 0.75], [0.5]],
        "ShuOsher1D": lambda: [[1.0]] * 3,
    }[name]()
    axes = [np.unique(np.concatenate([rng.uniform(lo, hi, 3), s])) for s in special]
    X = np.meshgrid(*axes, indexing="ij")
    got = make(name, kw).build_ic(HydroState(), None)(*X)
    want, dist = reference(kw, X)
    mon.event("points on a discontinuity", int((dist == 0).sum()))
    ok = (dist == 0) | (dist > 1e-9)
    mon.close(np.where(ok, got, 0.0), np.where(ok, want, 0.0), 1e-12, f"field of {name} with points on its discontinuity",
              scale=np.maximum(1.0, np.abs(want)), condition=name, parameters=str(kw))
    mon.see("line", name, *sorted(kw), kw.get("dims", kw.get("dim")))


@kind("blast energy", 60, 1000)
def sedov(rng, mon, i):
    """position and total energy of the Sedov blast (used as conservative data)"""
    import fvhoe.initial_conditions as ic
    from fvhoe.solver import EulerSolver

    dims = work.pick(rng, ["x", "y", "z", "xy", "xz", "yz", "xyz"])
    mode = work.pick(rng, ["corner", "center"])
    kw = dict(dims=dims)
    if mode == "center" or rng.random() < 0.5:
        kw["mode"] = mode
    kw.update(some(rng, dict(rho0=float(rng.uniform(0.5, 2)), E0=float(10 ** rng.uniform(-6, -2)), E1=float(rng.uniform(0.5, 4)))))
    n, p, dom = [1, 1, 1], [0, 0, 0], [(0.0, 1.0)] * 3
    for c in dims:
        d = "xyz".index(c)
        n[d] = int(2 * rng.integers(2, 6))
        if i % 5 == 0:
            n[d] += int(rng.integers(2))
        p[d] = int(rng.integers(0, 4))
        a = float(rng.uniform(-1, 1))
        dom[d] = (a, a + float(rng.uniform(0.5, 2)))
    S = EulerSolver(w0=ic.SedovBlast(**kw), nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=dom[0], y=dom[1], z=dom[2],
                    conservative_ic=True, fv_ic=bool(rng.random() < 0.3), progress_bar=False)
    u = work.state(S)
    hh = [(dom[d][1] - dom[d][0]) / n[d] for d in range(3)]
    E0, E1, rho0 = kw.get("E0", 1e-5), kw.get("E1", 1.0), kw.get("rho0", 1.0)
    hot = np.ones(n, bool)
    odd = mode == "center" and any(n["xyz".index(c)] % 2 for c in dims)
    for c in dims:
        d = "xyz".index(c)
        idx = np.arange(n[d])
        sel = (idx == 0) if mode == "corner" else (np.abs(idx - (n[d] - 1) / 2) < 1)
        sh = [1, 1, 1]
        sh[d] = n[d]
        hot &= sel.reshape(sh)
    vol = np.prod([hh["xyz".index(c)] for c in dims])
    share = 1.0 if mode == "center" else 0.5 ** len(dims)
    peak = E1 * share / (hot.sum() * vol)
    if odd:
        # no cells straddle the centre: the deposit is uniform, touches the centre and carries the given energy
        near = np.ones(n, bool)
        for c in dims:
            d = "xyz".index(c)
            sh = [1, 1, 1]
            sh[d] = n[d]
            near &= (np.abs(np.arange(n[d]) - (n[d] - 1) / 2) < 1.5).reshape(sh)
        hot = u[4] > 2 * E0
        wit = dict(parameters=str(kw), n=n, dom=str(dom), hot=np.argwhere(hot)[:9])
        mon.event("initial conditions drawn")
        mon.event("points compared", u.size)
        mon.check(hot.any() and not np.any(hot & ~near), "place of the Sedov blast", **wit)
        mon.close([float((u[4] * hot).sum() * vol)], [E1 * share], 1e-10, "total energy of the Sedov blast", **wit)
        mon.close(u[4][~hot], E0 + 0 * u[4][~hot], 1e-10, "background of the Sedov blast", scale=E0 + 1e-3, **wit)
        mon.close(u[:4], np.stack([rho0 + 0 * u[0], 0 * u[0], 0 * u[0], 0 * u[0]]), 1e-12, "state of the Sedov blast", **wit)
        mon.see("sedov odd", dims, *sorted(kw))
        return
    want = np.zeros((5,) + tuple(n))
    want[0] = rho0
    want[4] = np.where(hot, peak, E0)
    mon.event("initial conditions drawn")
    mon.event("points compared", want.size)
    wit = dict(parameters=str(kw), n=n, dom=str(dom))
    mon.close(u, want, 1e-10, "state of the Sedov blast", scale=np.maximum(1e-3 * peak, np.abs(want)), **wit)
    mon.close([float((u[4] * hot).sum() * vol)], [E1 * share], 1e-10, "total energy of the Sedov blast", **wit)
    mon.see("sedov", dims, mode, *sorted(kw))


# --------------------------------------------------------------------------


@kind("mesh", 160, 3000)
def mesh(rng, mon, i):
    """cells, coordinates and the coordinates an initial condition is evaluated at"""
    from fvhoe.solver import EulerSolver

    dims = work.pick(rng, work.ALL_DIMS)
    n, p, dom = [1, 1, 1], [0, 0, 0], [None] * 3
    for d in range(3):
        scale = float(10 ** rng.uniform(-6, 6)) if rng.random() < 0.4 else 1.0
        a = float(rng.uniform(-2, 2)) * scale
        dom[d] = (a, a + float(rng.uniform(0.2, 3)) * scale) if rng.random() < 0.8 else (0.0, 1.0)
        if "xyz"[d] in dims:
            n[d] = int(rng.integers(1, {1: 80, 2: 20, 3: 9}[len(dims)]))
            p[d] = int(rng.integers(0, 9))
            if n[d] == 1 and p[d] == 0:
                n[d] = 2
    seen = []

    def core(x, y, z):
        seen.append((np.array(x), np.array(y), np.array(z)))
        return rows(1 + 0 * x, 0 * x, 0 * x, 0 * x, 1 + 0 * x)

    S = EulerSolver(w0=work.raw_ic(core), nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=dom[0], y=dom[1], z=dom[2], progress_bar=False)
    wit = dict(n=n, p=p, dom=str(dom))
    cen = [ref.centres(n[d], dom[d]) for d in range(3)]
    full = np.meshgrid(*cen, indexing="ij")
    L = [max(abs(dom[d][0]), abs(dom[d][1])) for d in range(3)]
    hh = [(dom[d][1] - dom[d][0]) / n[d] for d in range(3)]
    mon.event("meshes checked")
    for d, c in enumerate("xyz"):
        mon.close(getattr(S, c), cen[d], 1e-13, "cell-centre coordinates", scale=L[d], axis=c, **wit)
        mon.close(getattr(S, c.upper()), full[d], 1e-13, "coordinate mesh", scale=L[d], axis=c, **wit)
        mon.close([S.h[d]], [hh[d]], 1e-12, "cell width", scale=hh[d] + 1e-4 * L[d], axis=c, **wit)
        for s in seen:
            if not mon.check(s[d].shape == tuple(n), "shape of the coordinates an initial condition is evaluated at", got=s[d].shape, **wit):
                return
            mon.check(np.all(np.abs(s[d] - full[d]) <= hh[d] / 2 + 1e-13 * L[d]), "an initial condition was evaluated outside the cell", axis=c, **wit)
    mon.check(S.am("u").shape == (5,) + tuple(n), "shape of the state", got=S.am("u").shape, **wit)
    mon.see("mesh", dims, tuple(n), tuple(p))


def exact_average(fn, cfg, rows_):
    """conservative averages by 12-point Gauss quadrature in the active directions"""
    g, w = np.polynomial.legendre.leggauss(12)
    act = ref.active(cfg)
    out = np.zeros((rows_,) + cfg["n"])
    X = work.mesh(cfg)
    hh = [(b - a) / k for (a, b), k in zip(cfg["dom"], cfg["n"])]
    grids = [(g, w / 2) if d in act else (np.zeros(1), np.ones(1)) for d in range(3)]
    for a, wa in zip(*grids[0]):
        for b, wb in zip(*grids[1]):
            for c, wc in zip(*grids[2]):
                out += wa * wb * wc * fn(X[0] + a * hh[0] / 2, X[1] + b * hh[1] / 2, X[2] + c * hh[2] / 2)
    return out


@kind("starting averages, smooth", 90, 2000)
def smooth_start(rng, mon, i):
    """smooth point-wise data (primitive or conservative): averages to the design order"""
    dims = work.pick(rng, ["x", "y", "z", "xy", "xz", "yz"] if i % 6 else ["xyz"])
    conservative = bool(i % 3 == 0)
    npass = int(rng.integers(0, 3))
    base = rng.uniform(0, 6, (5 + npass, 4))
    p = [0, 0, 0]
    pp = int(rng.integers(0, 9))
    for c in dims:
        p["xyz".index(c)] = pp
    gamma = float(rng.choice([1.4, 5 / 3]))
    dom = [(0.0, 1.0)] * 3
    for c in dims:
        a = float(rng.uniform(-1, 1))
        dom["xyz".index(c)] = (a, a + float(rng.uniform(0.7, 1.5)))

    def prim(x, y, z):
        out = []
        for k in range(5 + npass):
            arg = base[k, 0] + sum(3 * np.cos(base[k, 1 + "xyz".index(c)]) * (x, y, z)["xyz".index(c)] for c in dims)
            f = 0.3 * np.sin(arg + 0 * x)
            out.append(f + (1.0 if k in (0, 4) or k >= 5 else 0.2))
        return np.stack(out)

    first = (lambda x, y, z: ref.cons(prim(x, y, z), gamma)) if conservative else prim
    errs = []
    for n0 in ((6, 12) if len(dims) == 3 or pp > 5 else (12, 24)):
        n = [1, 1, 1]
        for c in dims:
            n["xyz".index(c)] = n0
        cfg = dict(dims=dims, n=tuple(n), p=tuple(p), dom=tuple(dom))
        from fvhoe.solver import EulerSolver

        kw = {}
        if npass:
            kw["w0_passives"] = {f"s{k}": (lambda x, y, z, k=k: first(x, y, z)[5 + k]) for k in range(npass)}
        S = EulerSolver(w0=work.raw_ic(lambda x, y, z: first(x, y, z)[:5]), nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2],
                        x=dom[0], y=dom[1], z=dom[2], gamma=gamma, conservative_ic=conservative, progress_bar=False, **kw)
        want = exact_average(lambda x, y, z: ref.cons(prim(x, y, z), gamma), cfg, 5 + npass)
        errs.append(np.max(np.abs(work.state(S) - want)))
        mon.event("starting states checked")
    order = float(np.log2(max(errs[0], 1e-300) / max(errs[1], 1e-300)))
    mon.event("convergence of averages")
    mon.check(errs[1] < 1e-11 or order > pp + 1 - 0.6, "starting averages converge too slowly", degree=pp, dims=dims,
              conservative=conservative, errors=errs, order=order)
    mon.see("smooth", dims, pp, conservative, npass)


@kind("starting averages, exact", 120, 2500)
def exact_start(rng, mon, i):
    """data whose averages are known exactly: regions aligned with cells, and given averages"""
    from fvhoe.solver import EulerSolver

    gamma = float(rng.choice([1.4, 5 / 3, 2.0]))
    dims = work.pick(rng, work.ALL_DIMS)
    p, n = [0, 0, 0], [1, 1, 1]
    m = {1: 40, 2: 12, 3: 8}[len(dims)]
    for c in dims:
        d = "xyz".index(c)
        p[d] = int(rng.integers(0, 7))
        n[d] = int(4 * rng.integers(1, m // 4 + 1))
    npass = int(rng.integers(0, 3))
    kw = dict(nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], gamma=gamma, progress_bar=False)
    cfg = dict(dims=dims, n=tuple(n), p=tuple(p), dom=((0.0, 1.0),) * 3)
    X = work.mesh(cfg)
    wit = dict(n=n, p=p, kind=i % 3, scalars=npass)
    if i % 3 == 0:
        given = rng.uniform(0.5, 2, (5 + npass,) + tuple(n))
        if npass:
            kw["w0_passives"] = {f"s{k}": (lambda x, y, z, k=k: given[5 + k]) for k in range(npass)}
        S = EulerSolver(w0=work.raw_ic(lambda x, y, z: given[:5]), conservative_ic=True, fv_ic=True, **kw)
        want = given
        mon.check(np.array_equal(work.state(S), want), "given cell averages were not taken over", **wit)
    else:
        d = work.pick(rng, list(dims))
        e = int(rng.integers(1, n["xyz".index(d)] + 1)) / n["xyz".index(d)]
        if i % 3 == 1:
            name = "Shock1D"
            par = dict(dim=d, position=e, rho_left_right=two(rng), P_left_right=two(rng), v_left_right=two(rng, -2, 2))
            w = shock_ref(par, X)[0]
        else:
            name = "Square"
            par = dict(dims=dims, rho_min_max=two(rng), P=float(rng.uniform(0.2, 3)), vx=0.3, vy=-0.2, vz=float(rng.normal()))
            w = square_ref(par, X)[0]
        vals = rng.uniform(0.1, 2, (npass, 2))
        if npass:
            ax = "xyz".index(d)
            kw["w0_passives"] = {f"s{k}": (lambda x, y, z, k=k: np.where((x, y, z)[ax] < e, vals[k, 0], vals[k, 1])) for k in range(npass)}
            w = np.concatenate([w] + [np.where(X[ax] < e, vals[k, 0], vals[k, 1])[None] for k in range(npass)])
        S = EulerSolver(w0=make(name, par), **kw)
        want = ref.cons(w, gamma)
        mon.close(work.state(S), want, 1e-12, "starting averages of piecewise constant data", scale=np.maximum(1e-3, np.max(np.abs(want))), **wit)
    mon.event("starting states checked")
    mon.check(S.t == 0, "start time", t=float(S.t), **wit)
    mon.see("exact", dims, tuple(p), i % 3, npass)


@kind("starting averages, polynomial", 60, 1500)
def polynomial_start(rng, mon, i):
    """conservative point-wise data that is a polynomial of the chosen degrees has exact averages"""
    from fvhoe.solver import EulerSolver

    dims = work.ALL_DIMS[i % 7]
    p, n, dom = [0, 0, 0], [1, 1, 1], [(0.0, 1.0)] * 3
    for c in dims:
        d = "xyz".index(c)
        p[d] = int(rng.integers(0, 9))
        n[d] = int(rng.integers(1 if p[d] else 2, {1: 8, 2: 6, 3: 4}[len(dims)]))
        a = float(rng.uniform(-1, 0.5))
        dom[d] = (a, a + float(rng.uniform(0.5, 2)))
    npass = int(rng.integers(0, 3))
    rows_ = 5 + npass
    coef = rng.normal(size=(rows_,) + tuple(k + 1 for k in p)) * 0.2
    if i % 3 == 0:  # the highest monomial alone
        coef[:] = 0
        coef[..., -1, -1, -1] = rng.uniform(0.3, 1, rows_)
    coef[0, 0, 0, 0] += 9
    coef[4, 0, 0, 0] += 90
    mid = [(a + b) / 2 for a, b in dom]
    half = [(b - a) / 2 for a, b in dom]

    def cons(x, y, z):
        X = [(c - m) / hf for c, m, hf in zip((x, y, z), mid, half)]
        return np.stack([np.polynomial.polynomial.polyval3d(*X, coef[k]) for k in range(rows_)])

    kw = {}
    if npass:
        kw["w0_passives"] = {f"s{k}": (lambda x, y, z, k=k: cons(x, y, z)[5 + k]) for k in range(npass)}
    S = EulerSolver(w0=work.raw_ic(lambda x, y, z: cons(x, y, z)[:5]), nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2],
                    x=dom[0], y=dom[1], z=dom[2], conservative_ic=True, progress_bar=False, **kw)
    cfg = dict(dims=dims, n=tuple(n), p=tuple(p), dom=tuple(dom))
    want = exact_average(cons, cfg, rows_)
    mon.event("starting states checked")
    scale = 1 + np.abs(coef).reshape(rows_, -1).sum(axis=1)
    mon.close(work.state(S), want, 1e-12, "starting averages of polynomial data", scale=scale.reshape(-1, 1, 1, 1), n=n, p=p, dom=str(dom), scalars=npass)
    mon.see("polynomial", dims, tuple(p), npass)
