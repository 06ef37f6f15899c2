"""C08 ghost cells"""

import itertools

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C08"
LEVEL = "exploration"
RULE = (
    "random states, widths, meshes, domains, scalars and mixtures of boundary types per "
    "side; every ghost cell compared with a per-cell reference map. distinct by the types "
    "on the six sides, active directions, widths"
)
ASSUMPTIONS = [
    "copied cells are compared exactly, prescribed values to 1e-11 (coordinates are "
    "computed differently)"
]
REQUIRE = {"padded arrays compared": 500, "ghost cells compared": 100000, "boundary functions called": 300}
KINDS, kind = registry()

TYPES = ["periodic", "free", "outflow", "reflective", "dirichlet", "function", "ic"]


def smooth_fn(rng, nv, time):
    """distinct value at every position (and time) and row"""
    k = rng.uniform(0.3, 1.5, size=(nv, 3))
    f = rng.uniform(0, 6, size=nv)
    wt = rng.uniform(0.5, 2)

    def fn(x, y, z, t=None):
        tt = t if time and t is not None else 0.0
        return np.array(
            [2 + np.sin(k[v, 0] * x + k[v, 1] * y + k[v, 2] * z + f[v] + wt * tt) for v in range(nv)]
        )

    return fn


def rand_side(rng, nv, calls, types):
    t = types[int(rng.integers(len(types)))]
    if t == "dirichlet":
        return dict(type="dirichlet", value=rng.normal(size=nv))
    if t == "function":
        inner = smooth_fn(rng, nv, True)

        def value(x, y, z, t):
            calls.append((x, y, z, t))
            return inner(x, y, z, t)

        return dict(type="dirichlet", value=value, pure=inner)
    return dict(type=t)


def scene(rng, direct):
    """random mesh, state and boundaries"""
    dims = work.pick(rng, work.ALL_DIMS, p=[0.12, 0.1, 0.1, 0.15, 0.15, 0.15, 0.23])
    act = [ref.AX[c] for c in dims]
    n = [1, 1, 1]
    gw = [0, 0, 0]
    for d in act:
        n[d] = int(rng.integers(1 if direct else 2, 8))
        gw[d] = int(rng.integers(0 if len(act) > 1 else 1, 6))
        if rng.random() < 0.12:
            # as wide as the highest degrees need them
            gw[d] = int(rng.integers(6, 21))
            n[d] = int(rng.integers(gw[d] // 2, gw[d] + 4 if len(act) < 3 else gw[d] // 2 + 2))
    if not any(gw):
        gw[act[0]] = 1
    dom = [(0.0, 1.0)] * 3
    for d in range(3):
        if rng.random() < 0.7:
            a = float(rng.uniform(-2, 2))
            dom[d] = (a, a + float(rng.uniform(0.3, 3)))
    npas = int(rng.choice([0, 1, 3]))
    nv = 5 + npas
    calls = []
    ic = smooth_fn(rng, nv, False)
    bc = {}
    types = [t for t in TYPES if not (direct and t == "ic")]
    for d in range(3):
        if d not in act:
            bc["xyz"[d]] = (dict(type="periodic"), dict(type="periodic"))
            continue
        l = rand_side(rng, nv, calls, types)
        rest = [t for t in types if t != "periodic"]
        r = dict(type="periodic") if l["type"] == "periodic" else rand_side(rng, nv, calls, rest)
        for s in (l, r):
            # mirrored slabs cannot be thicker than the domain
            if s["type"] in ("outflow", "reflective"):
                gw[d] = min(gw[d], n[d])
        bc["xyz"[d]] = (l, r)
    u = rng.normal(size=(nv,) + tuple(n))
    return dims, act, tuple(n), tuple(gw), tuple(dom), npas, nv, bc, ic, calls, u


def pure(bc, ic):
    out = {}
    for c, (l, r) in bc.items():
        out[c] = tuple(
            dict(type=s["type"], value=s.get("pure", s.get("value")) if s["type"] != "ic" else ic)
            for s in (l, r)
        )
    return out


def compare(mon, got, want, u, gw, bc, tag):
    got = np.asarray(got)
    if not mon.check(got.shape == want.shape, "shape of the padded array", got=got.shape, want=want.shape):
        return
    mon.event("padded arrays compared")
    mon.event("ghost cells compared", int(np.prod(want.shape) - u.size))
    names = {c: [s["type"] for s in v] for c, v in bc.items()}
    sl = (slice(None),) + tuple(slice(g, g + m) for g, m in zip(gw, u.shape[1:]))
    mon.check(np.array_equal(got[sl], u), "the interior was changed", bc=str(names))
    mon.close(got, want, 1e-11, "ghost cell", scale=max(1.0, np.abs(want).max()), bc=str(names), gw=str(gw), n=str(u.shape), where=tag)
    # copies must be exact: compare bit for bit where no function is involved
    if all(s["type"] != "ic" and not callable(s.get("value")) for v in bc.values() for s in v):
        mon.check(np.array_equal(got, want), "a copied ghost cell differs", bc=str(names), gw=str(gw), where=tag)


@kind("boundary conditions applied directly", 350, 6000)
def direct(rng, mon, i):
    """BoundaryCondition.apply with explicit slab coordinates"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.fv import fv_uniform_meshgen
    from fvhoe.hydro import HydroState

    dims, act, n, gw, dom, npas, nv, bc, ic, calls, u = scene(rng, True)
    buf = tuple(g + int(rng.integers(0, 4)) if d in act else 0 for d, g in enumerate(gw))
    kw = {}
    for c, (l, r) in bc.items():
        kw[c] = (l["type"], r["type"])
        if l["type"] == r["type"] and rng.random() < 0.5:
            kw[c] = l["type"]
        if "value" in l or "value" in r:
            kw[c + "_value"] = (l.get("value"), r.get("value"))
    _, slabs = fv_uniform_meshgen(n, *dom, slab_thickness=buf) if any(buf) else (None, None)
    B = BoundaryCondition(**kw, slab_coords=slabs, hydro_state=HydroState(passive_scalars=tuple(f"s{k}" for k in range(npas))))
    keep = u.copy()
    t = float(rng.uniform(0, 5))
    got = B.apply(u, gw=gw, t=t)
    mon.check(np.array_equal(keep, u), "the state was modified")
    mon.check(not np.shares_memory(np.asarray(got), u), "the padded array aliases the state")
    compare(mon, got, ref.pad(u, gw, pure(bc, ic), dom, t), u, gw, bc, "direct")
    for x, y, z, tt in calls:
        mon.event("boundary functions called")
        mon.check(tt == t, "time passed to a boundary function", got=tt, want=t)
    # a second, thinner padding from the same object
    gw2 = tuple(int(rng.integers(0, g + 1)) for g in gw)
    if any(gw2):
        t2 = t + 1.0
        compare(mon, B.apply(u, gw=gw2, t=t2), ref.pad(u, gw2, pure(bc, ic), dom, t2), u, gw2, bc, "second padding")
    mon.see("direct", dims, *[s["type"] + ("f" if callable(s.get("value")) else "") for v in bc.values() for s in v])
    mon.sample = dict(dims=dims, n=list(n), widths=list(gw), boundaries={c: [s["type"] for s in v] for c, v in bc.items()})


@kind("ghost cells of a solver", 250, 4000)
def solver(rng, mon, i):
    """the padding a solver built from public arguments performs, ic boundaries included"""
    from fvhoe.solver import EulerSolver

    dims, act, n, gw, dom, npas, nv, bc, ic, calls, u = scene(rng, False)
    cfg = dict(bc=bc)
    names = [f"s{k}" for k in range(npas)]
    p = [int(rng.integers(0, 5)) if d in act and rng.random() < 0.5 else 0 for d in range(3)]
    prims = bool(rng.random() < 0.4)
    g = float(work.pick(rng, [1.4, 5 / 3]))
    if prims:
        # primitive initial conditions; "ic" boundaries hold their conservative form
        raw = ic

        def ic(x, y, z, t=None):
            return ref.cons(raw(x, y, z), g)

    start = raw if prims else ic
    buf = max(6, *gw) + int(rng.integers(0, 30))
    S = EulerSolver(
        w0=work.raw_ic(lambda x, y, z: start(x, y, z)[:5]), conservative_ic=not prims, gamma=g,
        w0_passives={nm: (lambda x, y, z, k=k: start(x, y, z)[5 + k]) for k, nm in enumerate(names)} if names else None,
        nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=dom[0], y=dom[1], z=dom[2], bc=work.public_bc(cfg),
        slab_buffer_size=buf, progress_bar=False,
    )
    t = float(rng.uniform(0, 3))
    keep = u.copy()
    got = S.bc.apply(u, gw=gw, t=t)
    mon.check(np.array_equal(keep, u), "the state was modified")
    compare(mon, got, ref.pad(u, gw, pure(bc, ic), dom, t), u, gw, bc, "solver")
    for c in calls:
        mon.event("boundary functions called")
        mon.check(c[3] == t, "time passed to a boundary function", got=c[3], want=t)
    mon.see("solver", dims, *[s["type"] + ("f" if callable(s.get("value")) else "") for v in bc.values() for s in v])


@kind("all types on one side pair", 49, 490)
def pairs(rng, mon, i):
    """every pair of types along every axis, every width"""
    from fvhoe.solver import EulerSolver

    l, r = TYPES[(i // 7) % 7], TYPES[i % 7]
    if (l == "periodic") != (r == "periodic"):
        l = r
    for d in range(3):
        calls = []
        ic = smooth_fn(rng, 5, False)
        n = [1, 1, 1]
        n[d] = int(rng.integers(4, 9))
        bc = {c: (dict(type="periodic"),) * 2 for c in "xyz"}
        bc["xyz"[d]] = tuple(
            rand_side(rng, 5, calls, [x]) for x in (l, r)
        )
        dom = [(0.0, 1.0)] * 3
        a = float(rng.uniform(-2, 2))
        dom[d] = (a, a + float(rng.uniform(0.3, 3)))
        S = EulerSolver(
            w0=work.raw_ic(lambda x, y, z: ic(x, y, z)), conservative_ic=True,
            nx=n[0], ny=n[1], nz=n[2], x=dom[0], y=dom[1], z=dom[2],
            bc=work.public_bc(dict(bc=bc)), progress_bar=False,
        )
        u = rng.normal(size=(5,) + tuple(n))
        for g in range(1, n[d] + 1):
            gw = [0, 0, 0]
            gw[d] = g
            t = float(g)
            compare(mon, S.bc.apply(u, gw=tuple(gw), t=t), ref.pad(u, gw, pure(bc, ic), dom, t), u, tuple(gw), bc, "pair")
        mon.see("pair", d, l, r)


@kind("ghosts thicker than the domain", 40, 400)
def thick(rng, mon, i):
    """periodic and free slabs wider than the domain itself"""
    from fvhoe.boundary_conditions import BoundaryCondition

    n = tuple(int(rng.integers(1, 4)) for _ in range(3))
    gw = tuple(int(rng.integers(0, 10)) for _ in range(3))
    bc = {c: (dict(type=t), dict(type=t)) for c, t in zip("xyz", rng.choice(["periodic", "free"], 3))}
    u = rng.normal(size=(5,) + n)
    B = BoundaryCondition(**{c: v[0]["type"] for c, v in bc.items()})
    compare(mon, B.apply(u, gw=gw), ref.pad(u, gw, bc, ((0, 1),) * 3), u, gw, bc, "thick")
    mon.see("thick", n, gw)


@kind("double Mach reflection", 40, 400)
def dmr(rng, mon, i):
    """the special lower boundary: free left of x = 1/6, a wall right of it"""
    from fvhoe.solver import EulerSolver
    from fvhoe.boundary_conditions import BoundaryCondition

    n = (int(rng.integers(5, 14)), int(rng.integers(4, 9)), 1)
    dom = ((0.0, float(rng.uniform(0.5, 4))), (0.0, float(rng.uniform(0.5, 1.5))), (0.0, 1.0))
    inner = smooth_fn(rng, 5, True)
    bc = {
        "x": (dict(type="dirichlet", value=rng.normal(size=5)), dict(type="free")),
        "y": (dict(type="dmr"), dict(type="dirichlet", value=inner)),
        "z": (dict(type="periodic"),) * 2,
    }
    if rng.random() < 0.3:
        bc["x"] = (dict(type="free"), dict(type="outflow"))
    S = EulerSolver(
        w0=work.raw_ic(lambda x, y, z: inner(x, y, z)), conservative_ic=True,
        nx=n[0], ny=n[1], nz=1, x=dom[0], y=dom[1], bc=work.public_bc(dict(bc=bc)), progress_bar=False,
    )
    u = rng.normal(size=(5,) + n)
    for _ in range(3):
        gw = (int(rng.integers(0, min(6, n[0]))), int(rng.integers(1, min(6, n[1]) + 1)), 0)
        t = float(rng.uniform(0, 1))
        compare(mon, S.bc.apply(u, gw=gw, t=t), ref.pad(u, gw, bc, dom, t), u, gw, bc, "dmr")
    mon.see("dmr", n, bc["x"][0]["type"])


@kind("time given to boundaries during a run", 30, 300)
def timed(rng, mon, i):
    """snapshots evaluate prescribed boundaries at the snapshot time"""
    cfg = work.rand_cfg(rng, dims=work.pick(rng, ["x", "y", "z", "xy"]), pmax=4, limiting=False, bcs=("periodic",), passives=0, cells=300)
    act = ref.active(cfg)
    d = act[int(rng.integers(len(act)))]
    if cfg["p"][d] == 0:
        p = list(cfg["p"])
        p[d] = 2
        cfg["p"] = tuple(p)
    n = list(cfg["n"])
    n[d] = max(n[d], work.need(cfg["p"])[d])
    cfg["n"] = tuple(n)
    seen = []

    def value(x, y, z, t):
        seen.append(float(t))
        w = np.zeros((5,) + x.shape)
        w[0] = 1.0 + 0.1 * np.sin(t)
        w[4] = 1.0
        return ref.cons(w, cfg["gamma"])

    cfg["bc"]["xyz"[d]] = ({"type": "dirichlet", "value": value}, {"type": "free"})
    w = np.zeros((5,) + cfg["n"])
    w[0] = 1.0 + work.smooth_field(rng, cfg, 0.1)
    w[4] = 1.0
    S = work.build(cfg, ref.cons(w, cfg["gamma"]))
    S.euler(n=int(rng.integers(1, 4)))
    del seen[:]
    S.snapshot()
    t = float(S.t)
    mon.event("boundary functions called", len(seen))
    mon.check(seen and all(s == t for s in seen), "time of the boundaries in a snapshot", got=seen[:4], want=t)
    want = ref.primitives(cfg, work.state(S), t=t)
    mon.close(np.asarray(S.snapshots[-1]["w"]), want, 1e-11, "snapshot next to a prescribed boundary", scale=2.0)
    mon.event("padded arrays compared")
    mon.see("timed", cfg["dims"], cfg["p"])
