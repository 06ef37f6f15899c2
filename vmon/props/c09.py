"""C09 conversions"""

import numpy as np

from vmon import ref
from vmon.core import registry

PID = "C09"
LEVEL = "exploration"
RULE = (
    "random states over many decades, gammas, numbers of scalars and array shapes "
    "(0 to 4 trailing dimensions, non-contiguous views); distinct by operation, direction, "
    "scalars, shape rank"
)
ASSUMPTIONS = ["rounding allowance 1e-12 of the magnitude of the terms"]
REQUIRE = {"arrays compared": 1000, "unphysical states converted": 40}
KINDS, kind = registry()
TOL = 1e-12


def draw(rng, unphysical=False):
    nd = int(rng.choice([0, 0, 1, 2, 5]))
    rank = int(rng.integers(1, 4))
    shape = tuple(int(rng.integers(1, 5)) for _ in range(rank))
    w = np.empty((5 + nd,) + shape)
    sp = float(rng.choice([0.3, 2, 6]))
    w[0] = 10 ** rng.uniform(-sp, sp, shape)
    w[4] = 10 ** rng.uniform(-sp, sp, shape)
    w[1:4] = rng.normal(size=(3,) + shape) * 10 ** rng.uniform(-3, 3)
    w[5:] = rng.normal(size=(nd,) + shape) * 10 ** rng.uniform(-2, 2)
    if rng.random() < 0.2:
        w[1 + int(rng.integers(3))] = 0.0
    if unphysical and rng.random() < 0.3:
        # candidates that are about to be rejected: negative internal energy or density
        flip = rng.random(shape) < 0.5
        row = 4 if rng.random() < 0.7 else 0
        w[row] = np.where(flip, -w[row], w[row])
    gamma = float(rng.choice([1.4, 5 / 3, 1.05, 2.0, 3.0]))
    from fvhoe.hydro import HydroState

    # the indexing helper fixes how many dimensions it slices
    hs = HydroState(passive_scalars=tuple(f"s{i}" for i in range(nd)), ndim=1 + rank)
    if rng.random() < 0.3:  # non-contiguous view
        big = np.zeros((5 + nd,) + shape[:-1] + (2 * shape[-1],))
        big[..., ::2] = w
        w = big[..., ::2]
    return nd, rank, shape, w, gamma, hs


def mags(w, gamma):
    """magnitude of the terms of the conservative variables"""
    a = np.abs(w)
    u = a[0] * a
    u[0] = a[0]
    u[4] = a[4] / (gamma - 1) + 0.5 * a[0] * (a[1] ** 2 + a[2] ** 2 + a[3] ** 2)
    return u


@kind("conversions", 400, 8000)
def conversions(rng, mon, i):
    """primitive <-> conservative, component by component, and round trip"""
    from fvhoe.hydro import compute_conservatives, compute_primitives

    nd, rank, shape, w, gamma, hs = draw(rng, unphysical=True)
    if (w[[0, 4]] < 0).any():
        mon.event("unphysical states converted")
    keep = w.copy()
    u = np.asarray(compute_conservatives(hs, w, gamma=gamma))
    mon.check(np.array_equal(keep, w), "input of the conversion was modified")
    mon.check(not np.shares_memory(u, w), "conversion returns its input")
    want = ref.cons(w, gamma)
    m = mags(w, gamma)
    m = np.where(m > 0, m, 1.0)
    mon.close(u / m, want / m, TOL, "conservative variables", scale=1.0, gamma=gamma, scalars=nd)
    keepu = want.copy()
    back = np.asarray(compute_primitives(hs, keepu, gamma=gamma))
    mon.check(np.array_equal(keepu, want), "input of the conversion was modified")
    pm = np.abs(w).copy()
    pm[1:4] = np.abs(w[1:4]) + 1e-300
    pm[4] = (gamma - 1) * m[4]
    pm = np.where(pm > 1e-290, pm, 1.0)
    mon.close(back / pm, w / pm, TOL * 10, "round trip to primitives", scale=1.0, gamma=gamma, scalars=nd)
    mon.close(back / pm, ref.prim(want, gamma) / pm, TOL, "primitive variables", scale=1.0)
    mon.event("arrays compared", 3)
    mon.see("conv", nd, rank, gamma)
    mon.sample = dict(scalars=nd, shape=list(shape), gamma=gamma)
    # the hydrodynamic rows do not see the scalars
    if nd:
        from fvhoe.hydro import HydroState

        h0 = HydroState(ndim=1 + rank)
        u0 = compute_conservatives(h0, w[:5].copy(), gamma=gamma)
        mon.check(np.array_equal(u0, u[:5]), "scalars influence the conservative variables")
        w0 = compute_primitives(h0, want[:5].copy(), gamma=gamma)
        mon.check(np.array_equal(w0, back[:5]), "scalars influence the primitive variables")


@kind("fluxes", 300, 6000)
def fluxes(rng, mon, i):
    """physical flux in every direction"""
    from fvhoe.hydro import compute_fluxes

    nd, rank, shape, w, gamma, hs = draw(rng)
    u = ref.cons(w, gamma)
    for d in range(3):
        for pres in (True, False):
            kw = {} if pres and rng.random() < 0.5 else dict(include_pressure=pres)
            a, b = w.copy(), u.copy()
            got = np.asarray(compute_fluxes(hs=hs, w=a, u=b, gamma=gamma, dim="xyz"[d], **kw))
            mon.check(np.array_equal(a, w) and np.array_equal(b, u), "input of the flux was modified")
            want = ref.flux(w, gamma, d, pressure=pres)
            v = np.abs(w[1:4]).max(axis=0)
            m = (v + np.sqrt(w[4] / w[0])) * mags(w, gamma)
            m[1:4] = w[0] * v**2 + w[4]
            m[4] = (v + np.sqrt(w[4] / w[0])) * (mags(w, gamma)[4] + w[4])
            m = np.where(m > 0, m, 1.0)
            mon.close(got / m, want / m, TOL, "physical flux", scale=1.0, direction="xyz"[d], pressure=pres, scalars=nd)
            mon.event("arrays compared")
            mon.see("flux", d, pres, nd, rank)


@kind("sound speed", 200, 4000)
def sound(rng, mon, i):
    """sound speed with its floor"""
    from fvhoe.hydro import compute_sound_speed

    nd, rank, shape, w, gamma, hs = draw(rng)
    floor = float(rng.choice([1e-10, 1e-3, 1.0, 1e4]))
    if rng.random() < 0.3:
        w = w.copy()
        w[4] *= float(rng.choice([-1, 0, 1e-12]))
    keep = w.copy()
    got = np.asarray(compute_sound_speed(w, gamma, csq_floor=floor))
    mon.check(np.array_equal(keep, w), "input was modified")
    want = np.sqrt(np.maximum(gamma * w[4] / w[0], floor))
    mon.close(got / want, np.ones(shape), TOL, "sound speed", scale=1.0, gamma=gamma, floor=floor)
    mon.event("arrays compared")
    mon.see("sound", rank, floor, bool((gamma * w[4] / w[0] < floor).any()))


@kind("inside a solver", 80, 1000)
def inside(rng, mon, i):
    """a solver's snapshot of a degree-0 mesh shows the primitives of its starting state"""
    from fvhoe.solver import EulerSolver
    from vmon import work

    dims = work.ALL_DIMS[i % 7]
    cfg = work.rand_cfg(rng, dims=dims, p=(0, 0, 0), limiting=False)
    w = work.rand_prims(rng, cfg)
    kw = dict(work.solver_kwargs(cfg))
    kw["w0"] = work.raw_ic(lambda x, y, z: w[:5])
    if cfg["passives"]:
        kw["w0_passives"] = {nm: (lambda x, y, z, j=j: w[5 + j]) for j, nm in enumerate(cfg["passives"])}
    S = EulerSolver(**kw)
    mon.close(work.state(S), ref.cons(w, cfg["gamma"]), TOL, "starting state of a solver", scale=10.0)
    S.euler(n=0)
    mon.close(np.asarray(S.snapshots[0]["w"]), w, TOL, "primitives in the first snapshot", scale=10.0)
    mon.event("arrays compared", 2)
    mon.see("solver", dims, len(cfg["passives"]), cfg["gamma"])


@kind("integer arrays", 80, 1500)
def integers(rng, mon, i):
    """states given as integers convert like the same numbers given as floats"""
    from fvhoe import hydro, riemann_solvers
    from vmon import work

    npass = int(rng.integers(0, 3))
    hs = hydro.HydroState(passive_scalars=tuple(f"s{k}" for k in range(npass)), ndim=4)
    n = tuple(int(v) for v in rng.integers(1, 4, 3))
    gamma = float(work.pick(rng, [1.4, 5 / 3, 2.0, 3.0]))

    def state():
        w = rng.integers(-3, 4, (5 + npass,) + n)
        w[0] = rng.integers(1, 5, n)
        w[4] = rng.integers(1, 6, n)
        return w.astype(work.pick(rng, [np.int64, np.int32]))

    w, w2 = state(), state()
    u = state()
    u[4] += 40
    dim = "xyz"[i % 3]
    wit = dict(w=w, gamma=gamma, dim=dim)
    f = lambda a: a.astype(float)
    uf = hydro.compute_conservatives(hs, f(w), gamma)
    pairs = [
        ("conservative variables", hydro.compute_conservatives(hs, w, gamma), uf, ref.cons(f(w), gamma)),
        ("primitive variables", hydro.compute_primitives(hs, u, gamma), hydro.compute_primitives(hs, f(u), gamma), ref.prim(f(u), gamma)),
        ("sound speed", hydro.compute_sound_speed(w, gamma, 1e-10), hydro.compute_sound_speed(f(w), gamma, 1e-10), None),
        ("flux", hydro.compute_fluxes(hs, w, uf, gamma, dim), hydro.compute_fluxes(hs, f(w), uf, gamma, dim), ref.flux(f(w), gamma, i % 3)),
    ]
    for name in ("llf", "hllc", "advection_upwind"):
        fn = getattr(riemann_solvers, name)
        kw = dict(hs=hs, gamma=gamma, dim=dim, csq_floor=1e-10)
        pairs.append((name + " flux", fn(riemann_problem=(w, w2), **kw), fn(riemann_problem=(f(w), f(w2)), **kw), None))
    for what, got, want, exact in pairs:
        mon.event("integer conversions")
        mon.close(got, want, 1e-13, f"{what} of integers differ from those of the same floats", scale=1.0 + np.max(np.abs(want)), **wit)
        if exact is not None:
            mon.close(got, exact, 1e-12, f"{what} of integers", scale=1.0 + np.max(np.abs(exact)), **wit)
    mon.see("integers", dim, npass, w.dtype.name)
