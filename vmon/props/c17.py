"""C17 positivity, bounds, total variation"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C17"
LEVEL = "exploration"
RULE = (
    "hostile states (near-vacuum, strong blasts, colliding and separating streams, noise over "
    "decades) for the degree-0 local Lax-Friedrichs scheme, and advected profiles (spikes, "
    "plateaus, noise, squares) for the degree-0 and the fully limited second-order scheme; every "
    "step is checked. distinct by dimensions, boundaries, data, scheme"
)
ASSUMPTIONS = [
    "forward Euler for the nonlinear positivity statement (the step size is chosen for it), all "
    "strong-stability-preserving integrators for advection",
    "allowance for rounding 1e-12 of the range",
]
REQUIRE = {"steps checked (positivity)": 1500, "steps checked (advection)": 800, "near-vacuum cells": 200,
           "strong shocks": 25, "total variation compared": 200}
KINDS, kind = registry()


def hostile(rng, cfg):
    n = cfg["n"]
    nv = 5 + len(cfg["passives"])
    w = np.empty((nv,) + n)
    style = work.pick(rng, ["noise", "blast", "vacuum", "collide", "separate", "checker"])
    X = work.phases(cfg)
    act = ref.active(cfg)
    d = act[int(rng.integers(len(act)))]
    left = X[d] < rng.uniform(1.5, 5)
    w[0], w[4] = 1.0, 1.0
    w[1:4] = 0.0
    if style == "noise":
        w[0] = 10 ** rng.uniform(-3, 1, n)
        w[4] = 10 ** rng.uniform(-3, 2, n)
        w[1:4] = rng.normal(size=(3,) + n) * 10 ** rng.uniform(-1, 1)
    elif style == "blast":
        w[4] = 1e-3
        w[4][tuple(int(rng.integers(m)) for m in n)] = 10 ** rng.uniform(2, 5)
        w[0] = rng.uniform(0.5, 2, n)
    elif style == "vacuum":
        w[0] = np.where(left, 1.0, 10 ** rng.uniform(-6, -3))
        w[4] = np.where(left, 1.0, 10 ** rng.uniform(-6, -3))
        w[1 + d] = rng.uniform(-1, 1)
    elif style in ("collide", "separate"):
        v = float(rng.uniform(1, 20)) * (1 if style == "collide" else -1)
        w[1 + d] = np.where(left, v, -v)
        w[4] = rng.uniform(0.1, 1)
        w[0] = rng.uniform(0.5, 2, n)
    else:
        par = sum(np.indices(n)) % 2
        w[0] = np.where(par, 1e-3, 1.0)
        w[4] = np.where(par, 10.0, 1e-3)
        w[1:4] = np.where(par, 3.0, -3.0)
    for s in range(5, nv):
        w[s] = rng.uniform(-1, 1, n) if rng.random() < 0.5 else np.where(left, 1.0, 0.0)
    return w, style, d


@kind("positivity", 260, 3000)
def positivity(rng, mon, i):
    dims = work.pick(rng, work.ALL_DIMS, p=[0.15, 0.15, 0.15, 0.15, 0.15, 0.15, 0.1])
    cfg = work.rand_cfg(rng, dims=dims, p=(0, 0, 0), riemann=("llf",), limiting=False, nmin=5,
                        cells=400, extra=20)
    cfg["CFL"] = float(rng.uniform(0.3, 0.8)) / len(dims)
    if i % 3 == 0:
        cfg["CFL"] = 0.8 / len(dims)
    w, style, d = hostile(rng, cfg)
    S = work.build(cfg, ref.cons(w, cfg["gamma"]))
    lims = [(w[s].min(), w[s].max()) for s in range(5, w.shape[0])]
    wit = dict(style=style, cfg=str(work.describe(cfg)))
    dmin, pmin = np.inf, np.inf
    steps = 14 if mon.tier == "quick" else 40
    if (w[0] < 1e-2).any():
        mon.event("near-vacuum cells", int((w[0] < 1e-2).sum()))
    if style in ("blast", "collide"):
        mon.event("strong shocks")
    for k in range(steps):
        S.euler(n=1)
        u = work.state(S)
        q = ref.prim(u, cfg["gamma"])
        mon.event("steps checked (positivity)")
        if not mon.check(np.all(np.isfinite(u)), "the state is not finite", step=k, **wit):
            return
        if not mon.check(np.all(u[0] > 0), "density is not positive", step=k, least=float(u[0].min()), **wit):
            return
        if not mon.check(np.all(q[4] > -1e-13 * u[4]), "pressure is not positive", step=k, least=float(q[4].min()), **wit):
            return
        if not np.all(q[4] > 0):
            mon.event("pressure lost to rounding")
            return
        dmin, pmin = min(dmin, float(u[0].min())), min(pmin, float(q[4].min()))
        for s, (lo, hi) in enumerate(lims):
            tol = 1e-11 * max(abs(lo), abs(hi), hi - lo, 1e-3)
            mon.check(np.all(q[5 + s] >= lo - tol) and np.all(q[5 + s] <= hi + tol), "a scalar leaves its initial range",
                      step=k, lo=lo, hi=hi, got=[float(q[5 + s].min()), float(q[5 + s].max())], **wit)
    mon.see("positivity", dims, style, tuple(s["type"] for v in cfg["bc"].values() for s in v))
    mon.sample = dict(cfg=work.describe(cfg), style=style, smallest_density=dmin, smallest_pressure=pmin)


def profile(rng, cfg):
    n = cfg["n"]
    style = work.pick(rng, ["square", "spike", "noise", "smooth", "stairs", "dip"])
    ph = work.phases(cfg)
    act = ref.active(cfg)
    if style == "square":
        m = np.ones(n, bool)
        for d in act:
            m &= (ph[d] > 1.5) & (ph[d] < 4.5)
        f = np.where(m, 2.0, 1.0)
    elif style in ("spike", "dip"):
        f = np.ones(n)
        f[tuple(int(rng.integers(m)) for m in n)] = 4.0 if style == "spike" else 0.1
    elif style == "noise":
        f = 10 ** rng.uniform(-1, 1, n)
    elif style == "smooth":
        f = 1.5 + work.smooth_field(rng, cfg, 1.0)
    else:
        f = 1.0 + np.floor(sum(ph[d] for d in act) * 1.3) % 4
    return f, style


@kind("advection", 300, 3000)
def advection(rng, mon, i):
    dims = work.pick(rng, work.ALL_DIMS, p=[0.2, 0.15, 0.15, 0.15, 0.15, 0.15, 0.05])
    nd = len(dims)
    order0 = i % 3 == 0
    riem = work.pick(rng, ["llf", "hllc", "advection_upwind"])
    what = work.pick(rng, ["density", "scalar"])
    bcs = ("periodic", "free", "outflow")
    if order0:
        cfg = work.rand_cfg(rng, dims=dims, p=(0, 0, 0), riemann=(riem,), limiting=False, nmin=6, extra=20, cells=500,
                            passives=1, bcs=bcs)
    else:
        cfg = work.rand_cfg(rng, dims=dims, pmax=4, riemann=(riem,), limiting=True, nmin=6, cells=500, passives=1, bcs=bcs)
        pp = tuple(max(1, q) if d in ref.active(cfg) else 0 for d, q in enumerate(cfg["p"]))
        cfg["p"] = pp
        cfg["n"] = tuple(max(a, b) if d in ref.active(cfg) else 1 for d, (a, b) in enumerate(zip(cfg["n"], work.need(pp))))
        cfg["lim"].update(force_trouble=True, slope_limiter=work.pick(rng, ["minmod", "moncen"]))
    cfg["CFL"] = float(work.pick(rng, [0.5, 0.5, 0.3, 0.1]))
    f, style = profile(rng, cfg)
    w = np.empty((6,) + cfg["n"])
    w[0], w[5] = (f, 0.5) if what == "density" else (float(rng.uniform(0.5, 2)), f)
    if what == "scalar" and order0 and rng.random() < 0.5:
        w[0] = 10 ** rng.uniform(-1, 1, cfg["n"])  # scalars in varying density, degree 0
    w[4] = float(rng.uniform(0.01, 1))
    for d in range(3):
        w[1 + d] = float(rng.choice([-1, 1]) * rng.uniform(0.2, 2)) if (d in ref.active(cfg) or rng.random() < 0.3) else 0.0
    S = work.build(cfg, ref.cons(w, cfg["gamma"]))
    row = 0 if what == "density" else 5
    lo, hi = w[row].min(), w[row].max()
    tol = 1e-11 * max(hi - lo, abs(hi))
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3"])
    per = len(cfg["dims"]) == 1
    a = ref.AX[cfg["dims"][0]]
    closed = cfg["bc"][cfg["dims"][0]][0]["type"] == "periodic"

    def tv(q):
        q = np.moveaxis(q, a, 0)
        t = np.abs(np.diff(q, axis=0)).sum()
        return t + (np.abs(q[0] - q[-1]).sum() if closed else 0.0)

    def values():
        u = work.state(S)
        return u[0] if row == 0 else u[5] / u[0]

    prev = tv(values()) if per else None
    wit = dict(what=what, style=style, integrator=name, cfg=str(work.describe(cfg)))
    steps = 8 if mon.tier == "quick" else 25
    for k in range(steps):
        work.advance(S, name, n=1)
        q = values()
        mon.event("steps checked (advection)")
        if not mon.check(np.all(q >= lo - tol) and np.all(q <= hi + tol), "advection creates a new extremum",
                         step=k, lo=lo, hi=hi, got=[float(q.min()), float(q.max())], **wit):
            return
        if per and not (what == "scalar" and np.ptp(w[0]) > 0):
            t = tv(q)
            mon.event("total variation compared")
            if not mon.check(t <= prev + 1e-10 * max(prev, hi), "advection increases the total variation", step=k, before=prev, after=t, **wit):
                return
            prev = t
    mon.see("advection", dims, riem, order0, what, style, cfg["lim"] and cfg["lim"]["slope_limiter"], name)
