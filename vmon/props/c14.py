"""C14 blending of fluxes next to troubled cells"""

import itertools

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C14"
LEVEL = "exploration"
RULE = (
    "(a) random and exhaustive small patterns of troubled cells mapped to face weights; (b) "
    "complete limited rates of change of random states against an independent implementation of "
    "the scheme; (c) limited runs without troubled cells vs. unlimited runs, fully troubled runs "
    "vs. the second-order limited scheme. distinct by dimensions, boundaries, blending, pattern "
    "or configuration"
)
ASSUMPTIONS = [
    "three-dimensional convex blending is not implemented (refused); see C30",
    "states whose detection decision lies within rounding of a threshold are excluded",
]
REQUIRE = {
    "patterns compared": 1200,
    "limited rates compared": 200,
    "partially troubled": 100,
    "troubled seam": 60,
    "untroubled runs": 40,
    "fully troubled runs": 60,
    "limited rates in long histories with troubled cells": 30,
}
KINDS, kind = registry()


def weights(mon, trouble, dims, convex, periodic, what):
    from fvhoe.slope_limiting import broadcast_to_troubled_interfaces

    act = [ref.AX[c] for c in dims]
    keep = trouble.copy()
    got = broadcast_to_troubled_interfaces(
        trouble, dims=dims, convex=convex,
        periodic_x="x" in periodic, periodic_y="y" in periodic, periodic_z="z" in periodic,
    )
    per = [ref.AX[c] for c in periodic]
    want = ref.face_weights(trouble, act, convex, [d for d in act if d in per])
    mon.event("patterns compared")
    wit = dict(dims=dims, convex=convex, periodic=periodic, trouble=np.asarray(trouble, int), where=what)
    for d in act:
        g = np.asarray(got[d], dtype=float)
        g = g.reshape(g.shape[-3:])
        mon.close(g, want[d], 1e-12, f"fallback share of the faces along {'xyz'[d]}", scale=1.0, **wit)
        if d in per:
            a, b = np.take(g, 0, axis=d), np.take(g, -1, axis=d)
            mon.check(np.array_equal(a, b), "the two images of a periodic face are weighted differently", **wit)
    mon.check(np.array_equal(trouble, keep), "the pattern was modified", **wit)


@kind("every pattern in 1D", 42, 42)
def every(rng, mon, i):
    """all patterns of up to 6 cells, both blendings, periodic and not, all directions"""
    dims = "xyz"[i % 3]
    n = 1 + (i // 3) % 7
    convex = bool((i // 21) % 2)
    if n == 7:
        n = int(rng.integers(7, 12))
        pats = [tuple(rng.random(n) < rng.uniform(0.05, 0.6)) for _ in range(60)]
    else:
        pats = itertools.product((False, True), repeat=n)
    if convex and n < 2:
        pats = []  # periodic wrap of two cells needs at least two cells
    shape = [1, 1, 1]
    shape[ref.AX[dims]] = n
    for pat in pats:
        for periodic in ("", dims, "xyz"):
            tr = np.array(pat, dtype=bool).reshape(shape)
            weights(mon, tr.astype(int), dims, convex, periodic, "every")
            mon.see(dims, n, convex, periodic, sum(pat))


@kind("random patterns", 700, 12000)
def patterns(rng, mon, i):
    dims = work.pick(rng, work.ALL_DIMS)
    nd = len(dims)
    convex = bool(nd < 3 and rng.random() < 0.6)
    top = {1: 12, 2: 9, 3: 6}[nd]
    n = tuple(int(rng.integers(2 if convex else 1, top + 1)) if c in dims else 1 for c in "xyz")
    q = float(work.pick(rng, [0.02, 0.1, 0.4, 1.0]))
    tr = rng.random(n) < q
    if rng.random() < 0.4:
        # a single troubled cell, often at an edge
        tr = np.zeros(n, bool)
        tr[tuple(int(work.pick(rng, [0, m - 1, int(rng.integers(m))])) for m in n)] = True
    periodic = "".join(c for c in "xyz" if rng.random() < 0.5)
    dtype = work.pick(rng, [int, bool, float])
    weights(mon, tr.astype(dtype), dims, convex, periodic, "random")
    edge = any(np.take(tr, j, axis=ref.AX[c]).any() for c in dims for j in (0, -1))
    if edge and any(c in periodic for c in dims):
        mon.event("troubled seam")
    mon.see(dims, n, convex, "".join(c for c in periodic if c in dims), int(tr.sum()))
    mon.sample = dict(dims=dims, n=n, convex=convex, periodic=periodic, troubled=int(tr.sum()))


@kind("limited rate of change", 420, 7000)
def rate(rng, mon, i):
    """complete right-hand side against the reference scheme"""
    cfg = work.rand_cfg(rng, cells=700, limiting=True,
                        bcs=("periodic", "periodic", "free", "outflow", "reflective"))
    if rng.random() < 0.15:
        cfg["lim"]["force_trouble"] = True
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps", "strong"]))
    time = 0.0
    if i % 4 == 1:
        # values prescribed for a time that is not the solver's own, as in every later stage
        work.prescribe(rng, cfg)
        time = float(rng.uniform(0.1, 0.6))
        mon.event("prescribed boundaries at other times")
    if rng.random() < 0.2:
        cfg["fixed_dt"] = float(ref.timestep(cfg, u, t=time) * rng.uniform(0.2, 3))
    S = work.build(cfg, u)
    dt_w, want, det = ref.rhs(cfg, u, t=time, want_detail=True)
    if not np.all(np.isfinite(want)) or (det["margin"] < 1e-10 and not cfg["lim"]["force_trouble"]):
        mon.event("cases too close to a threshold")
        return
    dt, got = S.f(time, u.copy())
    tr = det["trouble"]
    mon.event("limited rates compared")
    if tr.any() and not tr.all():
        mon.event("partially troubled")
    for d in ref.active(cfg):
        if cfg["bc"]["xyz"[d]][0]["type"] == "periodic" and (np.take(tr, 0, axis=d).any() or np.take(tr, -1, axis=d).any()):
            mon.event("troubled seam")
            break
    h = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in ref.active(cfg))
    mon.close(got, want, 1e-9, "limited rate of change", scale=np.maximum(work.groups(want), work.groups(u) / h),
              cfg=str(work.describe(cfg)), troubled=int(tr.sum()))
    mon.see("rate", *work.key(cfg), int(tr.sum()))


@kind("limited stages", 90, 1500)
def stages(rng, mon, i):
    """every stage of limited runs: the rate actually used by the integrator"""
    cfg = work.rand_cfg(rng, cells=300, limiting=True, pmax=5)
    cfg["CFL"] = 0.3
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["noisy", "jumps", "strong"]))
    if i % 3 == 1:
        work.prescribe(rng, cfg, rate=float(rng.uniform(0.5, 2) / ref.timestep(cfg, u)))
    S = work.build(cfg, u)
    seen = []
    inner = S.f

    def f(t, v):
        v = np.array(v)
        out = inner(t, v)
        seen.append((t, v, np.array(out[1])))
        return out

    S.f = f
    work.advance(S, work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"]), n=2)
    for t, v, got in seen:
        if not np.all(np.isfinite(v)):
            break
        _, want, det = ref.rhs(cfg, v, t=t, want_detail=True)
        if not np.all(np.isfinite(want)):
            break
        if det["margin"] < 1e-9:
            mon.event("cases too close to a threshold")
            continue
        mon.event("limited rates compared")
        tr = det["trouble"]
        if tr.any() and not tr.all():
            mon.event("partially troubled")
        h = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in ref.active(cfg))
        mon.close(got, want, 1e-8, "limited rate of change in a run", scale=np.maximum(work.groups(want), work.groups(v) / h),
                  cfg=str(work.describe(cfg)), troubled=int(tr.sum()))
    mon.see("stages", *work.key(cfg))


@kind("long histories", 24, 300)
def long_runs(rng, mon, i):
    """limiting acts in the same way however many steps were taken before"""
    cfg = work.rand_cfg(rng, dims="xyz"[i % 3] if i % 4 else None, cells=64, limiting=True, pmax=4, long=0, few=0,
                        bcs=("periodic", "free"))
    cfg["CFL"] = 0.3
    cfg["lim"]["PAD"] = {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
    cfg["lim"]["NAD"] = float(work.pick(rng, [0.0, 1e-5, 1e-3]))
    cfg["lim"]["slope_limiter"] = work.pick(rng, ["minmod", "moncen"])
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps"]))
    if i % 3 == 1:
        cfg["fixed_dt"] = float(0.5 * ref.timestep(cfg, u))
    S = work.build(cfg, u)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    inner = S.f
    state = {"on": False}
    seen = []

    def f(t, v):
        out = inner(t, v)
        if state["on"]:
            seen.append((t, np.array(v), np.array(out[1])))
        return out

    S.f = f
    for k in range(8):
        state["on"] = False
        work.advance(S, name, n=int(rng.integers(1, 30)))
        work.finite_or_stop(work.state(S))
        if i % 2:
            state["on"] = True
            work.advance(S, name, n=1)
        else:
            # asked directly, between two runs
            v = work.state(S) * (1 + 1e-3 * rng.normal(size=S.am("u").shape))
            seen.append((S.t, v, np.array(inner(S.t, v.copy())[1])))
    for t, v, got in seen:
        _, want, det = ref.rhs(cfg, v, t=t, want_detail=True)
        if not np.all(np.isfinite(want)):
            break
        if det["margin"] < 1e-9:
            mon.event("cases too close to a threshold")
            continue
        mon.event("limited rates in long histories")
        if det["trouble"].any():
            mon.event("limited rates in long histories with troubled cells")
        h = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in ref.active(cfg))
        mon.close(got, want, 1e-8, "limited rate of change late in a run", scale=np.maximum(work.groups(want), work.groups(v) / h),
                  cfg=str(work.describe(cfg)), steps=S.step_count)
    mon.see("long", name, *work.key(cfg))


@kind("no troubled cell", 90, 1500)
def untroubled(rng, mon, i):
    """criteria that nothing violates: limited run = unlimited run"""
    cfg = work.rand_cfg(rng, cells=700, limiting=True)
    cfg["lim"].update(NAD=1e6, NAD_range="relative", NAD_mode="global", NAD_vars=None, PAD={"rho": (-1e9, 1e9)})
    cfg["CFL"] = 0.3
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps"]))
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    A = work.build(cfg, u)
    B = work.build(dict(cfg, lim=None), u)
    work.advance(A, name, n=2)
    work.advance(B, name, n=2)
    a, b = work.state(A), work.state(B)
    work.finite_or_stop(b)
    if A.snapshots[-1]["trouble"].any():
        mon.violate("cells are flagged although nothing violates the criteria", cfg=str(work.describe(cfg)))
    mon.event("untroubled runs")
    mon.close(a, b, 1e-11, "limiting without troubled cells changes the result", scale=work.groups(b),
              cfg=str(work.describe(cfg)), integrator=name)
    mon.see("untroubled", name, *work.key(cfg))


@kind("all cells troubled", 120, 2000)
def fully(rng, mon, i):
    """forced trouble = second-order limited scheme everywhere"""
    cfg = work.rand_cfg(rng, cells=700, limiting=True)
    how = work.pick(rng, ["force", "bounds"])
    if how == "force":
        cfg["lim"]["force_trouble"] = True
    else:
        cfg["lim"]["PAD"] = {"rho": (1e8, np.inf)}
    cfg["CFL"] = 0.3
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps"]))
    S = work.build(cfg, u)
    dt, got = S.f(0.0, u.copy())
    pl = tuple(min(1, q) for q in cfg["p"])
    want = ref.divergence(cfg, ref.fluxes(cfg, u, p=pl, limiter=cfg["lim"]["slope_limiter"]))
    if not np.all(np.isfinite(want)):
        return
    mon.event("fully troubled runs")
    h = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in ref.active(cfg))
    mon.close(got, want, 1e-9, "fully troubled rate of change", scale=np.maximum(work.groups(want), work.groups(u) / h),
              cfg=str(work.describe(cfg)), how=how)
    # degree-1 run with the same limiter, same step, one forward-Euler step
    if how == "force":
        low = dict(cfg, p=pl, fixed_dt=float(dt))
        A, B = work.build(dict(cfg, fixed_dt=float(dt)), u), work.build(low, u)
        A.euler(n=1), B.euler(n=1)
        mon.close(work.state(A), work.state(B), 1e-10, "fully troubled step depends on the degree",
                  scale=work.groups(u), cfg=str(work.describe(cfg)))
        mon.check(np.all(A.snapshots[-1]["trouble"] == 1), "forced trouble is not recorded everywhere")
    mon.see("fully", how, *work.key(cfg))
