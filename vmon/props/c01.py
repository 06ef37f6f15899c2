"""C01 conservation in closed domains"""

import numpy as np

from vmon import ref, work
from vmon.core import registry, StopCase

PID = "C01"
LEVEL = "exploration"
RULE = (
    "random closed-domain configurations and states, run step by step; a case is "
    "non-trivial if the state changed and at least one step was observed; distinct by "
    "dimensions, degrees, flux solver, boundaries, limiting options, dyes, integrator"
)
ASSUMPTIONS = [
    "rounding allowance 1e-12 of the summed magnitudes per step",
    "a run is followed until its state stops being finite",
]
REQUIRE = {"steps observed": 500, "steps with trouble on a periodic seam": 3}
KINDS, kind = registry()

TOL = 1e-12


def conserved_rows(cfg):
    """rows whose total must not change"""
    rows = [0, 4] + list(range(5, 5 + len(cfg["passives"])))
    for d in range(3):
        if cfg["bc"]["xyz"[d]][0]["type"] == "periodic":
            rows.append(1 + d)
    return rows


def totals(u):
    return u.reshape(u.shape[0], -1).sum(axis=1)


def watch(mon, cfg, u, steps, integrator, tag):
    S = work.build(cfg, u)
    rows = conserved_rows(cfg)
    t0 = totals(u)
    mag = np.abs(u).reshape(u.shape[0], -1).sum(axis=1)
    mmag = mag[1:4].sum() + np.sqrt(mag[0] * mag[4])
    scale = mag.copy()
    scale[1:4] = mmag
    seen = 0
    for k in range(steps):
        work.advance(S, integrator, n=1)
        un = work.state(S)
        if not np.all(np.isfinite(un)):
            if seen == 0:
                raise StopCase("not finite after one step")
            break
        seen += 1
        tot = totals(un)
        mon.event("steps observed")
        for r in rows:
            name = ["mass", "x momentum", "y momentum", "z momentum", "energy"]
            mon.close(
                tot[r],
                t0[r],
                TOL * (k + 1),
                f"total of a conserved quantity",
                scale=scale[r],
                quantity=name[r] if r < 5 else "scalar",
                step=k + 1,
                cfg=str(work.describe(cfg)),
            )
        if cfg["lim"] is not None:
            tr = np.asarray(S.snapshots[-1]["trouble"])
            if tr.any():
                mon.event("steps with trouble")
            for d in ref.active(cfg):
                if cfg["bc"]["xyz"[d]][0]["type"] == "periodic":
                    ends = tr.take([0, tr.shape[d] - 1], axis=d)
                    if ends.any():
                        mon.event("steps with trouble on a periodic seam")
                        break
    if not np.array_equal(un, u):
        mon.see(tag, integrator, *work.key(cfg))
    mon.sample = dict(cfg=work.describe(cfg), integrator=integrator, steps=seen)


@kind("random closed boxes", 150, 2500)
def random_boxes(rng, mon, i):
    """random periodic/reflecting boxes, random states, random integrator"""
    cfg = work.rand_cfg(
        rng, bcs=("periodic", "reflective"), one_sided=False, cells=3000
    )
    cfg["CFL"] = float(rng.choice([0.1, 0.3]))
    u = work.rand_state(rng, cfg)
    watch(
        mon,
        cfg,
        u,
        int(rng.integers(3, 9)),
        work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4"]),
        "box",
    )


@kind("limited flow across the seam", 110, 2000)
def seam(rng, mon, i):
    """limiting on, discontinuities placed on the periodic seam, convex or not"""
    dims = work.pick(rng, work.ALL_DIMS, p=[0.2, 0.1, 0.1, 0.2, 0.15, 0.15, 0.1])
    cfg = work.rand_cfg(
        rng,
        dims=dims,
        pmax=6,
        bcs=("periodic", "periodic", "reflective"),
        one_sided=False,
        limiting=True,
        cells=2500,
    )
    cfg["lim"]["SED"] = bool(rng.random() < 0.3)
    cfg["lim"]["NAD"] = float(rng.choice([1e-5, 1e-3, 1e-2]))
    cfg["lim"]["NAD_range"] = "relative"
    cfg["lim"]["force_trouble"] = bool(rng.random() < 0.1)
    cfg["CFL"] = float(rng.choice([0.2, 0.4]))
    w = work.rand_prims(rng, cfg, style="smooth")
    # a slab that straddles the periodic boundary of one active direction
    act = ref.active(cfg)
    d = act[int(rng.integers(len(act)))]
    n = cfg["n"][d]
    width = int(rng.integers(1, max(2, n // 3)))
    start = int(rng.integers(-width, 1))
    idx = np.arange(start, start + width) % n
    sl = [slice(None)] * 4
    sl[1 + d] = idx
    w[0][tuple(sl[1:])] *= 1.5
    w[4][tuple(sl[1:])] *= 1.4
    watch(
        mon,
        cfg,
        ref.cons(w, cfg["gamma"]),
        int(rng.integers(3, 8)),
        work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4"]),
        "seam",
    )


@kind("advection", 40, 500)
def advection(rng, mon, i):
    """pure advection with the upwind solver in periodic boxes"""
    cfg = work.rand_cfg(rng, bcs=("periodic",), riemann=("advection_upwind",))
    cfg["CFL"] = 0.3
    w = work.rand_prims(rng, cfg)
    for k in (1, 2, 3):
        w[k] = rng.uniform(-1, 1)
    watch(
        mon,
        cfg,
        ref.cons(w, cfg["gamma"]),
        5,
        work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4"]),
        "adv",
    )


@kind("rate of change telescopes", 120, 2000)
def telescopes(rng, mon, i):
    """the rate of change of arbitrary states sums to zero in closed boxes"""
    cfg = work.rand_cfg(rng, bcs=("periodic", "reflective"), one_sided=False)
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["noisy", "jumps", "smooth"]))
    S = work.build(cfg, u)
    dt, du = S.f(0.0, u.copy())
    work.finite_or_stop(du)
    mon.event("rates observed")
    s = totals(du)
    # scale: magnitude of the flux differences
    mag = np.abs(du).reshape(du.shape[0], -1).sum(axis=1)
    mag = np.maximum(mag, mag[:5].max() + np.abs(u).sum() / u.shape[0])
    for r in conserved_rows(cfg):
        mon.close(
            s[r], 0.0, 1e-11, "sum of the rate of change", scale=mag[r], row=r,
            cfg=str(work.describe(cfg)),
        )
    mon.see("rate", *work.key(cfg))


@kind("long runs", 6, 40)
def long_runs(rng, mon, i):
    """longer runs through the default integrator with output times in between"""
    cfg = work.rand_cfg(
        rng,
        dims=work.pick(rng, ["x", "y", "z", "xy", "yz", "xz"]),
        pmax=4,
        bcs=("periodic", "reflective"),
        one_sided=False,
        cells=400,
        limiting=bool(i % 2),
        p=None,
    )
    cfg["CFL"] = 0.4
    if cfg["lim"]:
        cfg["lim"]["SED"] = False
        cfg["lim"]["NAD"] = 1e-3
    u = work.rand_state(rng, cfg, style="jumps" if cfg["lim"] else "smooth")
    S = work.build(cfg, u)
    count = work.budget(S, 20000)
    T = 0.5
    S.run(T=T, downbeats=list(rng.uniform(0, T, 4)))
    un = work.state(S)
    work.finite_or_stop(un)
    mon.event("steps observed", S.step_count)
    mag = np.abs(u).reshape(u.shape[0], -1).sum(axis=1)
    mag[1:4] = mag[1:4].sum() + np.sqrt(mag[0] * mag[4])
    for r in conserved_rows(cfg):
        mon.close(
            totals(un)[r], totals(u)[r], TOL * (S.step_count + 10),
            "total of a conserved quantity", scale=mag[r], row=r,
            cfg=str(work.describe(cfg)),
        )
    mon.see("long", *work.key(cfg))
    mon.sample = dict(cfg=work.describe(cfg), steps=S.step_count, evals=count["n"])
