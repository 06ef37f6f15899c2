"""C23 logged troubles"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C23"
LEVEL = "exploration"
SCALE = 2
RULE = (
    "limited runs with every integrator, schedule, continued runs and detection options; every stage "
    "state is recorded, its troubled cells found by the reference detector, and the mean over the "
    "stages of the last step compared with what each snapshot carries. distinct by configuration, schedule"
)
ASSUMPTIONS = ["stages whose decisions lie within 1e-10 of a threshold end the comparison of that snapshot"]
REQUIRE = {"snapshots compared": 500, "snapshots with fractional trouble": 120, "snapshots before the first step": 150,
           "steps with changing trouble": 120, "continued runs": 60, "snapshots of long runs": 50}
KINDS, kind = registry()
KEYS = ("trouble", "NAD violation magnitude", "PAD violation magnitude")


def watch(S):
    """stages of every step, in order; a step ends when the time stamps grow"""
    rec = dict(stages=[], steps=[])
    inner_f, inner_h = S.f, S.step_helper_function

    def f(t, u):
        rec["stages"].append((float(t), np.array(u, dtype=float)))
        return inner_f(t, u)

    def helper():
        inner_h()
        rec["steps"].append(rec["stages"])
        rec["stages"] = []

    S.f, S.step_helper_function = f, helper
    return rec


def means(cfg, stages):
    """reference means over the stages, and the distance from a threshold"""
    acc, margin, flags = None, np.inf, []
    for t, u in stages:
        _, _, det = ref.rhs(cfg, u, t=t, want_detail=True)
        margin = min(margin, det["margin"]) if np.isfinite(det["margin"]) else (0.0 if not np.isfinite(u).all() else margin)
        new = [det["trouble"].astype(float), det["nad"], det["pad"]]
        flags.append(det["trouble"])
        acc = new if acc is None else [a + b for a, b in zip(acc, new)]
    return [a / len(stages) for a in acc], margin, flags


def compare(mon, cfg, snap, steps_done, steps, n, wit, cache):
    for k in KEYS:
        if not mon.check(k in snap and np.shape(snap[k]) == tuple(n), "a snapshot of a limited run carries no value per cell", key=k,
                         shape=np.shape(snap.get(k)), **wit):
            return
    if steps_done == 0:
        mon.event("snapshots before the first step")
        for k in KEYS:
            mon.check(not np.any(snap[k]), "troubles recorded before the first step", key=k, **wit)
        return
    if steps_done not in cache:
        cache[steps_done] = means(cfg, steps[steps_done - 1])
    want, margin, flags = cache[steps_done]
    if margin < 1e-10:
        mon.event("snapshots too close to a threshold")
        return
    mon.event("snapshots compared")
    if np.any((want[0] > 0) & (want[0] < 1)):
        mon.event("snapshots with fractional trouble")
    if steps_done > 1 and steps_done - 1 in cache and not np.array_equal(want[0], cache[steps_done - 1][0][0]):
        mon.event("steps with changing trouble")
    w = dict(step=steps_done, stages=len(flags), **wit)
    mon.close(snap["trouble"], want[0], 1e-12, "recorded trouble is not the mean over the stages of the step", scale=1.0, **w)
    mon.close(snap[KEYS[1]], want[1], 1e-9, "recorded neighbourhood violation is not the mean over the stages", scale=1.0, **w)
    mon.close(snap[KEYS[2]], want[2], 1e-9, "recorded bound violation is not the mean over the stages", scale=1.0, **w)


@kind("runs", 240, 4500)
def runs(rng, mon, i):
    cfg = work.rand_cfg(rng, cells=300, pmax=5, limiting=True, dims=work.pick(rng, ["x", "y", "z", "xy", "yz", "xz", "x", "y", "xy", "xyz"]))
    cfg["CFL"] = float(work.pick(rng, [0.3, 0.6]))
    cfg["lim"]["force_trouble"] = bool(i % 17 == 0)
    if i % 3 == 0:
        # tighter bounds, so that some cells leave them in some stages
        cfg["lim"]["PAD"] = {"rho": (0.75, 1.3), "P": (0.7, 1.4)}
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["noisy", "jumps", "smooth"]))
    if i % 4 == 1:
        work.prescribe(rng, cfg, rate=float(rng.uniform(0.5, 2) / ref.timestep(cfg, u)))
        mon.event("prescribed boundaries")
    S = work.build(cfg, u, snapshots_as_fv_averages=bool(rng.random() < 0.7))
    work.budget(S, 400)
    rec = watch(S)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    at = []
    inner = S.snapshot

    def snapshot():
        at.append(len(rec["steps"]))
        inner()

    S.snapshot = snapshot
    dt = ref.timestep(cfg, u, t=0.0)
    log = []
    for r in range(int(rng.integers(1, 3))):
        k = int(rng.integers(4))
        if k == 0:
            kw = dict(n=int(rng.integers(0, 4)))
        else:
            kw = dict(T=float(S.t) + float(dt * rng.uniform(0.5, 3.5)))
            if k >= 2:
                kw["log_every_step"] = True
            if k == 3 or rng.random() < 0.4:
                kw["downbeats"] = [float(v) for v in rng.uniform(float(S.t), kw["T"], 2)]
        log.append(sorted(kw))
        nm = name if rng.random() < 0.7 else work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4"])
        getattr(S, nm)(**kw)
        if r:
            mon.event("continued runs")
        if not np.all(np.isfinite(work.state(S))):
            break
    wit = dict(cfg=str(work.describe(cfg)), integrator=name, schedule=str(log))
    mon.check(len(at) == len(S.snapshots), "snapshots taken and stored differ", **wit)
    cache = {}
    for done, snap in zip(at, S.snapshots):
        if done and not all(np.isfinite(v).all() for _, v in rec["steps"][done - 1]):
            break
        compare(mon, cfg, snap, done, rec["steps"], cfg["n"], dict(snapshot_time=float(snap["t"]), **wit), cache)
    mon.see(name, *work.key(cfg), str(log), cfg["lim"]["force_trouble"])
    mon.sample = dict(cfg=work.describe(cfg), integrator=name, schedule=log, snapshots=len(at))


@kind("long runs", 12, 150)
def long_runs(rng, mon, i):
    """the record belongs to the last step however many came before"""
    cfg = work.rand_cfg(rng, cells=30, pmax=4, limiting=True, dims="xyz"[i % 3], long=0, few=0, bcs=("periodic", "free"))
    cfg["CFL"] = 0.4
    cfg["lim"].update(NAD=float(work.pick(rng, [0.0, 1e-5, 1e-3])), slope_limiter="minmod", SED=bool(i % 2))
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["noisy", "jumps", "smooth"]))
    S = work.build(cfg, u)
    work.budget(S, 4000)
    rec = watch(S)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    at = []
    inner = S.snapshot

    def snapshot():
        at.append(len(rec["steps"]))
        inner()

    S.snapshot = snapshot
    T = float(ref.timestep(cfg, u)) * float(rng.uniform(40, 150))
    getattr(S, name)(T=T, downbeats=[float(v) for v in rng.uniform(0.3 * T, T, 12)])
    cache = {}
    wit = dict(cfg=str(work.describe(cfg)), integrator=name)
    for done, snap in zip(at, S.snapshots):
        if done and not all(np.isfinite(v).all() for _, v in rec["steps"][done - 1]):
            break
        compare(mon, cfg, snap, done, rec["steps"], cfg["n"], dict(snapshot_time=float(snap["t"]), **wit), cache)
        mon.event("snapshots of long runs")
    mon.see("long", name, *work.key(cfg))


@kind("plain runs", 20, 200)
def plain(rng, mon, i):
    """forced trouble gives exactly 1; data without trouble exactly 0"""
    cfg = work.rand_cfg(rng, cells=300, pmax=4, limiting=True)
    force = bool(i % 2)
    cfg["lim"].update(force_trouble=force, NAD=10.0, NAD_range="relative", NAD_mode="global", PAD={"rho": (0.0, np.inf)})
    u = work.rand_state(rng, cfg, style="smooth")
    S = work.build(cfg, u)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4"])
    getattr(S, name)(n=int(rng.integers(1, 4)))
    s = S.snapshots[-1]
    mon.check(np.all(s["trouble"] == (1.0 if force else 0.0)), "recorded trouble of forced or untroubled runs",
              force=force, lo=float(np.min(s["trouble"])), hi=float(np.max(s["trouble"])), integrator=name, cfg=str(work.describe(cfg)))
    mon.check(not np.any(S.snapshots[0]["trouble"]), "troubles recorded before the first step", integrator=name)
    mon.see("plain", force, name, *work.key(cfg))
