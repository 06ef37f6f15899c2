"""C19 snapshots"""

import hashlib

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C19"
LEVEL = "exploration"
RULE = (
    "random runs (schedules, integrators, boundaries incl. time-dependent ones, degrees, both "
    "snapshot options, continued runs); every snapshot is digested when stored and at the end, "
    "and recomputed from the state observed at that moment. distinct by configuration, schedule"
)
ASSUMPTIONS = ["comparison with the reference to 1e-9 of each variable's size"]
REQUIRE = {"snapshots recomputed": 700, "snapshots digested": 700, "helper calls": 300, "paired runs": 60,
           "centre-valued snapshots": 150, "runs with many snapshots": 8}
KINDS, kind = registry()


def digest(snap):
    h = hashlib.sha256()
    for k in sorted(snap):
        v = snap[k]
        h.update(k.encode())
        h.update(np.ascontiguousarray(np.asarray(v, dtype=float)).tobytes())
        h.update(str(np.shape(v)).encode())
    return h.hexdigest()


def prescribe(rng, cfg):
    act = ref.active(cfg)
    c = "xyz"[act[int(rng.integers(len(act)))]]
    base = ref.cons(np.array([1.0, *rng.uniform(-0.3, 0.3, 3), 1.0] + [0.5] * len(cfg["passives"])), cfg["gamma"])

    def val(x, y, z, t):
        return base.reshape(-1, 1, 1, 1) * (1 + 0.1 * np.sin(x + y - z + 40 * t))[None]

    sides = list(cfg["bc"][c])
    if sides[0]["type"] == "periodic":
        sides = [{"type": "free"}, {"type": "free"}]
    sides[int(rng.integers(2))] = {"type": "dirichlet", "value": val}
    cfg["bc"][c] = tuple(sides)


def schedule(rng, dt, t0=0.0):
    """keyword arguments of one run"""
    if rng.random() < 0.35:
        return dict(n=int(rng.integers(0, 4)))
    T = t0 + dt * float(rng.uniform(0.5, 4))
    kw = dict(T=T)
    if rng.random() < 0.6:
        kw["downbeats"] = list(rng.uniform(t0, T, int(rng.integers(1, 4))))
    if rng.random() < 0.4:
        kw["log_every_step"] = True
    if rng.random() < 0.2:
        kw["exact"] = False
    return kw


@kind("faithful and unchanged", 220, 4000)
def faithful(rng, mon, i):
    cfg = work.rand_cfg(rng, cells=500, pmax=8)
    cfg["CFL"] = 0.3
    if i % 5 == 0:
        prescribe(rng, cfg)
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps"]))
    fv = bool(rng.random() < 0.6)
    seen = []
    use_helper = bool(i % 2)

    def look(S):
        seen.append(dict(t=float(S.t), u=work.state(S), n=len(S.snapshots), nt=len(S.snapshot_times),
                         digest=digest(S.snapshots[-1]) if S.snapshots else None, args=1))

    over = dict(snapshots_as_fv_averages=fv)
    if use_helper:
        over["snapshot_helper_function"] = look
    S = work.build(cfg, u, **over)
    if not use_helper:
        inner = S.snapshot

        def snapshot():
            inner()
            look(S)

        S.snapshot = snapshot
    work.budget(S, 600)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    dt = ref.timestep(cfg, u, t=0.0)
    logs = []
    for _ in range(int(rng.integers(1, 3))):
        kw = schedule(rng, dt, float(S.t))
        logs.append({k: (v if not isinstance(v, list) else len(v)) for k, v in kw.items()})
        getattr(S, name)(**kw)
        if not np.all(np.isfinite(work.state(S))):
            break
    wit = dict(cfg=str(work.describe(cfg)), integrator=name, schedule=str(logs), fv=fv, helper=use_helper)
    mon.check(len(seen) == len(S.snapshots), "the snapshot function was not called once per snapshot" if use_helper else "snapshots stored vs. taken",
              calls=len(seen), stored=len(S.snapshots), **wit)
    mon.check(len(S.snapshot_times) == len(S.snapshots), "one time per snapshot", **wit)
    for j, s in enumerate(seen):
        if use_helper:
            mon.event("helper calls")
        mon.check(s["n"] == j + 1 and s["nt"] == j + 1, "the snapshot function was called before its snapshot was stored",
                  call=j, stored=s["n"], **wit)
    cen = [ref.centres(cfg["n"][d], cfg["dom"][d]) for d in range(3)]
    for j, (s, snap) in enumerate(zip(seen, S.snapshots)):
        if not np.all(np.isfinite(s["u"])):
            break
        mon.event("snapshots digested")
        mon.check(digest(snap) == s["digest"], "a snapshot changed after it was taken", snapshot=j, of=len(seen), **wit)
        mon.check(snap["t"] == s["t"] == S.snapshot_times[j], "time of a snapshot", got=float(snap["t"]), want=s["t"], **wit)
        for d, c in enumerate("xyz"):
            mon.close(snap[c], cen[d], 1e-12, "coordinates of a snapshot", scale=max(1.0, np.max(np.abs(cen[d]))), axis=c, **wit)
        want = ref.primitives(cfg, s["u"], fv=fv, t=s["t"])
        if not np.all(np.isfinite(want)):
            break
        mon.event("snapshots recomputed")
        if not fv:
            mon.event("centre-valued snapshots")
        mon.close(snap["w"], want, 1e-9, "primitive variables of a snapshot", scale=work.groups(want), snapshot=j, **wit)
    mon.see(fv, use_helper, name, *work.key(cfg), len(seen))
    mon.sample = dict(cfg=work.describe(cfg), schedule=logs, snapshots=len(seen))


@kind("many snapshots", 14, 200)
def many(rng, mon, i):
    """hundreds of snapshots: each is kept, with the state it was taken of"""
    cfg = work.rand_cfg(rng, dims="xyz"[i % 3], cells=16, pmax=2, long=0, few=0, bcs=("periodic", "free"))
    cfg["CFL"] = 0.3
    if cfg["lim"]:
        cfg["lim"].update(slope_limiter="minmod")
    u = work.rand_state(rng, cfg, style="smooth")
    seen = []
    S = work.build(cfg, u, snapshot_helper_function=lambda s: seen.append((float(s.t), work.state(s), digest(s.snapshots[-1]))))
    work.budget(S, 3000)
    T = ref.timestep(cfg, u) * float(rng.uniform(70, 260))
    if i % 2:
        S.run(T=T, log_every_step=True)
    else:
        S.run(T=T, downbeats=np.linspace(0, T, int(rng.integers(80, 300))))
    wit = dict(cfg=str(work.describe(cfg)), snapshots=len(S.snapshots), every=bool(i % 2))
    if not mon.check(len(seen) == len(S.snapshots) == len(S.snapshot_times), "one snapshot, one time and one call each", calls=len(seen),
                     times=len(S.snapshot_times), **wit):
        return
    for j, ((t, v, dg), snap) in enumerate(zip(seen, S.snapshots)):
        if not np.all(np.isfinite(v)):
            break
        mon.event("snapshots digested")
        mon.check(snap["t"] == t == S.snapshot_times[j], "time of a snapshot", snapshot=j, **wit)
        mon.check(digest(snap) == dg, "a snapshot changed after it was taken", snapshot=j, **wit)
        if j % 9 == 0 or j > len(seen) - 4:
            mon.event("snapshots recomputed")
            want = ref.primitives(cfg, v, fv=True, t=t)
            mon.close(snap["w"], want, 1e-9, "primitive variables of a snapshot", scale=work.groups(want), snapshot=j, **wit)
    mon.event("runs with many snapshots")
    mon.see("many", len(seen), *work.key(cfg))


@kind("no influence", 90, 2000)
def influence(rng, mon, i):
    """taking snapshots (and calling a snapshot function) does not influence the run"""
    cfg = work.rand_cfg(rng, cells=500, pmax=5)
    cfg["CFL"] = 0.3
    if i % 5 == 0:
        prescribe(rng, cfg)
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps"]))
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    T = ref.timestep(cfg, u, t=0.0) * float(rng.uniform(1.5, 4))
    fv = bool(rng.random() < 0.5)
    A = work.build(cfg, u, snapshots_as_fv_averages=fv)
    calls = []
    B = work.build(cfg, u, snapshots_as_fv_averages=not fv, snapshot_helper_function=lambda s: calls.append(float(s.t)))
    work.budget(A, 400), work.budget(B, 400)
    inner = B.step_helper_function

    def extra():
        inner()
        if rng.random() < 0.5:
            B.snapshot()

    B.step_helper_function = extra
    getattr(A, name)(T=T)
    getattr(B, name)(T=T, log_every_step=True)
    a, b = work.state(A), work.state(B)
    work.finite_or_stop(a)
    mon.event("paired runs")
    wit = dict(cfg=str(work.describe(cfg)), integrator=name)
    mon.check(A.t == B.t and A.step_count == B.step_count, "snapshots change the course of the run",
              t=[float(A.t), float(B.t)], steps=[A.step_count, B.step_count], **wit)
    mon.close(b, a, 1e-13, "snapshots influence the state", scale=work.groups(a), **wit)
    mon.check(len(calls) == len(B.snapshots), "the snapshot function was not called once per snapshot", calls=len(calls), stored=len(B.snapshots), **wit)
    mon.see("influence", name, *work.key(cfg))


@kind("accuracy of centre values", 24, 300)
def accuracy(rng, mon, i):
    """averages / centre values of smooth flow, at the order of the degree"""
    d = int(i % 3)
    p = int(rng.integers(0, 7))
    fv = bool((i // 3) % 2)
    errs = []
    k = 2 * np.pi
    ph = rng.uniform(0, 6, 3)
    gamma = 1.4
    g, gw = np.polynomial.legendre.leggauss(12)
    for n in (16, 32) if p > 4 else (24, 48):
        pp, nn = [0, 0, 0], [1, 1, 1]
        pp[d], nn[d] = p, n
        cfg = dict(dims="xyz"[d], n=tuple(nn), p=tuple(pp), dom=((0.0, 1.0),) * 3, gamma=gamma, riemann="hllc",
                   bc={c: ({"type": "periodic"},) * 2 for c in "xyz"}, csq_floor=1e-10, CFL=0.3, fixed_dt=None, lim=None, passives=[])

        def prims(s):
            w = np.zeros((5,) + s.shape)
            w[0] = 1 + 0.3 * np.sin(k * s + ph[0])
            w[1 + d] = 0.4 * np.cos(k * s + ph[1])
            w[1 + (d + 1) % 3] = 0.2
            w[4] = 1 + 0.3 * np.sin(k * s + ph[2])
            return w

        x = (np.arange(n) + 0.5) / n
        pts = x[:, None] + g[None] / (2 * n)
        avg = lambda a: (a * gw).sum(-1) / 2
        shape = (5,) + tuple(nn)
        u = avg(ref.cons(prims(pts), gamma)).reshape(shape)
        want = (avg(prims(pts)) if fv else prims(x)).reshape(shape)
        S = work.build(cfg, u, snapshots_as_fv_averages=fv)
        S.euler(n=0)
        errs.append(np.max(np.abs(S.snapshots[0]["w"] - want)))
    order = np.log2(errs[0] / max(errs[1], 1e-300))
    need = min(p + 1, 2) if p < 2 else p + 1
    mon.check(errs[1] < 1e-11 or order > need - 0.6, "recorded values converge too slowly", degree=p, fv=fv, errors=errs, order=float(order))
    mon.see("accuracy", "xyz"[d], p, fv)
