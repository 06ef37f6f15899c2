"""C06 time-step size"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C06"
LEVEL = "exploration"
RULE = (
    "random configurations and states (the fastest cell placed anywhere, each wave-speed "
    "contribution dominating in turn); every step of a run is compared with the bound "
    "recomputed from the state observed before it. distinct by dimensions, degrees, "
    "boundaries, dominating contribution"
)
ASSUMPTIONS = [
    "the maximum may or may not include ghost cells; for periodic domains both agree",
    "relative rounding allowance 1e-10",
]
REQUIRE = {"step sizes compared": 600, "fixed steps observed": 40, "shortened steps": 30,
           "output times next to a step": 40, "steps of long runs": 500,
           "shortened steps against the size computed": 20}
KINDS, kind = registry()
TOL = 1e-10


def bounds(cfg, u, t=None):
    """step sizes with the maximum over the cells / over cells and ghosts"""
    inner = ref.timestep(cfg, u, t, ghosts=(0, 0, 0))
    full = ref.timestep(cfg, u, t)
    return min(inner, full), max(inner, full)


def compare(mon, got, cfg, u, what):
    lo, hi = bounds(cfg, u)
    mon.event("step sizes compared")
    if hi - lo <= 1e-13 * hi:
        mon.close(got, lo, TOL, f"{what}: size of a time step", scale=lo, cfg=str(work.describe(cfg)))
    else:
        mon.check(lo * (1 - TOL) <= got <= hi * (1 + TOL), f"{what}: size of a time step",
                  got=got, lo=lo, hi=hi, cfg=str(work.describe(cfg)))
    mon.check(got > 0 and np.isfinite(got), f"{what}: step is not positive", got=got)


@kind("rate of change", 320, 5000)
def rate(rng, mon, i):
    """step returned with the rate of change for arbitrary states"""
    cfg = work.rand_cfg(rng, bcs=("periodic", "periodic", "free", "reflective", "outflow"))
    cfg["CFL"] = float(rng.uniform(0.05, 1.0) if rng.random() < 0.8 else rng.uniform(1, 4))
    w = work.rand_prims(rng, cfg, style=work.pick(rng, ["smooth", "noisy"]))
    # one contribution dominates in one cell
    c = tuple(int(rng.integers(0, m)) for m in cfg["n"])
    who = int(rng.integers(5))
    amp = 1 + 0.3 * rng.random()
    if who in (1, 2, 3):
        w[(who,) + c] += float(rng.choice([-1, 1])) * 0.8
    elif who == 4:
        w[(4,) + c] *= amp
    else:
        w[(0,) + c] /= amp
    cfg["csq_floor"] = float(rng.choice([1e-10, 1e-10, 30.0]))
    S = work.build(cfg, ref.cons(w, cfg["gamma"]))
    u = work.state(S)
    dt, du = S.f(0.0, u.copy())
    compare(mon, dt, cfg, u, "rate of change")
    mon.see(cfg["dims"], cfg["p"], who, cfg["csq_floor"] > 1, cfg["lim"] is not None)
    mon.sample = dict(cfg=work.describe(cfg), dominated_by=["rho", "vx", "vy", "vz", "P"][who], dt=float(dt))


@kind("anisotropic meshes", 120, 1500)
def aniso(rng, mon, i):
    """the smallest cell width counts, whichever direction has it"""
    cfg = work.rand_cfg(rng, dims=work.pick(rng, ["xy", "xz", "yz", "xyz"]), bcs=("periodic",), pmax=4)
    dom = list(cfg["dom"])
    act = ref.active(cfg)
    for d in act:
        dom[d] = (dom[d][0], dom[d][0] + float(rng.choice([0.2, 0.5, 0.95])) )
    if i % 3 == 1:  # a single cell along an active direction
        d = act[int(rng.integers(len(act)))]
        p, n = list(cfg["p"]), list(cfg["n"])
        p[d], n[d] = max(p[d], 1), 1
        n = [max(n[e], work.need(p)[e]) if e in act and e != d else n[e] for e in range(3)]
        cfg["p"], cfg["n"] = tuple(p), tuple(n)
        dom[d] = (dom[d][0], dom[d][0] + float(10 ** rng.uniform(-2.5, 0)))
    if i % 3 == 2 and len(act) < 3:  # the inactive direction is the narrowest
        d = [e for e in range(3) if e not in act][0]
        dom[d] = (0.0, float(10 ** rng.uniform(-2.5, -1)))
    cfg["dom"] = tuple(dom)
    u = work.rand_state(rng, cfg, style="smooth")
    S = work.build(cfg, u)
    dt, _ = S.f(0.0, u.copy())
    compare(mon, dt, cfg, u, "anisotropic mesh")
    h = [(dom[d][1] - dom[d][0]) / cfg["n"][d] for d in act]
    mon.see("aniso", cfg["dims"], int(np.argmin(h)))


@kind("steps of runs", 90, 1200)
def runs(rng, mon, i):
    """every step of a run to an end time, with output times in between"""
    cfg = work.rand_cfg(rng, dims=work.pick(rng, work.ALL_DIMS, p=[0.25, 0.2, 0.2, 0.1, 0.1, 0.1, 0.05]),
                        pmax=4, cells=600)
    cfg["CFL"] = float(rng.choice([0.1, 0.3, 0.5]))
    w = work.rand_prims(rng, cfg, style="smooth", mach=0.4)
    S = work.build(cfg, ref.cons(w, cfg["gamma"]))
    steps = []
    before = {"u": work.state(S), "t": 0.0}
    inner = S.step_helper_function

    def helper():
        steps.append((before["t"], float(S.t), before["u"]))
        before.update(u=work.state(S), t=float(S.t))
        inner()

    S.step_helper_function = helper
    sizes = []  # the sizes returned with the rate of change, per step
    rhs = S.f

    def recorded(t, u):
        dt, du = rhs(t, u)
        sizes.append((len(steps), float(dt)))
        return dt, du

    S.f = recorded
    work.budget(S, 3000)
    dt0 = ref.timestep(cfg, work.state(S))
    T = dt0 * float(rng.uniform(2.5, 6.5))
    targets = sorted(rng.uniform(0, T, int(rng.integers(0, 3))))
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    exact = rng.random() < 0.7
    if i % 3:  # output times just before, at and just after the ends of steps
        D = work.build(cfg, ref.cons(w, cfg["gamma"]))
        getattr(D, name)(n=3)
        ts = [0.0] + [float(x) for x in D.timestamps][-3:]
        j = int(rng.integers(1, 4))
        near = ts[j] + float(rng.choice([-1, 1, 1, 1])) * (ts[j] - ts[j - 1]) * float(10 ** rng.uniform(*((-10, -7) if rng.random() < 0.4 else (-7, -0.4))))
        exact = True
        if np.isfinite(near) and near > 0:
            mon.event("output times next to a step")
            if rng.random() < 0.5:
                T, targets = near, []
            else:
                T, targets = max(near * 1.5, T), [near]
    getattr(S, name)(T=T, downbeats=list(targets), exact=exact)
    ends = set(targets) | {T}
    first = {}
    for k, dt in sizes:
        first.setdefault(k, dt)
    for k, (a, b, u) in enumerate(steps):
        if not np.all(np.isfinite(u)):
            break
        lo, hi = bounds(cfg, u)
        if exact and b in ends:
            mon.event("shortened steps")
            mon.check(b - a <= hi * (1 + 1e-9), "a step to an output time exceeds the bound", step=b - a, bound=hi, integrator=name)
            if k in first:
                mon.event("shortened steps against the size computed")
                mon.check(b - a <= first[k] * (1 + 1e-12) + 4 * np.spacing(b), "a step to an output time was lengthened",
                          step=b - a, size=first[k], integrator=name)
        else:
            mon.event("step sizes compared")
            mon.check(lo * (1 - 1e-9) <= b - a <= hi * (1 + 1e-9), "run: size of a time step",
                      got=b - a, lo=lo, hi=hi, integrator=name, cfg=str(work.describe(cfg)))
    mon.see("run", name, exact, *work.key(cfg)[:3])


@kind("long runs", 20, 250)
def long_runs(rng, mon, i):
    """every step of runs of many steps in which the fastest cell slows down or speeds up"""
    cfg = work.rand_cfg(rng, dims="xyz"[i % 3], pmax=4, cells=40, bcs=("periodic", "periodic", "free"), long=0, few=0)
    cfg["CFL"] = float(rng.choice([0.2, 0.4]))
    if cfg["lim"]:
        cfg["lim"].update(slope_limiter="minmod", NAD=1e-3)
    w = work.rand_prims(rng, cfg, style=work.pick(rng, ["smooth", "jumps"]) if cfg["lim"] or max(cfg["p"]) == 0 else "smooth", mach=0.6)
    S = work.build(cfg, ref.cons(w, cfg["gamma"]))
    steps = []
    before = {"u": work.state(S), "t": 0.0}
    inner = S.step_helper_function

    def helper():
        steps.append((before["t"], float(S.t), before["u"]))
        before.update(u=work.state(S), t=float(S.t))
        inner()

    S.step_helper_function = helper
    work.budget(S, 3000)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    n = int(rng.integers(40, 160))
    if i % 2:
        getattr(S, name)(n=n)
        T = None
    else:
        T = 0.8 * n * ref.timestep(cfg, work.state(S))
        getattr(S, name)(T=T)
    for k, (a, b, u) in enumerate(steps):
        if not np.all(np.isfinite(u)) or u[0].min() <= 0 or b == T:
            break
        lo, hi = bounds(cfg, u)
        mon.event("steps of long runs")
        mon.check(lo * (1 - 1e-9) <= b - a <= hi * (1 + 1e-9), "long run: size of a time step",
                  got=b - a, lo=lo, hi=hi, step=k, integrator=name, cfg=str(work.describe(cfg)))
    mon.see("long", name, *work.key(cfg)[:3])


@kind("fixed steps", 50, 500)
def fixed(rng, mon, i):
    """a fixed step is used as given, except to reach an output time"""
    cfg = work.rand_cfg(rng, pmax=3, cells=400)
    w = work.rand_prims(rng, cfg, style="smooth", mach=0.4)
    u = ref.cons(w, cfg["gamma"])
    base = ref.timestep({**cfg, "fixed_dt": None, "CFL": 0.3}, u)
    cfg["fixed_dt"] = float(base * rng.uniform(0.2, 1.0))
    S = work.build(cfg, u)
    dt, _ = S.f(0.0, u.copy())
    mon.check(dt == cfg["fixed_dt"], "a fixed time step was changed", got=dt, want=cfg["fixed_dt"])
    for far in (float(10 ** rng.uniform(0.3, 4)), float(10 ** rng.uniform(-9, -4))):
        F = work.build({**cfg, "fixed_dt": far}, u)
        got, _ = F.f(0.0, u.copy())
        mon.event("fixed steps observed")
        mon.check(got == far, "a fixed time step was changed", got=got, want=far)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    stamps = []
    inner = S.step_helper_function
    S.step_helper_function = lambda: (stamps.append(float(S.t)), inner())
    if i % 2:
        getattr(S, name)(n=3)
        t = 0.0
        for s in stamps:
            mon.event("fixed steps observed")
            mon.check(s == t + cfg["fixed_dt"], "a fixed step has another size", s=s, t=t, dt=cfg["fixed_dt"])
            t = s
    else:
        T = cfg["fixed_dt"] * float(rng.uniform(2.2, 4.8))
        if i % 4:
            T = cfg["fixed_dt"] * (float(rng.integers(1, 4)) + float(rng.choice([-1, 1, 1, 1])) * float(10 ** rng.uniform(*((-10, -7) if rng.random() < 0.4 else (-7, -0.4)))))
        getattr(S, name)(T=T)
        t = 0.0
        for s in stamps:
            mon.event("fixed steps observed")
            if s != T:
                mon.check(s == t + cfg["fixed_dt"], "a fixed step has another size", s=s, t=t, dt=cfg["fixed_dt"])
            else:
                mon.check(s - t <= cfg["fixed_dt"] * (1 + 1e-12), "last step longer than fixed")
            t = s
    mon.see("fixed", name, cfg["dims"], i % 2)


@kind("step-size function", 120, 1500)
def function(rng, mon, i):
    """the step-size function itself, on arbitrary primitive arrays"""
    from fvhoe.hydro import hydro_dt

    nv = 5 + int(rng.integers(0, 3))
    shape = tuple(int(rng.integers(1, 5)) for _ in range(3))
    w = np.empty((nv,) + shape)
    w[0] = 10 ** rng.uniform(-3, 3, shape)
    w[4] = 10 ** rng.uniform(-3, 3, shape)
    w[1:4] = rng.normal(size=(3,) + shape) * 10 ** rng.uniform(-2, 2)
    w[5:] = rng.normal(size=(nv - 5,) + shape) * 1e3
    h, nd = float(10 ** rng.uniform(-3, 1)), int(rng.integers(1, 4))
    CFL, gamma = float(10 ** rng.uniform(-2, 0.6)), float(rng.uniform(1.05, 3))
    floor = float(rng.choice([1e-10, 1.0, 1e4]))
    keep = w.copy()
    got = hydro_dt(w=w, h=h, ndim=nd, CFL=CFL, gamma=gamma, csq_floor=floor)
    s = max(
        abs(w[1][j]) + abs(w[2][j]) + abs(w[3][j]) + nd * np.sqrt(max(gamma * w[4][j] / w[0][j], floor))
        for j in np.ndindex(*shape)
    )
    mon.event("step sizes compared")
    mon.close(got, CFL * h / s, 1e-12, "step-size function", scale=CFL * h / s)
    mon.check(np.array_equal(keep, w), "input was modified")
    mon.see("function", nd, nv, floor)
