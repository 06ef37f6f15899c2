"""C11 change of units"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C11"
LEVEL = "exploration"
RULE = (
    "random configurations and states, each run in two systems of units (length, density, "
    "velocity and every scalar scaled separately, by powers of two up to 2^70 either way or by "
    "generic factors); the absolute parameters (sound-speed floor, physical bounds, fixed step, "
    "prescribed boundary values) are converted too. distinct by configuration and scaled units"
)
ASSUMPTIONS = [
    "the tolerance of the smooth-extremum detector is absolute and shared by all variables; it "
    "is set negligibly small",
    "units in which a variable is below about 1e-60 or above 1e60 are not tried (products of squares must neither under- nor overflow)",
    "decisions within rounding of a threshold are re-tried with perturbed data",
]
REQUIRE = {"rates compared": 300, "runs compared": 100, "with troubled cells": 50,
           "output times compared": 60}
KINDS, kind = registry()
ROW = {"rho": 0, "vx": 1, "vy": 2, "vz": 3, "P": 4}


def factors(rng, generic, npass):
    def one():
        if rng.random() < 0.2:
            return 1.0
        if generic:
            return float(10 ** (rng.uniform(-3, 3) if rng.random() < 0.6 else rng.uniform(-20, 20)))
        return float(2.0 ** int(rng.integers(-20, 21) if rng.random() < 0.5 else rng.integers(-70, 71)))

    while True:
        fc = dict(L=one(), R=one(), V=one(), S=[one() for _ in range(npass)])
        r = np.concatenate([rows(fc).ravel(), rows(fc, False).ravel(), [fc["L"] / fc["V"]]])
        if r.min() > 1e-60 and r.max() < 1e60:
            return fc


def rows(fc, conservative=True):
    R, V = fc["R"], fc["V"]
    if conservative:
        r = [R, R * V, R * V, R * V, R * V * V] + [R * s for s in fc["S"]]
    else:
        r = [R, V, V, V, R * V * V] + list(fc["S"])
    return np.array(r).reshape(-1, 1, 1, 1)


def convert(cfg, fc):
    new = dict(cfg)
    L, V = fc["L"], fc["V"]
    new["dom"] = tuple((a * L, b * L) for a, b in cfg["dom"])
    new["csq_floor"] = cfg["csq_floor"] * V * V
    if cfg["fixed_dt"] is not None:
        new["fixed_dt"] = cfg["fixed_dt"] * L / V
    U = rows(fc)

    def side(s):
        if s["type"] != "dirichlet":
            return s
        val = s["value"]
        if not callable(val):
            return {"type": "dirichlet", "value": np.asarray(val) * U[:, 0, 0, 0]}
        return {"type": "dirichlet",
                "value": lambda x, y, z, t: val(x=x / L, y=y / L, z=z / L, t=t * V / L) * U}

    new["bc"] = {k: tuple(side(s) for s in v) for k, v in cfg["bc"].items()}
    if cfg["lim"] is not None:
        P = rows(fc, False)[:, 0, 0, 0]
        lim = dict(cfg["lim"])
        lim["PAD"] = {k: (lo * P[ROW[k]], up * P[ROW[k]]) for k, (lo, up) in lim["PAD"].items()}
        new["lim"] = lim
    return new


def configuration(rng, prescribed):
    cfg = work.rand_cfg(rng, cells=900)
    # the cells along unused directions must not decide the step in either system
    style = None
    if cfg["lim"] is not None:
        cfg["lim"]["SED_tolerance"] = 1e-60
        style = work.pick(rng, ["noisy", "jumps", "strong", "smooth"])
        if rng.random() < 0.1:
            cfg["lim"]["force_trouble"] = True
    if rng.random() < 0.2:
        cfg["csq_floor"] = float(rng.uniform(0.5, 2.5))
    if prescribed:
        act = ref.active(cfg)
        c = "xyz"[act[int(rng.integers(len(act)))]]
        base = ref.cons(np.array([1.0, *rng.uniform(-0.4, 0.4, 3), 1.0]
                                 + list(rng.uniform(0.2, 1, len(cfg["passives"])))), cfg["gamma"])

        def val(x, y, z, t):
            g = 0.05 * np.sin(x + 2 * y - z + 3 * t)
            return base.reshape(-1, 1, 1, 1) * (1 + g)[None]

        sides = list(cfg["bc"][c])
        if sides[0]["type"] == "periodic":
            sides = [{"type": "free"}, {"type": "free"}]
        sides[int(rng.integers(2))] = {"type": "dirichlet", "value": base if rng.random() < 0.5 else val}
        cfg["bc"][c] = tuple(sides)
    w = work.rand_prims(rng, cfg, style=style)
    if rng.random() < 0.1 and not prescribed:
        cfg["riemann"] = "advection_upwind"
        for e in (1, 2, 3):
            w[e] = float(rng.choice([-1, 1])) * rng.uniform(0.1, 0.6)
        if cfg["lim"] is not None:
            cfg["lim"]["NAD_vars"] = ("rho",)
            cfg["lim"]["PAD"] = {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
    return cfg, w


def label(fc):
    return "".join(k for k in "LRV" if fc[k] != 1) + ("S" if any(s != 1 for s in fc["S"]) else "")


@kind("rate of change", 450, 8000)
def rate(rng, mon, i):
    cfg, w = configuration(rng, i % 7 == 2)
    generic = i % 3 == 0
    fc = factors(rng, generic, len(cfg["passives"]))
    new = convert(cfg, fc)
    tol = 1e-9 if generic else 1e-12
    U, seed = rows(fc), int(rng.integers(1 << 30))
    wit = dict(factors=fc, cfg=str(work.describe(cfg)))

    def attempt(k, m):
        u = ref.cons(work.nudge(seed, k, w), cfg["gamma"])
        A, B = work.build(cfg, u), work.build(new, u * U)
        t = 0.375
        dta, da = A.f(t, u.copy())
        dtb, db = B.f(t * fc["L"] / fc["V"], u * U)
        work.finite_or_stop(da)
        m.event("rates compared")
        if cfg["lim"] is not None and A.am("mean trouble").any():
            m.event("with troubled cells")
        m.close(dtb * fc["V"] / fc["L"], dta, tol, "time step in other units", scale=dta, **wit)
        back = np.asarray(db) / U * fc["L"] / fc["V"]
        h = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in ref.active(cfg))
        m.close(back, da, tol, "rate of change in other units",
                scale=np.maximum(work.groups(np.asarray(da)), work.groups(u) / h), **wit)

    work.confirm(mon, attempt)
    mon.see("rate", label(fc), generic, *work.key(cfg))
    mon.sample = dict(cfg=work.describe(cfg), factors=fc)


@kind("runs", 160, 3000)
def runs(rng, mon, i):
    cfg, w = configuration(rng, i % 7 == 2)
    cfg["CFL"] = float(rng.choice([0.1, 0.3]))
    generic = i % 3 == 0
    if rng.random() < 0.25:
        base = ref.timestep(cfg, ref.cons(w, cfg["gamma"]), t=0.0)
        cfg["fixed_dt"] = float(0.7 * base)
    fc = factors(rng, generic, len(cfg["passives"]))
    new = convert(cfg, fc)
    tol = 1e-9 if generic else 1e-12
    U, seed = rows(fc), int(rng.integers(1 << 30))
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    steps = int(rng.integers(1, 4))
    to_time = rng.random() < 0.5
    tau = fc["L"] / fc["V"]
    frac = sorted(rng.uniform(0.2, 1, 2))
    fv = bool(rng.random() < 0.5)

    def attempt(k, m):
        u = ref.cons(work.nudge(seed, k, w), cfg["gamma"])
        A = work.build(cfg, u, snapshots_as_fv_averages=fv)
        B = work.build(new, u * U, snapshots_as_fv_averages=fv)
        wit = dict(factors=fc, integrator=name, steps=steps, to_time=to_time, cfg=str(work.describe(cfg)))
        if to_time:
            T = 2.3 * ref.timestep(cfg, u, t=0.0)
            work.budget(A, 400), work.budget(B, 4000)
            work.advance(A, name, T=T, downbeats=[T * q for q in frac])
            work.advance(B, name, T=T * tau, downbeats=[T * q * tau for q in frac])
            m.event("output times compared")
            m.check(A.step_count == B.step_count, "number of steps in other units",
                    got=B.step_count, want=A.step_count, **wit)
        else:
            work.advance(A, name, n=steps)
            work.advance(B, name, n=steps)
        a, b = work.state(A), work.state(B)
        work.finite_or_stop(a)
        m.event("runs compared")
        m.close(np.array(B.snapshot_times) / tau, np.array(A.snapshot_times), tol, "output times in other units",
                scale=max(A.t, 1e-30), **wit)
        m.close(b / U, a, tol, "state in other units", scale=np.maximum(work.groups(a), work.groups(u)), **wit)
        sa, sb = A.snapshots[-1], B.snapshots[-1]
        m.close(sb["w"] / rows(fc, False), sa["w"], tol * 10, "snapshot in other units", scale=work.groups(sa["w"]), **wit)
        for c in "xyz":
            m.close(sb[c] / fc["L"], sa[c], 1e-12, "coordinates in other units", **wit)
        if cfg["lim"] is not None:
            if sa["trouble"].any():
                m.event("with troubled cells")
            m.close(sb["trouble"], sa["trouble"], 1e-12, "troubles in other units", scale=1.0, **wit)

    work.confirm(mon, attempt)
    mon.see("run", label(fc), generic, name, to_time, *work.key(cfg))
