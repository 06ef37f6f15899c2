"""C28 floors and fixed variables"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C28"
LEVEL = "exploration"
RULE = (
    "cold, pressure-less and slightly negative-pressure gas with random sound-speed floors: sound speeds, interface fluxes, "
    "rates of change, time steps and runs; density and pressure floors and fixed variables, inactive and active. "
    "distinct by configuration, floor and kind of cold gas"
)
ASSUMPTIONS = [
    "density_floor, pressure_floor and fixed_primitive_variables have no effect on the unchanged tree (known findings); "
    "only their harmlessness when inactive is required",
]
REQUIRE = {"sound speeds": 2000, "cold fluxes": 2000, "cold rates": 100, "cold time steps": 150, "cold runs": 20,
           "inactive floors": 20, "active floors": 10}
KINDS, kind = registry()


def floors(rng):
    return float(10 ** rng.uniform(-12, 4))


def cool(rng, w, floor, gamma):
    """set pressures so that most cells lie below, some at and some above the floor"""
    m = rng.random(w.shape[1:])
    p = w[0] * floor / gamma
    w[4] = np.where(m < 0.3, 0.0, np.where(m < 0.6, p * rng.uniform(0, 1, m.shape), np.where(m < 0.7, p * (1 - 1e-9), p * rng.uniform(1, 4, m.shape))))
    return w


def funcs():
    from fvhoe.riemann_solvers import hllc, llf

    return {"hllc": hllc, "llf": llf}


@kind("sound speed", 250, 1000)
def sound_speed(rng, mon, i):
    from fvhoe.hydro import compute_sound_speed, hydro_dt

    shape = tuple(int(v) for v in rng.integers(1, 6, 3))
    gamma = float(rng.choice([1.4, 5 / 3, 1.1, 2.0]))
    floor = floors(rng)
    w = np.zeros((5,) + shape)
    w[0] = 10 ** rng.uniform(-6, 6, shape)
    w[1:4] = rng.normal(size=(3,) + shape) * np.sqrt(floor) * 10 ** rng.uniform(-1, 1)
    cool(rng, w, floor, gamma)
    if i % 3 == 0:
        w[4] = np.where(rng.random(shape) < 0.3, -w[4], w[4])  # undershoots
    if i % 7 == 0:
        w[1:4] = 0
    c = np.asarray(compute_sound_speed(w, gamma, csq_floor=floor))
    csq = gamma * w[4] / w[0]
    want = np.sqrt(np.maximum(csq, floor))
    mon.see(f"c/{i % 3 == 0}/{int(np.log10(floor))}")
    mon.check(np.all(c >= np.sqrt(floor) * (1 - 1e-12)), "a sound speed lies below the floor", floor=floor, lowest=float(np.min(c)))
    mon.close(c, want, 1e-12, "the floored sound speed is wrong", scale=want, floor=floor)
    mon.event("sound speeds", c.size)
    h, CFL, nd = float(rng.uniform(0.01, 1)), float(rng.uniform(0.1, 1)), int(rng.integers(1, 4))
    dt = hydro_dt(w=w, h=h, ndim=nd, CFL=CFL, gamma=gamma, csq_floor=floor)
    exp = CFL * h / np.max(np.abs(w[1:4]).sum(axis=0) + nd * want)
    mon.check(np.isfinite(dt) and dt > 0, "cold gas gives no usable time step", dt=float(dt), floor=floor)
    mon.close(dt, exp, 1e-12, "the time step of cold gas is wrong", scale=exp, floor=floor)
    mon.event("cold time steps")


@kind("cold flux", 250, 1000)
def cold_flux(rng, mon, i):
    from fvhoe.hydro import HydroState

    nd = int(rng.integers(0, 3))
    hs = HydroState(passive_scalars=tuple(f"s{k}" for k in range(nd)))
    shape = tuple(int(v) for v in rng.integers(2, 6, 3))
    gamma = float(rng.choice([1.4, 5 / 3, 1.1, 2.0]))
    floor = floors(rng)
    d = int(rng.integers(3))
    ws = []
    for _ in range(2):
        w = np.zeros((5 + nd,) + shape)
        w[0] = 10 ** rng.uniform(-2, 2, shape)
        w[1:4] = rng.normal(size=(3,) + shape) * np.sqrt(floor) * rng.choice([0, 0.3, 3], size=shape)
        w[5:] = rng.random((nd,) + shape)
        ws.append(cool(rng, w, floor, gamma))
    wl, wr = ws
    for name, fn in funcs().items():
        with np.errstate(all="ignore"):
            got = np.asarray(fn(hs=hs, riemann_problem=(wl.copy(), wr.copy()), gamma=gamma, dim="xyz"[d], csq_floor=floor))
        want = ref.RIEMANN[name](wl, wr, gamma, d, floor)
        mon.check(np.all(np.isfinite(got)), "the flux of cold gas is not finite", solver=name, floor=floor)
        # scale: density times floor speed to the matching power
        s = np.sqrt(floor)
        v = np.maximum(np.abs(wl[1:4]).max(axis=0), np.abs(wr[1:4]).max(axis=0)) + 3 * s
        rho = np.maximum(wl[0], wr[0])
        sc = np.stack([rho * v] + [rho * v * v] * 3 + [rho * v**3 * (1 + 1 / (gamma - 1))] + [rho * v] * nd)
        bad = np.zeros(shape, bool)
        if name == "hllc":  # branch points
            c = np.maximum(ref.sound(wl, gamma, floor), ref.sound(wr, gamma, floor))
            SL = np.minimum(wl[1 + d], wr[1 + d]) - c
            SR = np.maximum(wl[1 + d], wr[1 + d]) + c
            SM = (wr[4] - wl[4] + wl[0] * wl[1 + d] * (SL - wl[1 + d]) - wr[0] * wr[1 + d] * (SR - wr[1 + d])) / (wl[0] * (SL - wl[1 + d]) - wr[0] * (SR - wr[1 + d]))
            for S in (SL, SM, SR):
                bad |= np.abs(S) < 1e-9 * v
        ok = ~bad
        mon.close((got / sc)[:, ok], (want / sc)[:, ok], 1e-9, "the flux of cold gas is wrong", scale=1.0, solver=name, floor=floor, dim="xyz"[d])
        mon.event("cold fluxes", int(ok.sum()))
        mon.see(f"flux/{name}/{d}/{nd}")


def cold_case(rng, **kw):
    cfg = work.rand_cfg(rng, cells=700, pmax=5, **kw)
    cfg["csq_floor"] = floor = floors(rng)
    w = work.rand_prims(rng, cfg, style=work.pick(rng, ["smooth", "noisy"]))
    w[1:4] *= np.sqrt(floor) * rng.choice([0, 0.5, 3])
    how = work.pick(rng, ["pressureless", "mixed", "tiny"])
    if how == "pressureless":
        w[4] = 0
    elif how == "mixed":
        cool(rng, w, floor, cfg["gamma"])
    else:
        w[4] = w[0] * floor * 10 ** rng.uniform(-6, -1)
    return cfg, w, how


@kind("cold rate", 240, 1000)
def cold_rate(rng, mon, i):
    """rate of change and step of cold gas: finite and that of the scheme with the floored sound speed"""
    cfg, w, how = cold_case(rng, limiting=bool(i % 3 == 0))
    if cfg["lim"]:
        cfg["lim"]["force_trouble"] = True
    u = ref.cons(w, cfg["gamma"])
    S = work.build(cfg, u)
    with np.errstate(all="ignore"):
        dt, k = S.f(0.0, u.copy())
    mon.see(work.key(cfg), how)
    mon.check(np.isfinite(dt) and dt > 0, "cold gas gives no usable time step", dt=float(dt), how=how, cfg=work.describe(cfg), floor=cfg["csq_floor"])
    mon.check(np.all(np.isfinite(k)), "the rate of change of cold gas is not finite", how=how, cfg=work.describe(cfg), floor=cfg["csq_floor"])
    if mon.violations:
        return
    out = ref.rhs(cfg, u, t=0.0)
    sc = np.max(np.abs(u), axis=(1, 2, 3)).reshape(-1, 1, 1, 1)
    s = np.sqrt(cfg["csq_floor"])
    v = max(float(np.abs(w[1:4]).max()), s)
    sc[1:4] = sc[0] * v
    sc[4] = sc[0] * v * v / (cfg["gamma"] - 1)
    want_dt, want = out[0], out[1]
    mon.close(dt, want_dt, 1e-9, "the time step of cold gas is wrong", scale=want_dt, floor=cfg["csq_floor"], how=how)
    mon.event("cold time steps")
    hmin = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in ref.active(cfg))
    sc = np.maximum(sc, 1e-300) * v / hmin
    mon.close(k / sc, want / sc, 1e-7, "the rate of change of cold gas is wrong", scale=1.0, how=how, cfg=work.describe(cfg), floor=cfg["csq_floor"])
    mon.event("cold rates")
    if how != "mixed" and np.abs(w[1:4]).max() == 0:
        # gas at rest below the floor: the step depends on the floor alone
        nd = len(ref.active(cfg))
        hm = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in range(3))
        exp = cfg["CFL"] * hm / (nd * s)
        mon.close(dt, exp, 1e-6 if how == "tiny" else 1e-12, "the time step of gas at rest below the floor is not set by the floor", scale=exp, floor=cfg["csq_floor"])


@kind("cold run", 60, 300)
def cold_run(rng, mon, i):
    """first-order runs of cold gas stay finite, with steps that the floor bounds"""
    cfg, w, how = cold_case(rng, limiting=False, p=(0, 0, 0), bcs=("periodic",), riemann=("llf", "hllc"))
    cfg["CFL"] = 0.3
    u = ref.cons(w, cfg["gamma"])
    S = work.build(cfg, u)
    hm = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in range(3))
    top = cfg["CFL"] * hm / (len(ref.active(cfg)) * np.sqrt(cfg["csq_floor"]))
    for step in range(8):
        t0 = S.t
        with np.errstate(all="ignore"):
            S.euler(n=1)
        dt = S.t - t0
        mon.check(np.isfinite(dt) and 0 < dt <= top * (1 + 1e-9), "a step of cold gas exceeds the bound set by the floor", dt=float(dt), bound=top, how=how, step=step)
        mon.check(np.all(np.isfinite(work.state(S))), "a run of cold gas does not stay finite", how=how, step=step, cfg=work.describe(cfg))
        mon.event("cold time steps")
        if mon.violations:
            return
    mon.see(work.key(cfg), how, "run")
    mon.event("cold runs")


@kind("inactive", 50, 300)
def inactive(rng, mon, i):
    """floors below all values change nothing"""
    cfg = work.rand_cfg(rng, cells=400, pmax=4)
    w = work.rand_prims(rng, cfg, style="smooth")
    u = ref.cons(w, cfg["gamma"])
    a, b = work.build(cfg, u), work.build(cfg, u, density_floor=1e-8, pressure_floor=1e-8)
    for S in (a, b):
        S.ssprk2(n=2)
    work.finite_or_stop(work.state(a))
    sc = work.groups(u)
    mon.see(work.key(cfg))
    mon.close(work.state(b) / sc, work.state(a) / sc, 1e-12, "floors below all values change the result", scale=1.0, cfg=work.describe(cfg))
    c = dict(cfg, csq_floor=1e-14)
    S = work.build(c, u)
    S.ssprk2(n=2)
    mon.close(work.state(S) / sc, work.state(a) / sc, 1e-12, "an inactive sound-speed floor changes the result", scale=1.0, cfg=work.describe(cfg))
    mon.event("inactive floors")


@kind("active", 24, 100)
def active_floors(rng, mon, i):
    """floors that interpolated values undershoot; fixed variables in a flow that changes them"""
    which = ["density_floor", "pressure_floor", "fixed_primitive_variables"][i % 3]
    cfg = work.rand_cfg(rng, cells=400, pmax=4, limiting=False, riemann=("llf", "hllc"))
    if max(cfg["p"]) == 0:
        return
    w = work.rand_prims(rng, cfg, style="noisy")
    u = ref.cons(w, cfg["gamma"])
    if which == "fixed_primitive_variables":
        S = work.build(cfg, u, fixed_primitive_variables=["vx", "vy", "vz", "P"][: 1 + i % 4])
        before = ref.prim(work.state(S), cfg["gamma"])
        S.euler(n=1)
        after = ref.prim(work.state(S), cfg["gamma"])
        rows = list(range(1, 2 + i % 4))
        kept = np.allclose(after[rows], before[rows], rtol=1e-9, atol=1e-12)
        effective = kept
    else:
        row = 0 if which == "density_floor" else 4
        floor = float(2 * w[row].max())  # above every value
        a, b = work.build(cfg, u), work.build(cfg, u, **{which: floor})
        ka, kb = a.f(0.0, u.copy())[1], b.f(0.0, u.copy())[1]
        effective = not np.array_equal(ka, kb)
        if effective:
            mon.check(np.all(np.isfinite(kb)), "a floor makes the rate of change infinite", which=which)
    mon.see(which, work.key(cfg))
    mon.event("active floors")
    if not effective:
        mon.notes.append(("known", which))
