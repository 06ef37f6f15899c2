"""C25 stand-alone one-dimensional solver"""

import contextlib
import io

import numpy as np

from vmon import exact, ref, work
from vmon.core import registry

PID = "C25"
LEVEL = "exploration"
RULE = (
    "whole histories of the stand-alone solver for its own and for injected initial data (smooth, noisy, jumps, "
    "uniform), all orders in space and time, both flux solvers and boundary types. distinct by data, orders, flux solver, boundary"
)
ASSUMPTIONS = [
    "the solver interpolates primitive variables of cell averages, so that orders above two are claimed for "
    "smooth density structures carried by a uniform flow",
    "initial data is injected in place of the module's table of initial conditions",
]
REQUIRE = {"steps conserved": 150, "uniform steps": 100, "mirrored steps": 600, "mirrored plateaus": 120, "steps compared with main solver": 100,
           "spatial orders measured": 25, "temporal orders measured": 6, "shock tubes compared": 4, "runs timed": 50}
KINDS, kind = registry()
G = 1.4
NAMED = ["sod test", "toro test1", "toro test2", "toro test3", "shu osher", "supersonic blob", "sedov"]
TUBES = {"sod test": ((1, 0, 1), (0.125, 0, 0.1), 0.5), "toro test1": ((1, 0.75, 1), (0.125, 0, 0.1), 0.3),
         "toro test2": ((1, -2, 0.4), (1, 2, 0.4), 0.5), "toro test3": ((1, 0, 1000), (1, 0, 0.01), 0.5)}


def cons(w):
    return np.array([w[0], w[0] * w[1], w[2] / (G - 1) + 0.5 * w[0] * w[1] ** 2])


def prim(u):
    v = u[1] / u[0]
    return np.array([u[0], v, (G - 1) * (u[2] - 0.5 * u[1] * v)])


INVALID = [0]  # invalid operations (roots of negative numbers) during the last run


def go(u0=None, ic="sod test", **kw):
    """full history of a run, from injected conservative averages u0 if given"""
    import fvhoe.romain_solver as rs

    old = rs.set_ic
    INVALID[0] = 0

    def note(*a):
        INVALID[0] += 1

    with contextlib.redirect_stdout(io.StringIO()), np.errstate(all="ignore", invalid="call", call=note):
        try:
            if u0 is not None:
                n = u0.shape[1]
                rs.set_ic = lambda x, *a, **k: np.array(u0)
                kw["n"] = n
            h = rs.weno(ic_type=ic, **kw)
        finally:
            rs.set_ic = old
    return np.array(h)


def speed(u):
    w = prim(u)
    return float(np.max(np.abs(w[1]) + np.sqrt(G * w[2] / w[0])))


def steps(h, cfl):
    """sizes of the steps implied by the history"""
    n = h.shape[2]
    return np.array([cfl / n / speed(u) for u in h[:-1]])


def rand_data(rng, n, style=None):
    style = style or work.pick(rng, ["smooth", "noisy", "jumps", "strong"])
    x = (np.arange(n) + 0.5) / n
    amp = {"smooth": 0.3, "noisy": 0.4, "jumps": 0.6, "strong": 1.5}[style]
    if style == "smooth":
        f = [sum(rng.normal() * np.sin(2 * np.pi * (k * x + rng.random())) / k for k in (1, 2)) for _ in range(3)]
    elif style == "noisy":
        f = [rng.uniform(-1, 1, n) for _ in range(3)]
    else:
        f = []
        for _ in range(3):
            e = np.sort(rng.random(3))
            f.append(rng.uniform(-1, 1, 4)[np.searchsorted(e, x)])
    return cons(np.array([np.exp(amp * f[0]), 0.8 * amp * f[1] + rng.normal(), np.exp(amp * f[2])])), style


def rand_kw(rng, **over):
    kw = dict(cfl=float(rng.uniform(0.1, 0.4)), bc_type=work.pick(rng, ["periodic", "free"]),
              riemann_solver=work.pick(rng, ["llf", "hllc"]), time=int(rng.integers(1, 5)), space=int(rng.integers(1, 6)))
    kw.update(over)
    return kw


def usable(h):
    """number of leading history entries that are finite and positive"""
    for k, u in enumerate(h):
        if not np.all(np.isfinite(u)) or u[0].min() <= 0 or prim(u)[2].min() <= 0:
            return k
    return len(h)


def end_for(u0, kw, m):
    """an end time about m steps away"""
    return float(m * kw["cfl"] / u0.shape[1] / speed(u0))


def tag(kw, *more):
    return "/".join(str(v) for v in (*more, kw["space"], kw["time"], kw["riemann_solver"], kw["bc_type"]))


@kind("conservation", 150, 3000)
def conservation(rng, mon, i):
    kw = rand_kw(rng)
    n = int(rng.integers(9, 60))
    if i % 3 == 0:
        ic, u0 = NAMED[i // 3 % len(NAMED)], None
        kw["tend"] = float(10 ** rng.uniform(-3, -1.5))
        h = go(ic=ic, n=n, **kw)
    else:
        u0, ic = rand_data(rng, n)
        kw["tend"] = end_for(u0, kw, rng.uniform(2, 12))
        h = go(u0, **kw)
    k = usable(h)
    mon.see(tag(kw, "conserve", ic))
    mon.check(k >= 1, "the history does not start with an admissible state", ic=ic)
    if u0 is not None:
        mon.close(h[0], u0, 1e-15, "the history does not start with the initial data", scale=np.abs(u0).max())
    h = h[: min(k, 60)]
    if kw["bc_type"] == "periodic":
        tot = h.sum(axis=2)
        sc = np.abs(h).sum(axis=2).max(axis=0) + np.abs(h).max() * 1e-3
        for j in range(1, len(h)):
            mon.close(tot[j] / sc, tot[0] / sc, 1e-12 * (1 + j), "totals drift in a periodic domain", scale=1.0, step=j, **kw)
            mon.event("steps conserved")
        return
    # free boundaries: while the edge regions are undisturbed, totals change by the flux through the ends
    w = prim(h[0])
    F = np.array([w[0] * w[1], w[0] * w[1] ** 2 + w[2], (w[2] * G / (G - 1) + 0.5 * w[0] * w[1] ** 2) * w[1]])
    dts = steps(h, kw["cfl"])
    t = 0.0
    for j in range(1, len(h)):
        if np.any(h[j][:, :5] != h[0][:, :1]) or np.any(h[j][:, -5:] != h[0][:, -1:]):
            return
        t += dts[j - 1]
        want = h[0].sum(axis=1) / n + t * (F[:, 0] - F[:, -1])
        sc = np.abs(h[0]).sum(axis=1) / n + t * np.abs(F).max(axis=1) + 1e-3 * np.abs(h[0]).max()
        mon.close(h[j].sum(axis=1) / n / sc, want / sc, 1e-11 * (1 + j), "totals do not change by the flux through the ends", scale=1.0, step=j, **kw)
        mon.event("steps conserved")


@kind("uniform", 60, 600)
def uniform(rng, mon, i):
    kw = rand_kw(rng, cfl=float(rng.uniform(0.1, 0.8)))
    n = int(rng.integers(9, 50))
    w = np.array([10 ** rng.uniform(-3, 3), rng.normal() * 10 ** rng.uniform(-1, 1), 10 ** rng.uniform(-3, 3)])
    if i % 5 == 0:
        w[1] = 0.0
    u0 = np.tile(cons(w)[:, None], (1, n))
    m = int(rng.integers(3, 12))
    kw["tend"] = end_for(u0, kw, m - 0.5)
    h = go(u0, **kw)
    mon.see(tag(kw, "uniform"))
    mon.check(len(h) == m + 1, "wrong number of steps for a uniform state", got=len(h) - 1, want=m, **kw)
    sc = np.array([w[0], w[0] * (abs(w[1]) + np.sqrt(G * w[2] / w[0])), cons(w)[2]])[:, None]
    for u in h[1:]:
        mon.close(u / sc, u0 / sc, 1e-11, "a uniform state does not stay uniform", scale=1.0, **kw)
        mon.event("uniform steps")


@kind("mirror", 260, 3000)
def mirror(rng, mon, i):
    kw = rand_kw(rng)
    if i % 2:
        kw.update(bc_type="free", space=int(rng.integers(3, 6)))
    n = int(rng.integers(9, 50))
    u0, style = rand_data(rng, n)
    kw["tend"] = end_for(u0, kw, rng.uniform(2, 8))
    s = int(rng.integers(1, n))
    seed = int(rng.integers(2**31))
    sgn = np.array([1, -1, 1])[:, None]

    def attempt(k, mon):
        v0 = cons(work.nudge(seed, k, prim(u0)))
        h = go(v0, **kw)
        good, bad = usable(h), INVALID[0]
        hm = go((sgn * v0)[:, ::-1], **kw)
        if bad or INVALID[0]:
            mon.event("unphysical states at faces")
            return
        mon.see(tag(kw, "mirror", style))
        good = min(good, usable(hm))
        sc = np.abs(h[:good]).max(axis=(0, 2))[:, None] + 1e-3
        for j in range(1, good):
            mon.close((sgn * hm[j])[:, ::-1] / sc, h[j] / sc, 1e-8, "mirrored data does not stay mirrored", scale=1.0, step=j, **kw)
            mon.event("mirrored steps")
        if kw["bc_type"] == "periodic":
            hs = go(np.roll(v0, s, axis=1), **kw)
            good = min(good, usable(hs))
            for j in range(1, good):
                mon.close(np.roll(hs[j], -s, axis=1) / sc, h[j] / sc, 1e-8, "shifted periodic data does not stay shifted", scale=1.0, step=j, **kw)
                mon.event("shifted steps")

    work.confirm(mon, attempt)


@kind("mirrored plateaus", 200, 4000)
def plateaus(rng, mon, i):
    """one forward step of exactly constant pieces with jumps anywhere, also next to the ends"""
    kw = rand_kw(rng, time=1, space=1 + i % 5, bc_type=["free", "periodic"][i // 5 % 2])
    n = int(rng.integers(9, 30))
    lev = np.array([np.exp(rng.normal(size=6)), rng.normal(size=6), np.exp(rng.normal(size=6))])
    e = np.sort(np.where(rng.random(5) < 0.6, rng.choice([1, 2, 3, n - 3, n - 2, n - 1], 5), rng.integers(1, n, 5)))
    u0 = cons(lev[:, np.searchsorted(e, np.arange(n), side="right")])
    kw["tend"] = end_for(u0, kw, 0.5)
    h, sgn = go(u0, **kw), np.array([1, -1, 1])[:, None]
    bad = INVALID[0]
    hm = go((sgn * u0)[:, ::-1], **kw)
    if bad or INVALID[0]:
        mon.event("unphysical states at faces")
        return
    mon.see(tag(kw, "plateaus"))
    mon.check(len(h) == len(hm) == 2, "wrong number of steps", **kw)
    sc = np.abs(h).max(axis=(0, 2))[:, None] + 1e-3
    if np.all(np.isfinite(h)):
        mon.close((sgn * hm[1])[:, ::-1] / sc, h[1] / sc, 1e-11, "mirrored data does not stay mirrored", scale=1.0, **kw)
        mon.event("mirrored plateaus")


@kind("schedule", 100, 900)
def schedule(rng, mon, i):
    """the steps implied by the states add up to the end time"""
    kw = rand_kw(rng, cfl=float(rng.uniform(0.05, 0.5)))
    n = int(rng.integers(9, 50))
    if i % 4 == 0:
        ic = NAMED[i // 4 % 4]
        kw["bc_type"] = "free"
        kw["tend"] = float(rng.uniform(0.001, 0.02))
        h = go(ic=ic, n=n, **kw)
        mon.check(h.shape[1:] == (3, n), "wrong shape of the history", shape=h.shape)
        l, r, x0 = TUBES[ic]
        x = (np.arange(n) + 0.5) / n
        far = np.abs(x - x0) > 1e-9
        want = np.where(x < x0, cons(np.array(l, float)[:, None] * np.ones(n)), cons(np.array(r, float)[:, None] * np.ones(n)))
        mon.close(h[0][:, far], want[:, far], 1e-13, "a shock tube does not start from its two states", scale=np.abs(want).max(), ic=ic)
    else:
        u0, ic = rand_data(rng, n, "smooth")
        kw["tend"] = end_for(u0, kw, rng.uniform(0.2, 15)) if i % 4 < 3 else 0
        h = go(u0, **kw)
    mon.see(tag(kw, "schedule", ic))
    if usable(h) < len(h):
        return
    if kw["tend"] == 0:
        mon.check(len(h) == 1, "steps are taken although the end time is the start", got=len(h) - 1)
        mon.event("runs timed")
        return
    t = np.concatenate([[0], np.cumsum(steps(h, kw["cfl"]))])
    tend = kw["tend"]
    if np.min(np.abs(t - tend)) < 1e-9 * tend:
        return
    mon.check(t[-1] > tend and t[-2] < tend, "the run does not stop at the first step at or beyond the end time",
              times=t[-3:].tolist(), **kw)
    mon.event("runs timed")


@kind("first order", 80, 600)
def first_order(rng, mon, i):
    """at first order it is the same scheme as the main solver of degree zero"""
    from fvhoe.boundary_conditions import BoundaryCondition

    kw = rand_kw(rng, space=1, time=1, cfl=float(rng.uniform(0.1, 0.8)), riemann_solver=["llf", "hllc"][i % 2])
    n = int(rng.integers(9, 60))
    if i % 3 == 0:
        ic = work.pick(rng, ["sod test", "toro test1", "toro test2", "shu osher", "supersonic blob", "sedov"])
        kw["tend"] = 0.004
        h = go(ic=ic, n=n, **kw)
        u0 = h[0]
    else:
        u0, ic = rand_data(rng, n)
        kw["tend"] = end_for(u0, kw, rng.uniform(2, 8))
        h = go(u0, **kw)
    h = h[: min(usable(h), 12)]
    d = int(rng.integers(3))
    full = np.zeros((5, n))
    full[[0, 1 + d, 4]] = u0
    shape = [1, 1, 1]
    shape[d] = n
    from fvhoe.solver import EulerSolver

    args = {"n" + "xyz"[d]: n, "p" + "xyz"[d]: 0}
    S = EulerSolver(w0=work.raw_ic(lambda x, y, z: full.reshape((5, *shape))), conservative_ic=True, fv_ic=True,
                    gamma=G, CFL=kw["cfl"], riemann_solver=kw["riemann_solver"], progress_bar=False, csq_floor=1e-30,
                    bc=BoundaryCondition(**{"xyz"[d]: kw["bc_type"]}), **args)
    mon.see(tag(kw, "first", ic, d))
    sc = np.abs(h).max(axis=(0, 2))[:, None] + 1e-3
    for j in range(1, len(h)):
        S.euler(n=1)
        u = work.state(S).reshape(5, n)[[0, 1 + d, 4]]
        mon.close(h[j] / sc, u / sc, 1e-9, "first-order steps differ from the main solver's of degree zero", scale=1.0, step=j, **kw)
        mon.event("steps compared with main solver")


@kind("space order", 80, 500)
def space_order(rng, mon, i):
    """rate of change of exact averages, from a single forward step"""
    kw = rand_kw(rng, time=1, bc_type="periodic", space=1 + i % 5, riemann_solver=["llf", "hllc"][i // 5 % 2])
    adv = i % 4 != 3
    v0, p0, a, ph = rng.normal() + 0.05, float(np.exp(0.5 * rng.normal())), rng.uniform(0.1, 0.3), rng.uniform(0, 1, 3)
    k = 1 if adv else 1

    def w(x):
        s = [np.sin(2 * np.pi * (k * x + q)) for q in ph]
        if adv:
            return np.array([1 + a * s[0], v0 + 0 * x, p0 + 0 * x])
        return np.array([1 + a * s[0], v0 + 0.3 * a * s[1], p0 * (1 + a * s[2])])

    def f(x):
        q = w(x)
        return np.array([q[0] * q[1], q[0] * q[1] ** 2 + q[2], (q[2] * G / (G - 1) + 0.5 * q[0] * q[1] ** 2) * q[1]])

    gx, gw = np.polynomial.legendre.leggauss(8)
    err = []
    ns = (32, 64) if kw["space"] > 3 else (64, 128)
    for n in ns:
        xf = np.linspace(0, 1, n + 1)
        xc = 0.5 * (xf[1:] + xf[:-1])
        pts = xc[:, None] + gx / (2 * n)
        u0 = (cons(w(pts)) * gw).sum(axis=2) / 2
        h = go(u0, tend=1e-12, **kw)
        mon.check(len(h) == 2, "a short run takes more than one step", got=len(h) - 1)
        dt = kw["cfl"] / n / speed(u0)
        want = -n * (f(xf[1:]) - f(xf[:-1]))
        e = ((h[1] - u0) / dt - want) / np.abs(want).max(axis=1, keepdims=True)
        err.append(np.mean(np.abs(e)))
    mon.see(tag(kw, "space", adv))
    nominal = kw["space"] if adv else min(2, kw["space"])
    if err[0] > 0.2:
        return
    order = np.log2(err[0] / max(err[1], 1e-10))
    mon.event("spatial orders measured")
    mon.check(order > nominal - 0.35 or err[1] < 3e-10, "order in space below nominal", order=float(order), nominal=nominal, errors=err, advected=adv, **kw)


@kind("time order", 10, 60)
def time_order(rng, mon, i):
    """advected density wave: order of the final error when space and time are refined together"""
    time = 1 + i % 4
    kw = rand_kw(rng, time=time, space=5, bc_type="periodic", cfl={1: 0.02, 2: 0.3, 3: 0.5, 4: 0.8}[time])
    v0, p0, a, ph = rng.choice([-1, 1]) * rng.uniform(1, 2), float(rng.uniform(0.5, 1.5)), rng.uniform(0.1, 0.3), rng.random()
    err = []
    gx, gw = np.polynomial.legendre.leggauss(8)
    T = 0.25 / abs(v0)
    for n in (32, 64):
        xc = (np.arange(n) + 0.5) / n
        pts = xc[:, None] + gx / (2 * n)

        def avg(t):
            r = 1 + a * np.sin(2 * np.pi * (pts - v0 * t + ph))
            return (r * gw).sum(axis=1) / 2

        r0 = avg(0)
        u0 = cons(np.array([r0, v0 + 0 * r0, p0 + 0 * r0]))
        h = go(u0, tend=T, **kw)
        t = steps(h, kw["cfl"]).sum()
        mon.check(np.all(np.isfinite(h)) and abs(t - T) < 2 * kw["cfl"] / n, "advection of a smooth wave fails", **kw)
        err.append(np.mean(np.abs(h[-1][0] - avg(t))))
        mon.close(prim(h[-1])[1:], prim(u0)[1:], 1e-9, "uniform velocity and pressure are not kept", scale=1.0, **kw)
    order = np.log2(err[0] / max(err[1], 1e-12))
    mon.see(tag(kw, "time"))
    mon.event("temporal orders measured")
    mon.sample = dict(time=time, order=float(order), errors=err)
    mon.check(order > time - 0.35, "order in time below nominal", order=float(order), errors=err, **kw)
    mon.check(err[1] < {1: 1e-3, 2: 1e-4, 3: 4e-6, 4: 1e-6}[time], "error of an advected wave is too large", errors=err, **kw)


@kind("shock tube", 8, 60)
def shock_tube(rng, mon, i):
    """converges to the exact solution, together with the main solver"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.solver import EulerSolver

    ic = ["sod test", "toro test1"][i % 2]
    l, r, x0 = TUBES[ic]
    order = int(rng.integers(1, 5))
    kw = rand_kw(rng, bc_type="free", time=order, space=order, cfl=0.3 if order > 1 else 0.5)
    T = 0.15
    err, errm = [], []
    for n in (80, 240):
        faces = np.linspace(0, 1, n + 1)
        h = go(ic=ic, n=n, tend=T, **kw)
        mon.check(usable(h) == len(h), "shock tube breaks down", ic=ic, **kw)
        t = float(steps(h, kw["cfl"]).sum())
        ex = exact.averages(l, r, G, x0, t, faces)[0]
        err.append(float(np.mean(np.abs(prim(h[-1]) - ex))))
        if n == 80:
            p = order - 1
            S = EulerSolver(w0=work.raw_ic(lambda x, y, z: np.array([np.where(x < x0, l[0], r[0]), np.where(x < x0, l[1], r[1]), 0 * x, 0 * x, np.where(x < x0, l[2], r[2])])),
                            nx=n, px=p, gamma=G, CFL=0.3, riemann_solver=kw["riemann_solver"], progress_bar=False, bc=BoundaryCondition(x="free"),
                            a_posteriori_slope_limiting=p > 0)
            S.run(T=t)
            errm.append(float(np.mean(np.abs(S.snapshots[-1]["w"][[0, 1, 4], :, 0, 0] - ex))))
            diff = float(np.mean(np.abs(S.snapshots[-1]["w"][[0, 1, 4], :, 0, 0] - prim(h[-1]))))
    mon.see(tag(kw, "tube", ic))
    mon.event("shock tubes compared")
    mon.sample = dict(ic=ic, order=order, err=err, main=errm, diff=diff)
    mon.check(err[1] < 0.75 * err[0] and err[1] < (0.03 if order == 1 else 0.008), "a shock tube does not converge to the exact solution", errors=err, ic=ic, **kw)
    mon.check(diff < (0.01 if order == 1 else 0.012), "the two solvers disagree on a shock tube", difference=diff, errors=err, main=errm, ic=ic, **kw)
