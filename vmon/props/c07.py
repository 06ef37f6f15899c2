"""C07 interface fluxes"""

import numpy as np

from vmon import ref
from vmon.core import registry

PID = "C07"
LEVEL = "exploration"
RULE = (
    "random and adversarial pairs of states (all wave configurations, near-vacuum, strong "
    "jumps, floors active, ties), all directions, array shapes and numbers of scalars; "
    "distinct by flux solver, direction, wave configuration, number of scalars, floor"
)
ASSUMPTIONS = [
    "relative rounding allowance 1e-9 of the sum of the magnitudes of the terms of the flux",
    "states whose wave speeds are within 1e-9 of a branch point are compared with either branch",
]
REQUIRE = {
    "supersonic to the right": 200, "left star region": 200, "right star region": 200,
    "supersonic to the left": 200, "pairs compared": 5000, "floor active": 50,
}
KINDS, kind = registry()
TOL = 1e-9


def funcs():
    from fvhoe.riemann_solvers import advection_upwind, hllc, llf

    return {"advection_upwind": advection_upwind, "hllc": hllc, "llf": llf}


def hstate(nd):
    from fvhoe.hydro import HydroState

    return HydroState(passive_scalars=tuple(f"s{i}" for i in range(nd)))


def call(name, hs, wl, wr, gamma, d, floor):
    a, b = wl.copy(), wr.copy()
    out = funcs()[name](hs=hs, riemann_problem=(a, b), gamma=gamma, dim="xyz"[d], csq_floor=floor)
    ok = np.array_equal(a, wl) and np.array_equal(b, wr)
    return np.asarray(out), ok


def rand_states(rng, nv, shape, style):
    w = np.empty((nv,) + shape)
    sp = {"mild": 0.3, "strong": 2.0, "extreme": 5.0}[style]
    w[0] = 10 ** rng.uniform(-sp, sp, shape)
    w[4] = 10 ** rng.uniform(-sp, sp, shape)
    w[1:4] = rng.normal(size=(3,) + shape) * 10 ** rng.uniform(-1, 1, shape)
    w[5:] = rng.normal(size=(nv - 5,) + shape) * 10 ** rng.uniform(-1, 1)
    return w


def speeds(wl, wr, gamma, d, floor):
    c = np.maximum(ref.sound(wl, gamma, floor), ref.sound(wr, gamma, floor))
    SL = np.minimum(wl[1 + d], wr[1 + d]) - c
    SR = np.maximum(wl[1 + d], wr[1 + d]) + c
    rl, rr = wl[0], wr[0]
    vl, vr = wl[1 + d], wr[1 + d]
    SM = (wr[4] - wl[4] + rl * vl * (SL - vl) - rr * vr * (SR - vr)) / (rl * (SL - vl) - rr * (SR - vr))
    return SL, SM, SR, c


def magnitude(wl, wr, gamma, d, floor):
    """size of the terms of which a flux is made, per row"""
    c = np.maximum(ref.sound(wl, gamma, floor), ref.sound(wr, gamma, floor))
    s = np.maximum(np.abs(wl[1 + d]), np.abs(wr[1 + d])) + c
    out = 0
    for w in (wl, wr):
        u = np.abs(ref.cons(np.abs(w), gamma))
        m = s * u
        v = np.abs(w[1:4]).max(axis=0) + s
        m[1:4] = s * w[0] * v + w[4]
        m[4] = s * (w[4] / (gamma - 1) + w[4] + w[0] * v**2)
        out = out + m
    return out


def adversarial(rng, nv, shape, d, style, gamma):
    wl = rand_states(rng, nv, shape, style)
    wr = rand_states(rng, nv, shape, style)
    mode = int(rng.integers(7))
    if mode == 1:  # weak jump
        wr = wl * (1 + 1e-3 * rng.normal(size=wl.shape))
        wr[0], wr[4] = np.abs(wr[0]), np.abs(wr[4])
    elif mode == 2:  # supersonic both
        s = rng.choice([-1, 1])
        for w in (wl, wr):
            cs = np.sqrt(gamma * w[4] / w[0])
            w[1 + d] = s * (np.abs(w[1 + d]) + 6 * cs)
        big = np.maximum(np.abs(wl[1 + d]), np.abs(wr[1 + d])) + 3 * np.maximum(
            np.sqrt(gamma * wl[4] / wl[0]), np.sqrt(gamma * wr[4] / wr[0]))
        wl[1 + d], wr[1 + d] = s * big, s * big * rng.uniform(1, 1.2, shape)
    elif mode == 3:  # colliding / receding
        s = rng.choice([-1, 1])
        wl[1 + d], wr[1 + d] = s * np.abs(wl[1 + d]), -s * np.abs(wr[1 + d])
    elif mode == 4:  # contact
        wr[1 + d], wr[4] = wl[1 + d], wl[4]
    elif mode == 5:  # subsonic slow flow, similar states
        wr[0] = wl[0] * rng.uniform(0.5, 2, shape)
        wr[4] = wl[4] * rng.uniform(0.5, 2, shape)
        cs = np.sqrt(gamma * wl[4] / wl[0])
        wl[1 + d] = cs * rng.uniform(-0.7, 0.7, shape)
        wr[1 + d] = cs * rng.uniform(-0.7, 0.7, shape)
    return wl, wr


def draw(rng):
    nd = int(rng.choice([0, 0, 1, 2, 4]))
    shape = tuple(int(rng.integers(1, 5)) for _ in range(3))
    gamma = float(rng.choice([1.4, 5 / 3, 1.1, 2.0, 3.0]))
    d = int(rng.integers(3))
    style = ["mild", "strong", "extreme"][int(rng.choice(3, p=[0.5, 0.35, 0.15]))]
    floor = float(rng.choice([1e-10, 1e-10, 1e-10, 0.5, 1e3]))
    wl, wr = adversarial(rng, 5 + nd, shape, d, style, gamma)
    return nd, shape, gamma, d, style, floor, wl, wr


@kind("reference flux", 500, 10000)
def reference(rng, mon, i):
    """every flux solver against an independent formulation, all wave configurations"""
    nd, shape, gamma, d, style, floor, wl, wr = draw(rng)
    hs = hstate(nd)
    SL, SM, SR, c = speeds(wl, wr, gamma, d, floor)
    mag = magnitude(wl, wr, gamma, d, floor)
    near = np.zeros(shape, bool)
    for S in (SL, SM, SR):
        near |= np.abs(S) < 1e-9 * (np.abs(SL) + np.abs(SR))
    cfgs = [("supersonic to the right", SL > 0), ("left star region", (SL <= 0) & (SM > 0)),
            ("right star region", (SM <= 0) & (SR > 0)), ("supersonic to the left", SR <= 0)]
    for name, m in cfgs:
        mon.event(name, int((m & ~near).sum()))
    if floor > 1e-9:
        mon.event("floor active", int((gamma * wl[4] / wl[0] < floor).sum()))
    for name in ("llf", "hllc", "advection_upwind"):
        if name == "advection_upwind":
            # its premise: the velocity is continuous across the interface
            wr_ = wr.copy()
            wr_[1 + d] = wl[1 + d]
        else:
            wr_ = wr
        got, ok = call(name, hs, wl, wr_, gamma, d, floor)
        mon.check(ok, "input was modified", solver=name)
        want = ref.RIEMANN[name](wl, wr_, gamma, d, floor)
        mon.event("pairs compared", int((~near).sum()))
        if name == "hllc":
            use = np.broadcast_to(~near, got.shape) if got.shape == want.shape else None
        else:
            use = np.ones(want.shape, bool)
        if use is None:
            mon.violate("shape of the flux", got=got.shape, want=want.shape)
            continue
        mon.close(np.where(use, got, 0) / mag, np.where(use, want, 0) / mag, TOL,
                  f"{name} flux differs from the reference", scale=1.0, direction="xyz"[d],
                  gamma=gamma, floor=floor, scalars=nd)
        mon.see(name, d, style, nd, floor > 1e-9, *[bool(m.any()) for _, m in cfgs])
    mon.sample = dict(direction="xyz"[d], style=style, gamma=gamma, scalars=nd, shape=list(shape))


@kind("equal states", 120, 2000)
def equal(rng, mon, i):
    """equal states give the physical flux"""
    nd, shape, gamma, d, style, floor, wl, _ = draw(rng)
    hs = hstate(nd)
    mag = magnitude(wl, wl, gamma, d, floor)
    for name in ("llf", "hllc", "advection_upwind"):
        got, _ = call(name, hs, wl, wl.copy(), gamma, d, floor)
        want = ref.flux(wl, gamma, d, pressure=name != "advection_upwind")
        mon.event("pairs compared", int(np.prod(shape)))
        mon.close(got / mag, want / mag, TOL, f"{name} flux of equal states", scale=1.0, direction="xyz"[d])
        mon.see("equal", name, d, style, nd)


@kind("symmetries", 200, 3000)
def symmetric(rng, mon, i):
    """mirroring, relabelling axes, scalars"""
    nd, shape, gamma, d, style, floor, wl, wr = draw(rng)
    hs = hstate(nd)
    mag = magnitude(wl, wr, gamma, d, floor)
    for name in ("llf", "hllc", "advection_upwind"):
        if name == "advection_upwind":
            wr = wr.copy()
            wr[1 + d] = wl[1 + d]
        got, _ = call(name, hs, wl, wr, gamma, d, floor)
        # mirror
        ml, mr = wr.copy(), wl.copy()
        ml[1 + d] *= -1
        mr[1 + d] *= -1
        mir, _ = call(name, hs, ml, mr, gamma, d, floor)
        mir = -mir
        mir[1 + d] *= -1
        mon.close(mir / mag, got / mag, TOL, f"{name} flux is not mirror symmetric", scale=1.0, direction="xyz"[d])
        # relabel the axes cyclically and by a swap
        for perm in ([1, 2, 0], [2, 0, 1], [1, 0, 2], [0, 2, 1], [2, 1, 0]):
            rows = [0] + [1 + perm[k] for k in range(3)] + list(range(4, 5 + nd))
            dd = perm.index(d)
            rot, _ = call(name, hs, wl[rows], wr[rows], gamma, dd, floor)
            mon.close(rot / mag[rows], got[rows] / mag[rows], TOL, f"{name} flux depends on the axis labels",
                      scale=1.0, direction="xyz"[d], perm=str(perm))
        # transverse mirror
        e = (d + 1) % 3
        tl, tr = wl.copy(), wr.copy()
        tl[1 + e] *= -1
        tr[1 + e] *= -1
        t, _ = call(name, hs, tl, tr, gamma, d, floor)
        t[1 + e] *= -1
        mon.close(t / mag, got / mag, TOL, f"{name} flux depends on the transverse orientation", scale=1.0)
        # the scalars do not matter for the rest
        hs0 = hstate(0)
        g0, _ = call(name, hs0, wl[:5], wr[:5], gamma, d, floor)
        mon.close(g0 / mag[:5], got[:5] / mag[:5], 1e-13, f"{name} flux depends on passive scalars", scale=1.0)
        mon.event("pairs compared", 8 * int(np.prod(shape)))
        mon.see("sym", name, d, style, nd)


@kind("contacts and shear layers", 120, 1500)
def contacts(rng, mon, i):
    """hllc keeps stationary contacts and shear layers; scalars move with the mass flux"""
    nd, shape, gamma, d, style, floor, wl, wr = draw(rng)
    hs = hstate(nd)
    a, b = wl.copy(), wr.copy()
    a[1 + d] = b[1 + d] = 0.0
    b[4] = a[4]
    got, _ = call("hllc", hs, a, b, gamma, d, floor)
    want = np.zeros_like(got)
    want[1 + d] = a[4]
    mag = magnitude(a, b, gamma, d, floor)
    mon.close(got / mag, want / mag, 1e-12, "hllc does not keep a stationary contact", scale=1.0, direction="xyz"[d])
    got, _ = call("hllc", hs, wl, wr, gamma, d, floor)
    mag = magnitude(wl, wr, gamma, d, floor)
    m = got[0]
    sure = np.abs(m) > 1e-8 * mag[0]
    up = lambda k: np.where(m > 0, wl[k], wr[k])  # noqa: E731
    rows = [1 + e for e in range(3) if e != d] + list(range(5, 5 + nd))
    for k in rows:
        mon.close(np.where(sure, got[k], 0) / mag[k], np.where(sure, m * up(k), 0) / mag[k], TOL,
                  "hllc does not carry transverse velocity and scalars with the mass flux", scale=1.0, row=k, direction="xyz"[d])
    mon.event("pairs compared", 2 * int(np.prod(shape)))
    mon.see("contact", d, style, nd)


@kind("upwinding", 120, 1500)
def upwinding(rng, mon, i):
    """when all waves run one way, hllc and advection take that side's flux"""
    nd, shape, gamma, d, style, floor, wl, wr = draw(rng)
    hs = hstate(nd)
    s = float(rng.choice([-1, 1]))
    c = np.maximum(ref.sound(wl, gamma, floor), ref.sound(wr, gamma, floor))
    wl[1 + d] = s * c * rng.uniform(1.01, 4, shape)
    wr[1 + d] = s * c * rng.uniform(1.01, 4, shape)
    got, _ = call("hllc", hs, wl, wr, gamma, d, floor)
    want = ref.flux(wl if s > 0 else wr, gamma, d)
    mag = magnitude(wl, wr, gamma, d, floor)
    mon.close(got / mag, want / mag, 1e-11, "hllc is not upwind in supersonic flow", scale=1.0, direction="xyz"[d], sign=s)
    wr[1 + d] = wl[1 + d]
    got, _ = call("advection_upwind", hs, wl, wr, gamma, d, floor)
    want = ref.flux(wl if s > 0 else wr, gamma, d, pressure=False)
    mon.close(got / mag, want / mag, 1e-11, "advection flux is not upwind", scale=1.0, direction="xyz"[d], sign=s)
    mon.event("supersonic to the right" if s > 0 else "supersonic to the left", int(np.prod(shape)))
    mon.event("pairs compared", 2 * int(np.prod(shape)))
    # however slow the flow is
    wl[1 + d] = wr[1 + d] = s * 10 ** rng.uniform(-14, -2, shape)
    got, _ = call("advection_upwind", hs, wl, wr, gamma, d, floor)
    side = wl if s > 0 else wr
    want = ref.flux(side, gamma, d, pressure=False)
    speed = np.abs(wl[1 + d])
    mon.close(got / speed, want / speed, 1e-11, "advection flux of slow flow is not upwind",
              scale=np.maximum(np.abs(want / speed), 1e-3), direction="xyz"[d], sign=s)
    wl[1 + d] = wr[1 + d] = 0.0
    got, _ = call("advection_upwind", hs, wl, wr, gamma, d, floor)
    mon.close(got, np.zeros_like(got), 1e-13, "advection flux at rest", scale=1.0)
    mon.see("upwind", d, s, nd, style)


@kind("jump relations", 200, 3000)
def jumps(rng, mon, i):
    """consistency of the hllc star states: integral form of the conservation law"""
    nd, shape, gamma, d, style, floor, wl, wr = draw(rng)
    hs = hstate(nd)
    SL, SM, SR, c = speeds(wl, wr, gamma, d, floor)
    # Galilean frame: moving the interface with speed V samples the same wave fan
    # elsewhere, so F(V) - V U over the fan must telescope:
    #   F_R - F_L = SL (U*L - UL) + SM (U*R - U*L) + SR (UR - U*R)
    mag = magnitude(wl, wr, gamma, d, floor)
    ul, ur = ref.cons(wl, gamma), ref.cons(wr, gamma)
    Fl, Fr = ref.flux(wl, gamma, d), ref.flux(wr, gamma, d)
    got, _ = call("hllc", hs, wl, wr, gamma, d, floor)
    inside = (SL < -1e-9 * c) & (SR > 1e-9 * c)
    left = inside & (SM > 1e-9 * c)
    right = inside & (SM < -1e-9 * c)
    # U* from the observed flux, by the jump relation over the outer wave
    UsL = ul + (got - Fl) / np.where(left, SL, 1.0)
    UsR = ur + (got - Fr) / np.where(right, SR, 1.0)
    for m, Us, u, w, S in ((left, UsL, ul, wl, SL), (right, UsR, ur, wr, SR)):
        rho = np.where(m, Us[0], 1.0)
        mn = np.where(m, Us[1 + d], 0.0)
        sc = mag[1 + d] / np.abs(S) + 1e-300
        mon.close(np.where(m, (mn - rho * SM) / sc, 0), np.zeros(shape), 1e-8,
                  "the star state does not move with the contact", scale=1.0)
        mon.check(np.all(rho[m] > 0), "star density is not positive")
    mon.event("left star region", int(left.sum()))
    mon.event("right star region", int(right.sum()))
    mon.see("jump", d, style, nd)
