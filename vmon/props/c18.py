"""C18 free stream, moving contacts, fewer dimensions"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C18"
LEVEL = "exploration"
RULE = (
    "random configurations (dimensions, degrees, flux solvers, limiting options, matching "
    "boundaries) with uniform flow or a density/scalar structure in uniform velocity and "
    "pressure, every step checked; problems that vary along some directions run with and without "
    "the others. distinct by statement, configuration, integrator"
)
ASSUMPTIONS = [
    "matching boundaries: periodic, free, outflow, prescribed with the same state, and walls "
    "parallel to the flow",
    "pairs with different numbers of directions use one fixed step (the CFL rule counts them)",
]
REQUIRE = {"uniform steps": 400, "contact steps": 500, "reduced pairs": 120, "with troubled cells": 60}
KINDS, kind = registry()


def matching(rng, cfg, w0, contact):
    """boundaries on which the uniform velocity and pressure persist; may zero velocities"""
    act = ref.active(cfg)
    for d in act:
        sides = []
        t = work.pick(rng, ["periodic", "periodic", "open", "wall"])
        if t == "periodic":
            cfg["bc"]["xyz"[d]] = ({"type": "periodic"}, {"type": "periodic"})
            continue
        for _ in range(2):
            if t == "wall":
                sides.append({"type": "reflective"})
            else:
                kinds = ["free", "outflow"] + ([] if contact else ["dirichlet", "fn"])
                k = work.pick(rng, kinds)
                if k == "dirichlet":
                    sides.append({"type": "dirichlet", "value": "w0"})
                elif k == "fn":
                    sides.append({"type": "dirichlet", "value": "fn"})
                else:
                    sides.append({"type": k})
        if t == "wall":
            w0[1 + d] = 0.0
        cfg["bc"]["xyz"[d]] = tuple(sides)
    # any prescribed values, now that the state is known
    u0 = ref.cons(w0, cfg["gamma"])
    for c, v in cfg["bc"].items():
        out = []
        for s in v:
            if s["type"] == "dirichlet":
                if isinstance(s["value"], str) and s["value"] == "fn":
                    s = {"type": "dirichlet", "value": lambda x, y, z, t: u0.reshape(-1, 1, 1, 1) * np.ones_like(x)[None]}
                else:
                    s = {"type": "dirichlet", "value": u0}
            out.append(s)
        cfg["bc"][c] = tuple(out)


def draw(rng):
    cfg = work.rand_cfg(rng, few=0, cells=700, riemann=("llf", "hllc", "advection_upwind"))
    cfg["CFL"] = float(rng.choice([0.1, 0.3, 0.5]))
    if cfg["lim"] is not None and rng.random() < 0.2:
        cfg["lim"]["force_trouble"] = True
    return cfg


@kind("uniform flow", 220, 4000)
def uniform(rng, mon, i):
    cfg = draw(rng)
    w0 = np.array([rng.uniform(0.1, 5), *(rng.normal(size=3) * 10 ** rng.uniform(-2, 1)), 10 ** rng.uniform(-1, 1)]
                  + list(rng.uniform(-1, 2, len(cfg["passives"]))))
    matching(rng, cfg, w0, contact=False)
    u0 = ref.cons(w0, cfg["gamma"])
    u = np.broadcast_to(u0.reshape(-1, 1, 1, 1), u0.shape + cfg["n"]).copy()
    S = work.build(cfg, u)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    c = np.sqrt(cfg["gamma"] * w0[4] / w0[0])
    speed = np.abs(w0[1:4]).sum() + c
    # scale of each conserved variable, allowing for the fluxes that cancel
    sc = np.maximum(np.abs(u0), 1e-300)
    sc[1:4] = w0[0] * speed
    sc[4] = abs(u0[4]) + w0[4]
    sc[5:] = np.maximum(np.abs(u0[5:]), w0[0])
    for k in range(3):
        work.advance(S, name, n=1)
        mon.event("uniform steps")
        if cfg["lim"] is not None and S.snapshots[-1]["trouble"].any():
            mon.event("with troubled cells")
        if not mon.close(work.state(S), u, 1e-10, "a uniform flow does not stay uniform", scale=sc.reshape(-1, 1, 1, 1),
                         step=k, integrator=name, w0=w0, cfg=str(work.describe(cfg))):
            return
    mon.close(S.snapshots[-1]["w"], np.broadcast_to(w0.reshape(-1, 1, 1, 1), u.shape), 1e-9, "the recorded uniform flow is not uniform",
              scale=np.maximum(np.abs(w0), [1e-3, speed, speed, speed, w0[4] + w0[0] * speed**2] + [1] * (len(w0) - 5)).reshape(-1, 1, 1, 1))
    mon.see("uniform", name, *work.key(cfg))
    mon.sample = dict(cfg=work.describe(cfg), integrator=name)


@kind("moving contacts", 260, 5000)
def contacts(rng, mon, i):
    cfg = draw(rng)
    if not cfg["passives"] and rng.random() < 0.5:
        cfg["passives"] = ["dye"]
    nv = 5 + len(cfg["passives"])
    w0 = np.array([1.0, *(rng.uniform(0.1, 1.2, 3) * rng.choice([-1, 1], 3)), rng.uniform(0.3, 2)] + [1.0] * (nv - 5))
    matching(rng, cfg, w0, contact=True)
    w = np.broadcast_to(w0.reshape(-1, 1, 1, 1), (nv,) + cfg["n"]).copy()
    style = work.pick(rng, ["smooth", "jump", "noise"])
    for r in [0] + list(range(5, nv)):
        f = 1 + work.smooth_field(rng, cfg, 0.3)
        if style == "jump":
            f = np.where(f > 1.05, 1.8 * f, f)
        elif style == "noise":
            f = f * rng.uniform(0.9, 1.1, f.shape)
        w[r] = f
    u = ref.cons(w, cfg["gamma"])
    S = work.build(cfg, u)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    wit = dict(integrator=name, style=style, cfg=str(work.describe(cfg)), w0=w0)
    speed = np.abs(w0[1:4]).sum() + np.sqrt(cfg["gamma"] * w0[4] / 0.7)
    for k in range(3):
        work.advance(S, name, n=1)
        v = work.state(S)
        work.finite_or_stop(v)
        q = ref.prim(v, cfg["gamma"])
        mon.event("contact steps")
        if cfg["lim"] is not None and S.snapshots[-1]["trouble"].any():
            mon.event("with troubled cells")
        ok = mon.close(q[1:4], np.broadcast_to(w0[1:4].reshape(-1, 1, 1, 1), q[1:4].shape), 1e-9,
                       "velocity does not stay uniform around a contact", scale=speed, step=k, **wit)
        ok &= mon.close(q[4], np.full(cfg["n"], w0[4]), 1e-9, "pressure does not stay uniform around a contact",
                        scale=w0[4] + speed**2, step=k, **wit)
        if not ok:
            return
        s = S.snapshots[-1]["w"]
        mon.close(s[4], np.full(cfg["n"], w0[4]), 1e-8, "recorded pressure is not uniform around a contact", scale=w0[4] + speed**2, **wit)
    mon.see("contact", style, name, *work.key(cfg))


@kind("left-out directions", 170, 3500)
def reduced(rng, mon, i):
    """the same problem with and without resolved directions along which nothing varies"""
    few = work.pick(rng, ["x", "y", "z", "x", "y", "z", "xy", "xz", "yz"])
    cfg = work.rand_cfg(rng, few=0, dims=few, pmax=5, cells=120)
    cfg["CFL"] = 0.3
    style = work.pick(rng, ["smooth", "noisy", "jumps"])
    w = work.rand_prims(rng, cfg, style=style)
    rest = [d for d in range(3) if "xyz"[d] not in few]
    add = [d for d in rest if rng.random() < 0.6] or [rest[int(rng.integers(len(rest)))]]
    if cfg["lim"] is not None and len(few) + len(add) == 3:
        cfg["lim"]["convex"] = False
    big = dict(cfg)
    p, n, dom, bc = list(cfg["p"]), list(cfg["n"]), list(cfg["dom"]), dict(cfg["bc"])
    for d in add:
        p[d] = int(rng.integers(0, 5 if len(few) + len(add) < 3 else 3))
    needs = work.need(tuple(p))
    for d in range(3):
        if d in add:
            n[d] = max(needs[d], 2) + int(rng.integers(0, 3))
            dom[d] = (0.0, float(rng.uniform(0.3, 2)))
            t = work.pick(rng, ["periodic", "free", "outflow", "reflective"])
            bc["xyz"[d]] = ({"type": t}, {"type": t})
            if t == "reflective":
                w[1 + d] = 0.0
                if cfg["lim"] is not None:
                    cfg["lim"]["NAD_vars"] = ("rho", "P")
        elif "xyz"[d] in few:
            n[d] = max(n[d], needs[d])
    # the ghost layers of the larger problem may be thicker: enlarge both alike
    if tuple(n[d] for d in range(3) if d not in add) != tuple(cfg["n"][d] for d in range(3) if d not in add):
        cfg["n"] = tuple(n[d] if d not in add else 1 for d in range(3))
        zero = [1 + d for d in add if not w[1 + d].any()]
        w = work.rand_prims(rng, cfg, style=style)
        for r in zero:
            w[r] = 0.0
    big.update(p=tuple(p), n=tuple(n), dom=tuple(dom), bc=bc, dims="".join("xyz"[d] for d in range(3) if "xyz"[d] in few or d in add))
    u1 = ref.cons(w, cfg["gamma"])
    dt = 0.5 * ref.timestep(cfg, u1, t=0.0) / len(big["dims"])
    dt = float(min(dt, 0.2 * min((dom[d][1] - dom[d][0]) / n[d] for d in add)))
    cfg["fixed_dt"] = big["fixed_dt"] = dt
    big["lim"] = cfg["lim"]
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4"])
    steps = int(rng.integers(1, 4))
    seed = int(rng.integers(1 << 30))
    wit = dict(few=str(work.describe(cfg)), more=str(work.describe(big)), integrator=name, steps=steps)

    def attempt(k, m):
        u = ref.cons(work.nudge(seed, k, w), cfg["gamma"])
        ub = np.broadcast_to(u, (u.shape[0],) + big["n"]).copy()
        A, B = work.build(cfg, u), work.build(big, ub)
        work.advance(A, name, n=steps)
        work.advance(B, name, n=steps)
        a, b = work.state(A), work.state(B)
        work.finite_or_stop(a)
        m.event("reduced pairs")
        if cfg["lim"] is not None and A.snapshots[-1]["trouble"].any():
            m.event("with troubled cells")
        m.close(b, np.broadcast_to(a, b.shape), 1e-9, "the result depends on directions along which nothing varies",
                scale=work.groups(a), **wit)

    work.confirm(mon, attempt)
    mon.see("reduced", few, big["dims"], name, *work.key(big)[1:])
