"""C10 relabelling, mirroring and shifting"""

import itertools

import numpy as np

from vmon import ref, work
from vmon.core import StopCase, registry

PID = "C10"
LEVEL = "exploration"
RULE = (
    "random configurations and asymmetric states; each is run as drawn and in a relabelled, "
    "mirrored or shifted form (random element of the group generated by axis permutations, "
    "mirrors and periodic shifts). distinct by transformation, dimensions, degrees, "
    "boundaries, limiting"
)
ASSUMPTIONS = [
    "absolute NAD ranges scale the signed velocity bounds, which is not mirror symmetric by "
    "documentation; mirrored cases then select density and pressure",
    "prescribed boundaries: corners depend on the order of the directions, so they are only "
    "mirrored, or relabelled in one dimension",
    "HLLC is mirror symmetric on its domain, positive densities and pressures; a mismatch in a "
    "case whose unlimited reconstruction leaves it at some face is not reported",
    "decisions within rounding of a threshold are re-tried with perturbed data",
]
REQUIRE = {
    "rates compared": 250,
    "runs compared": 80,
    "permuted": 80,
    "mirrored": 80,
    "shifted": 40,
    "with troubled cells": 30,
}
KINDS, kind = registry()
TOL = 1e-9
VEL = ["vx", "vy", "vz"]


# ---- transformations of (cfg, state); each returns cfg', and a map on states


def _rename(names, table):
    return None if names is None else tuple(table.get(v, v) for v in names)


def permute(cfg, perm):
    """new axis i is the old axis perm[i]"""
    new = dict(cfg)
    for k in ("n", "p", "dom"):
        new[k] = tuple(cfg[k][perm[i]] for i in range(3))

    def moved(spec):
        if spec["type"] != "dirichlet":
            return spec
        val = spec["value"]
        if not callable(val):
            v = np.array(val, dtype=float)
            v[1:4] = [val[1 + perm[i]] for i in range(3)]
            return {"type": "dirichlet", "value": v}

        def f(x, y, z, t):
            # old axis perm[i] is the new axis i; evaluate pointwise
            new_c = [x, y, z]
            old = [None] * 3
            for i in range(3):
                old[perm[i]] = new_c[i]
            v = np.array(val(x=old[0], y=old[1], z=old[2], t=t), dtype=float)
            r = v.copy()
            for i in range(3):
                r[1 + i] = v[1 + perm[i]]
            return r

        return {"type": "dirichlet", "value": f}

    new["bc"] = {
        "xyz"[i]: tuple(moved(s) for s in cfg["bc"]["xyz"[perm[i]]]) for i in range(3)
    }
    new["dims"] = "".join("xyz"[d] for d in ref.active(new))
    table = {VEL[perm[i]]: VEL[i] for i in range(3)}
    if cfg["lim"] is not None:
        lim = dict(cfg["lim"])
        lim["NAD_vars"] = _rename(lim["NAD_vars"], table)
        lim["PAD"] = {table.get(k, k): v for k, v in lim["PAD"].items()}
        new["lim"] = lim

    def act(u):
        v = np.transpose(u, (0,) + tuple(1 + q for q in perm)).copy()
        rows = v.copy()
        for i in range(3):
            rows[1 + i] = v[1 + perm[i]]
        return rows

    return new, act


def mirror(cfg, d, move):
    new = dict(cfg)
    dom = list(cfg["dom"])
    a, b = dom[d]
    if move:
        dom[d] = (-b, -a)
    new["dom"] = tuple(dom)
    c = "xyz"[d]

    def flipped(spec, axis):
        if spec["type"] != "dirichlet":
            return spec
        val = spec["value"]
        sgn = np.ones(np.shape(val)[0] if not callable(val) else 1)
        if callable(val):

            def f(x, y, z, t):
                q = [x, y, z]
                q[d] = (-q[d]) if move else (a + b - q[d])
                v = np.array(val(x=q[0], y=q[1], z=q[2], t=t), dtype=float)
                v[1 + d] = -v[1 + d]
                return v

            return {"type": "dirichlet", "value": f}
        sgn[1 + d] = -1
        return {"type": "dirichlet", "value": np.asarray(val) * sgn}

    bc = {k: tuple(flipped(s, k) for s in v) for k, v in cfg["bc"].items()}
    bc[c] = bc[c][::-1]
    new["bc"] = bc
    if cfg["lim"] is not None:
        lim = dict(cfg["lim"])
        pad = dict(lim["PAD"])
        if VEL[d] in pad:
            lo, up = pad[VEL[d]]
            pad[VEL[d]] = (-up, -lo)
        lim["PAD"] = pad
        new["lim"] = lim

    def act(u):
        v = np.flip(u, axis=1 + d).copy()
        v[1 + d] = -v[1 + d]
        return v

    return new, act


def shift(cfg, k):
    def act(u):
        return np.roll(u, k, axis=(1, 2, 3))

    return cfg, act


def draw(rng, cfg, mon):
    """random transformation suited to cfg, as (label, cfg', map)"""
    act = ref.active(cfg)
    ops, label = [], []
    c = cfg
    prescribed = any(s["type"] == "dirichlet" for v in cfg["bc"].values() for s in v)
    choice = work.pick(rng, ["perm", "mirror", "shift", "mix"])
    if choice == "shift" and not any(cfg["bc"]["xyz"[d]][0]["type"] == "periodic" for d in act):
        choice = "mirror"
    if prescribed and (len(act) > 1 or choice == "shift"):
        choice = "mirror"
    if choice in ("shift", "mix") and not prescribed:
        k = [0, 0, 0]
        for d in act:
            if c["bc"]["xyz"[d]][0]["type"] == "periodic":
                k[d] = int(rng.integers(0, c["n"][d]))
        if any(k):
            c, a = shift(c, tuple(k))
            ops.append(a)
            label.append("shift" + "".join("xyz"[d] for d in range(3) if k[d]))
            mon.event("shifted")
    if choice in ("mirror", "mix"):
        ds = [d for d in act if rng.random() < 0.6] or [act[int(rng.integers(len(act)))]]
        for d in ds:
            c, a = mirror(c, d, bool(rng.random() < 0.5))
            ops.append(a)
            label.append("mirror" + "xyz"[d])
        mon.event("mirrored")
    if choice in ("perm", "mix") and not (prescribed and len(act) > 1):
        perms = [q for q in itertools.permutations(range(3)) if q != (0, 1, 2)]
        q = work.pick(rng, perms)
        c, a = permute(c, q)
        ops.append(a)
        label.append("perm" + "".join("xyz"[i] for i in q))
        mon.event("permuted")

    def act_all(u):
        for a in ops:
            u = a(u)
        return u

    return "+".join(label), c, act_all


def configuration(rng, i, prescribed=False):
    bcs = ("periodic", "periodic", "free", "outflow", "reflective")
    cfg = work.rand_cfg(rng, cells=900, bcs=bcs)
    act = ref.active(cfg)
    style = None
    if cfg["lim"] is not None:
        if cfg["lim"]["NAD_range"] == "absolute":
            cfg["lim"]["NAD_vars"] = ("rho", "P")
        style = work.pick(rng, ["noisy", "jumps", "strong", "smooth"])
        if rng.random() < 0.12:
            cfg["lim"]["force_trouble"] = True
    if prescribed:
        d = act[int(rng.integers(len(act)))]
        c = "xyz"[d]
        ref_w = np.array([1.0, *rng.uniform(-0.4, 0.4, 3), 1.0] + list(rng.uniform(0.2, 1, len(cfg["passives"]))))
        base = ref.cons(ref_w, cfg["gamma"])
        slope = 0.02 * rng.normal(size=(len(base), 3))

        def val(x, y, z, t):
            g = sum(slope[:, e].reshape(-1, 1, 1, 1) * np.sin(q + 0.3 * e + t)[None] for e, q in enumerate((x, y, z)))
            return base.reshape(-1, 1, 1, 1) * (1 + g)

        sides = list(cfg["bc"][c])
        if sides[0]["type"] == "periodic":
            sides = [{"type": "free"}, {"type": "free"}]
        sides[int(rng.integers(2))] = {"type": "dirichlet", "value": base if rng.random() < 0.5 else val}
        cfg["bc"][c] = tuple(sides)
    w = work.rand_prims(rng, cfg, style=style)
    if rng.random() < 0.12 and not prescribed:
        # pure advection: uniform velocity, both signs
        cfg["riemann"] = "advection_upwind"
        for e in (1, 2, 3):
            w[e] = float(rng.choice([-1, 1])) * rng.uniform(0.1, 0.6)
        if cfg["lim"] is not None:
            cfg["lim"]["NAD_vars"] = ("rho",)
            cfg["lim"]["SED"] = bool(rng.random() < 0.5)
            cfg["lim"]["PAD"] = {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
        for c, v in cfg["bc"].items():
            if v[0]["type"] == "reflective" or v[1]["type"] == "reflective":
                cfg["bc"][c] = ({"type": "free"}, {"type": "free"})
    return cfg, w


def witness(cfg, new, label):
    return dict(transformation=label, cfg=str(work.describe(cfg)), new=str(work.describe(new)))


def outside(cfg, visited):
    """a state the HLLC solver met has a face with negative density or pressure"""
    if cfg["riemann"] != "hllc":
        return False
    with np.errstate(all="ignore"):
        return not all(ref.physical_faces(cfg, u, t) for t, u in visited)


def drop_outside(m, cfg, visited):
    if m.violations and outside(cfg, visited):
        m.violations.clear()
        m.event("mismatches outside the domain of the Riemann solver")


def record(solver):
    visited, inner = [], solver.f

    def f(t, u):
        visited.append((t, np.array(u, dtype=float)))
        return inner(t, u)

    solver.f = f
    return visited


@kind("rate of change", 700, 8000)
def rate(rng, mon, i):
    cfg, w = configuration(rng, i, prescribed=i % 7 == 3)
    label, new, act = draw(rng, cfg, mon)
    seed = int(rng.integers(1 << 30))

    def attempt(k, m):
        u = ref.cons(work.nudge(seed, k, w), cfg["gamma"])
        A = work.build(cfg, u)
        B = work.build(new, act(u))
        t = 0.25
        dta, da = A.f(t, u.copy())
        dtb, db = B.f(t, act(u))
        work.finite_or_stop(da)
        m.event("rates compared")
        if cfg["lim"] is not None and A.am("mean trouble").any():
            m.event("with troubled cells")
        m.close(dtb, dta, 1e-10, "time step of the transformed problem", scale=dta, **witness(cfg, new, label))
        want = act(np.asarray(da))
        h = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in ref.active(cfg))
        m.close(db, want, TOL, "rate of change of the transformed problem",
                scale=np.maximum(work.groups(want), work.groups(act(u)) / h), **witness(cfg, new, label))
        drop_outside(m, cfg, [(t, u)])

    work.confirm(mon, attempt)
    mon.see("rate", label, *work.key(cfg))
    mon.sample = dict(cfg=work.describe(cfg), transformation=label)


@kind("runs", 250, 3000)
def runs(rng, mon, i):
    cfg, w = configuration(rng, i, prescribed=i % 7 == 3)
    cfg["CFL"] = float(rng.choice([0.1, 0.3]))
    label, new, act = draw(rng, cfg, mon)
    seed = int(rng.integers(1 << 30))
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    steps = int(rng.integers(1, 4))

    def attempt(k, m):
        u = ref.cons(work.nudge(seed, k, w), cfg["gamma"])
        A = work.build(cfg, u)
        B = work.build(new, act(u))
        visited = record(A)
        work.advance(A, name, n=steps)
        work.advance(B, name, n=steps)
        a, b = work.state(A), work.state(B)
        work.finite_or_stop(a)
        m.event("runs compared")
        wit = dict(integrator=name, steps=steps, **witness(cfg, new, label))
        m.close(B.t, A.t, 1e-9, "time of the transformed run", scale=A.t, **wit)
        want = act(a)
        m.close(b, want, TOL, "state of the transformed run", scale=np.maximum(work.groups(want), work.groups(act(u))), **wit)
        if cfg["lim"] is not None:
            ta = A.snapshots[-1]["trouble"]
            tb = B.snapshots[-1]["trouble"]
            if np.any(ta):
                m.event("with troubled cells")
            fake = np.zeros((5,) + ta.shape)
            fake[0] = ta
            m.close(tb, act(fake)[0], 1e-12, "recorded troubles of the transformed run", scale=1.0, **wit)
        drop_outside(m, cfg, visited)

    work.confirm(mon, attempt)
    mon.see("run", label, name, *work.key(cfg))
