"""C12 passive scalars"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C12"
LEVEL = "exploration"
RULE = (
    "random configurations and flows run with different sets of passive scalars (none, several, "
    "renamed, reordered, scaled, superposed, equal, constant, spiky or huge); distinct by "
    "relation, configuration and integrator"
)
ASSUMPTIONS = [
    "rounding allowance 1e-11 relative to the size of each field",
    "superposition is only asked without slope limiting (limiters are not linear)",
]
REQUIRE = {
    "hydrodynamics compared": 250,
    "scalars compared": 400,
    "constant scalars": 80,
    "superposed": 40,
    "with troubled cells": 50,
}
KINDS, kind = registry()
TOL = 1e-11
NAMES = ["dye", "x", "t", "rho2", "Z", "metallicity", "a b", "vxx", "trouble", "s", "c", "p", "w", "é",
         "fraction_of_the_second_material", "m1", "0", "E2", "a-b.c", "Rho", "dye2", "passive_scalars2"]


def names(rng, k):
    return [NAMES[j] for j in rng.permutation(len(NAMES))[:k]]


def field(rng, cfg):
    """random scalar: smooth, noisy, a spike, a jump, or of extreme size"""
    kind_ = work.pick(rng, ["smooth", "noisy", "spike", "jump", "big", "small", "signed"])
    f = rng.uniform(0.1, 1) + work.smooth_field(rng, cfg, 0.4)
    if kind_ == "noisy":
        f = f * rng.uniform(0.5, 1.5, f.shape)
    elif kind_ == "spike":
        f[tuple(int(rng.integers(m)) for m in f.shape)] += 10
    elif kind_ == "jump":
        f = np.where(f > np.median(f), 3.0 + f, f)
    elif kind_ == "big":
        f = 1e8 * f
    elif kind_ == "small":
        f = 1e-8 * f
    elif kind_ == "signed":
        f = f - f.mean()
    return f


def setup(rng, limiting=None, bcs=("periodic", "free", "outflow", "reflective")):
    cfg = work.rand_cfg(rng, cells=700, passives=0, limiting=limiting, bcs=bcs)
    cfg["CFL"] = float(rng.choice([0.1, 0.3, 0.5]))
    style = work.pick(rng, ["smooth", "noisy", "jumps", "strong"]) if cfg["lim"] else None
    if cfg["lim"] and rng.random() < 0.15:
        cfg["lim"]["force_trouble"] = True
    w = work.rand_prims(rng, cfg, style=style)
    if rng.random() < 0.12:
        cfg["riemann"] = "advection_upwind"
        for e in (1, 2, 3):
            w[e] = float(rng.choice([-1, 1])) * rng.uniform(0.1, 0.6)
    return cfg, w


def go(cfg, w, scal, name, steps, pointwise=False, mon=None):
    """final time, hydro rows and {scalar name: conservative row}"""
    c = dict(cfg, passives=list(scal))
    if pointwise:
        from vmon.work import raw_ic

        full = {k: v for k, v in scal.items()}
        # cell-centre data handed over as functions of position (degree-0 style
        # lookups are not possible off-centre, so use smooth closures)
        S = work.build(c, None, w0=raw_ic(w), w0_passives=full or None)
    else:
        arr = np.concatenate([w] + [v[None] for v in scal.values()], axis=0)
        S = work.build(c, ref.cons(arr, cfg["gamma"]))
    work.advance(S, name, n=steps)
    u = work.state(S)
    work.finite_or_stop(u[:5])
    hs = S.hydro_state
    rows = {k: u[hs(k)] for k in scal}
    snap = {k: S.snapshots[-1]["w"][hs(k)] for k in scal}
    if mon is not None:
        mon.check(u.shape[0] == 5 + len(scal), "number of rows of the state", got=u.shape[0], want=5 + len(scal))
        if cfg["lim"] is not None and S.snapshots[-1]["trouble"].any():
            mon.event("with troubled cells")
    return float(S.t), u[:5], rows, snap, S


def same_hydro(m, A, B, wit):
    m.event("hydrodynamics compared")
    m.close(B[0], A[0], TOL, "time of the run depends on the scalars", scale=A[0], **wit)
    m.close(B[1], A[1], TOL, "hydrodynamic state depends on the scalars", scale=work.groups(A[1]), **wit)
    wa, wb = A[4].snapshots[-1], B[4].snapshots[-1]
    m.close(wb["w"][:5], wa["w"][:5], 10 * TOL, "hydrodynamic snapshot depends on the scalars", scale=work.groups(wa["w"][:5]), **wit)
    if "trouble" in wa:
        m.close(wb["trouble"], wa["trouble"], 1e-12, "troubled cells depend on the scalars", scale=1.0, **wit)


def same_row(m, got, want, msg, wit, scale=None):
    m.event("scalars compared")
    s = max(np.max(np.abs(want)) if scale is None else scale, 1e-300)
    m.close(got, want, TOL, msg, scale=s, **wit)


def case(rng, cfg):
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    steps = int(rng.integers(1, 4))
    seed = int(rng.integers(1 << 30))
    return name, steps, seed, dict(cfg=str(work.describe(cfg)), integrator=name, steps=steps)


@kind("with and without scalars", 110, 2500)
def presence(rng, mon, i):
    cfg, w = setup(rng)
    name, steps, seed, wit = case(rng, cfg)
    nm = names(rng, int(rng.integers(1, 5)) if i % 8 else int(rng.integers(6, 15)))
    scal = {k: field(rng, cfg) for k in nm}

    def attempt(k, m):
        ww = work.nudge(seed, k, w)
        A = go(cfg, ww, {}, name, steps, mon=m)
        B = go(cfg, ww, scal, name, steps, mon=m)
        same_hydro(m, A, B, wit)

    work.confirm(mon, attempt)
    mon.see("presence", len(nm), name, *work.key(cfg))
    mon.sample = dict(cfg=work.describe(cfg), scalars=nm, integrator=name)


@kind("renamed, reordered, alone", 110, 2500)
def independence(rng, mon, i):
    cfg, w = setup(rng)
    name, steps, seed, wit = case(rng, cfg)
    k0 = int(rng.integers(2, 5)) if i % 8 else int(rng.integers(6, 15))
    nm = names(rng, k0)
    scal = {k: field(rng, cfg) for k in nm}
    order = [int(j) for j in rng.permutation(k0)]
    other = names(rng, k0)
    keep = [j for j in range(k0) if rng.random() < 0.5] or [0]

    def attempt(k, m):
        ww = work.nudge(seed, k, w)
        A = go(cfg, ww, scal, name, steps, mon=m)
        # the same scalars, other names and order
        table = {other[j]: scal[nm[j]] for j in order}
        B = go(cfg, ww, table, name, steps, mon=m)
        same_hydro(m, A, B, wit)
        for j in range(k0):
            same_row(m, B[2][other[j]], A[2][nm[j]], "a scalar depends on its name or position", wit)
            m.close(B[3][other[j]], A[3][nm[j]], 100 * TOL, "recorded scalar depends on its name or position",
                    scale=np.max(np.abs(A[3][nm[j]])) + 1e-300, **wit)
        # only some of them, the others replaced
        sub = {nm[j]: scal[nm[j]] for j in keep}
        if rng.random() < 0.5:
            sub["filler"] = 1e5 * np.ones(cfg["n"])
        C = go(cfg, ww, sub, name, steps, mon=m)
        for j in keep:
            same_row(m, C[2][nm[j]], A[2][nm[j]], "a scalar depends on the other scalars", wit)

    work.confirm(mon, attempt)
    mon.see("independent", k0, len(keep), name, *work.key(cfg))


@kind("constant scalars", 90, 2000)
def constant(rng, mon, i):
    cfg, w = setup(rng)
    name, steps, seed, wit = case(rng, cfg)
    c = float(work.pick(rng, [1.0, 0.37, -2.5, 1e6, 1e-6, 0.0]))
    scal = {"first": field(rng, cfg), "const": np.full(cfg["n"], c), "last": field(rng, cfg)}

    def attempt(k, m):
        A = go(cfg, work.nudge(seed, k, w), scal, name, steps, mon=m)
        m.event("constant scalars")
        rho = A[1][0]
        same_row(m, A[2]["const"], c * rho, "a constant scalar does not stay constant", wit,
                 scale=max(abs(c), 1e-12) * np.max(np.abs(rho)))
        m.close(A[3]["const"], np.full(cfg["n"], c), 1e-9, "the recorded constant scalar is not constant",
                scale=max(abs(c), 1e-12), **wit)

    work.confirm(mon, attempt)
    mon.see("constant", c, name, *work.key(cfg))


@kind("scaled and equal scalars", 90, 2000)
def scaling(rng, mon, i):
    cfg, w = setup(rng)
    name, steps, seed, wit = case(rng, cfg)
    f = float(work.pick(rng, [2.0**12, 2.0**-9, -1.0, -8.0, 3.7, 1e-4]))
    base = field(rng, cfg)
    scal = {"one": base, "noise": field(rng, cfg), "two": f * base, "three": base.copy()}

    def attempt(k, m):
        A = go(cfg, work.nudge(seed, k, w), scal, name, steps, mon=m)
        same_row(m, A[2]["three"], A[2]["one"], "equal scalars drift apart", wit)
        same_row(m, A[2]["two"], f * A[2]["one"], "a scaled scalar does not scale", wit)

    work.confirm(mon, attempt)
    mon.see("scaled", f, name, *work.key(cfg))


@kind("superposition", 60, 1500)
def superposition(rng, mon, i):
    """without slope limiting the scalar equation is linear"""
    cfg, w = setup(rng, limiting=False)
    name, steps, seed, wit = case(rng, cfg)
    a, b = rng.normal(size=2)
    s1, s2 = field(rng, cfg), field(rng, cfg)
    s1, s2 = [q / (np.max(np.abs(q)) or 1.0) for q in (s1, s2)]
    scal = {"one": s1, "sum": a * s1 + b * s2, "two": s2}

    def attempt(k, m):
        A = go(cfg, work.nudge(seed, k, w), scal, name, steps, mon=m)
        m.event("superposed")
        want = a * A[2]["one"] + b * A[2]["two"]
        same_row(m, A[2]["sum"], want, "the result is not linear in the scalar", wit,
                 scale=abs(a) * np.max(np.abs(A[2]["one"])) + abs(b) * np.max(np.abs(A[2]["two"])))

    work.confirm(mon, attempt)
    mon.see("superposition", name, *work.key(cfg))


@kind("pointwise initial scalars", 60, 1000)
def pointwise(rng, mon, i):
    """scalars given as functions of position next to a primitive initial condition"""
    cfg, _ = setup(rng, bcs=("periodic",))
    name, steps, seed, wit = case(rng, cfg)
    steps = 1
    act = ref.active(cfg)
    ph = rng.uniform(0, 6, 8)

    def coord(x, y, z):
        return sum(2 * np.pi * (q - cfg["dom"][d][0]) / (cfg["dom"][d][1] - cfg["dom"][d][0])
                   for d, q in enumerate((x, y, z)) if d in act)

    def hyd(x, y, z):
        c = coord(x, y, z)
        out = np.empty((5,) + x.shape)
        out[0] = 1 + 0.2 * np.sin(c + ph[0])
        for e in (1, 2, 3):
            out[e] = 0.3 * np.cos(c + ph[e])
        out[4] = 1 + 0.2 * np.sin(c + ph[4])
        return out

    fs = {
        "A": lambda x, y, z: 0.5 + 0.3 * np.sin(coord(x, y, z) + ph[5]),
        "B": lambda x, y, z: 7.0 * np.cos(coord(x, y, z) + ph[6]),
        "C": lambda x, y, z: np.full_like(x, 2.0),
    }
    if cfg["riemann"] == "advection_upwind":
        cfg["riemann"] = "hllc"

    A = go(cfg, hyd, {}, name, steps, pointwise=True, mon=mon)
    B = go(cfg, hyd, fs, name, steps, pointwise=True, mon=mon)
    C = go(cfg, hyd, {k: fs[k] for k in ("C", "A")}, name, steps, pointwise=True, mon=mon)
    same_hydro(mon, A, B, wit)
    same_row(mon, C[2]["A"], B[2]["A"], "a scalar depends on the other scalars", wit)
    same_row(mon, B[2]["C"], 2.0 * B[1][0], "a constant scalar does not stay constant", wit)
    mon.event("constant scalars")
    mon.see("pointwise", name, *work.key(cfg))
