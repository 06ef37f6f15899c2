"""
Workload generation: random solver configurations, states and the bridge that
builds a real solver (through its public constructor) from them.
"""

import numpy as np

from vmon import ref
from vmon.core import StopCase, TooManySteps

ALL_DIMS = ["x", "y", "z", "xy", "xz", "yz", "xyz"]


def pick(rng, seq, p=None):
    return seq[int(rng.choice(len(seq), p=p))]


def need(p):
    """thickest ghost layer any stage asks for, per axis"""
    k = ref.half(max(p))
    g = max(k + 1, 2 * k)
    return [max(g, 3) + 2 * ref.half(q) for q in p]


DEFAULT_LIM = dict(
    slope_limiter="minmod",
    force_trouble=False,
    NAD=1e-2,
    NAD_mode="global",
    NAD_range="relative",
    NAD_vars=None,
    PAD={"rho": (0.0, np.inf), "P": (0.0, np.inf)},
    SED=True,
    SED_tolerance=1e-10,
    convex=False,
)


def rand_lim(rng, ndim, **over):
    lim = dict(DEFAULT_LIM, PAD=dict(DEFAULT_LIM["PAD"]))
    lim["slope_limiter"] = pick(rng, ["minmod", "moncen", None])
    lim["NAD"] = float(pick(rng, [1e-2, 1e-3, 1e-5, 0.1, 0.0]))
    lim["NAD_mode"] = pick(rng, ["global", "local"])
    lim["NAD_range"] = pick(rng, ["relative", "absolute"])
    lim["NAD_vars"] = pick(
        rng, [None, None, ("rho",), ("rho", "P"), ("P",), ("vx", "vy", "vz"), ("vy",), ("P", "vz", "rho", "vx", "vy")]
    )
    lim["SED"] = bool(rng.random() < 0.6)
    if rng.random() < 0.3:
        lim["PAD"] = {
            pick(rng, ["rho", "P", "vx", "vz"]): (
                float(pick(rng, [-np.inf, 0.0, 0.7, 0.9])),
                float(pick(rng, [np.inf, 1.6, 1.3])),
            )
        }
        if rng.random() < 0.5:
            lim["PAD"]["P"] = (0.3, np.inf)
    lim["convex"] = bool(ndim < 3 and rng.random() < 0.35)
    lim.update(over)
    return lim


def rand_cfg(
    rng,
    dims=None,
    pmax=8,
    cells=4000,
    bcs=("periodic", "free", "outflow", "reflective"),
    riemann=("llf", "hllc"),
    limiting=None,
    passives=None,
    nmin=4,
    p=None,
    extra=6,
    one_sided=True,
    few=0.1,
    long=0.06,
    narrow=0.06,
):
    """
    limiting: None random, False off, True on
    few: probability of a direction with fewer cells than its ghost layers
    long: probability of a direction with many more
    narrow: probability that a direction left out is thinner than the cells
    """
    dims = pick(rng, ALL_DIMS) if dims is None else dims
    nd = len(dims)
    act = [ref.AX[c] for c in dims]
    if p is None:
        top = {1: pmax, 2: pmax, 3: min(pmax, 5)}[nd]
        base = int(rng.integers(0, top + 1))
        p = [0, 0, 0]
        for d in act:
            p[d] = base if rng.random() < 0.6 else int(rng.integers(0, top + 1))
        if nd == 3 and pmax > top and rng.random() < 0.2:
            # one direction of a high degree, the others low
            q = int(rng.integers(top + 1, pmax + 1))
            p = [int(rng.integers(0, 3)) for _ in range(3)]
            p[int(rng.integers(3))] = q
    p = tuple(p)
    needs = need(p)
    n = [1, 1, 1]
    budget = cells ** (1 / nd)
    for d in act:
        lo = max(needs[d], nmin)
        hi = max(lo + 1, int(min(budget, lo + extra)))
        n[d] = int(rng.integers(lo, hi + 1))
    thin = None
    if few and rng.random() < few and set(bcs) & {"periodic", "free"}:
        thin = act[int(rng.integers(nd))]
        n[thin] = int(rng.integers(1 if p[thin] else 2, needs[thin]))
    if thin is None and long and rng.random() < long:
        # one direction much longer than any stencil
        d = act[int(rng.integers(nd))]
        rest = int(np.prod([n[e] for e in act if e != d]))
        n[d] = max(n[d], min(int(rng.integers(40, 200)), cells // rest))
    n = tuple(n)
    dom = []
    for d in range(3):
        if d in act and rng.random() < 0.6:
            a = float(rng.uniform(-2, 2))
            dom.append((a, a + float(rng.uniform(0.4, 3.0))))
        else:
            dom.append((0.0, 1.0))
    # inactive directions are mostly at least as wide as the active cells, so that
    # the smallest cell width is that of an active direction
    for d in range(3):
        if d not in act:
            dom[d] = (0.0, 1.0)
            hmin = min((dom[e][1] - dom[e][0]) / n[e] for e in act)
            if hmin > 1.0:
                dom[d] = (0.0, 2.0 * hmin)
            if narrow and rng.random() < narrow:
                # a direction that is left out, thinner than the cells
                a = float(rng.uniform(-1, 1))
                dom[d] = (a, a + hmin * float(rng.uniform(0.2, 0.9)))
    bc = {}
    for d in range(3):
        if d not in act:
            bc["xyz"[d]] = ({"type": "periodic"}, {"type": "periodic"})
            continue
        l = pick(rng, list(bcs) if d != thin else [b for b in bcs if b in ("periodic", "free")])
        r = l
        if d == thin:
            bc["xyz"[d]] = ({"type": l}, {"type": r})
            continue
        if one_sided and l != "periodic" and rng.random() < 0.5:
            rest = [b for b in bcs if b != "periodic"]
            r = pick(rng, rest)
        bc["xyz"[d]] = ({"type": l}, {"type": r})
    if limiting is None:
        limiting = bool(rng.random() < 0.5) and max(p) > 0
    if passives is None:
        passives = int(pick(rng, [0, 0, 1, 2, 3])) if rng.random() < 0.94 else int(rng.integers(4, 13))
    cfg = dict(
        dims=dims,
        n=n,
        p=p,
        dom=tuple(dom),
        gamma=float(pick(rng, [5 / 3, 1.4, 1.1, 2.0, 7 / 5, 4 / 3])),
        riemann=pick(rng, list(riemann)),
        bc=bc,
        csq_floor=1e-10,
        CFL=float(pick(rng, [0.1, 0.3, 0.5, 0.8])),
        fixed_dt=None,
        lim=rand_lim(rng, nd) if limiting else None,
        passives=[f"dye{i}" for i in range(passives)],
    )
    return cfg


def prescribe(rng, cfg, rate=9.0):
    """
    give one side of one active direction prescribed values that vary strongly in
    time (all rows by the same factor, so the ghost states stay physical)
    """
    act = ref.active(cfg)
    d = act[int(rng.integers(len(act)))]
    c = "xyz"[d]
    w = np.array([1.0, *rng.uniform(-0.4, 0.4, 3), 1.0] + list(rng.uniform(0.2, 1, len(cfg["passives"]))))
    base = ref.cons(w, cfg["gamma"]).reshape(-1, 1, 1, 1)
    ph = rng.uniform(0, 6, 4)

    def val(x, y, z, t):
        g = 0.08 * sum(np.sin(q + ph[e]) for e, q in enumerate((x, y, z)))
        return base * (1 + g + 0.5 * np.sin(rate * t + ph[3]))[None]

    sides = list(cfg["bc"][c])
    if sides[0]["type"] == "periodic":
        sides = [{"type": "free"}, {"type": "free"}]
    sides[int(rng.integers(2))] = {"type": "dirichlet", "value": val}
    cfg["bc"] = dict(cfg["bc"], **{c: tuple(sides)})
    return d


def describe(cfg):
    """JSON-able summary of a configuration for the evidence file"""
    d = {k: v for k, v in cfg.items() if k not in ("bc", "lim")}
    d["bc"] = {k: [s["type"] for s in v] for k, v in cfg["bc"].items()}
    if cfg["lim"]:
        d["lim"] = {k: str(v) if k == "PAD" else v for k, v in cfg["lim"].items()}
    d["dom"] = [[round(a, 4), round(b, 4)] for a, b in cfg["dom"]]
    return d


def key(cfg):
    lim = cfg["lim"]
    return (
        cfg["dims"],
        cfg["p"],
        cfg["riemann"],
        "/".join(s["type"][:4] for v in cfg["bc"].values() for s in v),
        None if lim is None else (lim["slope_limiter"], lim["NAD_mode"], lim["NAD_range"], lim["convex"], lim["SED"]),
        len(cfg["passives"]),
    )


# --------------------------------------------------------------------------
# states


def mesh(cfg):
    return np.meshgrid(
        *[ref.centres(cfg["n"][d], cfg["dom"][d]) for d in range(3)], indexing="ij"
    )


def phases(cfg):
    """coordinates scaled to [0, 2 pi) over the domain"""
    return [
        2 * np.pi * (c - cfg["dom"][d][0]) / (cfg["dom"][d][1] - cfg["dom"][d][0])
        for d, c in enumerate(mesh(cfg))
    ]


def smooth_field(rng, cfg, amp=0.3, modes=3, kmax=2):
    act = ref.active(cfg)
    ph = phases(cfg)
    out = np.zeros(cfg["n"])
    for _ in range(modes):
        k = [int(rng.integers(0, kmax + 1)) if d in act else 0 for d in range(3)]
        if not any(k):
            k[act[int(rng.integers(len(act)))]] = 1
        arg = sum(k[d] * ph[d] for d in act) + rng.uniform(0, 2 * np.pi)
        out = out + np.sin(arg) / modes
    return amp * out


def rand_prims(rng, cfg, style=None, mach=0.6, zero_transverse=False):
    """
    random primitive cell values (rho, v, P, dyes), everything varying everywhere
    style: "smooth", "noisy", "jumps", "strong"
    """
    style = pick(rng, ["smooth", "noisy", "jumps"]) if style is None else style
    nv = 5 + len(cfg["passives"])
    n = cfg["n"]
    w = np.empty((nv,) + n)
    w[0] = 1.0 + smooth_field(rng, cfg, 0.35)
    w[4] = 1.0 + smooth_field(rng, cfg, 0.35)
    for i in (1, 2, 3):
        w[i] = mach * (rng.uniform(-0.7, 0.7) + smooth_field(rng, cfg, 0.5))
        if zero_transverse and (i - 1) not in ref.active(cfg):
            w[i] = 0.0
    for i in range(5, nv):
        w[i] = rng.uniform(0.1, 1) + smooth_field(rng, cfg, 0.3)
    if style == "noisy":
        w = w * (1 + 0.04 * rng.uniform(-1, 1, size=w.shape))
    elif style in ("jumps", "strong"):
        ratio = 1.35 if style == "jumps" else 4.0
        act = ref.active(cfg)
        X = mesh(cfg)
        mask = np.zeros(n, bool)
        for _ in range(2):
            d = act[int(rng.integers(len(act)))]
            a, b = cfg["dom"][d]
            lo, hi = np.sort(rng.uniform(a, b, 2))
            mask ^= (X[d] > lo) & (X[d] < hi)
        f = float(rng.uniform(1.05, ratio))
        w[0] = np.where(mask, f * w[0], w[0])
        w[4] = np.where(mask, f * w[4], w[4])
        for i in (1, 2, 3):
            w[i] = np.where(mask, -w[i], w[i])
        for i in range(5, nv):
            w[i] = np.where(mask, 1.0 + w[i], w[i])
    return w


def rand_state(rng, cfg, **kw):
    return ref.cons(rand_prims(rng, cfg, **kw), cfg["gamma"])


# --------------------------------------------------------------------------
# bridge to the code under test


def public_bc(cfg):
    from fvhoe.boundary_conditions import BoundaryCondition

    kw = {}
    names = {"dmr": "special-case-double-mach-reflection-y=0", "none": None}
    for c, (l, r) in cfg["bc"].items():
        kw[c] = (names.get(l["type"], l["type"]), names.get(r["type"], r["type"]))
        if l["type"] == "dirichlet" or r["type"] == "dirichlet":
            kw[c + "_value"] = (l.get("value"), r.get("value"))
    return BoundaryCondition(**kw)


_IC = {}


def raw_ic(core):
    """InitialCondition whose function returns core(x, y, z) (5 leading rows)"""
    from fvhoe.initial_conditions import InitialCondition

    if "cls" not in _IC:

        class Raw(InitialCondition):
            def base_ic(self, fn):
                def f(x, y, z):
                    return fn(x, y, z)

                return f

        _IC["cls"] = Raw
    return _IC["cls"](core)


def solver_kwargs(cfg):
    kw = dict(
        nx=cfg["n"][0],
        ny=cfg["n"][1],
        nz=cfg["n"][2],
        px=cfg["p"][0],
        py=cfg["p"][1],
        pz=cfg["p"][2],
        x=cfg["dom"][0],
        y=cfg["dom"][1],
        z=cfg["dom"][2],
        CFL=cfg["CFL"],
        fixed_dt=cfg["fixed_dt"],
        gamma=cfg["gamma"],
        riemann_solver=cfg["riemann"],
        csq_floor=cfg["csq_floor"],
        progress_bar=False,
    )
    if any(s["type"] != "periodic" for v in cfg["bc"].values() for s in v):
        kw["bc"] = public_bc(cfg)
    if cfg["lim"] is not None:
        kw["a_posteriori_slope_limiting"] = True
        for k, v in cfg["lim"].items():
            kw[k] = v
    return kw


def build(cfg, u0=None, cls=None, **over):
    """
    real solver for cfg. u0: conservative cell averages (rows 5.. are dyes)
    """
    from fvhoe.solver import EulerSolver

    cls = EulerSolver if cls is None else cls
    kw = solver_kwargs(cfg)
    if u0 is not None:
        u0 = np.array(u0, dtype=float)
        kw.update(
            w0=raw_ic(lambda x, y, z: u0[:5]), conservative_ic=True, fv_ic=True
        )
        if cfg["passives"]:
            kw["w0_passives"] = {
                name: (lambda x, y, z, i=i: u0[5 + i])
                for i, name in enumerate(cfg["passives"])
            }
    kw.update(over)
    return cls(**kw)


def advance(solver, integrator, **kw):
    """run through the public entry point of the named integrator"""
    getattr(solver, integrator)(**kw)


def budget(solver, evals):
    """bounded progress: at most `evals` right-hand sides may be evaluated"""
    inner = solver.f
    count = {"n": 0}

    def f(t, u):
        count["n"] += 1
        if count["n"] > evals:
            raise TooManySteps(f"more than {evals} evaluations of the right-hand side")
        return inner(t, u)

    solver.f = f
    return count


def state(solver):
    return np.array(solver.am("u"), dtype=float)


def finite_or_stop(*arrs):
    for a in arrs:
        if not np.all(np.isfinite(a)):
            raise StopCase("the state left the finite range")


# --------------------------------------------------------------------------
# confirmation of metamorphic mismatches


def confirm(mon, attempt, tries=3):
    """
    attempt(k, m) compares two executions, recording into monitor m; k = 0 is the
    drawn case, k > 0 the same case with slightly perturbed data.  A yes/no
    decision of the scheme (a troubled cell, a smooth extremum) that happens to
    lie within rounding of its threshold may flip between two equivalent
    executions; such a tie does not survive the perturbation, a defect does.
    """
    from vmon.core import Monitor

    first = None
    for k in range(tries):
        m = Monitor()
        m.scratch, m.tier = mon.scratch, mon.tier
        attempt(k, m)
        for name, v in m.events.items():
            mon.event(name, v)
        mon.distinct |= m.distinct
        if m.sample is not None:
            mon.sample = m.sample
        if not m.violations:
            for name, v in m.margins.items():
                mon.margins[name] = max(mon.margins.get(name, 0.0), v)
            if k:
                mon.event("mismatches not confirmed (rounding ties)")
            return True
        first = first or m
    mon.violations.extend(first.violations[: 5 - len(mon.violations)])
    return False


def nudge(rng_seed, k, w):
    """primitive data of the k-th attempt: relative perturbation of 1e-6"""
    if k == 0:
        return w
    r = np.random.default_rng([int(rng_seed), k])
    return w * (1 + 1e-6 * r.uniform(-1, 1, size=w.shape))


def groups(u):
    """scale of each row: the momenta share one scale"""
    s = np.max(np.abs(u), axis=(1, 2, 3))
    s[1:4] = max(np.max(s[1:4]), 1e-3 * np.sqrt(abs(s[0] * s[4])))
    return np.maximum(s, 1e-300).reshape(-1, 1, 1, 1)
