"""C21 reproducibility, unset memory, independence, no modified inputs"""

import hashlib
import json
import os
import subprocess
import sys
import threading

import numpy as np

from vmon import ref, work
from vmon.core import REPO, VERIF, registry

PID = "C21"
LEVEL = "exploration"
SCALE = 2
RULE = (
    "random configurations run (a) with fresh allocations filled with different poison values, "
    "(b) in fresh processes with perturbed malloc and hash seeds, (c) repeatedly, interleaved and "
    "in threads with other solvers sharing user objects, (d) with extra evaluations of the rate of "
    "change; all results compared bit for bit, user arrays digested before and after. distinct by configuration"
)
ASSUMPTIONS = [
    "unset memory is what numpy's empty/empty_like/pad allocate (poisoned in-process) and what malloc hands "
    "out (perturbed by glibc in the subprocess runs)",
]
REQUIRE = {"poisoned runs": 350, "poisoned allocations": 4000, "interleaved runs": 120, "runs in fresh processes": 48,
           "runs in threads": 40, "user arrays digested": 280, "functions called with guarded inputs": 250,
           "extra evaluations": 200}
KINDS, kind = registry()


def h(*arrs):
    d = hashlib.sha256()
    for a in arrs:
        a = np.asarray(a)
        d.update(str((a.shape, a.dtype.kind)).encode())
        d.update(np.ascontiguousarray(a, dtype=float).tobytes())
    return d.hexdigest()


def outcome(S, trouble=True):
    """everything a run produced"""
    parts = [work.state(S), S.timestamps, S.snapshot_times]
    for s in S.snapshots:
        for k in sorted(s):
            if trouble or k in ("x", "y", "z", "t", "w"):
                parts.append(s[k])
    return parts


def same(a, b):
    return len(a) == len(b) and all(np.shape(x) == np.shape(y) and np.array_equal(np.asarray(x), np.asarray(y), equal_nan=True) for x, y in zip(a, b))


def first_difference(a, b):
    if len(a) != len(b):
        return "different number of records"
    for i, (x, y) in enumerate(zip(a, b)):
        x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
        if x.shape != y.shape:
            return f"record {i}: shapes {x.shape} {y.shape}"
        if not np.array_equal(x, y, equal_nan=True):
            e = np.abs(x - y)
            return f"record {i}: largest difference {np.nanmax(e) if np.isfinite(e).any() else np.nan}, {int((~(x == y)).sum())} entries"
    return "none"


def prescribed(rng, cfg):
    act = ref.active(cfg)
    c = "xyz"[act[int(rng.integers(len(act)))]]
    base = ref.cons(np.array([1.0, *rng.uniform(-0.3, 0.3, 3), 1.0] + [0.5] * len(cfg["passives"])), cfg["gamma"])
    if rng.random() < 0.5:
        val = base
    else:
        def val(x, y, z, t):
            return base.reshape(-1, 1, 1, 1) * (1 + 0.1 * np.sin(x + y - z + 40 * t))[None]
    sides = [{"type": "free"}, {"type": "free"}]
    sides[int(rng.integers(2))] = {"type": "dirichlet", "value": val}
    cfg["bc"][c] = tuple(sides)
    return base


def draw(rng, i, cells=500, pmax=8):
    cfg = work.rand_cfg(rng, cells=cells, pmax=pmax)
    if i % 5 == 0:
        prescribed(rng, cfg)
    if i % 11 == 0:
        cfg["riemann"] = "advection_upwind"
    if rng.random() < 0.5:  # scalars of the same names in another order
        cfg["passives"] = [cfg["passives"][k] for k in rng.permutation(len(cfg["passives"]))]
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps"]))
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    dt = ref.timestep(cfg, u, t=0.0)
    T = float(dt * rng.uniform(1.2, 3))
    kw = dict(T=T)
    if rng.random() < 0.5:
        kw["downbeats"] = [float(x) for x in rng.uniform(0, T, 2)]
    fv = bool(rng.random() < 0.6)
    return cfg, u, name, kw, fv


def go(cfg, u, name, kw, fv, **over):
    S = work.build(cfg, u, snapshots_as_fv_averages=fv, **over)
    work.budget(S, 300)
    getattr(S, name)(**kw)
    return S


class Poison:
    """numpy's unset allocations come back filled with a chosen value"""

    def __init__(self, value):
        self.value = value
        self.count = 0

    def __enter__(self):
        self.orig = np.empty, np.empty_like
        e, el = self.orig

        def fill(a):
            self.count += 1
            if a.dtype.kind == "f":
                a.fill(self.value)
            elif a.dtype.kind == "b":
                a.fill(bool(self.count % 2) if self.value == self.value else True)
            elif a.dtype.kind in "iu":
                a.fill(77)
            return a

        np.empty = lambda *a, **k: fill(e(*a, **k))
        np.empty_like = lambda *a, **k: fill(el(*a, **k))
        return self

    def __exit__(self, *exc):
        np.empty, np.empty_like = self.orig


POISONS = [0.0, np.nan, 1e300, -7.25, np.inf]


@kind("poisoned memory", 150, 3000)
def poisoned(rng, mon, i):
    cfg, u, name, kw, fv = draw(rng, i)
    want = None
    wit = dict(cfg=str(work.describe(cfg)), integrator=name)
    order = [0.0] + [POISONS[1 + int(k)] for k in rng.permutation(4)[:2]]
    for v in order:
        with Poison(v) as P:
            got = outcome(go(cfg, u, name, kw, fv))
        mon.event("poisoned runs")
        mon.event("poisoned allocations", P.count)
        if want is None:
            want = got
            work.finite_or_stop(got[0])
        mon.check(same(got, want), "the result depends on memory that was never written", poison=str(v),
                  difference=first_difference(got, want), **wit)
    plain = outcome(go(cfg, u, name, kw, fv))
    mon.check(same(plain, want), "the result depends on memory that was never written", poison="none",
              difference=first_difference(plain, want), **wit)
    mon.see("poison", name, fv, *work.key(cfg))
    mon.sample = dict(cfg=work.describe(cfg), integrator=name, poisons=[str(v) for v in order])


@kind("poisoned initial conditions", 48, 600)
def poisoned_ic(rng, mon, i):
    """built-in initial conditions, averaged by the solver, under poison"""
    import fvhoe.initial_conditions as ic

    cls = [ic.Sinus, ic.Square, ic.SlottedDisk, ic.Shock1D, ic.DoubleShock1D, ic.ShuOsher1D, ic.KelvinHelmholtz2D,
           ic.DoubleMachReflection2D]
    cls += [getattr(ic, n) for n in ("ShockTube", "SedovBlast", "AthenaBlast") if hasattr(ic, n)]
    C = cls[i % len(cls)]
    outs = []
    for v in [0.0] + [POISONS[1 + int(k)] for k in rng.permutation(4)[:2]]:
        with Poison(v) as P:
            from fvhoe.solver import EulerSolver

            try:
                S = EulerSolver(w0=C(), nx=16, ny=16, px=int(i % 3), py=int(i % 3), progress_bar=False, CFL=0.3)
            except TypeError:
                mon.event("initial conditions that need parameters")
                return
            S.euler(n=1)
        mon.event("poisoned runs")
        mon.event("poisoned allocations", P.count)
        outs.append(outcome(S))
    for o in outs[1:]:
        mon.check(same(o, outs[0]), "an initial condition depends on memory that was never written", ic=C.__name__,
                  difference=first_difference(o, outs[0]))
    mon.see("ic", C.__name__, i % 3)


# --------------------------------------------------------------------------


def shared_objects(rng, cfg, u):
    """user objects handed in: initial condition, scalars, boundaries, options"""
    arrays = dict(u0=np.array(u))
    kw = work.solver_kwargs(cfg)
    kw["w0"] = work.raw_ic(lambda x, y, z: arrays["u0"][:5])
    kw["conservative_ic"] = kw["fv_ic"] = True
    if cfg["passives"]:
        kw["w0_passives"] = {nm: (lambda x, y, z, k=k: arrays["u0"][5 + k]) for k, nm in enumerate(cfg["passives"])}
    return kw, arrays


@kind("interleaved solvers", 60, 1500)
def interleaved(rng, mon, i):
    """several solvers advanced step by step in turns vs. each one alone"""
    from fvhoe.solver import EulerSolver

    m = int(rng.integers(2, 4))
    cfg, u, _, _, fv = draw(rng, i, cells=400, pmax=5)
    cases = [(cfg, u, fv)]
    for k in range(1, m):
        if rng.random() < 0.5:
            c2, u2, _, _, fv2 = draw(rng, i + k, cells=400, pmax=5)
        else:
            # same configuration and shared user objects, other data
            c2, u2, fv2 = cfg, u * (1 + 0.05 * rng.uniform(-1, 1, u.shape)), not fv
        cases.append((c2, u2, fv2))
    names = [work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4"]) for _ in cases]
    order = list(rng.permutation(np.repeat(np.arange(len(cases)), 3)))
    alone = []
    for (c, v, f), nm in zip(cases, names):
        S = work.build(c, v, snapshots_as_fv_averages=f)
        for _ in range(3):
            getattr(S, nm)(n=1)
        alone.append(outcome(S))
        mon.event("runs alone")
    # shared boundary objects and option dictionaries for equal configurations
    share = {}
    Ss = []
    for c, v, f in cases:
        kw = share.get(id(c))
        if kw is None:
            kw = work.solver_kwargs(c)
            share[id(c)] = kw
        extra = dict(w0=work.raw_ic(lambda x, y, z, v=v: v[:5]), conservative_ic=True, fv_ic=True, snapshots_as_fv_averages=f)
        if c["passives"]:
            extra["w0_passives"] = {nm: (lambda x, y, z, v=v, k=k: v[5 + k]) for k, nm in enumerate(c["passives"])}
        Ss.append(EulerSolver(**{**kw, **extra}))
    for k in order:
        getattr(Ss[k], names[k])(n=1)
        mon.event("interleaved steps")
    wit = dict(order=[int(k) for k in order], integrators=names, cfgs=str([work.describe(c) for c, _, _ in cases]))
    for k, S in enumerate(Ss):
        mon.event("interleaved runs")
        got = outcome(S)
        mon.check(same(got, alone[k]), "a solver's result depends on other solvers", solver=k,
                  difference=first_difference(got, alone[k]), **wit)
    mon.see("interleave", m, *names, *work.key(cfg))


@kind("repeated runs", 60, 1500)
def repeated(rng, mon, i):
    """the same problem again, after other problems, in the same process"""
    cfg, u, name, kw, fv = draw(rng, i, cells=400)
    first = outcome(go(cfg, u, name, kw, fv))
    for _ in range(2):
        c2, u2, n2, k2, f2 = draw(rng, i, cells=300, pmax=5)
        go(c2, u2, n2, k2, f2)
    if i % 3 == 0:
        # a run that is abandoned half-way
        S = work.build(cfg, u)
        work.budget(S, 2)
        try:
            getattr(S, name)(**kw)
        except Exception:
            mon.event("abandoned runs")
    again = outcome(go(cfg, u, name, kw, fv))
    mon.event("repeated runs")
    mon.check(same(again, first), "the same problem gives another result when run again",
              difference=first_difference(again, first), cfg=str(work.describe(cfg)), integrator=name)
    mon.see("repeat", name, *work.key(cfg))


@kind("threads", 16, 300)
def threads(rng, mon, i):
    cases = [draw(rng, i + k, cells=300, pmax=4) for k in range(3)]
    alone = [outcome(go(*c)) for c in cases]
    Ss = [work.build(c[0], c[1], snapshots_as_fv_averages=c[4]) for c in cases]
    errs = []

    def body(S, c):
        try:
            getattr(S, c[2])(**c[3])
        except Exception as e:
            errs.append(repr(e))

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        ts = [threading.Thread(target=body, args=(S, c)) for S, c in zip(Ss, cases)]
        [t.start() for t in ts]
        [t.join() for t in ts]
    finally:
        sys.setswitchinterval(old)
    mon.check(not errs, "a run failed next to runs in other threads", errors=str(errs))
    for k, S in enumerate(Ss):
        mon.event("runs in threads")
        got = outcome(S)
        mon.check(same(got, alone[k]), "a solver's result depends on solvers in other threads",
                  difference=first_difference(got, alone[k]), cfg=str(work.describe(cases[k][0])))
    mon.see("threads", *[c[2] for c in cases], *work.key(cases[0][0]))


# --------------------------------------------------------------------------
# fresh processes


def sibling(rng, cfg, u):
    """the same problem except for one aspect"""
    cfg = dict(cfg)
    what = work.pick(rng, ["gamma", "domain", "solver", "limiter", "scalars", "scalars", "degree", "boundary", "floor", "CFL"])
    if what == "gamma":
        cfg["gamma"] *= 1.1
    elif what == "domain":
        cfg["dom"] = tuple((a, b + 0.25 * (b - a)) if "xyz"[d] in cfg["dims"] else (a, b) for d, (a, b) in enumerate(cfg["dom"]))
    elif what == "solver":
        cfg["riemann"] = {"llf": "hllc"}.get(cfg["riemann"], "llf")
    elif what == "limiter":
        cfg["lim"] = work.rand_lim(rng, len(cfg["dims"])) if not cfg["lim"] or rng.random() < 0.6 else None
    elif what == "scalars":
        if len(cfg["passives"]) < 2 and not any(s["type"] == "dirichlet" for c in "xyz" for s in cfg["bc"][c]):
            cfg["passives"] = ["ink", "dye0"]
            u = np.concatenate([u[:5], u[:1] * 0.3, u[:1] * 0.7])
        else:
            cfg["passives"] = list(reversed(cfg["passives"]))
    elif what == "degree":
        cfg["p"] = tuple(k - 1 if k > 1 else k for k in cfg["p"])
    elif what == "boundary":
        c = "xyz".index(cfg["dims"][0])
        cfg["bc"] = dict(cfg["bc"])
        cfg["bc"]["xyz"[c]] = ({"type": "free"}, {"type": "free"})
    elif what == "floor":
        cfg["csq_floor"] = 1.3
    else:
        cfg["CFL"] *= 0.9
    return cfg, u


def child_main(seed, first, count, order=None):
    """entry point of the subprocess: digest of each run, each problem followed by a sibling of it"""
    out = {}
    for i in order or range(first, first + count):
        rng = np.random.default_rng([seed, i // 2, 21])
        cfg, u, name, kw, fv = draw(rng, i // 2, cells=600)
        if i % 2:
            cfg, u = sibling(rng, cfg, u)
        try:
            S = go(cfg, u, name, kw, fv)
            # and each variable as picked by its name
            out[i] = h(*outcome(S), *[S.snapshots[-1]["w"][S.hydro_state(v)] for v in ("rho", "vx", "vy", "vz", "P", *cfg["passives"])])
        except Exception as e:
            out[i] = f"{type(e).__name__}"
    return [out[i] for i in sorted(out)]


@kind("fresh processes", 4, 24)
def processes(rng, mon, i):
    seed = int(rng.integers(2**31))
    count = 16 if mon.tier == "quick" else 60
    want = child_main(seed, 0, count)
    code = (
        "import sys, json; sys.path.insert(0, %r); from vmon import core; core.prepare_environment(%r);"
        "import numpy as np; np.seterr(all='ignore'); from vmon.props import c21; import contextlib, io\n"
        "with contextlib.redirect_stdout(io.StringIO()): r = c21.child_main(%d, 0, %d, ORDER)\n"
        "print('RESULT ' + json.dumps(r))" % (VERIF, mon.scratch, seed, count)
    )
    mixed = [int(k) for k in rng.permutation(count)]
    procs = []
    # in the opposite order and in a random one: every problem is met before and after its sibling
    for perturb, hashseed, order in (("85", "1", list(range(count))[::-1]), ("170", "4242", mixed)):
        env = dict(os.environ, MALLOC_PERTURB_=perturb, MALLOC_MMAP_THRESHOLD_="1000000000", MALLOC_TOP_PAD_="1000000",
                   PYTHONHASHSEED=hashseed, VERIF_REPO=REPO, PYTHONDONTWRITEBYTECODE="1")
        procs.append((perturb, hashseed, subprocess.Popen([sys.executable, "-c", code.replace("ORDER", str(order))], env=env, stdout=subprocess.PIPE,
                                                          stderr=subprocess.PIPE, text=True, cwd=mon.scratch)))
    for perturb, hashseed, p in procs:
        out, err = p.communicate(timeout=600)
        line = [l for l in out.splitlines() if l.startswith("RESULT ")]
        if not line:
            raise RuntimeError("subprocess failed: " + err[-2000:])
        got = json.loads(line[0][7:])
        for k, (a, b) in enumerate(zip(got, want)):
            mon.event("runs in fresh processes")
            mon.check(a == b, "another process gives another result", case=k, seed=seed, malloc_perturb=perturb, hash_seed=hashseed, got=a[:12], want=b[:12])
            mon.see("process", seed, k, perturb)


# --------------------------------------------------------------------------
# inputs


@kind("user arrays", 110, 2000)
def inputs(rng, mon, i):
    """everything handed in is digested before and after a run"""
    from fvhoe.solver import EulerSolver
    from fvhoe.boundary_conditions import BoundaryCondition

    cfg, u, name, kw, fv = draw(rng, 1, cells=400, pmax=5)
    guarded = {"initial averages": np.array(u)}
    for k, nm in enumerate(cfg["passives"]):
        guarded["scalar " + nm] = np.array(u[5 + k])
    args = work.solver_kwargs(cfg)
    args["w0"] = work.raw_ic(lambda x, y, z: guarded["initial averages"][:5])
    args["conservative_ic"] = args["fv_ic"] = True
    if cfg["passives"]:
        args["w0_passives"] = {nm: (lambda x, y, z, nm=nm: guarded["scalar " + nm]) for nm in cfg["passives"]}
    if i % 3 == 0:
        # prescribed constants and arrays returned by boundary functions
        act = ref.active(cfg)
        c = "xyz"[act[int(rng.integers(len(act)))]]
        const = ref.cons(np.array([1.0, 0.1, -0.2, 0.05, 1.0] + [0.5] * len(cfg["passives"])), cfg["gamma"])
        guarded["prescribed constant"] = const
        cache = {}

        def val(x, y, z, t):
            key = x.shape
            if key not in cache:
                a = const.reshape(-1, 1, 1, 1) * (1 + 0 * x[None])
                cache[key] = a
                guarded[f"prescribed array {key}"] = a
                before[f"prescribed array {key}"] = h(a)
            return cache[key]

        lo = const if rng.random() < 0.5 else val
        args["bc"] = BoundaryCondition(**{c: ("dirichlet", "free"), c + "_value": (lo, None)})
    downbeats = np.array(sorted(rng.uniform(0, kw["T"], 3))[::-1])
    guarded["output times"] = downbeats
    pad = {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
    nadv = ["rho", "P"]
    args.update(PAD=pad, NAD_vars=nadv)
    dom = [list(d) for d in cfg["dom"]]
    args.update(x=dom[0], y=dom[1], z=dom[2])
    before = {k: h(a) for k, a in guarded.items()}
    names0 = list(args.get("w0_passives", {}))
    S = EulerSolver(**args, snapshots_as_fv_averages=fv)
    work.budget(S, 300)
    lst = [float(x) for x in downbeats]
    getattr(S, name)(T=kw["T"], downbeats=downbeats if i % 2 else lst)
    wit = dict(cfg=str(work.describe(cfg)), integrator=name)
    for k, a in guarded.items():
        mon.event("user arrays digested")
        mon.check(h(a) == before[k], "an array handed in by the user was modified", array=k, **wit)
    mon.check(lst == [float(x) for x in downbeats], "the list of output times was modified", **wit)
    mon.check(pad == {"rho": (0.0, np.inf), "P": (0.0, np.inf)} and nadv == ["rho", "P"] and dom == [list(d) for d in cfg["dom"]]
              and list(args.get("w0_passives", {})) == names0, "an option handed in by the user was modified", **wit)
    mon.see("inputs", name, i % 3 == 0, *work.key(cfg))


@kind("function inputs", 280, 5000)
def function_inputs(rng, mon, i):
    """public functions leave their array arguments alone and return the same again"""
    from fvhoe import fv, hydro, riemann_solvers, slope_limiting, smooth_extrema_detection
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.array_management import ArrayManager

    npass = int(rng.integers(0, 3))
    hs = hydro.HydroState(passive_scalars=tuple(f"s{k}" for k in range(npass)))
    n = tuple(int(x) for x in rng.integers(6, 12, 3))
    w = rng.uniform(0.5, 1.5, (5 + npass,) + n)
    w2 = rng.uniform(0.5, 1.5, (5 + npass,) + n)
    dim = work.pick(rng, ["x", "y", "z"])
    ax = 1 + "xyz".index(dim)
    p = int(rng.integers(0, 5))
    g = 1.4
    tr = rng.random(n) < 0.2
    X = np.meshgrid(*[np.linspace(0, 1, k) for k in n], indexing="ij")
    rs = work.pick(rng, ["llf", "hllc", "advection_upwind"])
    kinds2 = work.pick(rng, ["periodic", "free", "outflow", "reflective"])

    def pad(u):
        # widths of a mesh that has no prescribed boundary: no coordinates needed
        am = ArrayManager()
        bc = BoundaryCondition(x=(kinds2, kinds2), y=("periodic",) * 2, z=("free", "outflow"), array_manager=am, hydro_state=hs)
        return bc.apply(u, gw=(2, 3, 1), t=0.0)

    calls = {
        "compute_primitives": (lambda a: hydro.compute_primitives(hs, a, gamma=g), [w]),
        "compute_conservatives": (lambda a: hydro.compute_conservatives(hs, a, gamma=g), [w]),
        "conservative_interpolation": (lambda a: fv.conservative_interpolation(a, p=p, axis=ax, pos="l"), [w]),
        "transverse_reconstruction": (lambda a: fv.transverse_reconstruction(a, p=p, axis=ax), [w]),
        "interpolate_cell_centers": (lambda a: fv.interpolate_cell_centers(a, p=(p, 0, p)), [w]),
        "interpolate_fv_averages": (lambda a: fv.interpolate_fv_averages(a, p=(0, p, p)), [w]),
        "fv_average": (lambda x, y, z: fv.fv_average(lambda x, y, z: np.asarray([x * y + z]), x, y, z, h=(0.1, 0.1, 0.1), p=(p, 1, 2)), X),
        rs: (lambda a, b: getattr(riemann_solvers, rs)(hs=hs, riemann_problem=(a, b), gamma=g, dim=dim, csq_floor=1e-10), [w, w2]),
        "minmod": (lambda a, b: slope_limiting.minmod(a, b), [w - 1, w2 - 1]),
        "moncen": (lambda a, b: slope_limiting.moncen(a, b), [w - 1, w2 - 1]),
        "MUSCL_interpolations": (lambda a: np.stack(slope_limiting.MUSCL_interpolations(a, axis=ax, limiter="moncen")), [w]),
        "detect_troubled_cells": (lambda a, b: np.stack([np.asarray(o, float) for o in slope_limiting.detect_troubled_cells(
            u=a, u_candidate=b, dims="xyz", NAD_eps=1e-2, mode="local", range_type="relative", NAD_vars=None,
            PAD_bounds={"rho": (0.6, 1.4)}, SED=True, SED_eps=1e-10, xp="numpy")]), [np.pad(w[:5], [(0, 0)] + [(3, 3)] * 3, mode="wrap"), np.pad(w2[:5], [(0, 0)] + [(3, 3)] * 3, mode="wrap")]),
        "broadcast_to_troubled_interfaces": (lambda a: np.concatenate([np.ravel(o) for o in slope_limiting.broadcast_to_troubled_interfaces(
            a, dims="xyz", convex=False, periodic_x=True, periodic_y=False, periodic_z=True, xp="numpy")]), [tr]),
        "boundary apply": (pad, [w]),
    }
    nm = sorted(calls)[i % len(calls)]
    fn, args = calls[nm]
    args = [np.array(a) for a in args]
    before = [h(a) for a in args]
    out1 = np.array(fn(*args))
    mon.event("functions called with guarded inputs")
    mon.check([h(a) for a in args] == before, "a function modified its input", function=nm)
    with Poison(work.pick(rng, POISONS)) as P:
        out2 = np.array(fn(*args))
    mon.event("poisoned allocations", P.count)
    mon.check(np.array_equal(out1, out2, equal_nan=True), "a function returns something else for the same input", function=nm)
    mon.see(nm, npass, dim, p)


@kind("pure rate of change", 80, 1500)
def pure(rng, mon, i):
    """evaluating the rate of change has no side effect on the run"""
    cfg, u, name, kw, fv = draw(rng, i, cells=400, pmax=5)
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4"])
    A = go(cfg, u, name, kw, fv)
    B = work.build(cfg, u, snapshots_as_fv_averages=fv)
    wit = dict(cfg=str(work.describe(cfg)), integrator=name)
    others = [np.array(u) * (1 + 0.02 * rng.uniform(-1, 1, np.shape(u))) for _ in range(2)]

    def poke():
        u0, t0, n0, m0 = work.state(B), B.t, len(B.snapshots), B.step_count
        v = work.pick(rng, others + [B.am("u")])
        keep = np.array(v)
        t = float(rng.uniform(0, 1))
        dt1, r1 = B.f(t, v)
        r1_copy = np.array(r1)
        B.f(float(rng.uniform(0, 1)), others[0])
        mon.check(np.array_equal(r1, r1_copy, equal_nan=True), "a rate of change already returned was modified by the next evaluation", **wit)
        dt2, r2 = B.f(t, v)
        mon.event("extra evaluations")
        mon.check(dt1 == dt2 and np.array_equal(r2, r1_copy, equal_nan=True), "the rate of change of the same state differs", **wit)
        mon.check(np.array_equal(v, keep), "evaluating the rate of change modified its argument", **wit)
        mon.check(np.array_equal(B.am("u"), u0, equal_nan=True) and B.t == t0 and len(B.snapshots) == n0 and B.step_count == m0,
                  "evaluating the rate of change changed the solver's state", **wit)

    inner = B.step_helper_function

    def helper():
        inner()
        poke()

    B.step_helper_function = helper
    poke()
    if i % 4 == 0:
        # an evaluation that is repeated many times before the run
        u0, t0, n0, m0 = work.state(B), B.t, len(B.snapshots), B.step_count
        for _ in range(int(rng.integers(40, 160))):
            B.f(float(rng.uniform(0.1, 1)), others[1])
            mon.event("extra evaluations")
            if not mon.check(B.t == t0 and len(B.snapshots) == n0 and B.step_count == m0,
                             "evaluating the rate of change changed the solver's state", **wit):
                return
        mon.check(np.array_equal(B.am("u"), u0, equal_nan=True), "evaluating the rate of change changed the solver's state", **wit)
    getattr(B, name)(**kw)
    a, b = outcome(A, trouble=False), outcome(B, trouble=False)
    mon.check(same(b, a), "evaluating the rate of change changed the result of the run", difference=first_difference(b, a), **wit)
    mon.see("pure", name, *work.key(cfg))
