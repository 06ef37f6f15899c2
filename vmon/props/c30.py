"""C30 invalid requests are refused"""

import os

import numpy as np

from vmon import ref, work
from vmon.core import StopCase, TooManySteps, registry

PID = "C30"
LEVEL = "exploration"
RULE = (
    "each invalid value of each option, embedded in a random valid configuration. Every negative case is paired with "
    "a control, the same request with a valid value, which must be served; the invalid one must end in an error before it "
    "yields a result. distinct by option, value class and configuration"
)
ASSUMPTIONS = [
    "any exception counts as a refusal; its type and text are not compared",
    "an option that cannot take effect (a limiter with limiting off) is not required to be validated",
]
REQUIRE = {"requests refused": 500, "controls served": 500, "options": 36}
KINDS, kind = registry()
WORDS = ["", "none", "Minmod", "xx", "hll", "roe", "rho2", "periodicc", "unknown", "global ", "PERIODIC", "exact", "0"]


def word(rng, *known):
    while True:
        w = work.pick(rng, WORDS)
        if rng.random() < 0.3:
            k = str(work.pick(rng, [k for k in known if k] or ["abc"]))
            w = work.pick(rng, [k.upper() + "_", k + "2", k[:-1] + "q", " " + k])
        if w not in known:
            return w


def attempt(fn):
    """(outcome, error): outcome None if the request was refused"""
    try:
        with np.errstate(all="ignore"):
            return fn(), None
    except (KeyboardInterrupt, SystemExit, MemoryError, GeneratorExit, StopCase, TooManySteps):
        raise
    except BaseException as e:  # the plotting code raises BaseException
        if isinstance(e, OSError) and not isinstance(e, FileExistsError):
            raise
        return None, e


def served(x):
    return "served" if x is None else x


def judge(mon, name, good, bad, **wit):
    ok, err = attempt(lambda: served(good()))
    if not mon.check(err is None, "a valid request is refused", option=name, error=repr(err)[:200], **wit):
        return
    mon.event("controls served")
    got, err = attempt(lambda: served(bad()))
    mon.check(err is not None, "an invalid request is served", option=name, got=str(got)[:80], **wit)
    mon.event("requests refused", int(err is not None))
    mon.sample = dict(option=name, refused_with=repr(err)[:120], **{k: str(v) for k, v in wit.items()})
    mon.see(name, *[str(v) for v in wit.values()])


# --------------------------------------------------------------------------
# solver options


def one_step(S):
    S.euler(n=1)
    return "a step was taken"


def cfg_state(rng, **kw):
    cfg = work.rand_cfg(rng, few=0, **{**dict(pmax=4, extra=2, cells=250), **kw})
    return cfg, work.rand_state(rng, cfg, style="smooth")


def flux_solver(rng, mon):
    cfg, u = cfg_state(rng)
    bad = work.pick(rng, [word(rng, "hllc", "llf", "advection_upwind"), None, 3])
    good = work.pick(rng, ["hllc", "llf", "advection_upwind"])
    return (lambda: one_step(work.build(cfg, u, riemann_solver=good)),
            lambda: one_step(work.build(cfg, u, riemann_solver=bad)), dict(value=repr(bad)))


def limited(rng, **kw):
    cfg, u = cfg_state(rng, limiting=True)
    cfg["lim"].update(kw)
    cfg["lim"]["convex"] = False
    return cfg, u


def lim_pair(cfg, u, key, good, bad):
    return (lambda: one_step(work.build(cfg, u, **{key: good})), lambda: one_step(work.build(cfg, u, **{key: bad})),
            dict(value=repr(bad)))


def limiter(rng, mon):
    cfg, u = limited(rng, force_trouble=True)
    while max(cfg["p"]) == 0:
        cfg, u = limited(rng, force_trouble=True)
    return lim_pair(cfg, u, "slope_limiter", work.pick(rng, ["minmod", "moncen", None]), word(rng, "minmod", "moncen"))


def nad_mode(rng, mon):
    cfg, u = limited(rng)
    return lim_pair(cfg, u, "NAD_mode", work.pick(rng, ["global", "local"]), work.pick(rng, [word(rng, "global", "local"), None]))


def nad_range(rng, mon):
    cfg, u = limited(rng)
    return lim_pair(cfg, u, "NAD_range", work.pick(rng, ["relative", "absolute"]), work.pick(rng, [word(rng, "relative", "absolute"), None]))


KNOWN = ("rho", "vx", "vy", "vz", "mx", "my", "mz", "P", "E", "v", "m", "active_scalars")


def nad_vars(rng, mon):
    cfg, u = limited(rng)
    bad = (work.pick(rng, ["rho", "P"]), word(rng, *KNOWN))
    if rng.random() < 0.5:
        bad = bad[::-1]
    return lim_pair(cfg, u, "NAD_vars", ("rho", "P"), bad)


def pad_vars(rng, mon):
    cfg, u = limited(rng)
    bad = {"rho": (0.0, np.inf), word(rng, *KNOWN): (-10.0, 10.0)}
    return lim_pair(cfg, u, "PAD", {"rho": (0.0, np.inf), "P": (0.0, np.inf)}, bad)


def convex_3d(rng, mon):
    cfg, u = cfg_state(rng, dims="xyz", limiting=True, pmax=2, nmin=4)
    cfg["lim"]["convex"] = False
    cfg["lim"]["force_trouble"] = True
    return lim_pair(cfg, u, "convex", False, True)


def degree(rng, mon):
    d = int(rng.integers(3))
    n = [1, 1, 1]
    n[d] = int(rng.integers(14, 20))
    base = dict(n=tuple(n))
    bad = int(rng.integers(9, 14))

    def run(p):
        from fvhoe.initial_conditions import Sinus
        from fvhoe.solver import EulerSolver

        kw = {"n" + "xyz"[d]: n[d], "p" + "xyz"[d]: p}
        return one_step(EulerSolver(w0=Sinus(dims="xyz"[d]), progress_bar=False, **kw))

    return (lambda: run(int(rng.integers(0, 9))), lambda: run(bad), dict(value=bad, axis="xyz"[d], **base))


def bc_with(cfg, d, side, new, value=None):
    bc = {k: list(v) for k, v in cfg["bc"].items()}
    c = "xyz"[d]
    bc[c][side] = {"type": new, "value": value} if value is not None else {"type": new}
    if bc[c][1 - side]["type"] == "periodic":
        bc[c][1 - side] = {"type": "free"}
    return {k: tuple(v) for k, v in bc.items()}


def bc_type(rng, mon):
    cfg, u = cfg_state(rng)
    d, side = work.pick(rng, ref.active(cfg)), int(rng.integers(2))
    bad = word(rng, "periodic", "free", "outflow", "reflective", "dirichlet", "ic", "none", "dmr")
    a, b = dict(cfg, bc=bc_with(cfg, d, side, "free")), dict(cfg, bc=bc_with(cfg, d, side, bad))
    return (lambda: one_step(work.build(a, u)), lambda: one_step(work.build(b, u)), dict(value=bad, side="lr"[side], axis="xyz"[d]))


def half_periodic(rng, mon):
    cfg, u = cfg_state(rng)
    d, side = work.pick(rng, ref.active(cfg)), int(rng.integers(2))
    other = work.pick(rng, ["free", "outflow", "reflective"])
    b = {k: v for k, v in cfg["bc"].items()}
    pair = [{"type": other}, {"type": other}]
    a = dict(cfg, bc={**b, "xyz"[d]: tuple(pair)})
    pair = list(pair)
    pair[side] = {"type": "periodic"}
    z = dict(cfg, bc={**b, "xyz"[d]: tuple(pair)})
    return (lambda: one_step(work.build(a, u)), lambda: one_step(work.build(z, u)), dict(value=other, side="lr"[side], axis="xyz"[d]))


def bc_form(rng, mon):
    from fvhoe.boundary_conditions import BoundaryCondition

    cfg, u = cfg_state(rng)
    d = work.pick(rng, ref.active(cfg))
    c = "xyz"[d]
    t = work.pick(rng, ["free", "outflow", "periodic"])
    how = int(rng.integers(4))
    good = {c: (t, t)}
    bad = [{c: (t,)}, {c: (t, t, t)}, {c: [t, t]}, {c: ()}][how]

    def run(kw):
        return one_step(work.build(cfg, u, bc=BoundaryCondition(**kw)))

    return lambda: run(good), lambda: run(bad), dict(value=str(bad))


def rand_value(rng, cfg, u, how):
    nv = u.shape[0]
    const = u.reshape(nv, -1).mean(axis=1)
    if how == "constant":
        return const
    return lambda x, y, z, t=None: np.ones((nv,) + np.shape(x)) * const.reshape(-1, 1, 1, 1)


def value_form(rng, mon):
    """boundary values of wrong type or number"""
    from fvhoe.boundary_conditions import BoundaryCondition

    cfg, u = cfg_state(rng)
    d = work.pick(rng, ref.active(cfg))
    c = "xyz"[d]
    v = rand_value(rng, cfg, u, work.pick(rng, ["constant", "function"]))
    how = int(rng.integers(6))
    bad = [(v,), (v, v, v), [v, v], None, "abc", 1.0][how]

    def run(val):
        return one_step(work.build(cfg, u, bc=BoundaryCondition(**{c: "dirichlet", c + "_value": val})))

    return lambda: run((v, v)), lambda: run(bad), dict(value=["1 value", "3 values", "list", "None", "str", "number"][how], axis=c)


def value_side(rng, mon):
    """one of the two sides has no usable value"""
    from fvhoe.boundary_conditions import BoundaryCondition

    cfg, u = cfg_state(rng)
    d, side = work.pick(rng, ref.active(cfg)), int(rng.integers(2))
    c = "xyz"[d]
    v = rand_value(rng, cfg, u, work.pick(rng, ["constant", "function"]))
    bad = [v, v]
    bad[side] = work.pick(rng, [None, "abc", 2.0])

    def run(val):
        return one_step(work.build(cfg, u, bc=BoundaryCondition(**{c: "dirichlet", c + "_value": val})))

    return lambda: run((v, v)), lambda: run(tuple(bad)), dict(value=repr(bad[side]), side="lr"[side], axis=c)


def value_rows(rng, mon):
    """a constant boundary with the wrong number of variables"""
    from fvhoe.boundary_conditions import BoundaryCondition

    cfg, u = cfg_state(rng)
    d = work.pick(rng, ref.active(cfg))
    c = "xyz"[d]
    v = rand_value(rng, cfg, u, "constant")
    bad = v[:-1] if rng.random() < 0.5 else np.append(v, 1.0)

    def run(val):
        return one_step(work.build(cfg, u, bc=BoundaryCondition(**{c: "dirichlet", c + "_value": val})))

    return lambda: run(v), lambda: run(bad), dict(value=len(bad), of=len(v), axis=c)


def thin_buffer(rng, mon):
    """a prescribed boundary with fewer coordinates than ghost cells"""
    from fvhoe.boundary_conditions import BoundaryCondition

    cfg, u = cfg_state(rng)
    d = work.pick(rng, ref.active(cfg))
    c = "xyz"[d]
    least = ref.half(max(cfg["p"])) + 1
    size = int(rng.integers(0, least))
    if rng.random() < 0.4:

        def run(s):
            S = work.build(cfg, None, w0_passives=dyes(cfg), bc=BoundaryCondition(**{c: "ic"}), slab_buffer_size=s)
            return one_step(S)

        what = "ic"
    else:
        what = work.pick(rng, ["constant", "function"])
        v = rand_value(rng, cfg, u, what)

        def run(s):
            return one_step(work.build(cfg, u, bc=BoundaryCondition(**{c: "dirichlet", c + "_value": v}), slab_buffer_size=s))

    return lambda: run(30), lambda: run(size), dict(value=size, what=what, axis=c)


def dyes(cfg):
    return {k: (lambda x, y, z: np.ones_like(x)) for k in cfg["passives"]} or None


def thick_mirror(rng, mon):
    """fewer cells than a mirrored ghost layer"""
    d = int(rng.integers(3))
    c = "xyz"[d]
    p = int(rng.integers(1, 9))
    n = int(rng.integers(1, ref.half(p) + 1))
    t = work.pick(rng, ["outflow", "reflective"])
    l, r = work.pick(rng, [(t, t), (t, "free"), ("free", t)])

    def run(cells):
        from fvhoe.boundary_conditions import BoundaryCondition
        from fvhoe.initial_conditions import Sinus
        from fvhoe.solver import EulerSolver

        return one_step(EulerSolver(w0=Sinus(dims=c), bc=BoundaryCondition(**{c: (l, r)}), progress_bar=False,
                                    **{"n" + c: cells, "p" + c: p}))

    return lambda: run(30), lambda: run(n), dict(value=n, degree=p, types=f"{l}/{r}", axis=c)


def fv_primitive(rng, mon):
    cfg, u = cfg_state(rng)
    return (lambda: one_step(work.build(cfg, u)), lambda: one_step(work.build(cfg, u, conservative_ic=False)), {})


def ic_as_fv(rng, mon):
    """initial data as boundary needs point values, which cell averages do not give"""
    from fvhoe.boundary_conditions import BoundaryCondition

    cfg, u = cfg_state(rng)
    c = "xyz"[work.pick(rng, ref.active(cfg))]
    return (lambda: one_step(work.build(cfg, None, w0_passives=dyes(cfg), bc=BoundaryCondition(**{c: "ic"}))),
            lambda: one_step(work.build(cfg, u, bc=BoundaryCondition(**{c: "ic"}))), dict(axis=c))


def passive_names(rng, mon):
    cfg, u = cfg_state(rng, passives=0)
    bad = work.pick(rng, list(KNOWN) + ["passive_scalars"])
    f = lambda x, y, z: np.ones_like(x)  # noqa
    pair = {"dye": f, bad: f} if rng.random() < 0.5 else {bad: f}
    from fvhoe.initial_conditions import Sinus

    def run(names):
        return one_step(work.build(cfg, None, w0=Sinus(dims=cfg["dims"]), w0_passives=names))

    return lambda: run({"dye": f, "dye2": f}), lambda: run(pair), dict(value=bad)


def bad_ic(rng, mon):
    """initial conditions that are no functions of x, y, z"""
    from fvhoe.initial_conditions import InitialCondition

    class Odd(InitialCondition):
        def build_ic(self, hs, funcs=None):
            if self.kwargs["how"] == 0:
                return lambda x, y: np.ones((5, *np.shape(x)))
            if self.kwargs["how"] == 1:
                return lambda a, b, c: np.ones((5, *np.shape(a)))
            return lambda x, y, z: np.ones((5, *np.shape(x))) * np.array([1, 0, 0, 0, 3.0]).reshape(5, 1, 1, 1)

        def base_ic(self):
            return None

    cfg, _ = cfg_state(rng, passives=0)
    how = int(rng.integers(2))
    return (lambda: one_step(work.build(cfg, None, w0=Odd(how=2))), lambda: one_step(work.build(cfg, None, w0=Odd(how=how))),
            dict(value=["x, y", "a, b, c"][how]))


SOLVER = [flux_solver, limiter, nad_mode, nad_range, nad_vars, pad_vars, convex_3d, degree, bc_type, half_periodic, bc_form,
          value_form, value_side, value_rows, thin_buffer, thick_mirror, fv_primitive, ic_as_fv, passive_names, bad_ic]


@kind("solver", 460, 3000)
def solver(rng, mon, i):
    fn = SOLVER[i % len(SOLVER)]
    good, bad, wit = fn(rng, mon)
    judge(mon, fn.__name__, good, bad, **wit)
    mon.event("options", 1 if i < len(SOLVER) else 0)


# --------------------------------------------------------------------------
# building blocks


def hydro_pair(rng):
    from fvhoe.hydro import HydroState

    names = tuple(f"d{k}" for k in range(int(rng.integers(1, 4))))
    hs = HydroState(passive_scalars=names)
    nd = int(rng.integers(1, 5))
    small = HydroState(passive_scalars=names, ndim=nd)
    known = KNOWN + names + ("passive_scalars",)
    bad = word(rng, *known)
    return work.pick(rng, [
        ("variable", lambda: hs(work.pick(rng, known)), lambda: hs(bad), bad),
        ("variables", lambda: hs(("rho", names[0])), lambda: hs(("rho", bad)), bad),
        ("variable type", lambda: hs("rho"), lambda: hs(int(rng.integers(0, 5))), "number"),
        ("axis", lambda: hs(axis=int(rng.integers(1, 4)), cut=(1, 2)), lambda: small(axis=int(rng.integers(nd, 7)), cut=(1, 2)), nd),
        ("cut form", lambda: hs(x=(0, 1)), lambda: hs(**{work.pick(rng, "xyz"): work.pick(rng, [1, (1,), (1, 2, 3), (), "ab"])}), "form"),
        ("duplicate passives", lambda: HydroState(passive_scalars=("a", "b")), lambda: HydroState(passive_scalars=work.pick(rng, [("a", "a"), ("a", "b", "a")])), "a"),
        ("reserved passives", lambda: HydroState(passive_scalars=("a",)), lambda: HydroState(passive_scalars=("a", work.pick(rng, KNOWN + ("passive_scalars",)))), "reserved"),
    ])


def ic_pair(rng):
    from fvhoe import initial_conditions as I
    from fvhoe.hydro import HydroState

    hs = HydroState()
    X = np.meshgrid(*[np.linspace(0, 1, 4)] * 3, indexing="ij")
    ev = lambda ic: ic.build_ic(hs)(*X)  # noqa
    two = HydroState(passive_scalars=("a", "b"))
    f = lambda x, y, z: x  # noqa
    bad = work.pick(rng, ["w", "t", "X", "xy", "1"])
    return work.pick(rng, [
        ("shock direction", lambda: ev(I.Shock1D(dim=work.pick(rng, "xyz"))), lambda: ev(I.Shock1D(dim=bad)), bad),
        ("tube centre", lambda: ev(I.ShockTube(dims="xy", center=(0.5, 0.5))),
         lambda: ev(I.ShockTube(dims="xy", center=work.pick(rng, [(0.5,), (0.5, 0.5, 0.5), 0.5]))), "centre"),
        ("cube sides", lambda: ev(I.ShockTube(mode="cube", y_cube=(0, 1))), lambda: ev(I.ShockTube(mode="cube")), "sides"),
        ("tube mode", lambda: ev(I.ShockTube()), lambda: ev(I.ShockTube(mode=word(rng, "tube", "cube"))), "mode"),
        ("missing passives", lambda: I.Sinus().build_ic(two, {"a": f, "b": f})(*X), lambda: I.Sinus().build_ic(two, work.pick(rng, [{"a": f}, {"b": f}, {}, {"c": f, "a": f}]))(*X), "missing"),
    ])


def fv_pair(rng):
    from fvhoe import stencils
    from fvhoe.fv import get_symmetric_slices, stencil_sweep

    u = rng.random((5, 14, 13, 15))
    p = int(rng.integers(0, 9))
    big = int(rng.integers(9, 14))
    ax = int(rng.integers(1, 4))
    pos = work.pick(rng, "lcr")
    W, T = stencils.get_conservative_interpolation_stencil_weights, stencils.get_transverse_reconstruction_stencil_weights
    return work.pick(rng, [
        ("sweep mode", lambda: stencil_sweep(u, "interpolation", p, ax, pos), lambda: stencil_sweep(u, word(rng, "interpolation", "reconstruction"), p, ax, pos), "mode"),
        ("sweep position", lambda: stencil_sweep(u, "interpolation", p, ax, pos), lambda: stencil_sweep(u, "interpolation", p, ax, work.pick(rng, ["x", "left", "R", "rl"])), "position"),
        ("interpolation degree", lambda: W(p, pos), lambda: W(big, pos), big),
        ("averaging degree", lambda: T(p), lambda: T(big), big),
        ("slices", lambda: get_symmetric_slices(4, int(rng.integers(1, 5)), ax), lambda: get_symmetric_slices(4, -int(rng.integers(0, 4)), ax), "number"),
        ("stencil size", lambda: stencils.get_stencil_size(p, work.pick(rng, ["total", "right"])), lambda: stencils.get_stencil_size(p, word(rng, "total", "right")), "mode"),
    ])


def bc_pair(rng):
    """ghost layers of a bare boundary condition: exactly too thick"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.fv import fv_uniform_meshgen

    d = int(rng.integers(3))
    c = "xyz"[d]
    n = [int(v) for v in rng.integers(2, 6, 3)]
    u = rng.random((5, *n))
    gw = [0, 0, 0]

    def with_gw(k):
        g = list(gw)
        g[d] = k
        return tuple(g)

    if rng.random() < 0.5:
        t = work.pick(rng, ["outflow", "reflective"])
        pair = work.pick(rng, [(t, t), (t, "free"), ("free", t)])
        return ("mirrored layer", lambda: BoundaryCondition(**{c: pair}).apply(u, with_gw(n[d])),
                lambda: BoundaryCondition(**{c: pair}).apply(u, with_gw(n[d] + 1 + int(rng.integers(0, 2)))), f"{t}/{n[d]}")
    size = int(rng.integers(1, 5))
    val = work.pick(rng, [np.arange(1.0, 6.0), lambda x, y, z, t=None: np.ones((5, *np.shape(x)))])
    _, slabs = fv_uniform_meshgen(tuple(n), slab_thickness=(size,) * 3)

    def run(k):
        return BoundaryCondition(**{c: "dirichlet", c + "_value": val}, slab_coords=slabs).apply(u, with_gw(k))

    return ("prescribed layer", lambda: run(size), lambda: run(size + 1 + int(rng.integers(0, 2))), f"{size}/{callable(val)}")


def cross_pair(rng):
    """the ghost layer of another axis is thicker than the coordinates of the prescribed one"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.fv import fv_uniform_meshgen

    d, e = (int(v) for v in rng.permutation(3)[:2])
    u = rng.random((5, 5, 6, 7))
    size = int(rng.integers(1, 4))
    _, slabs = fv_uniform_meshgen((5, 6, 7), slab_thickness=(size,) * 3)
    f = lambda x, y, z, t=None: np.ones((5, *np.shape(x)))  # noqa

    def run(k):
        g = [0, 0, 0]
        g[d], g[e] = 1, k
        return BoundaryCondition(**{"xyz"[d]: "dirichlet", "xyz"[d] + "_value": f}, slab_coords=slabs).apply(u, tuple(g))

    return ("crossing layer", lambda: run(size), lambda: run(size + 1), f"{d}{e}")


def limiting_pair(rng):
    from fvhoe.slope_limiting import MUSCL_interpolations, broadcast_to_troubled_interfaces

    u = rng.random((5, 5, 6, 7))
    tr = (rng.random((5, 6, 7)) < 0.3).astype(int)
    ax = int(rng.integers(1, 4))
    return work.pick(rng, [
        ("limiter name", lambda: MUSCL_interpolations(u, ax, work.pick(rng, ["minmod", "moncen", None])), lambda: MUSCL_interpolations(u, ax, word(rng, "minmod", "moncen")), "name"),
        ("convex faces", lambda: broadcast_to_troubled_interfaces(tr, dims="xyz"), lambda: broadcast_to_troubled_interfaces(tr, dims="xyz", convex=True), "3D"),
    ])


def book_pair(rng):
    from fvhoe.array_management import ArrayManager
    from fvhoe.timer import Timer

    am = ArrayManager()
    am.add("a", np.ones(3))
    T = Timer(cats=["a", "b"])
    T.start("a")
    return work.pick(rng, [
        ("array name in use", lambda: am.add("b", np.ones(2)), lambda: am.add("a", np.ones(2)), "a"),
        ("array type", lambda: am.add("b", np.ones(2)), lambda: am.add("c", work.pick(rng, [[1, 2], 3.0, None, (1,)])), "type"),
        ("unknown array", lambda: am("a"), lambda: work.pick(rng, [am, am.remove, am.get_numpy])(work.pick(rng, ["b", "A", ""])), "b"),
        ("timer in use", lambda: Timer(cats="a").start("a"), lambda: T.start("a"), "a"),
        ("timer not running", lambda: T.stop("a"), lambda: T.stop("b"), "b"),
        ("unknown category", lambda: T.check_cat_existence("a"), lambda: work.pick(rng, [T.start, T.stop])("c"), "c"),
        ("category in use", lambda: T.add_cat("z"), lambda: T.add_cat(work.pick(rng, ["a", ("c", "a"), ("c", "c")])), "a"),
    ])


BLOCKS = [hydro_pair, ic_pair, fv_pair, bc_pair, cross_pair, limiting_pair, book_pair]
SHARE = [7, 5, 6, 4, 2, 2, 7]


@kind("blocks", 400, 4000)
def blocks(rng, mon, i):
    order = [f for f, k in zip(BLOCKS, SHARE) for _ in range(k)]
    name, good, bad, val = order[i % len(order)](rng)
    judge(mon, name, good, bad, value=val)
    mon.event("options", 1 if i < len(order) else 0)


# --------------------------------------------------------------------------
# scripts and plots


@kind("scripts and plots", 28, 160)
def scripts(rng, mon, i):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    from fvhoe.initial_conditions import Sinus
    from fvhoe.scripting import EulerSolver_wrapper

    if i % 4 == 0:
        base = os.path.join(mon.scratch, "runs")
        kw = dict(snapshot_parent_dir=base, ic=Sinus(dims="x"), T=0.01, n_snapshots=2, nx=8, px=1, progress_bar=False)
        bad = work.pick(rng, [0, 5, -2, "rk4", None, 2.5])
        judge(mon, "integrator", lambda: EulerSolver_wrapper(project_pref="a", integrator=int(work.pick(rng, [-1, 1, 2, 3, 4])), **kw),
              lambda: EulerSolver_wrapper(project_pref="b", integrator=bad, **kw), value=repr(bad))
        mon.event("options", 1 if i == 0 else 0)
        return
    cfg, u = cfg_state(rng, dims="xyz", pmax=1, cells=150, limiting=True)
    cfg["lim"]["convex"] = False
    S = work.build(cfg, u)
    S.euler(n=1)
    fig, ax = plt.subplots()
    dom = cfg["dom"]
    mid = [0.5 * (a + b) for a, b in dom]
    at = dict(zip("xyz", mid))
    try:
        d = int(rng.integers(3))
        line = {k: v for k, v in at.items() if k != "xyz"[d]}
        plane = {"xyz"[d]: mid[d]}
        known = KNOWN + ("trouble", "NAD", "PAD") + tuple(cfg["passives"])
        bad = word(rng, *known)
        name, g, b, val = [
            ("line of a point", lambda: S.plot_1d_slice(ax, param="rho", **line), lambda: S.plot_1d_slice(ax, param="rho", **at), "xyz"),
            ("plane of a line", lambda: S.plot_2d_slice(ax, param="rho", **plane), lambda: S.plot_2d_slice(ax, param="rho", **line), "xyz"[d]),
            ("plotted variable", lambda: S.plot_1d_slice(ax, param="P", **line), lambda: S.plot_1d_slice(ax, param=bad, **line), bad),
            ("mapped variable", lambda: S.plot_2d_slice(ax, param="P", **plane), lambda: S.plot_2d_slice(ax, param=bad, **plane), bad),
            ("overlay", lambda: S.plot_2d_slice(ax, param="P", overlay_trouble=work.pick(rng, ["all", "NAD", "PAD", True, None]), **plane),
             lambda: S.plot_2d_slice(ax, param="P", overlay_trouble=word(rng, "all", "NAD", "PAD", ""), **plane), "mode"),
            ("contour levels", lambda: S.plot_2d_slice(ax, param="P", contour=True, levels=5, **plane),
             lambda: S.plot_2d_slice(ax, param="P", contour=True, levels=work.pick(rng, ["5", 2.5, None]), **plane), "levels"),
            ("fields in 3D", lambda: None, lambda: S.plot_fields(), "3D"),
        ][(i // 4 * 3 + i % 4 - 1) % 7]
        judge(mon, name, g, b, value=val)
        mon.event("options", 1 if i < 10 else 0)
    finally:
        plt.close("all")
