"""C32 equivalent requests: documented defaults, forms of an option, splitting of runs"""

import contextlib
import io
import os
import tempfile

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C32"
LEVEL = "exploration"
RULE = (
    "pairs of runs whose requests say the same thing in two ways: options left out and given at their documented "
    "defaults (each in random surroundings, with a third run at another value to see whether the option mattered), "
    "options in another form (single value or pair, list or tuple or array, integer or float, order of entries, "
    "primitive or conservative data, positional or keyword), runs in one piece and in several. compared bit for bit. "
    "distinct by option or form, dimensions and degree"
)
ASSUMPTIONS = ["the defaults are those of the documented signatures at the pinned commit"]
REQUIRE = {"defaults compared": 300, "options that mattered": 19, "run options compared": 100, "forms compared": 250, "split runs": 60,
           "wrapper defaults": 8}
KINDS, kind = registry()

POSITIVE = {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
# option: (documented default, another value)
OPTIONS = {
    "nx": (1, 5), "ny": (1, 5), "nz": (1, 5), "px": (0, 1), "py": (0, 1), "pz": (0, 1),
    "x": ((0, 1), (0, 1.5)), "y": ((0, 1), (0, 0.7)), "z": ((0, 1), (0, 0.7)),
    "CFL": (0.8, 0.7), "fixed_dt": (None, 1e-3), "gamma": (5 / 3, 1.5), "bc": (None, "free"), "riemann_solver": ("hllc", "llf"),
    "conservative_ic": (False, True), "fv_ic": (False, None), "w0_passives": (None, "dye"), "w0": ("square", "sinus"),
    "a_posteriori_slope_limiting": (False, True), "slope_limiter": ("minmod", "moncen"), "force_trouble": (False, True),
    "NAD": (1e-2, 1.5e-2), "NAD_mode": ("global", "local"), "NAD_range": ("relative", "absolute"), "NAD_vars": (None, ("vz",)),
    "PAD": (None, {"rho": (1.1, 1.2)}), "SED": (True, False), "SED_tolerance": (1e-10, 3e-10), "convex": (False, True),
    "csq_floor": (1e-10, 1.5e-10), "snapshots_as_fv_averages": (True, False), "snapshot_helper_function": (None, None),
    "slab_buffer_size": (30, None), "cupy": (False, None),
}
NAMES = list(OPTIONS)


def quiet():
    return contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO())


def run(kw, how, arg, log=True):
    from fvhoe.solver import EulerSolver

    a, b = quiet()
    with a, b, np.errstate(all="ignore"):
        S = EulerSolver(progress_bar=False, **kw)
        getattr(S, how)(**arg)
    return S


def outcome(S):
    out = [("state", work.state(S)), ("times", np.array(S.timestamps, float)), ("snapshot times", np.array(S.snapshot_times, float))]
    for i, s in enumerate(S.snapshots):
        out += [(f"{k} of snapshot {i}", np.asarray(s[k], float)) for k in sorted(s)]
    return out


def difference(A, B):
    a, b = outcome(A), outcome(B)
    if [k for k, _ in a] != [k for k, _ in b]:
        return "the records of the two runs are different ones"
    for (k, x), (_, y) in zip(a, b):
        if x.shape != y.shape:
            return f"{k}: shapes {x.shape} {y.shape}"
        if not np.array_equal(x, y, equal_nan=True):
            with np.errstate(all="ignore"):
                return f"{k}: largest difference {np.nanmax(np.abs(x - y))}"
    return None


def field(rng, style, act, gamma=5 / 3):
    """a user's initial condition: primitive point values as a function of the coordinates"""
    k = rng.integers(1, 3, 3) * act
    ph = rng.uniform(0, 2 * np.pi, 8)
    v = rng.uniform(-0.6, 0.6, 3)
    cut = float(rng.uniform(0.2, 0.8))
    amp = {"cold": 0.3, "ripples": 3e-9}.get(style, 0.3)

    def f(x, y, z):
        th = 2 * np.pi * (k[0] * x + k[1] * y + k[2] * z)
        out = np.empty((5,) + np.shape(x))
        out[0] = 1 + amp * np.sin(th + ph[0])
        for i in range(3):
            out[1 + i] = v[i] + amp * 0.5 * np.sin(th + ph[1 + i])
        out[4] = 1 + amp * np.sin(th + ph[4])
        if style in ("jumps", "cold"):
            s = (x * act[0] + y * act[1] + z * act[2]) % 1.0
            out[0] = np.where(s > cut, 1.6 * out[0], out[0])
            out[4] = np.where(s > cut, 2.1 * out[4], out[4])
        if style == "ripples":
            out[0] = out[0] + 2e-10 * np.sin(40 * th)
        if style == "cold":
            out[4] *= 3e-11
        return out

    return f


def conservative(f, gamma):
    return lambda x, y, z: ref.cons(f(x, y, z), gamma)


def surroundings(rng, style=None):
    """keyword arguments of a small random problem, all of them different from the defaults where they can be"""
    from fvhoe.boundary_conditions import BoundaryCondition

    act = np.zeros(3, int)
    act[rng.permutation(3)[: int(work.pick(rng, [1, 1, 2]))]] = 1
    style = style or work.pick(rng, ["smooth", "jumps", "jumps", "ripples"])
    kw = {}
    for d, c in enumerate("xyz"):
        if act[d]:
            kw["n" + c] = int(rng.integers(9, 13) if act.sum() == 2 else rng.integers(10, 24))
            kw["p" + c] = int(rng.integers(1, 4))
            kw[c] = (0.0, float(rng.uniform(0.8, 1.5)))
    kw.update(CFL=float(rng.uniform(0.1, 0.5)), gamma=float(work.pick(rng, [1.4, 2.0])), riemann_solver="llf",
              w0=work.raw_ic(field(rng, style, act)))
    if rng.random() < 0.85:
        kw.update(a_posteriori_slope_limiting=True, slope_limiter=work.pick(rng, ["moncen", None]), NAD=float(work.pick(rng, [1e-3, 1e-5])),
                  NAD_mode="local", NAD_range="absolute", SED=bool(rng.random() < 0.3), convex=bool(rng.random() < 0.3))
    if rng.random() < 0.5:
        kw["bc"] = BoundaryCondition(**{c: work.pick(rng, ["free", "reflective", "periodic"]) for d, c in enumerate("xyz") if act[d]})
    return kw, act, style


def explicit(name, rng):
    """the documented default, in one of its documented spellings"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import Square

    if name == "bc":
        return [None, BoundaryCondition(), BoundaryCondition(x="periodic", y="periodic", z=("periodic", "periodic"))][int(rng.integers(3))]
    if name == "w0":
        return Square()
    if name == "PAD":
        return [None, dict(POSITIVE)][int(rng.integers(2))]
    if name == "slab_buffer_size":
        return 30
    return OPTIONS[name][0]


def other(name, act, rng):
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import Sinus

    if name == "bc":
        return BoundaryCondition(**{"xyz"[d]: "free" for d in range(3) if act[d]})
    if name == "w0":
        return Sinus()
    if name == "w0_passives":
        return {"dye": lambda x, y, z: 0 * x + 1.0}
    return OPTIONS[name][1]


@kind("options left out", 340, 6000)
def defaults(rng, mon, i):
    name = NAMES[i % len(NAMES)]
    style = {"csq_floor": "cold", "SED_tolerance": "ripples", "w0": "smooth"}.get(name)
    kw, act, style = surroundings(rng, style)
    if name in ("slope_limiter", "force_trouble", "NAD", "NAD_mode", "NAD_range", "NAD_vars", "PAD", "SED", "SED_tolerance", "convex"):
        kw["a_posteriori_slope_limiting"] = True
        if rng.random() < 0.5:  # the neighbouring options at their defaults too
            for k in ("slope_limiter", "NAD", "NAD_mode", "NAD_range", "SED", "convex"):
                if k != "SED" or name == "SED_tolerance":
                    kw.pop(k, None)
        if name == "SED":
            kw["NAD"] = 1e-5
        if name == "SED_tolerance":
            kw["SED"] = True
    if name == "a_posteriori_slope_limiting":
        kw = {k: v for k, v in kw.items() if k not in ("slope_limiter", "NAD", "NAD_mode", "NAD_range", "SED", "convex")}
    if name == "fixed_dt":
        kw.pop("CFL", None)
    extra = [m for m in NAMES if m != name and m not in ("nx", "ny", "nz", "px", "py", "pz") and rng.random() < 0.1]
    if name[0] in "np" and len(name) == 2 or name in ("x", "y", "z"):
        c = name[-1]
        if act["xyz".index(c)] and act.sum() == 1 and name[0] == "n":
            extra = []
    names = [name, *extra]
    if len(name) == 2:  # numbers of cells and degrees: a mirrored boundary may not fit any more
        kw.pop("bc", None)
    for m in names:
        kw.pop(m, None)
    if not any(kw.get("n" + c, 1) > 1 for c in "xyz"):
        d = int(np.flatnonzero(act)[0]) if name[0] != "n" else (int(np.flatnonzero(act)[0]) + 1) % 3
        kw["n" + "xyz"[d]] = 8
    if "convex" in kw and sum(kw.get("n" + c, 1) > 1 or kw.get("p" + c, 0) > 0 for c in "xyz") == 3:
        del kw["convex"]
    how = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    arg = dict(n=2)
    A = run(kw, how, arg)
    B = run({**kw, **{m: explicit(m, rng) for m in names}}, how, arg)
    mon.event("defaults compared", len(names))
    diff = difference(A, B)
    wit = dict(options=names, surroundings=str({k: v for k, v in kw.items() if k not in ("w0", "bc")}), style=style, integrator=how)
    mon.check(diff is None, f"leaving out {name} is not giving it its documented default", difference=diff, **wit)
    v = other(name, act, rng)
    if v is not None:
        try:
            C = run({**kw, name: v}, how, arg)
            if difference(A, C) is not None:
                mon.event("changed results with another value")
                mon.event("options that mattered", 1 if i < len(NAMES) else 0)
                mon.see("mattered", name)
        except (ValueError, NotImplementedError):
            pass
    mon.see(name, int(act.sum()), how)
    mon.sample = wit


@kind("run options left out", 100, 1500)
def schedule(rng, mon, i):
    kw, act, style = surroundings(rng)
    how = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    S = run(kw, "euler", dict(n=1))
    T = float(rng.uniform(0.5, 3.5) * S.t)
    beats = sorted(rng.uniform(0.1, 0.9, int(rng.integers(0, 4))) * T)
    all_ = dict(exact=True, downbeats=work.pick(rng, [None, []]), log_every_step=False, snapshot_dir=None, overwrite=False, n=None)
    drop = [k for k in all_ if rng.random() < 0.5] or ["exact"]
    arg = dict(T=T)
    if "downbeats" not in drop and beats:
        all_["downbeats"] = beats
    if "log_every_step" not in drop:
        all_["log_every_step"] = bool(rng.random() < 0.5)
    if "exact" not in drop:
        all_["exact"] = bool(rng.random() < 0.5)
    A = run(kw, how, {**arg, **{k: v for k, v in all_.items() if k not in drop}})
    B = run(kw, how, {**arg, **all_})
    mon.event("run options compared", len(drop))
    diff = difference(A, B)
    wit = dict(omitted=drop, options=str(all_), T=T, integrator=how)
    mon.check(diff is None, "leaving out options of a run is not giving them their documented defaults", difference=diff, **wit)
    # with a number of steps everything else is ignored
    if i % 4 == 0:
        n = int(rng.integers(0, 4))
        with tempfile.TemporaryDirectory() as tmp:
            C = run(kw, how, dict(n=n))
            D = run(kw, how, dict(n=n, T=T * 0.3, downbeats=[T * 0.1], exact=False, log_every_step=True, snapshot_dir=os.path.join(tmp, "s")))
        diff = difference(C, D)
        mon.check(diff is None, "a number of steps does not override the other options of a run", difference=diff, n=n, integrator=how)
        mon.check(D.step_count == n, "another number of steps was taken", asked=n, taken=D.step_count)
    mon.see("run", how, tuple(drop))


FORMS = ["bc pair", "bc value", "bc constant function", "NAD_vars", "PAD", "domain", "integers", "numbers", "downbeats", "times", "conservative data",
         "initial condition arguments", "positional", "passive functions", "helper", "progress bar", "run"]


@kind("forms", 272, 5000)
def forms(rng, mon, i):
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe import initial_conditions as I

    form = FORMS[i % len(FORMS)]
    kw, act, style = surroundings(rng, "smooth" if form == "conservative data" else None)
    axes = ["xyz"[d] for d in range(3) if act[d]]
    c = axes[int(rng.integers(len(axes)))]
    how = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    arg, arg2 = dict(n=2), None
    kw2 = dict(kw)
    how2 = how
    if form == "bc pair":
        kind_ = work.pick(rng, ["free", "periodic", "reflective", "outflow", "ic"])
        kw["bc"], kw2["bc"] = BoundaryCondition(**{c: kind_}), BoundaryCondition(**{c: (kind_, kind_)})
        if kind_ == "ic":  # "ic" takes its values from the initial condition
            kw["bc"], kw2["bc"] = BoundaryCondition(**{c: ("ic", "ic")}), BoundaryCondition(**{c: "ic"})
    elif form in ("bc value", "bc constant function"):
        val = ref.cons(np.array([1.1, *rng.uniform(-0.2, 0.2, 3), 0.9]), kw["gamma"])

        def fn(x, y, z, t):
            return val.reshape(-1, 1, 1, 1) * np.ones((1,) + x.shape)

        a = BoundaryCondition(**{c: "dirichlet", c + "_value": val.copy()})
        if form == "bc value":
            b = BoundaryCondition(**{c: ("dirichlet", "dirichlet"), c + "_value": (val.copy(), val.copy())})
        else:
            b = BoundaryCondition(**{c: "dirichlet", c + "_value": work.pick(rng, [fn, (fn, fn), (val.copy(), fn), (fn, val.copy())])})
        kw["bc"], kw2["bc"] = a, b
    elif form == "NAD_vars":
        v = [n for n in ("rho", "vx", "vy", "vz", "P") if rng.random() < 0.6] or ["rho"]
        kw.update(a_posteriori_slope_limiting=True, NAD_vars=tuple(v))
        w = [v[j] for j in rng.permutation(len(v))]
        kw2.update(a_posteriori_slope_limiting=True, NAD_vars=work.pick(rng, [tuple(w), tuple(v) + tuple(v[:1]), list(w)]))
        if len(v) == 5 or rng.random() < 0.2:
            kw["NAD_vars"], kw2["NAD_vars"] = None, ("rho", "vx", "vy", "vz", "P")
    elif form == "PAD":
        lim = {"rho": (0, 1.4), "P": (0.8, np.inf), "vx": (-np.inf, np.inf)}
        kw.update(a_posteriori_slope_limiting=True, PAD={k: v for k, v in lim.items()})
        kw2.update(a_posteriori_slope_limiting=True,
                   PAD=work.pick(rng, [dict(reversed(lim.items())), {k: tuple(map(np.float64, v)) for k, v in lim.items()},
                                       {k: v for k, v in lim.items() if k != "vx"}, {k: list(v) for k, v in lim.items()}]))
    elif form == "domain":
        for e in axes:
            n = int(rng.integers(1, 3))
            kw[e], kw2[e] = (0.0, float(n)), work.pick(rng, [(0, n), [0.0, float(n)], np.array([0, n]), (np.float64(0), np.float64(n))])
    elif form == "integers":
        for e in axes:
            kw2["n" + e], kw2["p" + e] = np.int64(kw["n" + e]), np.int64(kw["p" + e])
        arg2 = dict(n=np.int64(2))
    elif form == "numbers":
        kw.update(CFL=1.0, gamma=2.0)
        kw2.update(CFL=work.pick(rng, [1, np.float64(1)]), gamma=work.pick(rng, [2, np.float64(2)]))
        if rng.random() < 0.5:
            kw["fixed_dt"], kw2["fixed_dt"] = 1e-3, np.float64(1e-3)
    elif form in ("downbeats", "times"):
        dt = run(kw, "euler", dict(n=1)).t
        if form == "times":  # an integral end time
            kw["fixed_dt"] = kw2["fixed_dt"] = 0.25 if rng.random() < 0.5 else None
            scale = 1.0 if kw["fixed_dt"] else None
            if scale is None:
                for q in (kw, kw2):
                    q.pop("fixed_dt")
                    q["CFL"] = 0.4
            T = float(np.float64(2.3 * dt))
            arg, arg2 = dict(T=T), dict(T=np.float64(T))
            if kw.get("fixed_dt"):
                arg, arg2 = dict(T=1.0), dict(T=1)
        else:
            T = float(rng.uniform(1.0, 4.0) * dt)
            beats = (rng.uniform(0.05, 0.95, int(rng.integers(1, 5))) * T).tolist()
            arg = dict(T=T, downbeats=sorted(beats))
            alt = [beats, tuple(beats), np.array(beats), beats + beats[:1], beats + [T], [0.0, -1.0] + beats, beats + [2 * T], set(beats), [np.float64(b) for b in beats],
                   [T] + beats + [T]]
            arg2 = dict(T=T, downbeats=alt[i // len(FORMS) % len(alt)])
            for a in (arg, arg2):
                a["log_every_step"] = i % 2 == 1
    elif form == "conservative data":
        f = field(rng, "smooth", act)
        kw.update(w0=work.raw_ic(f), a_posteriori_slope_limiting=False)
        kw2.update(w0=work.raw_ic(conservative(f, kw["gamma"])), conservative_ic=True, a_posteriori_slope_limiting=False)
    elif form == "initial condition arguments":
        r = (1.0, float(rng.uniform(1.5, 2.5)))
        d = "".join(axes)
        kw["w0"], kw2["w0"] = work.pick(rng, [
            (I.Sinus(d, r), I.Sinus(rho_min_max=r, dims=d)),
            (I.Square(d, r, 1.0, 0.5, vz=0.2), I.Square(dims=d, rho_min_max=r, P=1.0, vx=0.5, vy=0, vz=0.2)),
            (I.Shock1D(axes[0], 0.4), I.Shock1D(position=0.4, dim=axes[0])),
            (I.ShockTube(axes[0], 0.5, 0.2), I.ShockTube(dims=axes[0], center=(0.5,), radius=0.2)),
        ])
    elif form == "positional":
        T = 2.3 * run(kw, "euler", dict(n=1)).t
        arg = dict(T=T)

        def positional(kw_):
            from fvhoe.solver import EulerSolver

            k = dict(kw_)
            lead = [k.pop("w0"), k.pop("w0_passives", None), k.pop("nx", 1), k.pop("ny", 1), k.pop("nz", 1), k.pop("px", 0), k.pop("py", 0), k.pop("pz", 0),
                    k.pop("x", (0, 1)), k.pop("y", (0, 1)), k.pop("z", (0, 1)), k.pop("CFL", 0.8), k.pop("fixed_dt", None), k.pop("gamma", 5 / 3), k.pop("bc", None),
                    k.pop("riemann_solver", "hllc")]
            a, b = quiet()
            with a, b, np.errstate(all="ignore"):
                S = EulerSolver(*lead, progress_bar=False, **k)
                getattr(S, how)(T)
            return S
    elif form == "passive functions":
        n = 2
        fs = {f"dye{j}": (lambda x, y, z, j=j: 1 + 0.3 * np.sin(2 * np.pi * (x + y + z) + j)) for j in range(n)}
        kw["w0_passives"] = fs
        kw2["w0_passives"] = dict(sorted(fs.items()))
    elif form == "helper":
        seen = []
        kw2["snapshot_helper_function"] = lambda s: seen.append(s.t)
    elif form == "progress bar":
        kw2["progress_bar"] = True
        T = 2.3 * run(kw, "euler", dict(n=1)).t
        arg = dict(T=T)
    elif form == "run":
        how = "run"
        if rng.random() < 0.4:  # three dimensions, and degrees that differ between the directions
            f = field(rng, "smooth", np.ones(3, int))
            ps = [int(q) for q in rng.permutation([int(rng.integers(0, 6)), int(rng.integers(0, 2)), int(rng.integers(1, 3))])]
            for q in (kw, kw2):
                q.pop("bc", None)
                q.update({f"p{e}": ps[d] for d, e in enumerate("xyz")}, w0=work.raw_ic(f), convex=False)
                q.update({f"n{e}": 5 + 3 * ps[d] for d, e in enumerate("xyz")})
                if not q.get("a_posteriori_slope_limiting"):
                    q.pop("convex")
            mon.event("three-dimensional runs")
        how2 = ["euler", "ssprk2", "ssprk3", "rk4"][min(max(kw.get("p" + e, 0) for e in "xyz"), 3)]
    A = run(kw, how, arg)
    if form == "positional":
        B = positional(kw)
    elif form == "progress bar":
        from fvhoe.solver import EulerSolver

        a, b = quiet()
        with a, b, np.errstate(all="ignore"):
            B = EulerSolver(**kw2)
            getattr(B, how)(**arg)
    else:
        B = run(kw2, how2, arg if arg2 is None else arg2)
    mon.event("forms compared")
    wit = dict(form=form, axes=axes, integrator=how, first=str(arg), second=str(arg2), options=str({k: v for k, v in kw2.items() if k not in ("w0", "bc")}))
    if form == "conservative data":
        work.finite_or_stop(work.state(A))
        mon.close(work.state(B), work.state(A), 1e-12, "conservative initial data gives another run than the same primitive data", **wit)
    else:
        diff = difference(A, B)
        mon.check(diff is None, f"two forms of the same request give different runs ({form})", difference=diff, **wit)
    if form == "helper":
        mon.check(seen == list(B.snapshot_times), "the helper function is not called once per snapshot", called=seen, snapshots=list(B.snapshot_times))
    mon.see(form, int(act.sum()), how)
    mon.sample = wit


@kind("runs in pieces", 64, 1000)
def pieces(rng, mon, i):
    kw, act, style = surroundings(rng)
    how = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    from fvhoe.solver import EulerSolver

    a, b = quiet()
    with a, b, np.errstate(all="ignore"):
        S = EulerSolver(progress_bar=False, **kw)
        R = EulerSolver(progress_bar=False, **kw)
        if i % 2:
            parts = [int(x) for x in rng.integers(0, 3, int(rng.integers(2, 4)))]
            for n in parts:
                getattr(S, how)(n=n)
            getattr(R, how)(n=sum(parts))
            wit = dict(steps=parts)
        else:
            dt = run(kw, "euler", dict(n=1)).t
            times = sorted((rng.uniform(0.2, 3.0, int(rng.integers(2, 4))) * dt).tolist())
            for T in times:
                getattr(S, how)(T=T)
            getattr(R, how)(T=times[-1], downbeats=times[:-1])
            wit = dict(times=times)
    mon.event("split runs")
    mon.check(np.array_equal(work.state(S), work.state(R), equal_nan=True) and S.t == R.t and S.step_count == R.step_count and list(S.timestamps) == list(R.timestamps),
              "a run in pieces ends elsewhere than the run in one piece", ends=[S.t, R.t], taken=[S.step_count, R.step_count], integrator=how, **wit)
    mon.see("pieces", how, int(act.sum()), i % 2)


@kind("wrapper", 4, 40)
def wrapper(rng, mon, i):
    """the wrapper with options left out"""
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import KelvinHelmholtz2D
    from fvhoe.scripting import EulerSolver_wrapper

    p = int(rng.integers(0, 3))
    kw = dict(nx=8, ny=6 + int(rng.integers(3)), px=p, py=int(rng.integers(0, p + 1)), progress_bar=False, CFL=0.5)
    full = dict(ic=KelvinHelmholtz2D(), bc=BoundaryCondition(), T=1.0, integrator=-1, n_snapshots=2, overwrite=False, summary_parent_dir=None)
    T = float(rng.uniform(0.02, 0.06))
    drop = [["integrator", "n_snapshots"], ["integrator", "ic"], ["n_snapshots", "bc"], ["T", "integrator"]][i % 4] + ["overwrite", "summary_parent_dir"]
    if "T" not in drop:
        full["T"] = T
    else:
        kw.update(nx=4, ny=4)
    res = []
    with tempfile.TemporaryDirectory() as tmp:
        a, b = quiet()
        with a, b, np.errstate(all="ignore"):
            res.append(EulerSolver_wrapper("a", os.path.join(tmp, "1"), **{k: v for k, v in full.items() if k not in drop}, **kw))
            res.append(EulerSolver_wrapper("a", os.path.join(tmp, "2"), **full, **kw))
        names = [sorted(os.listdir(os.path.join(tmp, d))) for d in "12"]
    wit = dict(omitted=drop, options=str(kw))
    diff = difference(*res)
    mon.event("wrapper defaults", len(drop) - 2)
    mon.check(diff is None, "the wrapper with options left out is not the wrapper at its documented defaults", difference=diff, **wit)
    mon.check(names[0] == names[1], "the wrapper stores the same simulation under two names", names=names, **wit)
    # and against the solver itself
    from fvhoe.solver import EulerSolver

    with np.errstate(all="ignore"):
        S = EulerSolver(w0=KelvinHelmholtz2D(), **kw)
        S.run(T=full["T"], downbeats=[0.0, full["T"]])
    diff = difference(res[0], S)
    mon.check(diff is None, "the wrapper with options left out does not run the documented simulation", difference=diff, **wit)
    mon.see("wrapper", i % 4, p)
