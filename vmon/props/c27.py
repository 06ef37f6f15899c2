"""C27 scripting wrapper"""

import contextlib
import hashlib
import io
import os
import pickle

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C27"
LEVEL = "exploration"
RULE = (
    "sequences of wrapper calls (repeated, reordered, overwriting, with one parameter changed at a time, with summary plots) "
    "in scratch directories, compared with direct solver runs and with digests of everything on disk. "
    "distinct by integrator, number of snapshots, kind of call and changed parameter"
)
ASSUMPTIONS = ["parameter lists are short enough for a directory name (255 characters)", "rendering of figures to files is replaced by a recorder in most cases"]
REQUIRE = {"wrapper runs compared": 20, "re-reads": 20, "overwrites": 15, "parameters told apart": 40, "summary plots": 40, "integrators refused": 40}
KINDS, kind = registry()
METHOD = {-1: "run", 1: "euler", 2: "ssprk2", 3: "ssprk3", 4: "rk4"}


def quiet():
    return contextlib.redirect_stdout(io.StringIO())


def digest(root):
    out = {}
    for base, _, files in os.walk(root):
        for f in files:
            p = os.path.join(base, f)
            with open(p, "rb") as g:
                out[os.path.relpath(p, root)] = hashlib.sha1(g.read()).hexdigest()
    return out


def same_snaps(a, b):
    if len(a) != len(b):
        return False
    for s, r in zip(a, b):
        if set(s) != set(r) or not (s["t"] == r["t"] or (s["t"] != s["t"] and r["t"] != r["t"])):
            return False
        for k in s:
            if k != "t" and not np.array_equal(np.asarray(s[k]), np.asarray(r[k]), equal_nan=True):
                return False
    return True


def rand_problem(rng):
    """initial condition, boundary and solver parameters of a small problem"""
    import fvhoe.initial_conditions as ics
    from fvhoe.boundary_conditions import BoundaryCondition

    which = work.pick(rng, ["kh", "sod", "square", "sine"])
    kw = dict(progress_bar=False, CFL=float(work.pick(rng, [0.2, 0.3, 0.5])))
    bc = None
    if which == "kh":
        ic = None if rng.random() < 0.5 else ics.KelvinHelmholtz2D()
        kw.update(nx=int(rng.integers(6, 10)), ny=int(rng.integers(6, 10)), px=int(rng.integers(0, 3)), py=int(rng.integers(0, 3)))
    elif which == "sod":
        ic = ics.ShockTube()
        ic = ics.ShockTube()
        kw.update(nx=int(rng.integers(10, 20)), px=int(rng.integers(0, 4)), gamma=1.4)
        bc = BoundaryCondition(x="free")
    else:
        ic = ics.Square() if which == "square" else ics.Sinus()
        kw.update(nx=int(rng.integers(6, 10)), ny=int(rng.integers(6, 10)), px=int(rng.integers(0, 3)), py=int(rng.integers(0, 3)))
    if rng.random() < 0.5:
        kw["a_posteriori_slope_limiting"] = True
        if rng.random() < 0.5:
            kw["slope_limiter"] = "moncen"
        if rng.random() < 0.3:
            kw["PAD"] = {"rho": (0.0, np.inf), "P": (0.0, np.inf)}
    if rng.random() < 0.3:
        kw["riemann_solver"] = "llf"
    if rng.random() < 0.3:
        kw["snapshots_as_fv_averages"] = False
    return which, ic, bc, kw


def call(ic, bc, kw, **over):
    from fvhoe.scripting import EulerSolver_wrapper

    args = dict(kw)
    if ic is not None:
        args["ic"] = ic
    if bc is not None:
        args["bc"] = bc
    args.update(over)
    with quiet(), np.errstate(all="ignore"):
        return EulerSolver_wrapper(**args)


def direct(ic, bc, kw, T, integrator, m):
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.initial_conditions import KelvinHelmholtz2D
    from fvhoe.solver import EulerSolver

    with quiet(), np.errstate(all="ignore"):
        S = EulerSolver(w0=ic or KelvinHelmholtz2D(), bc=bc or BoundaryCondition(), **kw)
        getattr(S, METHOD[integrator])(T=T, downbeats=np.linspace(0, T, m))
    work.finite_or_stop(work.state(S))  # a run that breaks down is not a valid workload
    return S


def end_time(ic, bc, kw, rng):
    """an end time a few steps away"""
    S = direct(ic, bc, kw, 0.0, 1, 2)
    with quiet(), np.errstate(all="ignore"):
        S.euler(n=1)
    return float(np.float64(rng.uniform(1.2, 4.5) * S.t))


@contextlib.contextmanager
def recorder(shots):
    """figures are recorded instead of rendered"""
    from matplotlib.figure import Figure

    old = Figure.savefig

    def savefig(self, fname, *a, **k):
        axes = self.axes
        im = [np.array(i.get_array(), dtype=float) for ax in axes for i in ax.get_images()]
        shots.append((os.fspath(fname), im, [list(i.get_extent()) for ax in axes for i in ax.get_images()]))
        with open(fname, "wb") as f:
            f.write(b"figure")

    Figure.savefig = savefig
    try:
        yield
    finally:
        Figure.savefig = old
        import matplotlib.pyplot as plt

        plt.close("all")


@kind("sequences", 50, 300)
def sequences(rng, mon, i):
    root = os.path.join(mon.scratch, "snaps")
    which, ic, bc, kw = rand_problem(rng)
    integrator = [-1, 1, 2, 3, 4][i % 5]
    m = int(rng.integers(2, 6))
    T = end_time(ic, bc, kw, rng)
    base = dict(project_pref="proj", snapshot_parent_dir=root, T=T, integrator=integrator, n_snapshots=m)
    os.makedirs(root)
    with open(os.path.join(root, "bystander.txt"), "w") as f:
        f.write("keep")
    os.makedirs(os.path.join(root, "proj_other"))
    with open(os.path.join(root, "proj_other", "arrs.pkl"), "wb") as f:
        f.write(b"not a pickle")
    old = set(os.listdir(root))
    R = direct(ic, bc, kw, T, integrator, m)
    S = call(ic, bc, kw, **base)
    what = f"{which}/{integrator}/{m}"
    mon.see("seq/" + what)
    mon.check(same_snaps(S.snapshots, R.snapshots), "the wrapper's snapshots differ from a direct run's", problem=what,
              times=str([s["t"] for s in S.snapshots]), want=str([s["t"] for s in R.snapshots]), kw=str(kw))
    mon.check([s["t"] for s in S.snapshots] == [float(v) for v in np.linspace(0, T, m)], "the snapshots are not evenly spaced over the run",
              times=str([s["t"] for s in S.snapshots]), T=T, n=m)
    mon.check(S.t == T and S.step_count == R.step_count and np.array_equal(work.state(S), work.state(R)), "the returned solver did not run the requested simulation", t=S.t, T=T)
    mon.event("wrapper runs compared")
    new = set(os.listdir(root)) - old
    mon.check(len(new) == 1, "the run is not saved under one directory", new=str(sorted(new)))
    if mon.violations:
        return
    d = os.path.join(root, new.pop())
    mon.check(os.path.basename(d).startswith("proj"), "the directory does not carry the project's name", directory=d)
    with open(os.path.join(d, "arrs.pkl"), "rb") as f:
        mon.check(same_snaps(pickle.load(f), R.snapshots), "the saved snapshots differ from the run's")
    for k in range(int(rng.integers(2, 5))):
        before = digest(root)
        op = work.pick(rng, ["again", "again", "reordered", "overwrite"])
        mon.see(f"seq/{op}/{integrator}")
        if op == "overwrite":
            S = call(ic, bc, kw, overwrite=True, **base)
            mon.event("overwrites")
            mon.check(S.t == T and S.step_count == R.step_count, "with overwriting nothing is computed", t=S.t, steps=S.step_count)
            a, b = digest(root), dict(before)
            timing = os.path.relpath(os.path.join(d, "timing.txt"), root)
            attrs = os.path.relpath(os.path.join(d, "attrs.json"), root)
            for p in (timing, attrs):  # these hold times
                mon.check((p in a) == (p in b), "overwriting leaves other files", missing=p)
                a.pop(p, None), b.pop(p, None)
            mon.check(a == b, "overwriting with the same run changes files", changed=str([p for p in set(a) | set(b) if a.get(p) != b.get(p)]))
        else:
            if op == "reordered":
                kw2 = {q: kw[q] for q in rng.permutation(list(kw))}
                S = call(ic, bc, kw2, **base)
            else:
                S = call(ic, bc, kw, **base)
            mon.event("re-reads")
            mon.check(S.step_count == 0, "a saved run is computed again instead of being re-read", steps=S.step_count, call=op)
            mon.check(digest(root) == before, "re-reading changes the files", call=op)
        mon.check(same_snaps(S.snapshots, R.snapshots), "a later call returns other snapshots", call=op)
    # a re-read run is really read, not recomputed or cached
    with open(os.path.join(d, "arrs.pkl"), "rb") as f:
        snaps = pickle.load(f)
    snaps[-1]["w"] = snaps[-1]["w"] + 1.0
    with open(os.path.join(d, "arrs.pkl"), "wb") as f:
        pickle.dump(snaps, f)
    S = call(ic, bc, kw, **base)
    mon.check(same_snaps(S.snapshots, snaps), "re-reading does not return what is saved")
    S = call(ic, bc, kw, overwrite=True, **base)
    mon.check(same_snaps(S.snapshots, R.snapshots), "overwriting returns old data")


@kind("names", 40, 300)
def names(rng, mon, i):
    """one parameter changed at a time: separate directories, nothing shared"""
    root = os.path.join(mon.scratch, "snaps")
    which, ic, bc, kw = rand_problem(rng)
    kw["CFL"] = 0.5
    kw.pop("PAD", None)
    T = end_time(ic, bc, kw, rng)
    base = dict(kw, project_pref="proj", snapshot_parent_dir=root, T=T, integrator=int(rng.choice([1, 2])), n_snapshots=2)
    variants = [
        dict(project_pref="proj2"), dict(T=T * 1.25), dict(T=float(np.nextafter(T, 1e9))), dict(integrator=3), dict(integrator=-1), dict(n_snapshots=3), dict(CFL=0.4),
        dict(nx=kw["nx"] + 1), dict(px=kw["px"] + 1), dict(gamma=1.3), dict(riemann_solver="llf" if kw.get("riemann_solver") != "llf" else "hllc"),
        dict(snapshots_as_fv_averages=not kw.get("snapshots_as_fv_averages", True)), dict(csq_floor=1e-9),
        dict(a_posteriori_slope_limiting=not kw.get("a_posteriori_slope_limiting", False)), dict(SED=False), dict(NAD=0.02), dict(NAD_mode="local"), dict(x=(0, 2)), dict(x=(0, 1.5)), dict(fixed_dt=T / 3),
        dict(PAD={"rho": (0.0, np.inf)}), dict(PAD={"rho": (1e-9, np.inf)}), dict(CFL=0.5000000001),
        dict(CFL=float(np.nextafter(0.5, 1))), dict(gamma=float(np.nextafter(kw.get("gamma", 5 / 3), 2))), dict(CFL=0.5 - 1e-12),
        dict(slope_limiter=None), dict(NAD_vars=("rho",)), dict(SED_tolerance=1e-9), dict(z=(0, 3)), dict(px=kw["px"] + 2),
    ]
    if "ny" in kw:
        variants += [dict(ny=kw["ny"] + 1), dict(py=kw["py"] + 1), dict(nx=kw["ny"], ny=kw["nx"]) if kw["nx"] != kw["ny"] else dict(ny=kw["ny"] + 2), dict(nx=kw["nx"] + 1, ny=kw["ny"] + 1)]
    chosen = [variants[int(v)] for v in rng.permutation(len(variants))[:5]]
    known = {}
    call(ic, bc, base)
    seen = set(os.listdir(root))
    mon.check(len(seen) == 1, "a run is not saved under one directory", names=str(seen))
    for v in chosen:
        before = digest(root)
        S = call(ic, bc, {**base, **v})
        now = set(os.listdir(root))
        mon.event("parameters told apart")
        mon.see(f"name/{sorted(v)}")
        mon.check(len(now - seen) == 1 and S.step_count > 0, "runs with different parameters share a directory", changed=str(v), new=str(now - seen))
        after = digest(root)
        mon.check(all(after.get(p) == h for p, h in before.items()), "another run's files are changed", changed=str(v))
        known[str(v)] = (v, S.snapshots)
        seen = now
    for v, snaps in known.values():
        S = call(ic, bc, {**base, **v})
        mon.check(S.step_count == 0 and same_snaps(S.snapshots, snaps), "a saved run is not found again", changed=str(v))
        mon.event("re-reads")
    mon.check(set(os.listdir(root)) == seen, "re-reading creates directories")


@kind("plots", 20, 150)
def plots(rng, mon, i):
    root = os.path.join(mon.scratch, "snaps")
    summ = os.path.join(mon.scratch, "summaries")
    which, ic, bc, kw = rand_problem(rng)
    while "ny" not in kw:
        which, ic, bc, kw = rand_problem(rng)
    m = int(rng.integers(2, 7))
    T = end_time(ic, bc, kw, rng)
    if i % 3 == 1:
        # snapshots that lie very close in time
        T *= float(10 ** rng.uniform(-10, -2))
    integrator = int(rng.choice([-1, 1, 2, 3, 4]))
    base = dict(kw, project_pref="proj", snapshot_parent_dir=root, summary_parent_dir=summ, T=T, integrator=integrator, n_snapshots=m)
    shots = []
    real = mon.tier == "thorough" and i % 10 == 0
    R = direct(ic, bc, kw, T, integrator, m)
    with contextlib.nullcontext() if real else recorder(shots):
        S = call(ic, bc, base)
        files = [os.path.join(b, f) for b, _, fs in os.walk(summ) for f in fs]
        mon.see(f"plots/{which}/{m}/{integrator}")
        mon.check(len(files) == m, "not one summary plot per snapshot", files=str([os.path.basename(f) for f in files]), snapshots=m, T=T)
        mon.event("summary plots", len(files))
        if not real:
            mon.check(len(shots) == m and sorted(s[0] for s in shots) == sorted(files), "not one summary plot per snapshot", saved=len(shots), snapshots=m)
            for s, (path, im, ext) in zip(S.snapshots, shots):
                want = s["w"][0, :, :, 0]
                mon.check(len(im) == 1 and any(np.array_equal(im[0], a) for a in (want.T, np.rot90(want))), "a summary plot does not show its snapshot's density",
                          t=s["t"], path=os.path.basename(path))
        mon.check(same_snaps(S.snapshots, R.snapshots), "summary plots change the run")
        # a saved run is re-read, with or without plots
        before = digest(summ)
        n = len(shots)
        S = call(ic, bc, base)
        mon.check(S.step_count == 0 and same_snaps(S.snapshots, R.snapshots), "a saved run is not re-read")
        mon.check(digest(summ) == before, "re-reading changes the summary plots", plots=len(shots) - n)
        mon.event("re-reads")
    import matplotlib.pyplot as plt

    plt.close("all")


@kind("refusals", 10, 100)
def refusals(rng, mon, i):
    root = os.path.join(mon.scratch, "snaps")
    which, ic, bc, kw = rand_problem(rng)
    T = end_time(ic, bc, kw, rng)
    for bad in [0, 5, -2, "rk4", None, 2.5, 6, 10, "1", (1,)]:
        try:
            S = call(ic, bc, kw, project_pref="proj", snapshot_parent_dir=root, T=T, integrator=bad)
        except Exception:
            mon.event("integrators refused")
            mon.see(f"refused/{bad}")
            mon.check(not os.path.exists(root) or not os.listdir(root), "a refused run leaves files", integrator=str(bad))
            continue
        mon.violate("an unknown integrator is accepted", integrator=str(bad), steps=S.step_count)
