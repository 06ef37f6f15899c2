"""C31 device arrays"""

import contextlib
import io
import os
import subprocess
import sys
import tempfile

import numpy as np

from vmon import fakecupy, ref, work
from vmon.core import registry

cp = fakecupy.install()

PID = "C31"
LEVEL = "exploration"
RULE = (
    "runs with cupy=True on a stand-in for cupy whose arrays numpy cannot reach (mixing host and device arrays raises "
    "as it does in cupy), paired with the same runs on host arrays: all dimensions, degrees, boundaries, limiting "
    "options, integrators, saving, loading and plotting. distinct by configuration and integrator"
)
ASSUMPTIONS = [
    "there is no GPU here: the stand-in follows cupy's rules for mixing arrays, implicit conversion, item assignment "
    "and dispatch of numpy functions, and computes with numpy",
]
REQUIRE = {"runs compared": 150, "device operations": 100000, "prescribed boundaries compared": 40, "array histories": 60,
           "saved device runs": 8, "runs without the library": 3}
KINDS, kind = registry()


def host(v):
    return v._a if isinstance(v, fakecupy.ndarray) else np.asarray(v)


def same(mon, A, B, what, wit):
    """everything a user sees of the two runs"""
    mon.event("runs compared")
    mon.check(A.t == B.t or abs(A.t - B.t) < 1e-13 * abs(A.t), f"{what}: times differ", host=A.t, device=B.t, **wit)
    if not mon.check(len(A.snapshots) == len(B.snapshots), f"{what}: numbers of snapshots differ", **wit):
        return
    for a, b in zip(A.snapshots, B.snapshots):
        if not mon.check(set(a) == set(b), f"{what}: snapshots have different entries", host=sorted(a), device=sorted(b), **wit):
            return
        for k in a:
            if isinstance(a[k], np.ndarray):
                mon.check(type(b[k]) is np.ndarray, f"{what}: a snapshot holds a device array", entry=k, type=str(type(b[k])), **wit)
                mon.check(np.array_equal(np.isnan(a[k]), np.isnan(host(b[k]))), f"{what}: undefined values differ", entry=k, **wit)
                mon.close(np.nan_to_num(host(b[k])), np.nan_to_num(a[k]), 1e-12, f"{what}: {k} of a snapshot", **wit)
            else:
                mon.check(not isinstance(b[k], fakecupy.ndarray), f"{what}: a snapshot holds a device array", entry=k, **wit)
                mon.check(np.isclose(float(a[k]), float(b[k]), rtol=1e-13, atol=0), f"{what}: {k} of a snapshot", host=a[k], device=b[k], **wit)
    ua, ub = A.am("u"), B.am("u")
    mon.check(type(ua) is np.ndarray and isinstance(ub, fakecupy.ndarray), f"{what}: the state is not where it was asked for", types=[str(type(ua)), str(type(ub))], **wit)
    fin = np.isfinite(ua)
    mon.close(np.where(fin, host(ub), 0), np.where(fin, ua, 0), 1e-12, f"{what}: final state", **wit)


def pair(mon, make, act, what, wit):
    n0 = sum(fakecupy.COUNT[k] for k in ("ufunc", "function"))
    A = make(False)
    act(A)
    before = fakecupy.COUNT["ufunc"] + fakecupy.COUNT["function"]
    mon.check(before == n0, f"{what}: a run on host arrays uses the device", **wit)
    B = make(True)
    act(B)
    mon.event("device operations", fakecupy.COUNT["ufunc"] + fakecupy.COUNT["function"] - before)
    same(mon, A, B, what, wit)
    return A, B


@kind("random runs", 160, 3000)
def runs(rng, mon, i):
    cfg = work.rand_cfg(rng, cells=300, pmax=5, limiting=bool(i % 3))
    cfg["CFL"] = float(rng.uniform(0.1, 0.5))
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps"]))
    name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
    over = dict(snapshots_as_fv_averages=bool(rng.random() < 0.5))
    n = int(rng.integers(1, 4))
    log = bool(rng.random() < 0.5)

    def act(S):
        getattr(S, name)(n=n, log_every_step=log)

    wit = dict(integrator=name, cfg=str(work.describe(cfg)))
    with np.errstate(all="ignore"):
        pair(mon, lambda c: work.build(cfg, u, cupy=c, **over), act, "run", wit)
    mon.see(name, *work.key(cfg))
    mon.sample = wit


@kind("prescribed boundaries", 48, 700)
def prescribed(rng, mon, i):
    """values as host arrays, device arrays, functions of device coordinates, initial conditions, double Mach reflection"""
    from fvhoe import initial_conditions as I
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.solver import EulerSolver

    how = ["host array", "device array", "function", "ic", "ic function", "dmr"][i % 6]
    d = int(rng.integers(3))
    c = "xyz"[d]
    p = int(rng.integers(0, 4))
    kw = {"n" + c: int(rng.integers(8, 14)), "p" + c: p, "progress_bar": False, "CFL": 0.3}
    if rng.random() < 0.4:
        e = "xyz"[(d + 1) % 3]
        kw.update({"n" + e: 8, "p" + e: int(rng.integers(0, 3))})
    if rng.random() < 0.5 and p:
        kw.update(a_posteriori_slope_limiting=True)
    base = ref.cons(np.array([1.0, *rng.uniform(-0.3, 0.3, 3), 1.0]), 5 / 3)
    w0 = work.pick(rng, [I.Sinus(), I.Square(), I.ShockTube()]) if hasattr(I, "ShockTube") else I.Sinus()

    def fn(x, y, z, t):
        s = 1 + 0.05 * np.sin(x + 2 * y - z + 3 * t)
        out = np.empty_like(x, shape=(5,) + tuple(x.shape))
        for k in range(5):
            out[k] = float(base[k]) * s
        return out

    def own(x, y, z):
        # a user's function, written for numpy arrays
        out = np.empty((5,) + x.shape)
        out[0] = 1 + 0.2 * np.sin(2 * np.pi * (x + y + z))
        out[1:4] = 0.1
        out[4] = 1.0
        return out

    def make(dev):
        k = dict(kw)
        if how == "dmr":
            return EulerSolver(w0=I.DoubleMachReflection2D(), nx=16, ny=8, px=p, py=p, x=(0, 2), progress_bar=False, gamma=1.4, cupy=dev, CFL=0.2,
                               a_posteriori_slope_limiting=p > 0,
                               bc=BoundaryCondition(x=("ic", "free"), y=("special-case-double-mach-reflection-y=0", "ic")))
        if how in ("ic", "ic function"):
            return EulerSolver(w0=w0 if how == "ic" else work.raw_ic(own), cupy=dev, bc=BoundaryCondition(**{c: "ic"}), **k)
        val = {"host array": base, "device array": cp.asarray(base) if dev else base, "function": fn}[how]
        sides = [("dirichlet", "free"), ("free", "dirichlet"), ("dirichlet", "dirichlet")][i // 6 % 3]
        vals = tuple(val if s == "dirichlet" else None for s in sides)
        return EulerSolver(w0=w0, cupy=dev, bc=BoundaryCondition(**{c: sides, c + "_value": vals}), **k)

    wit = dict(boundary=how, axis=c, options=str(kw))
    with np.errstate(all="ignore"):
        pair(mon, make, lambda S: S.run(n=2), "prescribed boundary", wit)
    mon.event("prescribed boundaries compared")
    mon.see(how, c, p, "a_posteriori_slope_limiting" in kw)
    mon.sample = wit


@kind("arrays", 80, 1500)
def arrays(rng, mon, i):
    """histories of the array manager on the device"""
    from fvhoe.array_management import ArrayManager

    am = ArrayManager()
    am.enable_cupy()
    model = {}
    for _ in range(int(rng.integers(4, 20))):
        op = work.pick(rng, ["add", "add", "get", "call", "change", "remove"])
        name = work.pick(rng, list("abcd"))
        if op == "add":
            a = rng.normal(size=tuple(rng.integers(1, 4, int(rng.integers(1, 4)))))
            try:
                am.add(name, a)
                mon.check(name not in model, "an array was replaced", name=name)
                model[name] = a.copy()
            except KeyError:
                mon.check(name in model, "an array was refused", name=name)
            a += 1  # the device has its own copy
        elif name not in model:
            try:
                {"get": am.get_numpy, "call": am, "change": am, "remove": am.remove}[op](name)
                mon.check(False, "an unknown array was found", name=name, operation=op)
            except KeyError:
                pass
        elif op == "get":
            b = am.get_numpy(name)
            if mon.check(type(b) is np.ndarray, "get_numpy does not return a host array", type=str(type(b))):
                mon.check(np.array_equal(b, model[name]), "get_numpy returns another array", name=name)
                b += 1  # a copy
        elif op == "call":
            b = am(name)
            if mon.check(isinstance(b, fakecupy.ndarray), "the array is not on the device", type=str(type(b))):
                mon.check(np.array_equal(host(b), model[name]), "the array manager returns another array", name=name)
        elif op == "change":
            am(name)[...] = 7.0
            model[name][...] = 7.0
        else:
            am.remove(name)
            del model[name]
    for name in model:
        mon.check(np.array_equal(am.get_numpy(name), model[name]), "an array changed by itself", name=name)
    mon.event("array histories")
    mon.see("arrays", len(model))


@kind("saved and plotted", 10, 120)
def saved(rng, mon, i):
    """a run on the device is saved, read back and plotted like one on the host"""
    from matplotlib.figure import Figure

    cfg = work.rand_cfg(rng, cells=120, pmax=3, limiting=bool(i % 2))
    cfg["CFL"] = 0.2
    u = work.rand_state(rng, cfg, style="smooth")
    T = float(2.5 * ref.timestep(cfg, u, t=0.0))
    with tempfile.TemporaryDirectory() as tmp:
        old = os.getcwd()
        os.chdir(tmp)
        try:
            def act(S):
                S.run(T=T, snapshot_dir=f"snapshots/{'dev' if S.am.using_cupy else 'host'}", log_every_step=True)

            wit = dict(cfg=str(work.describe(cfg)))
            A, B = pair(mon, lambda c: work.build(cfg, u, cupy=c), act, "saved run", wit)
            for c in (True, False):  # read back into a run of either kind
                C = work.build(cfg, u, cupy=c)
                C.run(T=T, snapshot_dir="snapshots/dev", log_every_step=True)
                mon.check(len(C.snapshots) == len(A.snapshots), "a saved device run is not read back", **wit)
                for a, b in zip(A.snapshots, C.snapshots):
                    mon.check(type(b["w"]) is np.ndarray, "a device array was saved", **wit)
                    mon.close(host(b["w"]), a["w"], 1e-12, "a saved device run reads back differently", **wit)
        finally:
            os.chdir(old)
        d = ref.active(cfg)[0]
        place = {"xyz"[e]: float(A.snapshots[-1]["xyz"[e]][0]) for e in range(3) if e != d}
        ys = []
        for S in (A, B):
            ax = Figure().add_subplot()
            S.plot_1d_slice(ax, "rho", **place)
            ys.append(ax.lines[0].get_ydata())
        mon.close(ys[1], ys[0], 1e-12, "plot of a device run", **wit)
    mon.event("saved device runs")
    mon.see("saved", *work.key(cfg)[:3])


SCRIPT = """
import sys, numpy as np, io, contextlib
from fvhoe.solver import EulerSolver
from fvhoe.initial_conditions import Sinus
r = []
for c in (False, True):
    o = io.StringIO()
    with contextlib.redirect_stdout(o):
        S = EulerSolver(w0=Sinus(), progress_bar=False, cupy=c, %s)
    S.run(n=2)
    r.append((S, o.getvalue()))
(A, a), (B, b) = r
assert type(B.am("u")) is np.ndarray, "array type"
assert all(np.array_equal(A.snapshots[-1][k], B.snapshots[-1][k]) for k in A.snapshots[-1]), "results"
assert "WARNING" in b and "WARNING" not in a, "warning"
print("fine")
"""


@kind("library missing", 3, 12)
def missing(rng, mon, i):
    """without the library a request for it falls back to host arrays, with a warning"""
    opts = ["nx=8, px=1", "nx=8, ny=8, px=2, py=2, a_posteriori_slope_limiting=True", "nz=12, pz=3, a_posteriori_slope_limiting=True, NAD_vars=('rho',)"][i % 3]
    import fvhoe

    root = os.path.dirname(os.path.dirname(os.path.abspath(fvhoe.__file__)))
    with tempfile.TemporaryDirectory() as tmp:
        r = subprocess.run([sys.executable, "-B", "-c", SCRIPT % opts], cwd=tmp, capture_output=True, text=True, timeout=120,
                           env={**os.environ, "PYTHONPATH": root, "MPLBACKEND": "Agg"})
    mon.event("runs without the library")
    mon.check("fine" in r.stdout, "a request for device arrays without the library does not fall back to host arrays", error=r.stderr[-300:], options=opts)
    mon.see("missing", i % 3)
