"""C04 time integrators"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C04"
LEVEL = "exploration"
RULE = (
    "random right-hand sides f(t, u) integrated by subclasses of the code's ODE class; "
    "every evaluation (time, state) is recorded and replayed from the Butcher tableau. "
    "distinct by integrator, shape of the state, kind of right-hand side and schedule"
)
ASSUMPTIONS = [
    "a step is compared with its Butcher tableau up to 1e-11 of the state's magnitude",
    "global order measured between two resolved step sizes may fall short by 0.35",
]
REQUIRE = {"steps replayed": 500, "orders measured": 40, "solver stages observed": 100}
KINDS, kind = registry()
ORDER = {"euler": 1, "ssprk2": 2, "ssprk3": 3, "rk4": 4}
NAMES = list(ORDER)
CS = {k: [sum(r) for r in A] for k, (A, b) in ref.TABLEAU.items()}


def make(fn, u0, dts):
    """ODE subclass that records evaluations; dts: callable(t, u) -> step size"""
    from fvhoe.ode import ODE

    class Probe(ODE):
        def __init__(self):
            super().__init__(np.array(u0, dtype=float), progress_bar=False)
            self.evals = []
            self.steps = []

        def f(self, t, u):
            uu = np.array(u, dtype=float)
            k = fn(t, uu)
            self.evals.append((float(t), uu, np.array(k)))
            return dts(t, uu), k.copy()

        def snapshot(self):
            self.steps.append((self.t, np.array(self.am("u")), len(self.evals)))
            super().snapshot()

    return Probe()


def rand_rhs(rng, shape, which):
    size = int(np.prod(shape))
    A = rng.normal(size=(size, size)) / np.sqrt(size)
    w = rng.uniform(0.5, 3, size=size)
    ph = rng.uniform(0, 6, size=size)
    b = rng.normal(size=size)

    def fn(t, u):
        v = u.reshape(-1)
        if which == "linear":
            r = A @ v
        elif which == "time":
            r = b * np.cos(w * t + ph) + t * b
        elif which == "forced":
            r = A @ v + b * np.sin(w * t + ph)
        elif which == "nonlinear":
            r = np.sin(A @ v) + 0.3 * np.cos(t * w) * v
        else:
            r = -v * np.exp(-t) + np.tanh(b * t) * (A @ v)
        return r.reshape(shape)

    return fn


RHS = ["linear", "time", "forced", "nonlinear", "decaying"]


def replay(mon, P, fn, name, shape, msg):
    """compare consecutive logged states with one tableau step"""
    A, b = ref.TABLEAU[name]
    s = len(b)
    mon.check(len(P.evals) == s * (len(P.steps) - 1), f"{msg}: evaluations per step",
              got=len(P.evals), steps=len(P.steps) - 1, expected=s)
    for (t0, u0, n0), (t1, u1, n1) in zip(P.steps[:-1], P.steps[1:]):
        dt = t1 - t0
        ev = P.evals[n0:n1]
        if not mon.check(len(ev) == s, f"{msg}: stages in a step", got=len(ev), expected=s):
            return
        sc = max(np.abs(u0).max(), np.abs(u1).max(), 1e-3)
        for j, (te, ue, ke) in enumerate(ev):
            mon.close(te, t0 + CS[name][j] * dt, 1e-12, f"{msg}: time of a stage",
                      scale=max(1.0, abs(t0) + abs(dt)), integrator=name, stage=j)
            want = u0
            for a, (_, _, kk) in zip(A[j], ev):
                want = want + dt * a * kk
            mon.close(ue, want, 1e-11, f"{msg}: state of a stage", scale=sc,
                      integrator=name, stage=j)
        want = ref.rk_step(fn, t0, u0, dt, name)
        mon.event("steps replayed")
        mon.close(u1, want, 1e-11, f"{msg}: step differs from its tableau", scale=sc,
                  integrator=name)


@kind("tableau replay", 200, 3000)
def tableau(rng, mon, i):
    """random systems, step sizes and schedules; every stage observed"""
    name = NAMES[i % 4]
    which = RHS[(i // 4) % 5]
    shape = tuple(int(rng.integers(1, 4)) for _ in range(int(rng.integers(1, 5))))
    u0 = rng.normal(size=shape)
    fn = rand_rhs(rng, shape, which)
    base = float(rng.choice([0.01, 0.05, 0.2]))
    vary = rng.random() < 0.5
    P = make(fn, u0, lambda t, u: base * (1 + 0.5 * np.sin(7 * t)) if vary else base)
    mode = int(rng.integers(3))
    if mode == 0:
        for _ in range(4):
            getattr(P, name)(n=1)
        # every run logs its start and its end
        P.steps = P.steps[:1] + P.steps[1::2]
    elif mode == 1:
        getattr(P, name)(T=base * float(rng.uniform(2, 6)), log_every_step=True)
    else:
        T = base * float(rng.uniform(3, 6))
        getattr(P, name)(T=T, log_every_step=True, downbeats=sorted(rng.uniform(0, T, 3)))
    replay(mon, P, fn, name, shape, "random system")
    mon.see(name, which, len(shape), mode, vary)
    mon.sample = dict(integrator=name, rhs=which, shape=list(shape), steps=len(P.steps) - 1)


@kind("order of accuracy", 60, 600)
def order(rng, mon, i):
    """global error against a fine reference solution on two step sizes"""
    name = NAMES[i % 4]
    which = RHS[(i // 4) % 5]
    shape = (int(rng.integers(1, 4)),)
    u0 = rng.normal(size=shape)
    fn = rand_rhs(rng, shape, which)
    T = 1.0
    N = {"euler": 256, "ssprk2": 64, "ssprk3": 32, "rk4": 16}[name]
    from scipy.integrate import solve_ivp

    sol = solve_ivp(lambda t, y: fn(t, y.reshape(shape)).ravel(), (0, T), u0.ravel(),
                    rtol=1e-12, atol=1e-13, method="DOP853")
    exact = sol.y[:, -1].reshape(shape)
    errs = []
    for n in (N // 2, N, 2 * N, 4 * N):
        P = make(fn, u0, lambda t, u: T / n)
        getattr(P, name)(n=n)
        mon.check(len(P.evals) == n * len(CS[name]), "evaluations per step", got=len(P.evals))
        errs.append(np.abs(np.array(P.am("u")) - exact).max())
    floor = 1e-10 * max(1, np.abs(exact).max())
    # the error may change sign between two step sizes: the best pair counts
    pairs = [(a, b) for a, b in zip(errs, errs[1:]) if b > floor]
    if not pairs:
        mon.event("exact to rounding")
        return
    q = max(np.log2(a / b) for a, b in pairs)
    if q <= ORDER[name] - 0.35 and len(pairs) < 3:
        # a single pair next to the accuracy of the reference solution decides nothing
        mon.event("exact to rounding")
        mon.check(errs[0] < 1e-7 * max(1, np.abs(exact).max()), "integrator is inaccurate", integrator=name, errors=errs)
        return
    mon.event("orders measured")
    mon.check(q > ORDER[name] - 0.35, "observed order of the integrator is too low",
              integrator=name, order=q, design=ORDER[name], rhs=which, errors=errs)
    mon.see(name, which, "order")
    mon.sample = dict(integrator=name, rhs=which, order=round(float(q), 2))


@kind("default integrator", 60, 300)
def default(rng, mon, i):
    """run() takes the integrator of order max(p) + 1, at most 4"""
    dims = work.ALL_DIMS[i % 7]
    act = [ref.AX[c] for c in dims]
    p = [0, 0, 0]
    for d in act:
        p[d] = int(rng.integers(0, 7 if len(dims) < 3 else 4))
    if i < 27:
        p = [0, 0, 0]
        p[(i // 9) % 3] = i % 9
        dims = "xyz"[(i // 9) % 3]
    cfg = work.rand_cfg(rng, dims=dims, p=tuple(p), bcs=("periodic",), limiting=False, passives=0, cells=1500)
    if i % 5 == 3 and len(dims) > 1:  # the direction of the highest degree has a single cell
        n, p = list(cfg["n"]), list(cfg["p"])
        d = act[int(rng.integers(len(act)))]
        p[d] = max(p) + 1
        n = [1 if e == d else max(n[e], work.need(p)[e]) if e in act else 1 for e in range(3)]
        cfg["n"], cfg["p"] = tuple(n), tuple(p)
    u = work.rand_state(rng, cfg, style="smooth")
    S = work.build(cfg, u)
    calls = []
    inner = S.f

    def f(t, v):
        out = inner(t, v)
        calls.append((float(t), np.array(v), out[1].copy()))
        return out

    S.f = f
    S.run(n=1)
    q = min(max(cfg["p"]), 3) + 1
    mon.check(len(calls) == q, "order chosen by the default run", stages=len(calls), p=p, expected=q)
    name = NAMES[q - 1]
    dt = S.t
    un = work.state(S)
    want = u
    A, b = ref.TABLEAU[name]
    if len(calls) == q:
        for bi, (_, _, k) in zip(b, calls):
            want = want + dt * bi * k
        mon.close(un, want, 1e-11, "default step differs from its tableau", scale=np.abs(u).max(), p=p)
        for j, (te, ue, ke) in enumerate(calls):
            mon.close(te, CS[name][j] * dt, 1e-12, "stage time of the default step", scale=1.0, p=p)
    mon.event("steps replayed")
    mon.see("default", tuple(p))


@kind("stages of solver runs", 60, 600)
def stages(rng, mon, i):
    """the solver's own steps, limiting included, equal their tableau"""
    name = NAMES[i % 4]
    cfg = work.rand_cfg(rng, pmax=5, cells=1500)
    cfg["CFL"] = 0.3
    u = work.rand_state(rng, cfg)
    S = work.build(cfg, u)
    calls = []
    inner = S.f

    def f(t, v):
        out = inner(t, v)
        calls.append((float(t), np.array(v), np.array(out[1]), float(out[0])))
        return out

    S.f = f
    t, un = 0.0, u
    A, b = ref.TABLEAU[name]
    for k in range(2):
        del calls[:]
        work.advance(S, name, n=1)
        if not mon.check(len(calls) == len(b), "stages per solver step", got=len(calls), integrator=name):
            return
        dt = calls[0][3]
        new = work.state(S)
        work.finite_or_stop(new)
        mon.close(S.t, t + dt, 1e-13, "time after a step", scale=max(1e-12, S.t), integrator=name)
        for j, (te, ue, ke, _) in enumerate(calls):
            want = un
            for a, c in zip(A[j], calls):
                want = want + dt * a * c[2]
            mon.event("solver stages observed")
            mon.close(te, t + CS[name][j] * dt, 1e-12, "time of a solver stage", scale=max(S.t, 1e-12), stage=j, integrator=name)
            mon.close(ue, want, 1e-11, "state of a solver stage", scale=np.abs(un).max(), stage=j, integrator=name)
        want = un
        for bi, c in zip(b, calls):
            want = want + dt * bi * c[2]
        mon.close(new, want, 1e-11, "solver step differs from its tableau", scale=np.abs(un).max(), integrator=name)
        t, un = S.t, new
    mon.see("solver", name, *work.key(cfg)[:4])


@kind("time-dependent boundaries", 60, 600)
def boundaries(rng, mon, i):
    """prescribed boundary functions are evaluated at the time of each stage"""
    name = NAMES[i % 4]
    dims = work.ALL_DIMS[(i // 4) % 7]
    act = [ref.AX[c] for c in dims]
    lim = bool(i % 3 == 0)
    cfg = work.rand_cfg(rng, dims=dims, pmax=4 if len(dims) < 3 else 2, bcs=("periodic",),
                        limiting=lim, passives=int(rng.integers(0, 2)), cells=1200)
    if max(cfg["p"]) == 0:
        cfg["lim"] = None
    cfg["CFL"] = 0.3
    d = act[int(rng.integers(len(act)))]
    seen = []
    w0 = np.array([1.0, 0.2, -0.1, 0.3, 1.0] + [0.4] * len(cfg["passives"]))

    def value(x, y, z, t):
        seen.append(float(t))
        w = w0.reshape(-1, 1, 1, 1) * np.ones((1,) + x.shape)
        w[0] = 1 + 0.1 * np.sin(5 * t)
        return ref.cons(w, cfg["gamma"])

    side = int(rng.integers(2))
    other = {"type": "free"}
    spec = {"type": "dirichlet", "value": value}
    cfg["bc"]["xyz"[d]] = (spec, other) if side == 0 else (other, spec)
    w = np.empty((len(w0),) + cfg["n"])
    w[...] = w0.reshape(-1, 1, 1, 1)
    w[0] *= 1 + work.smooth_field(rng, cfg, 0.1)
    S = work.build(cfg, ref.cons(w, cfg["gamma"]))
    calls = []
    inner = S.f

    def f(t, v):
        k = len(seen)
        out = inner(t, v)
        calls.append((float(t), seen[k:]))
        return out

    S.f = f
    for k in range(2):
        del calls[:]
        t0 = float(S.t)
        work.advance(S, name, n=1)
        dt = float(S.t) - t0
        mon.check(len(calls) == len(CS[name]), "stages per step", integrator=name, got=len(calls))
        for j, (te, times) in enumerate(calls[: len(CS[name])]):
            want = t0 + CS[name][j] * dt
            mon.event("solver stages observed")
            mon.check(len(times) > 0, "the boundary function was not evaluated in a stage", integrator=name, stage=j)
            mon.close(np.array(times), np.full(len(times), want), 1e-12,
                      "time passed to a boundary function", scale=max(S.t, 1e-12), integrator=name, stage=j, dims=dims, limited=lim)
    mon.see("bc", name, dims, d, side, lim)
    mon.sample = dict(integrator=name, dims=dims, limited=lim, boundary_calls=len(seen))
