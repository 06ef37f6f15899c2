"""C05 schedule of a run"""

import math

import numpy as np

from vmon import ref, work
from vmon.core import registry, TooManySteps

PID = "C05"
LEVEL = "exploration"
RULE = (
    "random schedules (end times, unsorted/duplicate/past/array-valued output times, step "
    "sizes from hostile to comfortable, repeated runs on one solver) traced step by step "
    "and checked against a schedule specification. distinct by schedule features, "
    "integrator, system"
)
ASSUMPTIONS = [
    "times are compared exactly (output times are reached bit for bit)",
    "a run may take at most its logical step budget (bounded progress)",
]
REQUIRE = {"output times reached": 500, "steps traced": 5000, "continued runs": 100, "long lists of output times": 30}
KINDS, kind = registry()
NAMES = ["euler", "ssprk2", "ssprk3", "rk4"]


def probe(dts, limit=20000):
    from fvhoe.ode import ODE

    class Probe(ODE):
        def __init__(self):
            super().__init__(np.array([1.0]), progress_bar=False)
            self.trace = []  # ("step", t_before, t_after, natural dt) and ("snap", t)
            self.natural = None
            self.fresh = True
            self.count = 0

        def f(self, t, u):
            self.count += 1
            if self.count > limit:
                raise TooManySteps(f"{limit} evaluations without reaching the end time")
            dt = dts(t, self.count)
            if self.fresh:
                self.natural = dt
                self.t_before = self.t
                self.fresh = False
            return dt, 0.0 * u

        def step_helper_function(self):
            self.trace.append(("step", self.t_before, self.t, self.natural))
            self.fresh = True
            super().step_helper_function()

        def snapshot(self):
            self.trace.append(("snap", self.t))
            super().snapshot()

    return Probe()


def rand_times(rng, t0, T, k):
    """hostile output times in, before and after (t0, T]"""
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.45:
            out.append(float(rng.uniform(t0, T)))
        elif r < 0.6:
            out.append(float(t0 + (T - t0) * int(rng.integers(0, 11)) / 10))
        elif r < 0.7 and out:
            out.append(out[int(rng.integers(len(out)))])
        elif r < 0.78 and out:
            out.append(float(np.nextafter(out[-1], T)))
        elif r < 0.85:
            out.append(float(t0))
        elif r < 0.9:
            out.append(float(t0 - rng.uniform(0, 1)))
        elif r < 0.95:
            out.append(float(T + rng.uniform(0, 1)))
        else:
            out.append(float(T))
    return out


def verify(mon, trace, snap_times, t0, T, targets, exact, every, msg_extra):
    """the specification of one run to an end time"""
    steps = [e for e in trace if e[0] == "step"]
    t = t0
    for _, a, b, nat in steps:
        mon.event("steps traced")
        mon.check(a == t, "a step does not start where the last one ended", a=a, t=t, **msg_extra)
        mon.check(b > a, "time does not increase in a step", a=a, b=b, **msg_extra)
        t = b
    want = sorted({x for x in targets if t0 < x <= T} | ({T} if T > t0 else set()))
    if exact:
        reached = {b for _, _, b, _ in steps}
        for x in want:
            mon.event("output times reached")
            mon.check(x in reached, "an output time was not reached exactly", x=x, t0=t0, T=T, **msg_extra)
        # a step is natural or ends on the next target
        for _, a, b, nat in steps:
            nxt = next((x for x in want if x > a), None)
            mon.check(nxt is None or b <= nxt, "a step passes an output time", a=a, b=b, nxt=nxt, **msg_extra)
            if b != nxt:
                mon.check(b == a + nat, "a step was changed although it reaches no output time",
                          a=a, b=b, natural=nat, **msg_extra)
            else:
                mon.check(b - a <= nat * (1 + 1e-12) + 4 * np.spacing(abs(b)),
                          "a step was lengthened", a=a, b=b, natural=nat, **msg_extra)
        if T > t0:
            mon.check(t == T, "the run does not end at the end time", t=t, T=T, **msg_extra)
        else:
            mon.check(not steps, "steps were taken although the end time was reached", T=T, **msg_extra)
    else:
        for _, a, b, nat in steps:
            mon.check(b == a + nat, "a step was shortened without exact stopping", a=a, b=b, natural=nat, **msg_extra)
            mon.check(a < T, "a step was taken past the end time", a=a, T=T, **msg_extra)
        mon.check(t >= T or not (T > t0), "the run ends before the end time", t=t, T=T, **msg_extra)
    # snapshots: one at the start, one per target (or step), one at the end
    snaps = [e[1] for e in trace if e[0] == "snap"]
    mon.check(list(snap_times) == snaps, "recorded snapshot times differ from the snapshots taken",
              recorded=list(snap_times)[:10], taken=snaps[:10], **msg_extra)
    if every:
        expect = [t0] + [b for _, _, b, _ in steps]
    elif exact:
        expect = [t0] + want
    else:
        expect = [t0] + ([t] if steps else [])
    mon.check(snaps == expect, "snapshots are not one per output time", got=snaps[:12], want=expect[:12], **msg_extra)
    # order of events: snapshot follows the step that reaches it
    now = t0
    for e in trace:
        if e[0] == "step":
            now = e[2]
        else:
            mon.check(e[1] == now, "a snapshot carries another time than the state", snap=e[1], now=now, **msg_extra)


def call(P, name, T, targets, exact, every, rng):
    form = int(rng.integers(4))
    db = targets
    if form == 1:
        db = np.array(targets, dtype=float)
    elif form == 2:
        db = tuple(targets)
    elif form == 3 and not targets:
        db = None
    kw = dict(T=T)
    if not (form == 3 and not targets):
        kw["downbeats"] = db
    if not exact or rng.random() < 0.3:
        kw["exact"] = exact
    if every or rng.random() < 0.3:
        kw["log_every_step"] = every
    keep = list(targets)
    getattr(P, name)(**kw)
    return keep == list(targets)


@kind("schedules", 500, 8000)
def schedules(rng, mon, i):
    """toy system, hostile schedules, several runs in a row"""
    name = NAMES[i % 4]
    scale = float(rng.choice([1e-3, 0.1, 1.0, 7.3, 1e4]))
    base = scale * float(rng.choice([0.01, 0.05, 0.1, 1 / 3, 2.0]))
    style = int(rng.integers(4))
    phase = rng.uniform(0, 6)

    def dts(t, k):
        if style == 0:
            return base
        if style == 1:
            return base * (1.2 + math.sin(9 * t / scale + phase))
        if style == 2:
            return base * (0.05 if k % 7 == 0 else 1.0)
        return base * 10 ** (math.sin(k + phase))

    P = probe(dts)
    runs = int(rng.integers(1, 4))
    for r in range(runs):
        t0 = P.t
        if rng.random() < 0.08:
            T = t0 * (0.5 if rng.random() < 0.5 else 1.0)
        else:
            T = t0 + scale * float(rng.choice([0.1, 0.3, 1.0, rng.uniform(0.01, 1)]))
        exact = rng.random() < 0.8
        every = rng.random() < 0.3
        many = rng.random() < 0.08
        targets = rand_times(rng, t0, max(T, t0 + 1e-9), int(rng.integers(20, 200)) if many else int(rng.integers(0, 8)))
        if many:
            mon.event("long lists of output times")
        k = len(P.trace)
        ks = len(P.snapshot_times)
        nsnap, nst, n0 = len(P.snapshots), P.step_count, len(P.timestamps)
        untouched = call(P, name, T, targets, exact, every, rng)
        mon.check(untouched, "the list of output times was modified")
        tr = P.trace[k:]
        nsteps = sum(e[0] == "step" for e in tr)
        mon.check(P.step_count - nst == nsteps, "step counter", counted=P.step_count - nst, steps=nsteps)
        mon.check(list(P.timestamps[n0:]) == [e[2] for e in tr if e[0] == "step"], "recorded timestamps differ from the steps")
        mon.check(len(P.snapshots) - nsnap == sum(e[0] == "snap" for e in tr), "number of snapshots kept")
        verify(mon, tr, P.snapshot_times[ks:], t0, T, targets, exact, every,
               dict(run=r, integrator=name, exact=exact, every=every))
        if r:
            mon.event("continued runs")
        mon.see(name, style, r, exact, every, min(len(targets), 3), T > t0)
    mon.sample = dict(integrator=name, runs=runs, events=len(P.trace), end=P.t)


@kind("number of steps", 120, 1500)
def counted(rng, mon, i):
    """runs by number of steps take exactly that many full steps"""
    name = NAMES[i % 4]
    dt = float(rng.uniform(0.01, 1))
    P = probe(lambda t, k: dt * (1 + 0.3 * math.sin(k)))
    for r in range(int(rng.integers(1, 4))):
        n = int(rng.integers(0, 9)) if rng.random() < 0.8 else int(rng.integers(20, 400))
        k, ks, t0 = len(P.trace), len(P.snapshot_times), P.t
        kw = dict(n=n)
        if rng.random() < 0.3:
            kw.update(T=float(rng.uniform(0, 1)))
        if rng.random() < 0.2:
            kw.update(downbeats=[float(rng.uniform(0, 3))], log_every_step=True)
        getattr(P, name)(**kw)
        steps = [e for e in P.trace[k:] if e[0] == "step"]
        mon.event("steps traced", len(steps))
        mon.check(len(steps) == n, "number of steps taken", got=len(steps), want=n, kw=str(kw))
        for _, a, b, nat in steps:
            mon.check(b == a + nat, "a step of a counted run was not a full step", a=a, b=b, natural=nat)
        snaps = [e[1] for e in P.trace[k:] if e[0] == "snap"]
        mon.check(snaps == [t0, P.t], "snapshots of a counted run", got=snaps, want=[t0, P.t])
        mon.check(P.snapshot_times[ks:] == snaps, "recorded snapshot times of a counted run")
        if r:
            mon.event("continued runs")
    mon.see("counted", name, n)


@kind("solver schedules", 60, 800)
def solver(rng, mon, i):
    """the same specification on real solver runs"""
    cfg = work.rand_cfg(rng, dims=work.pick(rng, work.ALL_DIMS, p=[0.3, 0.2, 0.2, 0.1, 0.1, 0.05, 0.05]),
                        pmax=3, cells=300, passives=0)
    cfg["CFL"] = float(rng.choice([0.2, 0.5]))
    if cfg["lim"]:
        cfg["lim"]["slope_limiter"] = "minmod"
    w = work.rand_prims(rng, cfg, style="smooth", mach=0.3)
    w[0] = 1 + 0.2 * (w[0] - 1)
    w[4] = 1 + 0.2 * (w[4] - 1)
    S = work.build(cfg, ref.cons(w, cfg["gamma"]))
    work.budget(S, 6000)
    trace = []
    inner_f = S.f
    st = {"fresh": True}

    def f(t, u):
        out = inner_f(t, u)
        if st["fresh"]:
            st.update(fresh=False, t=float(t), dt=float(out[0]))
        return out

    S.f = f
    inner_h = S.step_helper_function

    def helper():
        trace.append(("step", st["t"], S.t, st["dt"]))
        st["fresh"] = True
        inner_h()

    S.step_helper_function = helper
    S.snapshot_helper_function = lambda s: trace.append(("snap", s.t))
    for r in range(int(rng.integers(1, 3))):
        t0 = float(S.t)
        T = t0 + float(rng.uniform(0.02, 0.15))
        exact, every = rng.random() < 0.8, rng.random() < 0.3
        targets = rand_times(rng, t0, T, int(rng.integers(0, 6)))
        k, ks = len(trace), len(S.snapshot_times)
        name = work.pick(rng, NAMES + ["run"])
        call(S, name, T, targets, exact, every, rng)
        verify(mon, trace[k:], S.snapshot_times[ks:], t0, T, targets, exact, every,
               dict(run=r, integrator=name, exact=exact, every=every))
        times = [float(s["t"]) for s in S.snapshots[ks:]]
        mon.check(times == list(S.snapshot_times[ks:]), "times stored in the snapshots", got=times[:6])
        if r:
            mon.event("continued runs")
    mon.see("solver", cfg["dims"], name, exact, every)
