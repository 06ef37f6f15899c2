"""C26 array store, timer and hydro-state selection"""

import contextlib
import io
import time as _time

import numpy as np

from vmon import work
from vmon.core import registry

PID = "C26"
LEVEL = "exploration"
RULE = (
    "random histories of operations on the array store and the timer (on a virtual clock) against sequential models, "
    "random selections of the hydro-state helper against element-by-element selection, and the timers of real runs. "
    "distinct by operation, outcome and state of the model"
)
ASSUMPTIONS = ["cupy is not installed: only the NumPy behaviour of the array store is observed",
               "a bound of zero in a range means that the range is open on that side"]
REQUIRE = {"store operations": 3000, "store refusals": 500, "timer operations": 3000, "timer refusals": 500,
           "selections": 3000, "selection refusals": 300, "runs with timers": 20, "intervals timed": 200}
KINDS, kind = registry()


# ---------------------------------------------------------------- array store
def rand_array(rng):
    shape = tuple(int(v) for v in rng.integers(0, 4, size=int(rng.integers(0, 4))))
    r = rng.random()
    if r < 0.6:
        a = rng.normal(size=shape)
    elif r < 0.75:
        a = rng.integers(-5, 5, size=shape)
    elif r < 0.85:
        a = rng.random(size=shape) < 0.5
    elif r < 0.95:
        a = rng.normal(size=shape).astype(np.float32)
    else:
        a = np.asfortranarray(rng.normal(size=(3, 4)))[::2]
    return np.asarray(a)


def same(a, b):
    return isinstance(a, np.ndarray) and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(a, b, equal_nan=True)


def refused(mon, fn, what, **w):
    try:
        with contextlib.redirect_stdout(io.StringIO()):
            out = fn()
    except Exception:
        mon.event(what)
        return True
    mon.violate("an invalid operation is accepted", operation=w.get("op"), result=repr(out)[:80], **{k: v for k, v in w.items() if k != "op"})
    return False


@kind("store", 200, 1500)
def store(rng, mon, i):
    from fvhoe.array_management import ArrayManager

    pool = [f"a{k}" for k in range(5)] + ["u", "", "with space", "é"]
    ams = [ArrayManager() for _ in range(int(rng.integers(1, 3)))]
    models = [{} for _ in ams]
    handles = []  # copies handed out: (copy, frozen value)
    for step in range(int(rng.integers(30, 120))):
        k = int(rng.integers(len(ams)))
        am, model = ams[k], models[k]
        name = pool[int(rng.integers(len(pool)))]
        op = work.pick(rng, ["add", "add", "add", "remove", "get", "get", "copy", "copy", "write", "scribble", "bad", "mode", "dict"])
        mon.event("store operations")
        mon.see(f"store/{op}/{name in model}/{min(len(model), 3)}")
        if op == "add":
            a = rand_array(rng)
            if name in model:
                refused(mon, lambda: am.add(name, a), "store refusals", op="add of an existing name")
            else:
                am.add(name, a)
                model[name] = a.copy()
        elif op == "bad":
            bad = work.pick(rng, [[1, 2], 3.0, None, (1.0,), "x", {"a": 1}])
            refused(mon, lambda: am.add(name, bad), "store refusals", op="add of a non-array")
        elif op in ("remove", "get", "copy", "write", "scribble") and name not in model:
            fn = {"remove": am.remove, "get": am, "write": am, "copy": am.get_numpy, "scribble": am.get_numpy}[op]
            refused(mon, lambda: fn(name), "store refusals", op=f"{op} of an unknown name")
        elif op == "remove":
            am.remove(name)
            del model[name]
        elif op == "get":
            mon.check(same(am(name), model[name]), "the store returns another array", name=name)
        elif op == "copy":
            c = am.get_numpy(name)
            mon.check(same(c, model[name]), "the store hands out another array", name=name)
            handles.append((c, c.copy()))
        elif op == "scribble":
            c = am.get_numpy(name)
            if c.size and c.flags.writeable:
                c[...] = np.ones((), dtype=c.dtype) * 3
                mon.check(same(am(name), model[name]), "writing to a copy changes the store", name=name)
        elif op == "write":
            a = am(name)
            if a.size:
                v = np.asarray(rng.integers(0, 2, size=a.shape)).astype(a.dtype)
                a[...] = v
                model[name] = v.copy()
                mon.check(same(am(name), v), "writing to a stored array is lost", name=name)
        elif op == "mode":
            with contextlib.redirect_stdout(io.StringIO()):
                am.enable_cupy() if rng.random() < 0.5 else am.disable_cupy()
            am.disable_cupy()
        else:
            d = am.to_dict()
            mon.check(sorted(d["names"]) == sorted(model), "the store lists other names", got=str(d["names"]), want=str(list(model)))
        # nothing else has changed
        for am_, model_ in zip(ams, models):
            if sorted(am_.to_dict()["names"]) != sorted(model_):
                mon.violate("an operation changes the set of stored names", operation=op, got=str(am_.to_dict()["names"]), want=str(list(model_)))
                return
            for nm, v in model_.items():
                if not same(am_(nm), v):
                    mon.violate("an operation changes a stored array", operation=op, name=nm, target=name)
                    return
        for c, v in handles[-6:]:
            if not same(c, v):
                mon.violate("a copy handed out changes later", operation=op)
                return


# ---------------------------------------------------------------- timer
CLOCKS = ["time", "perf_counter", "monotonic", "process_time", "thread_time"]


@contextlib.contextmanager
def virtual_clock(clock):
    """every clock of the process reads clock() while active"""
    import fvhoe.timer as ft

    saved, names = {}, {}
    for n in CLOCKS:
        saved[n] = getattr(_time, n)
        saved[n + "_ns"] = getattr(_time, n + "_ns")
    repl = {}
    for n in CLOCKS:
        repl[n] = lambda: clock()
        repl[n + "_ns"] = lambda: int(round(clock() * 1e9))
    try:
        for n, f in repl.items():
            setattr(_time, n, f)
        for attr, v in list(vars(ft).items()):
            for n, f in saved.items():
                if v is f:
                    names[attr] = v
                    setattr(ft, attr, repl[n])
        yield
    finally:
        for n, f in saved.items():
            setattr(_time, n, f)
        for attr, v in names.items():
            setattr(ft, attr, v)


def observe(timer):
    """what a user can see of a timer"""
    return tuple(timer.cats), dict(timer.cum_time), timer.report(), dict(timer.to_dict())


@kind("timer", 200, 1500)
def timer(rng, mon, i):
    from fvhoe.timer import Timer

    now = [float(rng.integers(0, 1000))]
    pool = ["TOTAL", "a", "b", "riemann solver", "(high-order) x", "", "é"]
    prec = int(rng.integers(0, 5))

    def tick():
        now[0] += float(rng.integers(0, 64)) / 64  # exact in binary

    with virtual_clock(lambda: now[0]):
        r = rng.random()
        first = [c for c in pool if rng.random() < 0.3]
        if r < 0.3:
            T, first = Timer(), []
            prec = 2
        elif r < 0.5 and first:
            T, first = Timer(first[0], precision=prec), first[:1]
        else:
            T = Timer(cats=work.pick(rng, [list, tuple, iter])(first), precision=prec)
        other = Timer(["TOTAL", "a"])
        cum = {c: 0.0 for c in first}
        run = {c: None for c in first}
        for step in range(int(rng.integers(30, 120))):
            tick()
            before = observe(T)
            op = work.pick(rng, ["start", "start", "start", "stop", "stop", "stop", "add", "addmany", "other", "look"])
            c = pool[int(rng.integers(len(pool)))]
            if rng.random() < 0.7 and run:
                # mostly operations that are possible
                want = [k for k in run if (run[k] is None) == (op == "start")]
                if want:
                    c = want[int(rng.integers(len(want)))]
            mon.event("timer operations")
            mon.see(f"timer/{op}/{c in run}/{run.get(c) is not None}")
            ok = True
            if op == "start":
                if c in run and run[c] is None:
                    T.start(c)
                    run[c] = now[0]
                else:
                    refused(mon, lambda: T.start(c), "timer refusals", op="start", known=c in run)
                    ok = False
            elif op == "stop":
                if run.get(c) is not None:
                    T.stop(c)
                    cum[c] += now[0] - run[c]
                    run[c] = None
                    mon.event("intervals timed")
                else:
                    refused(mon, lambda: T.stop(c), "timer refusals", op="stop", known=c in run)
                    ok = False
            elif op == "add":
                if c in run:
                    refused(mon, lambda: T.add_cat(c), "timer refusals", op="add of an existing category")
                    ok = False
                else:
                    T.add_cat(c)
                    cum[c], run[c] = 0.0, None
            elif op == "addmany":
                cs = [pool[int(v)] for v in rng.integers(len(pool), size=int(rng.integers(0, 4)))]
                arg = work.pick(rng, [list, tuple])(cs)
                if len(set(cs)) < len(cs) or set(cs) & set(run):
                    refused(mon, lambda: T.add_cat(arg), "timer refusals", op="add of categories that exist or repeat")
                    ok = False
                else:
                    T.add_cat(arg)
                    for k in cs:
                        cum[k], run[k] = 0.0, None
            elif op == "other":
                # another timer is independent
                try:
                    other.start(c) if rng.random() < 0.5 else other.stop(c)
                except Exception:
                    pass
            cats, got, report, rounded = observe(T)
            if not ok:
                mon.check(before == observe(T), "a refused operation changes the timer", operation=op, category=c)
            mon.check(sorted(cats) == sorted(cum) and set(got) == set(cum), "the timer lists other categories", got=str(cats), want=str(list(cum)), operation=op)
            if mon.violations:
                return
            for k in cum:
                mon.check(got[k] == cum[k] or abs(got[k] - cum[k]) <= 1e-9 * (1 + abs(cum[k])), "a category accumulates another time", category=k, got=float(got[k]), want=cum[k], operation=op)
                mon.check(abs(float(rounded[k]) - cum[k]) <= 0.5001 * 10.0**-prec + 1e-9, "the rounded times differ", category=k, got=float(rounded[k]), want=cum[k], precision=prec)
            if op == "look":
                body = report.rstrip("\n").split("\n")[2:]
                seen = {}
                for ln in body:
                    name, v = ln.rsplit(None, 1) if ln.strip().count(" ") or len(ln.split()) > 1 else ("", ln)
                    seen[name.strip()] = v.strip()
                for k in cum:
                    v = seen.get(k.strip())
                    if k:
                        mon.check(v is not None and abs(float(v) - cum[k]) <= 0.5001 * 10.0**-prec + 1e-9, "the report shows another time", category=k, got=v, want=cum[k])
        # running categories know since when they run
        for k in run:
            if run[k] is None:
                refused(mon, lambda: T.stop(k), "timer refusals", op="stop of a stopped category")
            else:
                tick()
                T.stop(k)
                cum[k] += now[0] - run[k]
            mon.check(abs(T.cum_time[k] - cum[k]) <= 1e-9 * (1 + cum[k]), "a category accumulates another time", category=k, got=float(T.cum_time[k]), want=cum[k])


@kind("run timers", 60, 400)
def run_timers(rng, mon, i):
    """after a run every category is stopped and holds the sum of its intervals"""
    import fvhoe.timer as ft

    cfg = work.rand_cfg(rng, cells=250, pmax=3, limiting=bool(rng.random() < 0.6))
    cfg["CFL"] = 0.2
    u = work.rand_state(rng, cfg, style="smooth")
    now = [100.0]

    def clock():
        now[0] += 0.125
        return now[0]

    log = {}
    with virtual_clock(clock), contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        S = work.build(cfg, u)
        S.progress_bar = False
        total0 = now[0]
        for rep in range(int(rng.integers(1, 4))):
            m = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
            if rng.random() < 0.4:
                getattr(S, m)(n=int(rng.integers(0, 3)))
            else:
                from vmon import ref

                dt = ref.timestep(cfg, work.state(S), t=S.t)
                getattr(S, m)(T=float(S.t + rng.uniform(0, 3) * dt), exact=bool(rng.random() < 0.7), log_every_step=bool(rng.random() < 0.3))
            mon.event("runs with timers")
            elapsed = now[0] - total0
            cum = dict(S.timer.cum_time)
            mon.check(all(0 <= v <= elapsed for v in cum.values()), "a category counts more time than has passed", times=str(cum), elapsed=elapsed)
            mon.check(cum["TOTAL"] > 0, "the total time is not recorded", times=str(cum))
            inner = [k for k in cum if k not in ("TOTAL", "SNAPSHOTS")]
            if rep == 0:
                mon.check(any(cum[k] > 0 for k in inner) or S.step_count == 0, "no time is recorded for the steps taken", times=str(cum))
            for k in S.timer.cats:
                # a category that is still running refuses to start
                try:
                    S.timer.start(k)
                    S.timer.stop(k)
                except Exception as e:
                    mon.violate("a category is still running after a run", category=k, exception=str(e)[:200], integrator=m)
            mon.check(all(abs(S.timer.cum_time[k] - cum[k] - 0.125) < 1e-9 for k in cum), "a category does not count its interval", before=str(cum), after=str(S.timer.cum_time))
    mon.see(work.key(cfg))


# ---------------------------------------------------------------- selection
SINGLE = {"rho": 0, "vx": 1, "mx": 1, "vy": 2, "my": 2, "vz": 3, "mz": 3, "P": 4, "E": 4}
GROUP = {"v": [1, 2, 3], "m": [1, 2, 3], "active_scalars": [0, 1, 2, 3, 4]}


def rand_range(rng, n):
    a = int(rng.integers(0, n))
    b = int(rng.integers(0, n))
    lo = work.pick(rng, [0, None, a, -a])
    hi = work.pick(rng, [0, None, b, -b])
    return (lo, hi)


def positions(rg, n, step=None):
    """cells a range selects, one by one"""
    lo, hi = rg
    lo = 0 if not lo else (lo if lo > 0 else max(n + lo, 0))
    hi = n if not hi else (min(hi, n) if hi > 0 else n + hi)
    return [k for k in range(lo, hi) if (k - lo) % (step or 1) == 0]


@kind("selection", 400, 3000)
def selection(rng, mon, i):
    from fvhoe.hydro import HydroState

    nps = int(rng.integers(0, 4)) if rng.random() < 0.85 else int(rng.integers(4, 14))
    names = tuple(str(v) for v in rng.permutation(["dye", "metal", "x1", "entropy", "c", "the_name_of_this_one_is_rather_long", "m1", "E2", "0",
                                                   "a b", "Rho", "dye2", "v_x", "passive"])[:nps])
    ndim = int(rng.integers(1, 5))
    hs = HydroState(passive_scalars=names, ndim=ndim) if nps or rng.random() < 0.5 else HydroState(ndim=ndim)
    single = {**SINGLE, **{nm: 5 + k for k, nm in enumerate(names)}}
    group = dict(GROUP)
    if nps:
        group["passive_scalars"] = list(range(5, 5 + nps))
    nv = 5 + nps
    mon.check(hs.nvars == nv and bool(hs.includes_passives) == bool(nps), "wrong number of variables", nvars=hs.nvars, passives=nps)
    shape = (nv,) + tuple(int(v) for v in rng.integers(1, 8, size=ndim - 1))
    A = np.arange(int(np.prod(shape)), dtype=float).reshape(shape)
    for _ in range(30):
        kw, idx = {}, [list(range(m)) for m in shape]
        drop = False
        r = rng.random()
        if r < 0.3:
            v = work.pick(rng, list(single))
            kw["var"] = v
            idx[0] = [single[v]]
            drop = True
        elif r < 0.5:
            v = work.pick(rng, list(group))
            kw["var"] = v
            idx[0] = group[v]
        elif r < 0.7:
            vs = tuple(work.pick(rng, list(single)) for _ in range(int(rng.integers(1, 5))))
            kw["var"] = vs
            idx[0] = [single[v] for v in vs]
        ax = int(rng.integers(1, ndim)) if ndim > 1 and rng.random() < 0.5 else None
        for d in range(1, ndim):
            if rng.random() < 0.4 and d != ax:
                kw["xyz"[d - 1]] = rand_range(rng, shape[d])
                idx[d] = positions(kw["xyz"[d - 1]], shape[d])
        if ax is not None:
            kw["axis"] = ax
            kw["cut"] = rand_range(rng, shape[ax])
            if rng.random() < 0.4:
                kw["step"] = int(rng.integers(1, 4))
            idx[ax] = positions(kw["cut"], shape[ax], kw.get("step"))
        elif rng.random() < 0.1:
            kw["step"] = 2  # ignored without an axis
        want = A[np.ix_(*idx)]
        if drop:
            want = want[0]
        for _rep in range(2):
            sel = hs(**kw)
            got = A[sel]
            if got.shape != want.shape or not np.array_equal(got, want):
                mon.violate("a selection returns other rows or cells", request=str(kw), ndim=ndim, shape=str(shape), got=str(np.shape(got)), want=str(want.shape))
                return
        mon.event("selections")
    mon.see(f"select/{ndim}/{nps}")
    # impossible requests
    for _ in range(6):
        bad = work.pick(rng, ["name", "names", "type", "axis", "range", "length"])
        kw = {"name": dict(var="nonsense"), "names": dict(var=("rho", "nonsense")), "type": dict(var=3), "axis": dict(axis=ndim + int(rng.integers(0, 2)), cut=(1, -1)),
              "range": dict(axis=1, cut=3), "length": dict(axis=1, cut=(1, 2, 3))}[bad]
        if bad in ("range", "length") and ndim == 1:
            continue
        refused(mon, lambda: A[hs(**kw)], "selection refusals", op=f"selection with wrong {bad}", request=str(kw))
        mon.see(f"select/bad/{bad}/{ndim}")
