"""C20 saved runs, with faults injected at every file operation"""

import errno
import hashlib
import json
import os
import pathlib
import resource
import signal
import sys

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C20"
LEVEL = "fault_enumeration"
RULE = (
    "random save/load/overwrite histories over several directories and problems, and saving runs "
    "interrupted (error or process death) at every file operation and at byte positions of every "
    "written file; every later load is compared with the complete runs. distinct by history, by "
    "fault position and outcome"
)
ASSUMPTIONS = [
    "file operations are those that Python's audit events report, plus the size limit of a file "
    "(disk full) and truncation of written files; loss of data that was flushed is not modelled",
]
REQUIRE = {"saves": 250, "loads": 300, "faults injected": 300, "loads after faults": 300,
           "loads after faults that raised": 60, "loads after faults that returned a run": 60,
           "parameter files read": 150, "files truncated": 100, "saves with many snapshots": 3}
KINDS, kind = registry()


def digest(snaps, times):
    """identity of a run: all snapshots with their times"""
    h = hashlib.sha256()
    for s in snaps:
        for k in sorted(s):
            v = np.asarray(s[k], dtype=float)
            h.update(k.encode() + str(v.shape).encode())
            h.update(np.ascontiguousarray(v).tobytes())
    h.update(np.asarray(times, dtype=float).tobytes() + str(len(times)).encode())
    return h.hexdigest()


def tree(path):
    """contents of a directory"""
    out = {}
    for root, dirs, files in os.walk(path):
        for f in files:
            p = os.path.join(root, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, path)] = hashlib.sha256(fh.read()).hexdigest()
        for d in dirs:
            out[os.path.relpath(os.path.join(root, d), path) + "/"] = ""
    return out


class Problem:
    """a small problem and the complete run it gives"""

    def __init__(self, rng, cells=60, **kw):
        self.cfg = work.rand_cfg(rng, dims=work.pick(rng, ["x", "y", "z", "xy", "x"]), cells=cells, pmax=3, extra=3, **kw)
        self.cfg["CFL"] = 0.3
        self.u = work.rand_state(rng, self.cfg, style="smooth")
        dt = ref.timestep(self.cfg, self.u, t=0.0)
        self.T = float(dt * rng.uniform(1.2, 2.5))
        self.downbeats = sorted(float(x) for x in rng.uniform(0, self.T, int(rng.integers(0, 3))))
        self.name = work.pick(rng, ["euler", "ssprk2", "ssprk3", "rk4", "run"])
        self.fv = bool(rng.random() < 0.7)
        self.over = {}
        self.limit = 200

    def solver(self):
        S = work.build(self.cfg, self.u, snapshots_as_fv_averages=self.fv, **self.over)
        self.count = work.budget(S, self.limit)
        return S

    def run(self, S=None, **kw):
        S = self.solver() if S is None else S
        getattr(S, self.name)(T=self.T, downbeats=list(self.downbeats), **kw)
        return S

    def whole(self):
        S = self.run()
        return digest(S.snapshots, S.snapshot_times)


def rid(S):
    return digest(S.snapshots, S.snapshot_times)


def spell(rng, path, base):
    """several spellings of one path"""
    k = int(rng.integers(6))
    if k == 0:
        return path
    if k == 1:
        return path + "/"
    if k == 2:
        return os.path.join(os.path.dirname(path), ".", os.path.basename(path))
    if k == 3:
        return os.path.relpath(path, os.getcwd())
    if k == 4:
        return pathlib.Path(path)
    return os.path.dirname(path) + "//" + os.path.basename(path)


# --------------------------------------------------------------------------


@kind("histories", 70, 1500)
def histories(rng, mon, i):
    """model: directory -> run stored there"""
    base = os.path.join(mon.scratch, "a", "b")
    os.makedirs(base)
    os.chdir(mon.scratch)
    with open(os.path.join(base, "bystander.txt"), "w") as f:
        f.write("keep me")
    probs = [Problem(rng) for _ in range(3)]
    whole = [p.whole() for p in probs]
    # directories that lie apart, or whose names are easily taken for one another
    second = work.pick(rng, [os.path.join("deep", "er", "two")] * 6 + ["one.", "One", "one ", "one.pkl", " one", "one_1", "on\u00e9", "one=1.0"])
    dirs = [os.path.join(base, "one"), os.path.join(base, second)]
    model = {d: None for d in dirs}
    log = []
    for step in range(int(rng.integers(5, 10))):
        j = int(rng.integers(3))
        p, d = probs[j], dirs[int(rng.integers(2))]
        over = bool(rng.random() < 0.4)
        if model[d] is not None and rng.random() < 0.3:
            # foreign content, to be gone after overwriting and left alone otherwise
            os.makedirs(os.path.join(d, "stale"), exist_ok=True)
            with open(os.path.join(d, "stale", "old.txt"), "w") as f:
                f.write("stale")
        before = tree(d) if os.path.isdir(d) else None
        others = {e: tree(e) for e in dirs if e != d and os.path.isdir(e)}
        S = p.solver()
        used = False
        if rng.random() < 0.25:
            # a solver with a history of its own
            getattr(S, p.name)(n=1)
            used = True
        n0 = p.count["n"]
        own = None
        log.append((j, dirs.index(d), over, used))
        wit = dict(history=str(log), cfg=str(work.describe(p.cfg)))
        p.run(S, snapshot_dir=spell(rng, d, base), overwrite=over)
        if model[d] is not None and not over:
            mon.event("loads")
            mon.check(rid(S) == model[d], "a saved run did not load back identically", **wit)
            mon.check(p.count["n"] == n0, "a saved run was computed again", evaluations=p.count["n"] - n0, **wit)
            mon.check(tree(d) == before, "loading changed the saved files", **wit)
        else:
            mon.event("saves")
            own = rid(S)
            if not used:
                mon.check(own == whole[j], "saving changed the run", **wit)
            model[d] = own
            now = tree(d)
            mon.check(not any("stale" in k for k in now), "old contents survived overwriting", files=sorted(now), **wit)
            R = probs[int(rng.integers(3))].run(snapshot_dir=d)
            mon.event("loads")
            mon.check(rid(R) == own, "a saved run did not load back identically", **wit)
        mon.check({e: tree(e) for e in others} == others, "another saved run was changed", **wit)
        mon.check(open(os.path.join(base, "bystander.txt")).read() == "keep me", "a file outside the directory was changed", **wit)
        mon.see("history", *log[-1], before is not None)
    mon.sample = dict(history=log)


@kind("many snapshots", 6, 60)
def many(rng, mon, i):
    """runs with hundreds of snapshots are saved whole"""
    d = os.path.join(mon.scratch, "many")
    p = Problem(rng, cells=20, long=0)
    p.limit = 4000
    S = p.solver()
    p.T *= 60
    if not i % 2:
        p.downbeats = [float(v) for v in np.linspace(0, p.T, int(rng.integers(110, 300)))]
    p.run(S, snapshot_dir=d, log_every_step=bool(i % 2))
    if not np.all(np.isfinite(work.state(S))):
        mon.event("unstable runs")
    mon.event("saves")
    R = p.run(snapshot_dir=d)
    mon.event("loads")
    mon.check(len(R.snapshots) == len(S.snapshots) and rid(R) == rid(S), "a saved run did not load back identically",
              saved=len(S.snapshots), loaded=len(R.snapshots), cfg=str(work.describe(p.cfg)))
    mon.event("saves with many snapshots", int(len(S.snapshots) > 100))
    mon.see("many", len(S.snapshots), *work.key(p.cfg))


@kind("race", 24, 400)
def race(rng, mon, i):
    """another run saves to the same directory while this one is still computing"""
    d = os.path.join(mon.scratch, "a", "run")
    A, B = Problem(rng), Problem(rng)
    wB = B.whole()
    done = []

    def meanwhile(S):
        if not done:
            done.append(1)
            B.run(snapshot_dir=d)

    A.over["snapshot_helper_function"] = meanwhile
    raised = None
    S = A.solver()
    try:
        A.run(S, snapshot_dir=d)
    except Exception as e:
        raised = type(e).__name__
    mon.event("saves")
    mon.event("loads")
    R = A.run(snapshot_dir=d)
    wit = dict(raised=raised, cfg=str(work.describe(A.cfg)))
    mon.check(rid(R) == wB, "a run saved in the meantime was replaced or mixed although overwriting was not allowed", **wit)
    mon.check(raised is not None, "a run that was not saved did not raise", **wit)
    mon.see("race", raised, *work.key(A.cfg))


PLAIN = ("gamma", "CFL", "fixed_dt", "n", "p", "h", "x_domain", "y_domain", "z_domain", "riemann_solver_name",
         "conservative_ic", "fv_ic", "a_posteriori_slope_limiting", "slope_limiter", "force_trouble", "NAD",
         "NAD_mode", "NAD_range", "NAD_vars", "SED", "SED_tolerance", "convex", "csq_floor", "density_floor", "pressure_floor",
         "snapshots_as_fv_averages", "step_count", "t", "dims", "integrator", "slab_buffer_size")


def plain(v):
    if isinstance(v, (list, tuple)):
        return [plain(x) for x in v]
    if isinstance(v, np.generic):
        return v.item()
    return v


def not_json(name):
    raise ValueError(f"{name} is not JSON")


@kind("reports", 180, 3000)
def reports(rng, mon, i):
    """parameter file and timing report exist and are readable for every configuration"""
    p = Problem(rng, limiting=None if i % 3 else True)
    cfg = p.cfg
    kinds = []
    if i % 4 == 0:
        act = ref.active(cfg)
        c = "xyz"[act[int(rng.integers(len(act)))]]
        base = ref.cons(np.array([1.0, 0.1, 0.0, 0.0, 1.0] + [0.5] * len(cfg["passives"])), cfg["gamma"])
        style = int(rng.integers(3))
        if style == 0:
            val = lambda x, y, z, t: base.reshape(-1, 1, 1, 1) * (1 + 0 * x[None])
        elif style == 1:
            val = lambda x, y, z, t=0.0: base.reshape(-1, 1, 1, 1) * (1 + 0 * x[None])
        else:
            val = base
        kinds.append(f"dirichlet{style}")
        cfg["bc"][c] = ({"type": "dirichlet", "value": val}, {"type": "free"})
    if i % 5 == 0:
        p.over["snapshot_helper_function"] = lambda S: None
        kinds.append("helper")
    if i % 6 == 0:
        p.over.update({f"n{c}": np.int64(cfg["n"][j]) for j, c in enumerate("xyz")})
        p.over["CFL"] = np.float32(0.25)
        p.over["x"] = [np.float64(a) for a in cfg["dom"][0]]
        kinds.append("numpy scalars")
    if i % 7 == 0:
        p.over["fixed_dt"] = float(ref.timestep(cfg, p.u, t=0.0))
        kinds.append("fixed_dt")
    if cfg["lim"] is not None and i % 2:
        cfg["lim"]["PAD"] = {"rho": (0.0, np.inf), "vx": (-np.inf, np.inf)}
        if i % 4 == 1:
            cfg["lim"]["NAD_vars"] = ["rho", "P"]
        kinds.append("PAD")
    if i % 8 == 0:
        p.over["progress_bar"] = True
        kinds.append("bar")
    if i % 9 == 0:
        # built-in initial condition instead of given averages
        from fvhoe.initial_conditions import Sinus

        p.over.update(w0=Sinus(dims=cfg["dims"]), conservative_ic=False, fv_ic=False)
        kinds.append("built-in")
    d = os.path.join(mon.scratch, "a", "run")
    wit = dict(cfg=str(work.describe(cfg)), variant=str(kinds), integrator=p.name)
    S = p.run(snapshot_dir=d, overwrite=bool(i % 2))
    mon.event("saves")
    files = [os.path.join(d, f) for f in sorted(os.listdir(d))]
    parsed = None
    for f in files:
        if f.endswith(".json"):
            try:
                parsed = json.load(open(f), parse_constant=not_json)
            except ValueError as e:
                mon.violate("the parameter file is not readable", error=str(e), **wit)
                return
    if not mon.check(isinstance(parsed, dict) and len(parsed) > 5, "no parameter file was written", files=str(files), **wit):
        return
    mon.event("parameter files read")
    for k in PLAIN:
        if k in parsed and hasattr(S, k):
            mon.event("parameters compared")
            mon.check(plain(getattr(S, k)) == plain(parsed[k]), "a parameter in the parameter file is wrong", key=k,
                      got=str(parsed[k]), want=str(getattr(S, k)), **wit)
    for k, v in dict(gamma=cfg["gamma"], n=list(cfg["n"]), p=list(cfg["p"])).items():
        mon.check(parsed.get(k) == v, "a parameter is missing from the parameter file", key=k, got=str(parsed.get(k)), want=str(v), **wit)
    bounds = parsed.get("PAD")
    if cfg["lim"] is not None and isinstance(bounds, dict):
        for var, (lo, up) in cfg["lim"]["PAD"].items():
            if var in bounds and isinstance(bounds[var], list) and len(bounds[var]) == 2:
                mon.event("bounds in parameter files")
                mon.check([float(v) for v in bounds[var]] == [lo, up], "admissibility bounds in the parameter file are wrong", variable=var,
                          got=str(bounds[var]), want=str((lo, up)), **wit)
    text = [open(f).read() for f in files if f.endswith(".txt")]
    mon.check(text and all(c in text[0] for c in S.timer.cats), "no complete timing report was written", files=str(files), **wit)
    mon.event("loads")
    R = p.run(snapshot_dir=d)
    mon.check(rid(R) == rid(S), "a saved run did not load back identically", **wit)
    mon.see("report", *kinds, *work.key(cfg))
    mon.sample = dict(cfg=work.describe(cfg), variant=kinds, files=[os.path.basename(f) for f in files])


# --------------------------------------------------------------------------
# faults

FILE_EVENTS = {"open", "os.mkdir", "os.remove", "os.rmdir", "os.rename", "os.link", "os.symlink", "os.truncate",
               "os.scandir", "os.listdir", "shutil.rmtree", "shutil.move", "shutil.copyfile", "os.chmod", "os.utime"}


def interrupted(p, d, over, root, mode, k, limit=None):
    """
    run p saving to d in a child process, interrupted at its k-th file operation
    (mode "error": the operation fails; "death": the process dies) or when a file
    exceeds `limit` bytes.  returns what happened and how many operations were seen
    """
    rfd, wfd = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(rfd)
            S = p.solver()
            armed = {"on": False, "n": 0}

            def hook(event, args):
                if not armed["on"] or event not in FILE_EVENTS:
                    return
                a = args[0] if args else None
                if isinstance(a, bytes):
                    a = os.fsdecode(a)
                if isinstance(a, (str, os.PathLike)):
                    a = os.fspath(a)
                    if os.path.isabs(a) and not a.startswith(root):
                        return
                elif not isinstance(a, int):
                    return
                armed["n"] += 1
                if k is not None and armed["n"] == k:
                    armed["on"] = False
                    os.write(wfd, f"hit {event}\n".encode())
                    if mode == "death":
                        os._exit(9)
                    raise OSError(errno.EIO, "injected fault")

            sys.addaudithook(hook)
            if limit is not None:
                if mode == "death":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                else:
                    signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                resource.setrlimit(resource.RLIMIT_FSIZE, (limit, resource.RLIM_INFINITY))
            armed["on"] = True
            try:
                p.run(S, snapshot_dir=d, overwrite=over)
                os.write(wfd, b"finished\n")
            except BaseException as e:
                os.write(wfd, f"raised {type(e).__name__}\n".encode())
            armed["on"] = False
            os.write(wfd, f"ops {armed['n']}\n".encode())
        finally:
            os._exit(code)
    os.close(wfd)
    out = b""
    while True:
        b = os.read(rfd, 65536)
        if not b:
            break
        out += b
    os.close(rfd)
    _, status = os.waitpid(pid, 0)
    lines = out.decode().split("\n")
    res = dict(hit=None, raised=None, finished=False, ops=None, status=status)
    for l in lines:
        if l.startswith("hit "):
            res["hit"] = l[4:]
        if l.startswith("raised "):
            res["raised"] = l[7:]
        if l == "finished":
            res["finished"] = True
        if l.startswith("ops "):
            res["ops"] = int(l[4:])
    return res


def load_after(mon, reader, wR, d, allowed, what, wit):
    """a later run pointing to d: complete run or error"""
    mon.event("loads after faults")
    S = reader.solver()
    try:
        reader.run(S, snapshot_dir=d)
    except Exception as e:
        if isinstance(e, AssertionError):
            raise
        mon.event("loads after faults that raised")
        mon.event("oracle evaluations")
        return "raised"
    mon.event("loads after faults that returned a run")
    got = rid(S)
    mon.check(got in allowed.values() or got == wR, "a load after a failure returned an incomplete or mixed run", **wit)
    for k, v in allowed.items():
        if v == got:
            return k
    return "computed" if got == wR else "incomplete"


@kind("faults at file operations", 24, 250)
def faults(rng, mon, i):
    """all file operations of one saving run, each interrupted in both ways"""
    old, new, reader = Problem(rng), Problem(rng), Problem(rng)
    wO, wN, wR = old.whole(), new.whole(), reader.whole()
    exists = bool(i % 2)
    root = os.path.join(mon.scratch, "f")
    mode = ["error", "death"][(i // 2) % 2]
    k, ops = 1, None
    while k < 60:
        base = os.path.join(root, f"k{k}", "a")
        os.makedirs(base)
        side = os.path.join(base, "beside.txt")
        open(side, "w").write("keep me")
        d = os.path.join(base, "run")
        if exists:
            old.run(snapshot_dir=d)
            if rng.random() < 0.5:
                os.mkdir(os.path.join(d, "more"))
        res = interrupted(new, d, True if exists else bool(rng.random() < 0.5), root, mode, k)
        wit = dict(fault=f"{mode} at file operation {k} ({res['hit']})", existed=exists, outcome=str(res))
        if res["hit"] is None:
            ops = k - 1
            mon.check(res["finished"], "an undisturbed run failed to save", **wit)
            break
        mon.event("faults injected")
        mon.see("fault", mode, res["hit"], exists)
        if mode == "error":
            # an error during writing is not swallowed as if the run were saved ...
            if res["finished"]:
                mon.event("faults survived")
        allowed = {"new": wN}
        if exists:
            allowed["old"] = wO
        out = load_after(mon, reader, wR, d, allowed, "fault", wit)
        if res["finished"]:
            # the writer reported success: then the new run must be there
            mon.check(out == "new", "a save that reported success cannot be loaded", got=out, **wit)
        mon.check(open(side).read() == "keep me", "a file outside the directory was changed", **wit)
        mon.see("outcome", mode, res["hit"], out)
        k += 1
    mon.event("file operations enumerated", ops or 0)
    mon.check(ops is not None, "the writer never finished", **{})
    mon.sample = dict(mode=mode, existed=exists, operations=ops)


@kind("full disk", 30, 500)
def full_disk(rng, mon, i):
    """a written file reaches a size limit"""
    old, new, reader = Problem(rng), Problem(rng), Problem(rng)
    wO, wN, wR = old.whole(), new.whole(), reader.whole()
    root = os.path.join(mon.scratch, "f")
    for j in range(5):
        base = os.path.join(root, f"j{j}", "a")
        os.makedirs(base)
        d = os.path.join(base, "run")
        exists = bool(rng.random() < 0.5)
        if exists:
            old.run(snapshot_dir=d)
        limit = int(work.pick(rng, [0, 1, 10, 100, 400, 1000, 2000, 3000, 5000, 8000]) + rng.integers(0, 300))
        mode = work.pick(rng, ["error", "death"])
        res = interrupted(new, d, True, root, mode, None, limit=limit)
        mon.event("faults injected")
        wit = dict(fault=f"{mode} at {limit} bytes", existed=exists, outcome=str(res))
        allowed = {"new": wN}
        if exists:
            allowed["old"] = wO
        out = load_after(mon, reader, wR, d, allowed, "full", wit)
        if res["finished"]:
            mon.check(out == "new", "a save that reported success cannot be loaded", got=out, **wit)
        mon.see("full", mode, limit // 500, exists, out)


@kind("truncated files", 40, 600)
def truncated(rng, mon, i):
    """files of a saved run cut short or lost (written before the machine stopped)"""
    old, reader = Problem(rng), Problem(rng)
    wO, wR = old.whole(), reader.whole()
    for j in range(4):
        d = os.path.join(mon.scratch, f"j{j}", "run")
        old.run(snapshot_dir=d)
        files = sorted(f for f in os.listdir(d) if os.path.isfile(os.path.join(d, f)))
        big = max(files, key=lambda f: os.path.getsize(os.path.join(d, f)))
        f = os.path.join(d, big if rng.random() < 0.7 else work.pick(rng, files))
        size = os.path.getsize(f)
        how = work.pick(rng, ["cut", "cut", "cut", "empty", "gone", "last"])
        if how == "gone":
            os.remove(f)
        else:
            keep = {"cut": int(rng.integers(0, size)), "empty": 0, "last": size - 1}[how]
            os.truncate(f, keep)
        mon.event("files truncated")
        wit = dict(file=os.path.basename(f), how=how, size=size)
        out = load_after(mon, reader, wR, d, {"old": wO}, "truncated", wit)
        mon.see("cut", os.path.basename(f), how, out)
