"""
Runtime-monitoring harness: runs generated workloads against the real code in
/repo, in parallel worker processes, while oracles watch what it does.

verdicts:  exit 0  held on everything observed
           exit 1  violated (line "VIOLATION property=<id> replay=<path>")
           exit 2  inconclusive (too little observed, harness error)
"""

import argparse
import contextlib
import ctypes
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import resource
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
EVIDENCE = os.path.join(VERIF, "evidence")


class StopCase(Exception):
    """the case cannot say more (e.g. the state left the workload's envelope)"""


MEM_LIMIT = 3500 << 20


class TooManySteps(Exception):
    """bounded-progress monitor: logical step budget exhausted"""


class Monitor:
    """collects what the oracles observed during one case"""

    def __init__(self):
        self.events = {}
        self.distinct = set()
        self.violations = []
        self.margins = {}
        self.sample = None
        self.notes = []

    def event(self, name, k=1):
        self.events[name] = self.events.get(name, 0) + int(k)

    def see(self, *key):
        """register a distinct, non-trivial observation"""
        self.distinct.add("|".join(str(k) for k in key))

    def violate(self, msg, **witness):
        if len(self.violations) < 5:
            self.violations.append(
                {"msg": msg, "witness": {k: _short(v) for k, v in witness.items()}}
            )

    def check(self, cond, msg, **witness):
        self.event("oracle evaluations")
        if not bool(cond):
            self.violate(msg, **witness)
            return False
        return True

    def close(self, got, want, tol, msg, scale=None, **witness):
        """|got - want| <= tol * scale, elementwise; NaN anywhere is a failure"""
        import numpy as np

        got = np.asarray(got, dtype=float)
        want = np.asarray(want, dtype=float)
        self.event("oracle evaluations")
        if got.shape != want.shape:
            self.violate(
                msg + ": shape", got_shape=got.shape, want_shape=want.shape, **witness
            )
            return False
        if got.size == 0:
            return True
        if scale is None:
            scale = np.max(np.abs(want[np.isfinite(want)]), initial=0.0)
            scale = max(scale, 1e-30)
        both_inf = (got == want) & np.isinf(want)
        err = np.where(both_inf, 0.0, np.abs(got - want) / scale)
        bad = ~(err <= tol)
        worst = np.max(np.where(np.isnan(err), np.inf, err))
        key = msg
        frac = float(worst / tol)
        if np.isfinite(frac):
            self.margins[key] = max(self.margins.get(key, 0.0), frac)
        if bad.any():
            idx = np.unravel_index(
                int(np.argmax(np.where(np.isnan(err), np.inf, err))), err.shape
            )
            self.violate(
                msg,
                error=float(worst),
                tol=tol,
                index=tuple(int(i) for i in idx),
                got=float(got[idx]),
                want=float(want[idx]),
                n_bad=int(bad.sum()),
                **witness,
            )
            return False
        return True

    def pack(self):
        return {
            "events": self.events,
            "distinct": sorted(self.distinct),
            "violations": self.violations,
            "margins": self.margins,
            "sample": self.sample,
            "notes": self.notes,
        }


def _short(v):
    try:
        import numpy as np

        if isinstance(v, np.ndarray):
            v = v.tolist() if v.size <= 40 else f"array{v.shape}"
        if isinstance(v, (np.floating, np.integer, np.bool_)):
            v = v.item()
    except Exception:
        pass
    try:
        json.dumps(v)
        s = v
    except Exception:
        s = repr(v)
    if isinstance(s, str) and len(s) > 600:
        s = s[:600] + "..."
    return s


def rng_for(seed, pid, kind, index):
    import numpy as np

    h = hashlib.sha256(f"{seed}|{pid}|{kind}|{index}".encode()).digest()
    return np.random.default_rng(np.frombuffer(h, dtype=np.uint32))


# --------------------------------------------------------------------------
# environment


def prepare_environment(scratch):
    os.environ.update(
        OMP_NUM_THREADS="1",
        OPENBLAS_NUM_THREADS="1",
        MKL_NUM_THREADS="1",
        MPLBACKEND="Agg",
        TQDM_DISABLE="1",
        MPLCONFIGDIR=os.path.join(scratch, "mpl"),
    )
    os.environ.pop("PYTHONPYCACHEPREFIX", None)
    sys.dont_write_bytecode = True
    sys.pycache_prefix = os.path.join(scratch, "pyc")  # never reuse stale bytecode
    if REPO in sys.path:
        sys.path.remove(REPO)
    sys.path.insert(0, REPO)
    warnings.simplefilter("ignore")


def assert_repo_loaded():
    import fvhoe

    path = os.path.realpath(os.path.dirname(fvhoe.__file__))
    want = os.path.realpath(os.path.join(REPO, "fvhoe"))
    if path != want:
        raise RuntimeError(f"fvhoe was imported from {path}, not {want}")


# --------------------------------------------------------------------------
# workers

_W = {}


def _limit_memory(soft):
    resource.setrlimit(resource.RLIMIT_AS, (soft, resource.RLIM_INFINITY))


def _init_worker(modname, seed, tier, scratch):
    warnings.simplefilter("ignore")
    with contextlib.suppress(Exception):  # not outlive the check
        ctypes.CDLL(None).prctl(1, signal.SIGKILL)
    with contextlib.suppress(Exception):  # a runaway case ends as a MemoryError
        _limit_memory(MEM_LIMIT)
    import numpy as np

    np.seterr(all="ignore")
    _W["mod"] = importlib.import_module(modname)
    _W["seed"] = seed
    _W["tier"] = tier
    _W["scratch"] = scratch


def _frames_in_repo(tb):
    """is the exception raised below a call into the code under test?"""
    frames = traceback.extract_tb(tb)
    repo = os.path.realpath(REPO) + os.sep
    verif = os.path.realpath(VERIF) + os.sep
    inside = False
    for fr in frames:
        f = os.path.realpath(fr.filename)
        if f.startswith(repo):
            inside = True
        elif f.startswith(verif):
            inside = False  # a callback of ours (initial condition, hook, ...)
    return inside


def _api_gone(e):
    """an entry point of the code under test is missing or takes other arguments"""
    if isinstance(e, AttributeError):
        import types

        o = getattr(e, "obj", None)
        return isinstance(o, types.ModuleType) or type(o).__module__.startswith("fvhoe")
    return isinstance(e, TypeError) and (
        "unexpected keyword argument" in str(e)
        or "positional argument" in str(e)
        or "required keyword" in str(e)
    )


def run_one(job):
    try:
        if "ballast" not in _W:  # room for reporting a lack of memory
            _W["ballast"] = bytearray(96 << 20)
        return _run_one(job)
    except MemoryError:
        _W.pop("ballast", None)
    with contextlib.suppress(Exception):
        _limit_memory(resource.RLIM_INFINITY)
    signal.alarm(0)
    mon = Monitor()
    mon.violate(f"no progress: the case took more than {MEM_LIMIT >> 20} MB")
    res = mon.pack()
    res.update(kind=job[0], index=job[1], status="ok", detail=None, wall=0.0)
    with contextlib.suppress(Exception):
        _limit_memory(MEM_LIMIT)
    return res


def _run_one(job):
    kind, index = job
    mod, seed = _W["mod"], _W["seed"]
    mon = Monitor()
    mon.scratch = tempfile.mkdtemp(prefix="case_", dir=_W["scratch"])
    mon.tier = _W["tier"]
    rng = rng_for(seed, mod.PID, kind, index)
    out = io.StringIO()
    t0 = time.time()
    status, detail = "ok", None
    cwd = os.getcwd()
    limit = {"quick": 150, "thorough": 600}[mon.tier]

    def late(signum, frame):
        raise TooManySteps(f"the case did not end within {limit} s")

    signal.signal(signal.SIGALRM, late)
    signal.alarm(limit)
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            mod.KINDS[kind].fn(rng, mon, index)
    except StopCase as e:
        status, detail = "stopped", str(e)
    except TooManySteps as e:
        mon.violate("no progress: " + str(e))
    except MemoryError:
        # cases need some hundred MB: this one collects data without end
        _W.pop("ballast", None)
        raise
    except Exception as e:
        text = traceback.format_exc()
        if _frames_in_repo(e.__traceback__) and not isinstance(e, ImportError):
            mon.violate(
                f"the code under test raised {type(e).__name__} on a valid workload",
                exception=str(e),
                traceback=text[-1500:],
            )
        elif isinstance(
            e, (ValueError, IndexError, KeyError, TypeError, AttributeError)
        ) and not _api_gone(e):
            # what the code returned or recorded does not have the form every
            # observation on the unchanged tree has (shape, key, type)
            mon.violate(
                f"an observation has the wrong form ({type(e).__name__})",
                exception=str(e),
                traceback=text[-1500:],
            )
        elif isinstance(e, ImportError) or _api_gone(e):
            # an internal helper was moved, renamed or given another signature:
            # this entry point cannot be observed, the others still are
            status, detail = "unavailable", text
        else:
            status, detail = "harness", text
    finally:
        signal.alarm(0)
        os.chdir(cwd)
        with contextlib.suppress(Exception):
            import matplotlib.pyplot as plt

            plt.close("all")
        shutil.rmtree(mon.scratch, ignore_errors=True)
    res = mon.pack()
    res.update(
        kind=kind,
        index=index,
        status=status,
        detail=detail,
        wall=time.time() - t0,
    )
    return res


class Kind:
    """
    one family of generated cases.
      quick/thorough : number of cases per tier
      internal       : drives a module-level helper rather than the solver
      heavy          : scheduling weight
    """

    def __init__(self, fn, quick, thorough, note=""):
        self.fn = fn
        self.quick = quick
        self.thorough = thorough
        self.note = note


def registry():
    kinds = {}

    def kind(name, quick, thorough):
        def deco(fn):
            kinds[name] = Kind(fn, quick, thorough, (fn.__doc__ or "").strip())
            return fn

        return deco

    return kinds, kind


# --------------------------------------------------------------------------


def load_known():
    path = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("finding:"):
                # finding: property=<id> key=<mechanism> <text>
                parts = line.split(None, 3)
                pid = parts[1].split("=", 1)[1]
                key = parts[2].split("=", 1)[1]
                out.append((pid, key, parts[3]))
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("pid")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
    ap.add_argument("--replay", help="replay file of an earlier violation")
    ap.add_argument("--kind", help="only this kind of case")
    ap.add_argument("--slow", action="store_true", help="print the slowest cases")
    ap.add_argument("--margins", action="store_true")
    args = ap.parse_args(argv)
    if args.tier not in ("quick", "thorough"):
        args.tier = "quick"

    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f"vmon_{args.pid}_")
    try:
        code = _main(args, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)


def _main(args, t0, scratch):
    prepare_environment(scratch)
    modname = f"vmon.props.{args.pid.lower()}"
    import numpy  # noqa: F401  (before fork)

    try:
        mod = importlib.import_module(modname)
        assert_repo_loaded()
        with contextlib.suppress(Exception):  # once, before the workers are forked
            import fvhoe.solver  # noqa: F401
            import fvhoe.visualization  # noqa: F401
            import scipy.special  # noqa: F401
    except BaseException:
        # the tree cannot even be imported
        text = traceback.format_exc()
        print(text, file=sys.stderr)
        print(f"INCONCLUSIVE property={args.pid}: cannot import the code under test")
        return 2

    if args.replay:
        rep = json.load(open(args.replay))
        args.seed = rep["seed"]
        jobs = [(rep["kind"], rep["index"])]
    else:
        per_kind = []
        for name, k in mod.KINDS.items():
            if args.kind and name != args.kind:
                continue
            n = k.thorough
            if args.tier == "quick":
                n = min(k.quick * getattr(mod, "SCALE", 4), max(k.quick, k.thorough))
            per_kind.append([(name, i) for i in range(n)])
        # interleave the kinds so that a time cap hits all of them evenly
        jobs = []
        tot = [len(x) for x in per_kind]
        order = sorted(
            ((i + 0.5) / tot[j], j, i) for j in range(len(per_kind)) for i in range(tot[j])
        )
        jobs = [per_kind[j][i] for _, j, i in order]

    cap = getattr(mod, "CAP", {"quick": 420, "thorough": 3000})[args.tier]
    results = []
    timed_out = False
    hung = 0
    ctx = mp.get_context("fork")
    with ctx.Pool(
        min(args.jobs, max(1, len(jobs))),
        initializer=_init_worker,
        initargs=(modname, args.seed, args.tier, scratch),
    ) as pool:
        it = pool.imap_unordered(run_one, jobs, chunksize=1)
        for _ in range(len(jobs)):
            try:
                results.append(it.next(timeout=max(1.0, cap - (time.time() - t0))))
                if any(
                    v["msg"].startswith("no progress") for v in results[-1]["violations"]
                ):
                    hung += 1
                if hung >= 4:  # decided: do not wait for every other case to hang
                    timed_out = True
                    break
            except mp.TimeoutError:
                timed_out = True
                break
        pool.terminate()

    return _report(args, mod, jobs, results, timed_out, t0)


def _report(args, mod, jobs, results, timed_out, t0):
    pid = mod.PID
    results.sort(key=lambda r: (list(mod.KINDS).index(r["kind"]), r["index"]))
    events, margins, per_kind = {}, {}, {}
    distinct = set()
    violations, harness, stopped, gone = [], [], 0, []
    known = [(k, txt) for p, k, txt in load_known() if p == pid]
    known_seen = {}
    for r in results:
        pk = per_kind.setdefault(r["kind"], {"cases": 0, "stopped": 0, "wall_s": 0.0})
        pk["cases"] += 1
        pk["wall_s"] = round(pk["wall_s"] + r["wall"], 3)
        for k, v in r["events"].items():
            events[k] = events.get(k, 0) + v
        for k, v in r["margins"].items():
            margins[k] = max(margins.get(k, 0.0), v)
        for d in r["distinct"]:
            distinct.add(r["kind"] + "|" + d)
        for n in r["notes"]:
            # notes carry known findings: ("known", key)
            if isinstance(n, (list, tuple)) and n[0] == "known":
                known_seen[n[1]] = known_seen.get(n[1], 0) + 1
        if r["violations"]:
            violations.append(r)
        if r["status"] == "harness":
            harness.append(r)
        if r["status"] == "unavailable":
            gone.append(r)
            pk["unavailable"] = pk.get("unavailable", 0) + 1
        if r["status"] == "stopped":
            stopped += 1
            pk["stopped"] += 1

    # known findings must be listed in the committed file
    for key, cnt in sorted(known_seen.items()):
        txt = dict(known).get(key)
        if txt is None:
            violations.append(
                {
                    "kind": "known-finding",
                    "index": 0,
                    "violations": [{"msg": f"unlisted finding {key}", "witness": {}}],
                }
            )
        else:
            print(f"KNOWN-FINDING: property={pid} {txt}")

    for r in harness[:3]:
        print("HARNESS ERROR in", r["kind"], r["index"], file=sys.stderr)
        print(r["detail"], file=sys.stderr)

    samples = [
        {"kind": r["kind"], "index": r["index"], "case": r["sample"]}
        for r in results
        if r["sample"] is not None
    ]
    seen_kinds, keep = {}, []
    for s in samples:
        if seen_kinds.get(s["kind"], 0) < 2:
            seen_kinds[s["kind"]] = seen_kinds.get(s["kind"], 0) + 1
            keep.append(s)

    missing = []
    if not (args.replay or args.kind):
        for ev, least in getattr(mod, "REQUIRE", {}).items():
            if gone:
                break
            if events.get(ev, 0) < least:
                missing.append(f"{ev}: {events.get(ev, 0)} < {least}")
        for name in mod.KINDS:
            pk = per_kind.get(name, {"cases": 0, "stopped": 0})
            if pk["cases"] == 0:
                missing.append(f"no case of kind {name} was completed")
            elif pk["stopped"] > 0.7 * pk["cases"]:
                missing.append(f"most cases of kind {name} stopped early")

    if gone:
        print(f"NOTE: {len(gone)} cases could not reach their entry point", file=sys.stderr)
        print(gone[0]["detail"], file=sys.stderr)
        if len(gone) > 0.8 * len(results):
            missing.append("hardly any entry point could be reached")

    ev = {
        "property": pid,
        "tier": args.tier,
        "seed": args.seed,
        "level": mod.LEVEL,
        "coverage": {
            "evaluations": len(results),
            "distinct_nontrivial": len(distinct),
            "rule": mod.RULE,
            "samples": keep[:12],
            "planned_cases": len(jobs),
            "cases_per_kind": per_kind,
            "observed_events": events,
            "largest_error_over_tolerance": {
                k: float(f"{v:.3g}") for k, v in sorted(margins.items())
            },
            "stopped_early": stopped,
            "entry_point_unavailable": len(gone),
            "time_cap_reached": timed_out,
            "known_findings_seen": known_seen,
        },
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": sum(len(r["violations"]) for r in violations),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    if not (args.replay or args.kind):
        tmp = os.path.join(EVIDENCE, f".{pid}.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, os.path.join(EVIDENCE, f"{pid}.json"))

    print(
        f"{pid} [{args.tier}, seed {args.seed}]: {len(results)}/{len(jobs)} cases, "
        f"{len(distinct)} distinct, {events.get('oracle evaluations', 0)} oracle "
        f"evaluations, {stopped} stopped, {time.time() - t0:.1f} s"
    )
    if args.slow:
        for r in sorted(results, key=lambda r: -r["wall"])[:12]:
            print(f"  {r['wall']:.2f} s  {r['kind']}[{r['index']}]")
        for k, v in per_kind.items():
            print("  ", k, v)
        print("  ", events)
    if args.margins:
        for k, v in sorted(margins.items(), key=lambda kv: -kv[1]):
            print(f"  {v:.3g}  {k}")

    if violations:
        for n, r in enumerate(violations[:5]):
            d = os.path.join(EVIDENCE, "replay")
            os.makedirs(d, exist_ok=True)
            path = os.path.join(d, f"{pid}-{r['kind']}-{r['index']}.json")
            with open(path, "w") as f:
                json.dump(
                    {
                        "property": pid,
                        "kind": r["kind"],
                        "index": r["index"],
                        "seed": args.seed,
                        "tier": args.tier,
                        "violations": r["violations"],
                        "replay_cmd": f"cd {VERIF} && bash run.sh {pid} --replay {path}",
                    },
                    f,
                    indent=1,
                    default=str,
                )
            v = r["violations"][0]
            print(f"  {r['kind']}[{r['index']}]: {v['msg']} {json.dumps(v['witness'], default=str)[:700]}")
            print(f"VIOLATION property={pid} replay={path}")
        return 1
    if harness or missing:
        for m in missing:
            print("INCONCLUSIVE:", m)
        if harness:
            print(f"INCONCLUSIVE: {len(harness)} harness errors")
        return 2
    return 0

