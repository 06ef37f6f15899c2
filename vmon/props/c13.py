"""C13 troubled-cell detection"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C13"
LEVEL = "exploration"
RULE = (
    "random old and candidate fields (generic reals away from thresholds, and dyadic numbers on "
    "which every comparison is exact, ties included) in every set of dimensions and every "
    "detection option; plus one-stage runs of the solver whose recorded troubles are compared "
    "with the reference detector. distinct by options, dimensions, which criteria fired"
)
ASSUMPTIONS = ["cases whose decision lies within 1e-11 of a threshold are excluded (except exact dyadic data)"]
REQUIRE = {
    "fields compared": 500,
    "flagged by the neighbourhood": 200,
    "flagged by physical bounds": 100,
    "rescued by smooth extrema": 25,
    "solver steps compared": 150,
    "solver steps with troubled cells": 60,
    "exact ties": 40,
    "bounds next to values of the field": 40,
    "violent steps outside their bounds": 20,
    "violent steps outside bounds that were not chosen": 8,
}
KINDS, kind = registry()
NAMES = ["rho", "vx", "vy", "vz", "P"]


def options(rng, dyadic=False, scale=None):
    eps = [0.0, 2.0**-3, 2.0**-6, 0.5] if dyadic else [0.0, 1e-5, 1e-2, 0.1, 0.5, 1e-9]
    o = dict(
        NAD=float(work.pick(rng, eps)),
        NAD_mode=work.pick(rng, ["global", "local"]),
        NAD_range=work.pick(rng, ["relative", "absolute"]),
        NAD_vars=work.pick(rng, [None, None, ("rho",), ("P",), ("vx",), ("vy", "vz"), ("rho", "P"), ("P", "vx", "rho"), ("vz",), (), ("rho", "vx", "vy", "vz", "P"),
                                ("vy", "P", "rho", "vx"), ("P", "vz", "vy", "vx"), ("vz", "vy", "vx")]),
        SED=bool(rng.random() < 0.5),
        SED_tolerance=float(work.pick(rng, [1e-10, 1e-10, 1e-3, 0.02] if not dyadic else [2.0**-40, 2.0**-5])),
        PAD={},
    )
    if rng.random() < 0.7:
        for v in rng.permutation(NAMES)[: int(rng.integers(1, 6))]:
            if dyadic:
                lo, up = float(rng.integers(-4, 2)) / 4, float(rng.integers(6, 14)) / 4
            else:
                lo, up = float(rng.uniform(-0.5, 0.4)), float(rng.uniform(1.2, 2.0))
            o["PAD"][str(v)] = (lo if rng.random() < 0.7 else -np.inf, up if rng.random() < 0.7 else np.inf)
    return o


def fields(rng, dims, dyadic=False):
    act = [ref.AX[c] for c in dims]
    top = {1: 14, 2: 7, 3: 4}[len(act)]
    n = tuple(int(rng.integers(1, top + 1)) if d in act else 1 for d in range(3))
    full = tuple(n[d] + 6 if d in act else 1 for d in range(3))
    if dyadic:
        w = rng.integers(0, 9, size=(5,) + full) / 4.0
        style = work.pick(rng, ["same", "few", "all", "flat", "ramp", "parabola"])
        c = w.copy()
        if style == "few":
            m = rng.random(w.shape) < 0.1
            c = np.where(m, c + rng.integers(-8, 9, size=w.shape) / 8.0, c)
        elif style == "all":
            c = c + rng.integers(-4, 5, size=w.shape) / 8.0
        elif style == "flat":
            w[...] = 1.0
            c = np.where(rng.random(w.shape) < 0.1, 1.0 + rng.integers(-2, 3, size=w.shape) / 8.0, 1.0)
        elif style in ("ramp", "parabola"):
            x = sum(np.arange(full[d]).reshape([-1 if e == d else 1 for e in range(3)]) * int(rng.integers(0, 3)) for d in range(3))
            x = x - int(np.median(x))
            w = np.broadcast_to((x if style == "ramp" else x * x) / 4.0, (5,) + full).copy()
            c = np.where(rng.random(w.shape) < 0.06, w + rng.integers(-3, 4, size=w.shape) / 8.0, w)
            if rng.random() < 0.5:
                c = c + 0.25
        return n, act, w, c, style
    grids = np.meshgrid(*[np.arange(m) for m in full], indexing="ij")
    w = np.empty((5,) + full)
    style = work.pick(rng, ["smooth", "noise", "jump", "mixed"])
    for v in range(5):
        k = rng.uniform(0.15, 0.5, 3)
        base = 0.7 + 0.5 * np.sin(sum(k[d] * grids[d] for d in act) + rng.uniform(0, 6))
        if style == "noise":
            base = rng.uniform(-0.3, 1.5, full)
        elif style in ("jump", "mixed"):
            base = np.where(sum((d + 1) * grids[d] for d in act) % 11 < 5, base, base - 0.8)
        w[v] = base
    amp = float(work.pick(rng, [1e-7, 1e-4, 0.02, 0.3]))
    if style == "smooth":
        c = w + amp * 0.3 * np.sin(0.4 * sum(grids[d] for d in act) + rng.uniform(0, 6))[None] * rng.uniform(0.5, 1, (5, 1, 1, 1))
    else:
        c = w + amp * rng.normal(size=w.shape)
    if rng.random() < 0.5:
        c = np.where(rng.random(w.shape) < 0.03, c + rng.normal(size=w.shape), c)
    # all variables offset by their own amount (negative values for the velocities)
    off = rng.uniform(-1, 1, (5, 1, 1, 1)) * np.array([0, 1, 1, 1, 0]).reshape(5, 1, 1, 1)
    return n, act, w + off, c + off, style


def call(w, c, dims, o):
    from fvhoe.slope_limiting import detect_troubled_cells

    return detect_troubled_cells(
        u=w, u_candidate=c, dims=dims, NAD_eps=o["NAD"], mode=o["NAD_mode"], range_type=o["NAD_range"],
        NAD_vars=o["NAD_vars"], PAD_bounds=o["PAD"] if o["PAD"] else None, SED=o["SED"], SED_eps=o["SED_tolerance"],
    )


def verdict(mon, got, want, what, wit):
    tr, nm, pm = [np.asarray(a, dtype=float) for a in got]
    wtr, wnm, wpm = want
    shape = wtr.shape
    ok = mon.check(tr.shape == shape and nm.shape == shape and pm.shape == shape, f"{what}: shape of the result",
                   got=[tr.shape, nm.shape, pm.shape], want=shape, **wit)
    if not ok:
        return
    bad = (tr != 0) != wtr
    if bad.any():
        j = np.argwhere(bad)[0]
        mon.violate(f"{what}: a cell is {'wrongly' if tr[tuple(j)] else 'not'} flagged",
                    cell=j.tolist(), n_bad=int(bad.sum()), **wit)
    mon.event("oracle evaluations")
    mon.check(np.all((tr == 0) | (tr == 1)), f"{what}: flags are not 0 or 1", **wit)
    mon.check(np.array_equal(nm > 0, wnm > 0) and np.all(nm >= 0), f"{what}: neighbourhood violations are positive elsewhere than flagged", **wit)
    mon.check(np.array_equal(pm > 0, wpm > 0) and np.all(pm >= 0), f"{what}: bound violations are positive elsewhere than flagged", **wit)
    for g, w, nm_ in ((nm, wnm, "neighbourhood"), (pm, wpm, "bound")):
        mon.close(g, w, 1e-9, f"{what}: size of the {nm_} violation", scale=max(1.0, float(np.abs(w).max())), **wit)


def run_fields(rng, mon, dyadic):
    dims = work.pick(rng, work.ALL_DIMS)
    o = options(rng, dyadic)
    n, act, w, c, style = fields(rng, dims, dyadic)
    if dyadic and rng.random() < 0.35:
        # other units for every variable: powers of two keep all comparisons exact
        q = 2.0 ** rng.integers(-56, 57, size=5)
        w, c = w * q.reshape(5, 1, 1, 1), c * q.reshape(5, 1, 1, 1)
        o["PAD"] = {v: (lo * q[NAMES.index(v)], up * q[NAMES.index(v)]) for v, (lo, up) in o["PAD"].items()}
        mon.event("fields in other units")
    if dyadic and o["PAD"] and rng.random() < 0.4:
        # bounds a rounding step or 2^-40 away from values of the field
        for v, (lo, up) in list(o["PAD"].items()):
            k = int(rng.integers(4))
            vals = c[NAMES.index(v)]
            lo, up = sorted(float(x) for x in rng.choice(vals.ravel(), 2))
            sgn = -1 if k % 2 else 1
            if k < 2:
                lo, up = float(np.nextafter(lo, -sgn * np.inf)), float(np.nextafter(up, sgn * np.inf))
            else:
                lo, up = lo - sgn * abs(lo) * 2.0**-40, up + sgn * abs(up) * 2.0**-40
            o["PAD"][v] = (lo, up)
        mon.event("bounds next to values of the field")
    keep = w.copy(), c.copy()
    want = ref.detect(w, c, act, o)
    if not dyadic and want[3] < 1e-11:
        mon.event("cases too close to a threshold")
        return
    got = call(w, c, dims, o)
    wit = dict(dims=dims, n=n, options=str(o), style=style)
    mon.event("fields compared")
    if dyadic and want[3] == 0:
        mon.event("exact ties")
    if (want[1] > 0).any():
        mon.event("flagged by the neighbourhood")
    if (want[2] > 0).any():
        mon.event("flagged by physical bounds")
    if o["SED"]:
        off = ref.detect(w, c, act, dict(o, SED=False))
        if np.any((off[1] > 0) & ~(want[1] > 0)):
            mon.event("rescued by smooth extrema")
    verdict(mon, got, want[:3], "detection", wit)
    mon.check(np.array_equal(keep[0], w) and np.array_equal(keep[1], c), "detection modifies its input", **wit)
    mon.see("dyadic" if dyadic else "real", dims, o["NAD_mode"], o["NAD_range"], o["NAD_vars"], o["SED"], style,
            bool((want[1] > 0).any()), bool((want[2] > 0).any()))
    mon.sample = dict(wit, flagged=int(want[0].sum()), cells=int(want[0].size))


@kind("generic fields", 700, 12000)
def generic(rng, mon, i):
    run_fields(rng, mon, False)


@kind("dyadic fields", 500, 9000)
def dyadic(rng, mon, i):
    run_fields(rng, mon, True)


@kind("solver steps", 260, 5000)
def solver(rng, mon, i):
    """troubles recorded by a one-stage step of the solver"""
    cfg = work.rand_cfg(rng, cells=500, limiting=True)
    cfg["lim"]["SED_tolerance"] = float(work.pick(rng, [1e-10, 1e-10, 1e-3]))
    if i % 9 == 4:  # no variable is compared with its neighbourhood
        cfg["lim"]["NAD_vars"] = ()
    nv = cfg["lim"]["NAD_vars"]
    as_list = nv is not None and rng.random() < 0.3
    if i % 4 == 1:
        work.prescribe(rng, cfg)
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps", "strong"]))
    if i % 8 == 1:
        cfg["fixed_dt"] = float(rng.uniform(0.3, 1.0) * ref.timestep(cfg, u, 0.0))
    default_pad = rng.random() < 0.3
    over = {}
    if rng.random() < 0.3:  # bounds on every variable, or nearly
        for v in rng.permutation(NAMES)[: int(rng.integers(3, 6))]:
            lo, up = (0.7, 1.4) if v in ("rho", "P") else (-0.5, 0.5)
            cfg["lim"]["PAD"][str(v)] = (lo if rng.random() < 0.5 else -np.inf, up if rng.random() < 0.5 else np.inf)
        cfg["lim"]["NAD"] = float(work.pick(rng, [cfg["lim"]["NAD"], 50.0]))
    if default_pad:
        cfg["lim"]["PAD"] = dict(work.DEFAULT_LIM["PAD"])
        over["PAD"] = None
    if as_list:
        over["NAD_vars"] = list(nv)
    S = work.build(cfg, u, **over)
    dt, _, det = ref.rhs(cfg, u, t=0.0, want_detail=True)
    if det["margin"] < 1e-10 or not np.isfinite(det["margin"]):
        mon.event("cases too close to a threshold")
        return
    S.euler(n=1)
    s = S.snapshots[-1]
    mon.event("solver steps compared")
    if det["trouble"].any():
        mon.event("solver steps with troubled cells")
    verdict(mon, (s["trouble"], s["NAD violation magnitude"], s["PAD violation magnitude"]),
            (det["trouble"], det["nad"], det["pad"]), "solver", dict(cfg=str(work.describe(cfg))))
    mon.see("solver", *work.key(cfg), cfg["lim"]["NAD_vars"], bool(det["trouble"].any()))


@kind("violent steps", 120, 2500)
def violent(rng, mon, i):
    """
    steps far beyond the stability limit whose candidates have negative density or
    pressure: physical bounds alone decide, and only the bounds that were chosen
    """
    cfg = work.rand_cfg(rng, cells=400, limiting=True)
    lim = cfg["lim"]
    lim.update(NAD=float(work.pick(rng, [50.0, 1e3])), NAD_range="relative", NAD_mode="global",
               NAD_vars=("rho",), SED=bool(rng.random() < 0.5), force_trouble=False)
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["jumps", "strong"]), mach=float(rng.uniform(1, 4)))
    dt0, _, _ = ref.rhs(cfg, u, t=0.0, want_detail=True)
    cfg["fixed_dt"] = float(dt0 * rng.uniform(5, 40))
    inf = np.inf
    pads = [
        None,
        {},
        {"vx": (-1e9, 1e9)},
        {"P": (0.0, inf)},
        {"rho": (0.0, inf)},
        {"rho": (-inf, inf), "P": (-inf, inf)},
        {"P": (-inf, 1.5)},
        {"vy": (-0.5, 0.5), "P": (0.1, inf)},
        {"rho": (0.0, inf), "P": (0.0, inf)},
        {"P": (-inf, inf), "rho": (-inf, inf), "vx": (-1e9, 1e9), "vy": (-1e9, 1e9), "vz": (-0.4, 0.4)},
        {"P": (-1e9, 1e9), "rho": (-1e9, 1e9), "vx": (-0.5, inf), "vz": (-inf, 1e9)},
        {"vz": (-1e9, 1e9), "vy": (-inf, 0.4), "vx": (-1e9, 1e9), "rho": (-1e9, 1e9), "P": (-1e9, 1e9)},
    ]
    pad = pads[i % len(pads)]
    lim["PAD"] = dict(work.DEFAULT_LIM["PAD"]) if pad is None else dict(pad)
    S = work.build(cfg, u, PAD=None if pad is None else dict(pad))
    _, _, det = ref.rhs(cfg, u, t=0.0, want_detail=True)
    if det["margin"] < 1e-10 or not np.isfinite(det["margin"]):
        mon.event("cases too close to a threshold")
        return
    with np.errstate(all="ignore"):
        try:
            S.euler(n=1)
        except FloatingPointError:
            return
    s = S.snapshots[-1]
    mon.event("violent steps compared")
    if det["pad"].any():
        mon.event("violent steps outside their bounds")
    else:
        both = ref.rhs(dict(cfg, lim=dict(lim, PAD=dict(work.DEFAULT_LIM["PAD"]))), u, t=0.0, want_detail=True)[2]
        if both["pad"].any():
            mon.event("violent steps outside bounds that were not chosen")
    verdict(mon, (s["trouble"], s["NAD violation magnitude"], s["PAD violation magnitude"]),
            (det["trouble"], det["nad"], det["pad"]), "violent step", dict(cfg=str(work.describe(cfg))))
    mon.see("violent", cfg["dims"], str(pad), bool(det["pad"].any()))
