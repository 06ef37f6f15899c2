"""C16 smooth-extremum indicator"""

import itertools

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C16"
LEVEL = "exploration"
RULE = (
    "random arrays (generic, exact dyadic, smooth, discontinuous, flat) of several variables in "
    "every direction and set of dimensions; each compared per cell with a reference and under "
    "mirroring, negation, constant shifts, relabelling. distinct by dimensions, data, tolerance"
)
ASSUMPTIONS = ["cells whose indicator lies within 1e-9 of 1, or whose slope change lies within rounding of the tolerance, are not compared"]
REQUIRE = {"cells compared": 20000, "cells below one": 3000, "smooth extrema seen": 200, "discontinuities seen": 150}
KINDS, kind = registry()


def indicator(u, dims, eps):
    from fvhoe.smooth_extrema_detection import (
        compute_1d_smooth_extrema_detector,
        compute_2d_smooth_extrema_detector,
        compute_3d_smooth_extrema_detector,
    )

    if len(dims) == 1:
        return compute_1d_smooth_extrema_detector(u, dim=dims, eps=eps)
    if len(dims) == 2:
        return compute_2d_smooth_extrema_detector(u, dims=dims, eps=eps)
    return compute_3d_smooth_extrema_detector(u, eps=eps)


def draw(rng, dims, style=None):
    act = [ref.AX[c] for c in dims]
    top = {1: 12, 2: 6, 3: 4}[len(act)]
    full = tuple(int(rng.integers(1, top + 1)) + 6 if d in act else int(rng.integers(1, 3)) for d in range(3))
    nv = int(rng.integers(1, 4))
    style = style or work.pick(rng, ["noise", "dyadic", "smooth", "jump", "steps", "flat", "kink"])
    g = np.meshgrid(*[np.arange(m, dtype=float) for m in full], indexing="ij")
    s = sum(float(rng.integers(1, 3)) * g[d] for d in act)
    out = np.empty((nv,) + full)
    for v in range(nv):
        if style == "noise":
            out[v] = rng.normal(size=full)
        elif style == "dyadic":
            out[v] = rng.integers(-6, 7, size=full) / 4.0
        elif style == "smooth":
            k = rng.uniform(0.1, 0.4, 3)
            out[v] = np.sin(sum(k[d] * g[d] for d in act) + rng.uniform(0, 6))
        elif style == "jump":
            out[v] = np.where(s > np.median(s), 2.0, -1.0) + 0.3 * np.sin(0.2 * s)
        elif style == "steps":
            out[v] = np.floor(s / 3) / 2
        elif style == "flat":
            out[v] = rng.normal() + (rng.normal() * 1e-13 * rng.normal(size=full) if rng.random() < 0.5 else 0)
        else:
            out[v] = np.abs(s - np.median(s)) * 0.5
    return out, act, style


def reference(u, act, eps):
    return np.stack([ref.sed_alpha(u[v], act, eps) for v in range(u.shape[0])])


def near_tolerance(u, act, eps):
    """is some mean slope change within rounding of the tolerance?"""
    sc = np.max(np.abs(u)) + 1e-300
    for d in act:
        a = 1 + d
        n = u.shape[a]
        t = lambda i: np.take(u, range(i, n - 4 + i), axis=a)
        dv = (t(4) - 2 * t(2) + t(0)) / 8
        if np.any(np.abs(np.abs(dv) - eps) <= 4e-15 * sc):
            return True
    return False


def compare(mon, got, want, msg, wit, tol=1e-9):
    if not mon.check(got.shape == want.shape, msg + ": shape", got=got.shape, want=want.shape, **wit):
        return
    clear = np.abs(want - 1) > 1e-9
    sat = want >= 1
    mon.event("cells compared", got.size)
    mon.check(np.all(got[sat] >= 1 - 1e-9) and np.all(got <= 1) and np.all(got >= 0), msg + ": not within [0, 1] or not 1 at a smooth cell",
              **wit)
    below = clear & (want < 1)
    mon.event("cells below one", int(below.sum()))
    mon.check(np.all(got[below] < 1), msg + ": 1 at a cell that is not smooth", **wit)
    mon.close(np.where(np.isnan(got), 2.0, got), want, tol, msg + ": value", scale=1.0, **wit)


@kind("reference", 700, 12000)
def reference_case(rng, mon, i):
    dims = work.pick(rng, work.ALL_DIMS)
    u, act, style = draw(rng, dims)
    eps = float(work.pick(rng, [1e-10, 1e-10, 1e-3, 0.05, 1e-14]))
    if style == "flat" and eps < 1e-11:
        eps = 1e-10
    if style == "dyadic":
        eps = float(work.pick(rng, [1e-10, 2.0**-4, 2.0**-3]))  # dv is a multiple of 1/32: exact ties
    elif near_tolerance(u, act, eps):
        mon.event("arrays too close to the tolerance")
        return
    want = reference(u, act, eps)
    keep = u.copy()
    wit = dict(dims=dims, style=style, eps=eps, shape=u.shape)
    order = dims if len(dims) != 2 or rng.random() < 0.6 else dims[::-1]
    if style in ("steps", "kink", "jump") or style == "flat":
        tol = 1e-7  # nearly flat stretches: quotients of rounding-level numbers are excluded by the tolerance
    else:
        tol = 1e-9
    got = np.asarray(indicator(u, order, eps))
    # quotients of numbers far below the data size are noisy unless the data is exact
    if style not in ("dyadic",) and eps < 1e-6:
        dvmin = 1e-7 * np.max(np.abs(u))
        noisy = np.zeros(want.shape, bool)
        for d in act:
            a = 1 + d
            n = u.shape[a]
            t = lambda k: np.take(u, range(k, n - 4 + k), axis=a)
            small = (np.abs(t(4) - 2 * t(2) + t(0)) / 8 < dvmin) & (np.abs(t(4) - 2 * t(2) + t(0)) / 8 > 0.1 * eps)
            # neighbours share it
            m = small.shape[a]
            sm = np.zeros_like(np.take(small, range(0, m - 2), axis=a))
            for k in range(3):
                sm |= np.take(small, range(k, m - 2 + k), axis=a)
            idx = [slice(None)] + [slice(3, -3) if (e in act and e != d) else slice(None) for e in range(3)]
            noisy |= sm[tuple(idx)]
        got = np.where(noisy, want, got)
    compare(mon, got, want, "indicator", wit, tol)
    mon.check(np.array_equal(u, keep), "the data was modified", **wit)
    mon.see("reference", dims, style, eps)
    mon.sample = wit


@kind("symmetry", 450, 8000)
def symmetry(rng, mon, i):
    dims = work.pick(rng, work.ALL_DIMS)
    u, act, style = draw(rng, dims, style=work.pick(rng, ["noise", "dyadic", "smooth", "jump"]))
    eps = 1e-10
    if style != "dyadic" and near_tolerance(u, act, eps):
        return
    base = np.asarray(indicator(u, dims, eps))
    wit = dict(dims=dims, style=style, shape=u.shape)
    tol = 1e-8
    # mirrored along every axis
    for d in act:
        m = np.asarray(indicator(np.flip(u, 1 + d).copy(), dims, eps))
        mon.event("cells compared", m.size)
        mon.close(np.flip(m, 1 + d), base, tol, "indicator of mirrored data", scale=1.0, axis="xyz"[d], **wit)
    m = np.asarray(indicator(-u, dims, eps))
    mon.close(m, base, tol, "indicator of negated data", scale=1.0, **wit)
    # constant shift, exact on dyadic data
    c = float(rng.integers(-8, 9)) / 2
    if style == "dyadic":
        m = np.asarray(indicator(u + c, dims, eps))
        mon.close(m, base, tol, "indicator of shifted data", scale=1.0, **wit)
    # scaling by a power of two
    m = np.asarray(indicator(u * 4.0, dims, eps * 4.0))
    mon.close(m, base, tol, "indicator of scaled data", scale=1.0, **wit)
    # relabelling
    perm = work.pick(rng, list(itertools.permutations(range(3))))
    pu = np.transpose(u, (0,) + tuple(1 + q for q in perm)).copy()
    nd = "".join(sorted("xyz"[i] for i in range(3) if perm[i] in act))
    m = np.asarray(indicator(pu, nd, eps))
    mon.close(m, np.transpose(base, (0,) + tuple(1 + q for q in perm)), tol, "indicator of relabelled data", scale=1.0, perm=str(perm), **wit)
    # smallest of the one-dimensional indicators
    if len(dims) > 1:
        parts = []
        for d in act:
            idx = (slice(None),) + tuple(slice(3, -3) if (e in act and e != d) else slice(None) for e in range(3))
            parts.append(np.asarray(indicator(u[idx].copy(), "xyz"[d], eps)))
        mon.close(base, np.minimum.reduce(parts), tol, "indicator is not the smallest of the directions", scale=1.0, **wit)
    mon.see("symmetry", dims, style)


@kind("smooth and discontinuous", 200, 3000)
def known(rng, mon, i):
    """resolved extrema give 1, jumps and sawtooth extrema give less"""
    dims = work.pick(rng, ["x", "y", "z", "xy", "yz", "xz"])
    act = [ref.AX[c] for c in dims]
    n = 25 if len(act) == 1 else 19
    full = tuple(n if d in act else 1 for d in range(3))
    g = np.meshgrid(*[np.arange(m, dtype=float) for m in full], indexing="ij")
    k = float(rng.uniform(0.02, 0.12)) * float(rng.choice([-1, 1]))
    if i % 2 == 0:
        # a parabola (curvature of one sign) through its extremum
        c = [rng.uniform(8, 16) for _ in range(3)]
        u = sum(k * (1 + 0.5 * (d == act[0])) * (g[d] - c[d]) ** 2 for d in act)[None] + rng.normal()
        al = np.asarray(indicator(u, dims, 1e-10))
        mon.event("smooth extrema seen", int(al.size))
        mon.check(np.all(al == 1), "a resolved smooth extremum is not recognised", dims=dims, k=k, smallest=float(al.min()))
    else:
        d = act[int(rng.integers(len(act)))]
        pos = int(rng.integers(9, full[d] - 9)) if full[d] > 18 else 9
        u = np.where(g[d] >= pos, 1.0, 0.0)[None] * float(rng.choice([-2.0, 3.0])) + float(rng.integers(3))
        al = np.asarray(indicator(u, dims, 1e-10))
        line = np.take(al, [pos - 3 - 1, pos - 3], axis=1 + d)
        mon.event("discontinuities seen", int(line.size))
        mon.check(np.all(line < 1), "a jump counts as smooth", dims=dims, position=pos)
        far = np.delete(al, range(max(0, pos - 3 - 5), min(al.shape[1 + d], pos - 3 + 5)), axis=1 + d)
        mon.check(np.all(far == 1), "flat data does not count as smooth", dims=dims)
    mon.see("known", dims, i % 2)


@kind("solver steps", 160, 3000)
def solver(rng, mon, i):
    """the indicator in use: neighbourhood violations at smooth extrema are not flagged"""
    from vmon.props import c13

    cfg = work.rand_cfg(rng, cells=500, limiting=True)
    cfg["lim"].update(SED=True, SED_tolerance=1e-10, NAD=float(work.pick(rng, [0.0, 1e-6, 1e-4])), NAD_range="relative",
                      PAD={"rho": (0.0, np.inf), "P": (0.0, np.inf)})
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["smooth", "smooth", "jumps"]))
    S = work.build(cfg, u)
    _, _, det = ref.rhs(cfg, u, t=0.0, want_detail=True)
    if det["margin"] < 1e-10 or not np.isfinite(det["margin"]):
        return
    S.euler(n=1)
    s = S.snapshots[-1]
    mon.event("cells compared", det["trouble"].size)
    c13.verdict(mon, (s["trouble"], s["NAD violation magnitude"], s["PAD violation magnitude"]),
                (det["trouble"], det["nad"], det["pad"]), "solver", dict(cfg=str(work.describe(cfg))))
    mon.see("solver", *work.key(cfg))
