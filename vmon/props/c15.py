"""C15 slope limiters"""

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C15"
LEVEL = "exploration"
RULE = (
    "random data (smooth, noisy, plateaus, ties, exact dyadic numbers, tiny and huge values) "
    "along random axes of arrays of random shape; limited rates of change of whole states. "
    "distinct by limiter, axis, kind of data, shape"
)
ASSUMPTIONS = ["minmod guards against differences below 1e-16, so values are compared to 1e-12 of the data plus 1e-16"]
REQUIRE = {"arrays checked": 1000, "local extrema": 1000, "monotone cells": 1000, "linear data": 100,
           "limited rates compared": 80}
KINDS, kind = registry()


def data(rng, n):
    style = work.pick(rng, ["smooth", "noise", "ties", "plateau", "jump", "tiny", "huge", "mixed", "spread"])
    x = np.arange(n)
    if style == "smooth":
        v = np.sin(rng.uniform(0.2, 1.2) * x + rng.uniform(0, 6)) + 2
    elif style == "noise":
        v = rng.normal(size=n)
    elif style == "ties":
        v = rng.integers(0, 4, n) / 4.0
    elif style == "plateau":
        v = np.repeat(rng.normal(size=n // 2 + 1), 2)[:n]
    elif style == "jump":
        v = np.where(x > rng.integers(0, n), 1.0, 3.0) + 0.1 * rng.normal(size=n) * (rng.random() < 0.5)
    elif style == "tiny":
        v = float(10 ** rng.uniform(-40, -9)) * rng.normal(size=n)
    elif style == "huge":
        v = float(10 ** rng.uniform(6, 40)) * rng.normal(size=n)
    elif style == "spread":
        v = rng.normal(size=n) * 10.0 ** rng.uniform(-6, 3, n)
    else:
        v = np.cumsum(rng.integers(-1, 3, n) * rng.choice([0.25, 1.0], n))
    return v, style


def array(rng):
    nd = int(rng.integers(1, 5))
    axis = int(rng.integers(nd))
    shape = tuple(int(rng.integers(1, 4)) if a != axis else int(rng.integers(3, 14)) for a in range(nd))
    out = np.empty(shape)
    moved = np.moveaxis(out, axis, -1)
    for j in np.ndindex(*moved.shape[:-1]):
        moved[j], style = data(rng, shape[axis])
    return out, axis, style


def cut(u, axis, a, b):
    s = [slice(None)] * u.ndim
    s[axis] = slice(a, b)
    return u[tuple(s)]


@kind("face values", 1600, 30000)
def faces(rng, mon, i):
    from fvhoe.slope_limiting import MUSCL_interpolations

    u, axis, style = array(rng)
    lim = ["minmod", "moncen", None][i % 3]
    keep = u.copy()
    L, R = MUSCL_interpolations(u, axis=axis, limiter=lim)
    wit = dict(limiter=str(lim), axis=axis, shape=u.shape, style=style)
    mon.check(np.array_equal(u, keep), "the data was modified", **wit)
    lo, mid, hi = cut(u, axis, 0, -2), cut(u, axis, 1, -1), cut(u, axis, 2, None)
    if not mon.check(L.shape == mid.shape and R.shape == mid.shape, "shape of the face values", got=L.shape, want=mid.shape, **wit):
        return
    scale = np.maximum(np.maximum(np.abs(lo), np.abs(mid)), np.abs(hi))
    slack = 1e-12 * scale
    mon.event("arrays checked")
    m2, s = ref.slopes(u, axis, lim)
    mon.check(np.all(np.abs(L - (mid - 0.5 * s)) <= slack) and np.all(np.abs(R - (mid + 0.5 * s)) <= slack),
              "limited slope is not the documented one", u=u, **wit)
    if lim is not None:
        ok = (L >= np.minimum(lo, mid) - slack) & (L <= np.maximum(lo, mid) + slack)
        ok &= (R >= np.minimum(hi, mid) - slack) & (R <= np.maximum(hi, mid) + slack)
        mon.check(ok.all(), "a limited face value leaves the range of its neighbours", u=u, **wit)
        ext = (mid - lo) * (hi - mid) <= 0
        mon.event("local extrema", int(ext.sum()))
        mon.event("monotone cells", int((~ext).sum()))
        mon.check(np.all(np.abs(R - L)[ext] <= slack[ext]), "the slope does not vanish at a local extremum", u=u, **wit)
    # reversal and negation
    Lr, Rr = MUSCL_interpolations(np.flip(u, axis).copy(), axis=axis, limiter=lim)
    mon.check(np.all(np.abs(np.flip(Lr, axis) - R) <= slack) and np.all(np.abs(np.flip(Rr, axis) - L) <= slack),
              "reversed data does not give reversed face values", u=u, **wit)
    Ln, Rn = MUSCL_interpolations(-u, axis=axis, limiter=lim)
    mon.check(np.all(np.abs(Ln + L) <= slack) and np.all(np.abs(Rn + R) <= slack),
              "negated data does not give negated face values", u=u, **wit)
    mon.see(lim, axis, u.ndim, style)
    mon.sample = dict(wit)


@kind("linear data", 150, 1500)
def linear(rng, mon, i):
    from fvhoe.slope_limiting import MUSCL_interpolations

    nd = int(rng.integers(1, 5))
    axis = int(rng.integers(nd))
    shape = tuple(int(rng.integers(2, 4)) if a != axis else int(rng.integers(3, 10)) for a in range(nd))
    x = np.arange(shape[axis]).reshape([-1 if a == axis else 1 for a in range(nd)])
    rest = [1 if a == axis else shape[a] for a in range(nd)]
    a, b = rng.normal(size=rest), rng.normal(size=rest) * 10.0 ** rng.integers(-3, 4)
    u = a + b * x
    lim = ["minmod", "moncen", None][i % 3]
    L, R = MUSCL_interpolations(u, axis=axis, limiter=lim)
    mid = cut(np.broadcast_to(u, shape), axis, 1, -1)
    sc = np.max(np.abs(u))
    mon.event("linear data")
    mon.close(L, mid - 0.5 * b, 1e-12, "linear data is not reproduced (left)", scale=sc, limiter=str(lim), axis=axis)
    mon.close(R, mid + 0.5 * b, 1e-12, "linear data is not reproduced (right)", scale=sc, limiter=str(lim), axis=axis)
    mon.see("linear", lim, axis, nd)


@kind("slopes", 300, 5000)
def slopes(rng, mon, i):
    """the limiter functions on pairs of differences"""
    from fvhoe import slope_limiting

    shape = tuple(int(rng.integers(1, 6)) for _ in range(int(rng.integers(1, 4))))
    a = rng.normal(size=shape) * 10.0 ** rng.uniform(-5, 5)
    r = work.pick(rng, ["any", "close", "equal", "opposite", "zero", "two", "half", "spread"])
    b = {"any": lambda: rng.normal(size=shape) * np.max(np.abs(a)), "close": lambda: a * rng.uniform(0.9, 1.1, shape),
         "equal": lambda: a.copy(), "opposite": lambda: -a * rng.uniform(0.1, 3, shape), "zero": lambda: np.zeros(shape),
         "two": lambda: 3 * a, "half": lambda: a / 3, "spread": lambda: a * 10.0 ** rng.uniform(-4, 4, shape)}[r]()
    if rng.random() < 0.5:
        a, b = b, a
    slack = 1e-12 * (np.abs(a) + np.abs(b)) + 1e-15
    for nm, fn in (("minmod", ref.minmod), ("moncen", ref.moncen)):
        got = getattr(slope_limiting, nm)(a, b)
        mon.check(np.all(np.abs(got - fn(a, b)) <= slack), f"{nm} slope", a=a, b=b, got=got)
        mon.check(np.all(np.abs(got - getattr(slope_limiting, nm)(b, a)) <= slack), f"{nm} depends on the order of its arguments", a=a, b=b)
        mon.check(np.all(np.abs(got + getattr(slope_limiting, nm)(-a, -b)) <= slack), f"{nm} is not odd", a=a, b=b)
        mon.check(np.all(np.abs(got) <= 2 * np.minimum(np.abs(a), np.abs(b)) + slack), f"{nm} exceeds twice the smaller difference", a=a, b=b)
        mon.check(np.all((np.sign(got) == np.sign(a)) | (np.abs(got) <= slack)), f"{nm} has the wrong sign", a=a, b=b)
    mon.see("slopes", r, len(shape))


@kind("limited scheme", 120, 2000)
def scheme(rng, mon, i):
    """second-order limited rate of change of whole states, each limiter and direction"""
    cfg = work.rand_cfg(rng, cells=500, limiting=True, pmax=2)
    cfg["p"] = tuple(max(1, q) if "xyz"[d] in cfg["dims"] else 0 for d, q in enumerate(cfg["p"]))
    cfg["n"] = tuple(max(a, b) if "xyz"[d] in cfg["dims"] else 1 for d, (a, b) in enumerate(zip(cfg["n"], work.need(cfg["p"]))))
    cfg["lim"].update(force_trouble=True, slope_limiter=["minmod", "moncen", None][i % 3])
    w = work.rand_prims(rng, cfg, style=work.pick(rng, ["smooth", "noisy", "jumps"]))
    if rng.random() < 0.4:
        # plateaus and extrema
        w = np.round(w * 4) / 4
        w[0], w[4] = np.maximum(w[0], 0.25), np.maximum(w[4], 0.25)
    u = ref.cons(w, cfg["gamma"])
    S = work.build(cfg, u)
    _, got = S.f(0.0, u.copy())
    pl = tuple(min(1, q) for q in cfg["p"])
    want = ref.divergence(cfg, ref.fluxes(cfg, u, p=pl, limiter=cfg["lim"]["slope_limiter"]))
    if not np.all(np.isfinite(want)):
        return
    mon.event("limited rates compared")
    h = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in ref.active(cfg))
    mon.close(got, want, 1e-9, "rate of change of the limited scheme", scale=np.maximum(work.groups(want), work.groups(u) / h),
              cfg=str(work.describe(cfg)))
    mon.see("scheme", cfg["lim"]["slope_limiter"], cfg["dims"], cfg["p"], cfg["riemann"])
