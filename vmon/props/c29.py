"""C29 shock tubes converge to the exact solution"""

import numpy as np

from vmon import exact, work
from vmon.core import registry

PID = "C29"
LEVEL = "exploration"
SCALE = 2
RULE = (
    "random Riemann problems of moderate strength (every combination of shocks and rarefactions, moving and stationary contacts, "
    "mirrored), along every direction, degree, flux solver, gamma and time integrator, on two meshes; errors against the exact "
    "solution, positions of shocks and contact, over- and undershoots. distinct by wave pattern, direction, degree, flux solver"
)
ASSUMPTIONS = [
    "error bounds are a multiple of the errors observed on the unchanged tree",
    "pressures differ by at most a factor of 12, densities by at most a factor of 6 (8 for Sod's tube), no vacuum forms; with stronger contrasts the undershoots that the detection tolerates by default are of the size of the smallest density",
]
REQUIRE = {"tubes": 40, "plateaus": 40, "left shock": 8, "left rarefaction": 8, "right shock": 8, "right rarefaction": 8, "shock positions": 15, "contact positions": 20}
KINDS, kind = registry()


def rand_tube(rng, gamma, pattern):
    """states (rho, u, P) with the requested waves, and the exact star state"""
    for _ in range(400):
        l = [float(np.exp(rng.uniform(-1.1, 1.1))), float(rng.uniform(-1.5, 1.5)), float(np.exp(rng.uniform(-1.2, 1.2)))]
        r = [float(np.exp(rng.uniform(-1.1, 1.1))), float(rng.uniform(-1.5, 1.5)), float(np.exp(rng.uniform(-1.2, 1.2)))]
        try:
            p, u = exact.star(l, r, gamma)
        except ValueError:
            continue
        got = ("S" if p > l[2] else "R") + ("S" if p > r[2] else "R")
        if got != pattern or p < 0.15 * min(l[2], r[2]):
            continue
        # clearly a wave on both sides
        if min(abs(p / l[2] - 1), abs(p / r[2] - 1)) < 0.15:
            continue
        if p > 12 * min(l[2], r[2]):
            continue
        d = exact.sample(l, r, gamma, [-1e3, u - 1e-9, u + 1e-9, 1e3])[0][0]
        if max(d) > 6 * min(d):
            continue
        return tuple(l), tuple(r)
    return (1.0, 0.0, 1.0), (0.125, 0.0, 0.1)


def solve(n, d, p, l, r, gamma, x0, T, dom, kw, vt, dye, across, method):
    from fvhoe.boundary_conditions import BoundaryCondition
    from fvhoe.solver import EulerSolver

    def core(x, y, z):
        c = (x, y, z)[d]
        m = c < x0
        out = np.zeros((5,) + c.shape)
        out[0] = np.where(m, l[0], r[0])
        out[1 + d] = np.where(m, l[1], r[1])
        e = [k for k in range(3) if k != d]
        out[1 + e[0]] = np.where(m, vt[0], vt[1])
        out[4] = np.where(m, l[2], r[2])
        return out

    a = "xyz"[d]
    args = {"n" + a: n, "p" + a: p, a: dom}
    bc = {a: "free"}
    if across is not None:
        b = "xyz"[across]
        args.update({"n" + b: max(4, work.need((p, 0, 0))[0]), "p" + b: p, b: (0, (dom[1] - dom[0]))})
        bc[b] = "periodic"
    S = EulerSolver(
        w0=work.raw_ic(core), w0_passives={"dye": lambda x, y, z: np.where((x, y, z)[d] < x0, dye[0], dye[1])},
        gamma=gamma, bc=BoundaryCondition(**bc), progress_bar=False, **args, **kw)
    work.budget(S, 60 * n)
    with np.errstate(all="ignore"):
        getattr(S, method)(T=T)
    w = np.asarray(S.snapshots[-1]["w"])
    if across is not None:
        sp = np.ptp(w, axis=1 + across).max()
        w = w.take(0, axis=1 + across)
    else:
        sp = 0.0
    w = w.reshape(6, n)
    e = [k for k in range(3) if k != d]
    return np.array([w[0], w[1 + d], w[4], w[5], w[1 + e[0]], w[1 + e[1]]]), sp, S


def scales(full, gamma):
    """sizes with which errors of density, velocity, pressure, dye and transverse velocity are compared"""
    c = np.sqrt(gamma * full[2] / full[0]).max()
    out = np.maximum(np.ptp(full, axis=1), 0.1)
    out[0] = max(out[0], 0.5 * full[0].max())
    out[2] = max(out[2], 0.5 * full[2].max())
    out[1] = max(out[1], 0.5 * c)
    return out


def crossing(y, lo, hi, xc, near, width):
    """position where y crosses the middle of lo and hi next to near"""
    mid = 0.5 * (lo + hi)
    best = None
    for k in range(len(y) - 1):
        a, b = y[k] - mid, y[k + 1] - mid
        if a * b <= 0 and a != b:
            x = xc[k] + (xc[k + 1] - xc[k]) * a / (a - b)
            if best is None or abs(x - near) < abs(best - near):
                best = x
    return best


@kind("tubes", 56, 900)
def tubes(rng, mon, i):
    pattern = ["RS", "SR", "SS", "RR"][i % 4]
    gamma = float(rng.choice([1.4, 5 / 3, 1.2]))
    if i % 12 == 11:
        l, r, gamma = (1.0, 0.0, 1.0), (0.125, 0.0, 0.1), 1.4
        if rng.random() < 0.5:
            l, r = r, l
    else:
        l, r = rand_tube(rng, gamma, pattern)
    d = int(rng.integers(3))
    p = int([0, 1, 2, 3, 4, 5, 6, 7, 8][(i // 4) % 9]) if rng.random() < 0.8 else int(rng.integers(0, 4))
    dom = (-0.7, 1.3) if rng.random() < 0.5 else (0.0, 1.0)
    L = dom[1] - dom[0]
    x0 = dom[0] + 0.5 * L
    rs = ["hllc", "llf"][int(rng.integers(2))]
    kw = dict(CFL=0.4, riemann_solver=rs)
    if p:
        kw.update(a_posteriori_slope_limiting=True, slope_limiter=work.pick(rng, ["minmod", "moncen"]))
        if rng.random() < 0.3:
            kw["NAD_mode"] = "local"
        if rng.random() < 0.3:
            kw["convex"] = True
        if rng.random() < 0.3:
            kw["NAD_range"] = "absolute"
        if rng.random() < 0.3:
            kw["SED"] = False
    method = "run" if rng.random() < 0.6 or p > 2 else work.pick(rng, ["ssprk2", "ssprk3", "rk4"])
    across = None
    if i % 6 == 5 and p <= 4:
        across = [k for k in range(3) if k != d][int(rng.integers(2))]
    vt, dye = rng.normal(size=2), rng.random(2)
    heads = exact.waves(l, r, gamma)
    fast = max(abs(heads[0]), abs(heads[4]), abs(heads[2]))
    T = 0.36 * L / fast
    pstar, ustar = exact.star(l, r, gamma)
    # an outlier of one mesh is confirmed on finer ones
    def attempt(k, mon):
        errs = []
        ns = [(32, 96), (40, 120), (64, 192)][k] if across is not None else [(48, 144), (64, 192), (96, 288)][k]
        for n in ns:
            q, spread, S = solve(n, d, p, l, r, gamma, x0, T, dom, kw, vt, dye, across, method)
            ctx = dict(pattern=pattern, l=l, r=r, gamma=gamma, d="xyz"[d], p=p, kw=str(kw), method=method, n=n, across=across)
            mon.check(np.all(np.isfinite(q)), "a shock tube does not stay finite", **ctx)
            if mon.violations:
                return
            mon.check(q[0].min() > 0 and q[2].min() > 0, "density or pressure of a shock tube do not stay positive", **ctx)
            mon.check(np.abs(q[5]).max() < 1e-9 and spread < 1e-9, "a plane shock tube does not stay plane", **ctx)
            faces = np.linspace(dom[0], dom[1], n + 1)
            ex, left = exact.averages(l, r, gamma, x0, T, faces)
            full = np.vstack([ex, left * dye[0] + (1 - left) * dye[1], left * vt[0] + (1 - left) * vt[1]])
            rng_ = scales(full, gamma)
            errs.append(np.mean(np.abs(q[:5] - full), axis=1) / rng_)
        over = np.maximum(q[:5].max(axis=1) - full.max(axis=1), full.min(axis=1) - q[:5].min(axis=1)) / rng_
        mon.event("tubes")
        mon.event("left shock" if pattern[0] == "S" else "left rarefaction")
        mon.event("right shock" if pattern[1] == "S" else "right rarefaction")
        mon.see(pattern, d, p, rs, across is not None)
        xc = 0.5 * (faces[1:] + faces[:-1])
        h = L / ns[1]
        pos = []
        for side, e, name in ((l, 0, pattern[0]), (r, 4, pattern[1])):
            if name != "S" or abs(pstar - side[2]) < 0.3 * side[2]:
                continue
            want = x0 + heads[e] * T
            got = crossing(q[2], side[2], pstar, xc, want, h)
            pos.append(abs(got - want) / h if got is not None else 99.0)
            mon.event("shock positions")
        got = crossing(q[3], dye[0], dye[1], xc, x0 + ustar * T, h)
        cpos = abs(got - (x0 + ustar * T)) / h if got is not None else 99.0
        mon.event("contact positions")
        # plateaus between the waves, and the undisturbed states
        gap = (12 if p == 0 else 6) * h
        edges = [x0 + v * T for v in heads]
        plate = []
        for e in (1, 2):
            m = (xc > edges[e] + gap) & (xc < edges[e + 1] - gap)
            if m.sum() >= 3:
                plate.append(float(np.max(np.abs(np.median(q[:5, m], axis=1) - np.median(full[:, m], axis=1)) / rng_)))
                mon.event("plateaus")
        out = 0.0
        for m, st in ((xc < edges[0] - 2.5 * gap, 0), (xc > edges[4] + 2.5 * gap, -1)):
            if m.any():
                out = max(out, float(np.max(np.abs(q[:5, m] - full[:, m]) / rng_[:, None])))
        judge(mon, p, errs, over, pos, cpos, plate, out, ctx)

    work.confirm(mon, attempt)


def judge(mon, p, errs, over, pos, cpos, plate, out, ctx):
    """bounds: about one and a half times the largest value seen in several thousand tubes on the unchanged tree"""
    mon.sample = dict(p=p, coarse=errs[0].tolist(), fine=errs[1].tolist(), over=over.tolist(), shock=[float(v) for v in pos], contact=float(cpos), plateaus=plate)
    plain = not any(k in ctx["kw"] for k in ("SED", "NAD", "convex"))
    if p == 0:
        B = dict(total=0.5, ratio=0.93, ok=0.02, dye=0.2, over=1.0, dyeover=1e-9, shock=14, contact=18, plateau=0.5, outer=2e-3)
    elif plain:
        B = dict(total=0.22, ratio=0.95, ok=0.05, dye=0.05, over=0.7, dyeover=0.6, shock=6, contact=5, plateau=0.11, outer=0.03)
    else:
        B = dict(total=0.4, ratio=0.95, ok=0.08, dye=0.08, over=0.9, dyeover=0.6, shock=11, contact=9, plateau=0.18, outer=0.07)
    fine, coarse = float(errs[1][:3].sum()), float(errs[0][:3].sum())
    v = dict(errors=[e.tolist() for e in errs], **ctx)
    cls = "0" if p == 0 else ("plain" if plain else "odd")

    def bound(what, got, text, **kw):
        mon.margins[f"{what}/{cls}"] = max(mon.margins.get(f"{what}/{cls}", 0.0), float(got) / B[what])
        mon.check(got < B[what], text, got=float(got), bound=B[what], **kw, **v)

    bound("total", fine, "a shock tube is far from the exact solution")
    mon.check(fine < B["ok"] or fine < B["ratio"] * coarse, "a shock tube does not converge to the exact solution", coarse=coarse, fine=fine, **v)
    bound("dye", errs[1][3:].max(), "scalars or transverse velocity of a shock tube are far from the exact solution")
    bound("over", over[:3].max(), "a shock tube overshoots the exact solution", over=over.tolist())
    bound("dyeover", over[3:].max(), "scalars or transverse velocity of a shock tube overshoot", over=over.tolist())
    for x in pos:
        bound("shock", x, "a shock is at the wrong place")
    bound("contact", cpos, "the contact is at the wrong place")
    for x in plate:
        bound("plateau", x, "the state between the waves is wrong")
    bound("outer", out, "the undisturbed states are disturbed")
    if fine >= B["ok"]:
        mon.margins[f"ratio/{cls}"] = max(mon.margins.get(f"ratio/{cls}", 0.0), fine / coarse / B["ratio"])
