"""
Reference model of the documented scheme, written independently of /repo:
rational stencil weights, per-cell ghost maps, textbook Riemann solvers,
per-cell detectors and per-face blending.  It never imports fvhoe.
"""

from fractions import Fraction
from functools import lru_cache
import itertools

import numpy as np

AX = {"x": 0, "y": 1, "z": 2}

# --------------------------------------------------------------------------
# stencils


def _solve(A, b):
    """exact Gauss elimination over Fractions"""
    n = len(A)
    M = [list(row) + [b[i]] for i, row in enumerate(A)]
    for c in range(n):
        piv = next(r for r in range(c, n) if M[r][c] != 0)
        M[c], M[piv] = M[piv], M[c]
        pv = M[c][c]
        M[c] = [v / pv for v in M[c]]
        for r in range(n):
            if r != c and M[r][c] != 0:
                f = M[r][c]
                M[r] = [a - f * d for a, d in zip(M[r], M[c])]
    return [M[r][n] for r in range(n)]


def _avg_monomial(i, k):
    """average of x^k over the unit cell centred at i"""
    a, b = Fraction(2 * i - 1, 2), Fraction(2 * i + 1, 2)
    return (b ** (k + 1) - a ** (k + 1)) / (k + 1)


def _offset_sets(p):
    if p % 2 == 0:
        return [list(range(-(p // 2), p // 2 + 1))]
    k = (p + 1) // 2
    return [list(range(-k, k)), list(range(-k + 1, k + 1))]


def _combine(p, solve_one):
    k = -(-p // 2)
    total = [Fraction(0)] * (2 * k + 1)
    sets = _offset_sets(p)
    for offs in sets:
        for o, w in zip(offs, solve_one(offs)):
            total[o + k] += w / len(sets)
    return total


@lru_cache(None)
def interp_fracs(p, pos):
    """weights taking cell averages to the point value at l/c/r of cell 0"""
    x = {"l": Fraction(-1, 2), "c": Fraction(0), "r": Fraction(1, 2)}[pos]

    def one(offs):
        # sum_j w_j avg(x^k; j) = x^k for k <= p
        A = [[_avg_monomial(o, k) for o in offs] for k in range(p + 1)]
        return _solve(A, [x**k for k in range(p + 1)])

    return tuple(_combine(p, one))


@lru_cache(None)
def trans_fracs(p):
    """weights taking point values at cell centres to the average over cell 0"""

    def one(offs):
        A = [[Fraction(o) ** k for o in offs] for k in range(p + 1)]
        return _solve(A, [_avg_monomial(0, k) for k in range(p + 1)])

    return tuple(_combine(p, one))


@lru_cache(None)
def interp_w(p, pos):
    return np.array([float(f) for f in interp_fracs(p, pos)])


@lru_cache(None)
def trans_w(p):
    return np.array([float(f) for f in trans_fracs(p)])


def sweep(a, w, axis):
    """apply stencil weights along axis; output is shorter by len(w) - 1"""
    if len(w) == 1:
        return a * w[0]
    v = np.lib.stride_tricks.sliding_window_view(a, len(w), axis=axis)
    return v @ w




# --------------------------------------------------------------------------
# equations of state


def cons(w, gamma):
    """primitive (rho, vx, vy, vz, P, s...) -> conservative, any trailing shape"""
    w = np.asarray(w, dtype=float)
    u = w.copy()
    rho = w[0]
    for i in (1, 2, 3):
        u[i] = rho * w[i]
    u[4] = w[4] / (gamma - 1) + 0.5 * rho * (w[1] ** 2 + w[2] ** 2 + w[3] ** 2)
    for i in range(5, w.shape[0]):
        u[i] = rho * w[i]
    return u


def prim(u, gamma):
    u = np.asarray(u, dtype=float)
    w = u.copy()
    rho = u[0]
    for i in (1, 2, 3):
        w[i] = u[i] / rho
    w[4] = (gamma - 1) * (u[4] - 0.5 * (u[1] ** 2 + u[2] ** 2 + u[3] ** 2) / rho)
    for i in range(5, u.shape[0]):
        w[i] = u[i] / rho
    return w


def flux(w, gamma, d, pressure=True):
    """physical flux along direction d (0, 1, 2)"""
    u = cons(w, gamma)
    vn = w[1 + d]
    F = vn * u
    if pressure:
        F[1 + d] = F[1 + d] + w[4]
        F[4] = F[4] + vn * w[4]
    return F


def sound(w, gamma, floor):
    csq = gamma * w[4] / w[0]
    return np.sqrt(np.where(csq > floor, csq, floor))


# --------------------------------------------------------------------------
# Riemann solvers


def riemann_advection(wl, wr, gamma, d, floor):
    Fl = flux(wl, gamma, d, pressure=False)
    Fr = flux(wr, gamma, d, pressure=False)
    v = wl[1 + d]
    return np.where(v > 0, Fl, np.where(v < 0, Fr, 0.0))


def riemann_llf(wl, wr, gamma, d, floor):
    a = np.maximum(
        np.abs(wl[1 + d]) + sound(wl, gamma, floor),
        np.abs(wr[1 + d]) + sound(wr, gamma, floor),
    )
    return 0.5 * (flux(wl, gamma, d) + flux(wr, gamma, d)) - 0.5 * a * (
        cons(wr, gamma) - cons(wl, gamma)
    )


def riemann_hllc(wl, wr, gamma, d, floor):
    """HLLC with wave speeds min(v) - max(c), max(v) + max(c); F* = F + S (U* - U)"""
    ul, ur = cons(wl, gamma), cons(wr, gamma)
    Fl, Fr = flux(wl, gamma, d), flux(wr, gamma, d)
    vl, vr = wl[1 + d], wr[1 + d]
    c = np.maximum(sound(wl, gamma, floor), sound(wr, gamma, floor))
    SL = np.minimum(vl, vr) - c
    SR = np.maximum(vl, vr) + c
    rl, rr, pl, pr = wl[0], wr[0], wl[4], wr[4]
    SM = (pr - pl + rl * vl * (SL - vl) - rr * vr * (SR - vr)) / (
        rl * (SL - vl) - rr * (SR - vr)
    )

    def star(w, u, S, v, p):
        fac = w[0] * (S - v) / (S - SM)
        us = np.empty_like(u)
        us[0] = fac
        for i in range(3):
            us[1 + i] = fac * w[1 + i]
        us[1 + d] = fac * SM
        us[4] = fac * (u[4] / w[0] + (SM - v) * (SM + p / (w[0] * (S - v))))
        for i in range(5, u.shape[0]):
            us[i] = fac * w[i]
        return us

    Fsl = Fl + SL * (star(wl, ul, SL, vl, pl) - ul)
    Fsr = Fr + SR * (star(wr, ur, SR, vr, pr) - ur)
    return np.where(SL > 0, Fl, np.where(SM > 0, Fsl, np.where(SR > 0, Fsr, Fr)))


RIEMANN = {
    "advection_upwind": riemann_advection,
    "llf": riemann_llf,
    "hllc": riemann_hllc,
}

# --------------------------------------------------------------------------
# ghost cells

# bc spec: {"x": (left, right), ...}; each entry is a dict:
#   {"type": "periodic"|"free"|"outflow"|"reflective"|"none"}
#   {"type": "dirichlet", "value": array | callable(x, y, z, t)}
#   {"type": "ic", "value": callable(x, y, z)}
#   {"type": "dmr"}


def centres(n, dom, g=0):
    h = (dom[1] - dom[0]) / n
    return dom[0] + h * (np.arange(-g, n + g) + 0.5)


def pad(u, gw, bc, dom, t=None):
    """
    ghost cells, direction after direction (x, y, z), each direction filling the
    ghost layers already built for the earlier ones too
    """
    n = u.shape[1:]
    out = u
    for d in range(3):
        g = gw[d]
        if g == 0:
            continue
        nd = n[d]
        shape = list(out.shape)
        shape[1 + d] = nd + 2 * g
        new = np.full(shape, np.nan)
        ins = [slice(None)] * 4
        ins[1 + d] = slice(g, g + nd)
        new[tuple(ins)] = out
        for side, spec in zip("lr", bc["xyz"[d]]):
            typ = spec["type"]
            for k in range(1, g + 1):  # k-th ghost cell away from the edge
                dst = [slice(None)] * 4
                dst[1 + d] = g - k if side == "l" else g + nd - 1 + k
                dst = tuple(dst)

                def src(i):
                    s = [slice(None)] * 4
                    s[1 + d] = i
                    return out[tuple(s)]

                if typ == "periodic":
                    i = -k if side == "l" else nd - 1 + k
                    new[dst] = src(i % nd)
                elif typ == "free":
                    new[dst] = src(0 if side == "l" else nd - 1)
                elif typ in ("outflow", "reflective"):
                    i = k - 1 if side == "l" else nd - k
                    new[dst] = src(i)
                    if typ == "reflective":
                        new[(1 + d,) + dst[1:]] *= -1.0
                elif typ == "dmr":
                    i = k - 1 if side == "l" else nd - k
                    refl = src(i).copy()
                    refl[1 + d] *= -1.0
                    free = src(0 if side == "l" else nd - 1)
                    gx = (out.shape[1] - n[0]) // 2
                    x = centres(n[0], dom[0], gx)
                    new[dst] = np.where((x < 1 / 6)[None, :, None], free, refl)
                elif typ in ("dirichlet", "ic"):
                    val = spec["value"]
                    if callable(val):
                        # ghost layers of the directions still to come are
                        # overwritten later, so evaluate on the current extent
                        c = []
                        for e in range(3):
                            ge = (new.shape[1 + e] - n[e]) // 2 if e != d else 0
                            if e == d:
                                h = (dom[e][1] - dom[e][0]) / n[e]
                                pos = (
                                    dom[e][0] - (k - 0.5) * h
                                    if side == "l"
                                    else dom[e][1] + (k - 0.5) * h
                                )
                                c.append(np.array([pos]))
                            else:
                                c.append(centres(n[e], dom[e], ge))
                        X, Y, Z = np.meshgrid(*c, indexing="ij")
                        kw = dict(x=X, y=Y, z=Z)
                        if typ == "dirichlet":
                            kw["t"] = t
                        v = np.asarray(val(**kw))
                        new[dst] = v.take(0, axis=1 + d)
                    else:
                        new[dst] = np.asarray(val).reshape(-1, 1, 1)
                else:
                    raise ValueError(typ)
        out = new
    return out


# --------------------------------------------------------------------------
# fields


def half(p):
    return -(-p // 2)


def primitives(cfg, u, gw=(0, 0, 0), fv=True, p=None, t=None):
    """primitive cell averages (or centre values) with gw ghost layers"""
    p = cfg["p"] if p is None else p
    k = 2 if fv else 1
    g = tuple(gw[d] + k * half(p[d]) for d in range(3))
    a = pad(u, g, cfg["bc"], cfg["dom"], t)
    for d in range(3):
        a = sweep(a, interp_w(p[d], "c"), 1 + d)
    w = prim(a, cfg["gamma"])
    if fv:
        for d in range(3):
            w = sweep(w, trans_w(p[d]), 1 + d)
    return w


def active(cfg):
    return [
        d for d in range(3) if not (cfg["n"][d] == 1 and cfg["p"][d] == 0)
    ]


def timestep(cfg, u, t=None, ghosts=None):
    if cfg.get("fixed_dt") is not None:
        return cfg["fixed_dt"]
    if ghosts is None:
        k = half(max(cfg["p"]))
        gwid = max(k + 1, 2 * k)
        ghosts = tuple(gwid if d in active(cfg) else 0 for d in range(3))
    w = primitives(cfg, u, gw=ghosts, t=t)
    c = sound(w, cfg["gamma"], cfg["csq_floor"])
    s = np.abs(w[1]) + np.abs(w[2]) + np.abs(w[3]) + len(active(cfg)) * c
    h = min((cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d] for d in range(3))
    return cfg["CFL"] * h / s.max()


def minmod(a, b):
    return np.where(a * b > 0, np.where(np.abs(a) < np.abs(b), a, b), 0.0)


def moncen(a, b):
    c = 0.5 * (a + b)
    m = np.minimum(np.minimum(2 * np.abs(a), 2 * np.abs(b)), np.abs(c))
    return np.where(a * b > 0, np.sign(c) * m, 0.0)


def slopes(a, axis, limiter):
    lo = [slice(None)] * a.ndim
    mi = [slice(None)] * a.ndim
    hi = [slice(None)] * a.ndim
    lo[axis], mi[axis], hi[axis] = slice(0, -2), slice(1, -1), slice(2, None)
    mid = a[tuple(mi)]
    dl, dr = mid - a[tuple(lo)], a[tuple(hi)] - mid
    if limiter == "minmod":
        s = minmod(dl, dr)
    elif limiter == "moncen":
        s = moncen(dl, dr)
    else:
        s = 0.5 * (dl + dr)
    return mid, s


def physical_faces(cfg, u, t=None):
    """are density and pressure positive in every reconstructed face state?"""
    lows = []
    fluxes(cfg, u, t=t, spy=lows)
    if cfg.get("lim") is not None:
        pl = tuple(min(1, q) for q in cfg["p"])
        fluxes(cfg, u, p=pl, limiter=cfg["lim"]["slope_limiter"], t=t, spy=lows)
    return bool(np.all(np.array(lows) > 0))


def fluxes(cfg, u, p=None, limiter="high", t=None, spy=None):
    """
    numerical fluxes through every face of the interior cells
    limiter: "high" -> unlimited degree-p; otherwise degree<=1 with that limiter
    """
    p = cfg["p"] if p is None else p
    out = {}
    rs = RIEMANN[cfg["riemann"]]
    for d in active(cfg):
        # transverse directions need half(p) for face-midpoint values and
        # half(p) more for the face average
        gw = [0, 0, 0]
        for e in active(cfg):
            gw[e] = 2 * half(p[e]) if e != d else half(p[d]) + 1
        w = primitives(cfg, u, gw=tuple(gw), p=p, t=t)
        for e in range(3):
            if e != d:
                w = sweep(w, interp_w(p[e], "c"), 1 + e)
        if limiter not in ("high", None) and p[d] == 1:
            mid, s = slopes(w, 1 + d, limiter)
            L, R = mid - 0.5 * s, mid + 0.5 * s
        else:
            L = sweep(w, interp_w(p[d], "l"), 1 + d)
            R = sweep(w, interp_w(p[d], "r"), 1 + d)
        a = [slice(None)] * 4
        b = [slice(None)] * 4
        a[1 + d], b[1 + d] = slice(0, -1), slice(1, None)
        if spy is not None:
            spy += [x.min() for q in (R[tuple(a)], L[tuple(b)]) for x in (q[0], q[4])]
        F = rs(R[tuple(a)], L[tuple(b)], cfg["gamma"], d, cfg["csq_floor"])
        for e in range(3):
            if e != d:
                F = sweep(F, trans_w(p[e]), 1 + e)
        out[d] = F
    return out


def divergence(cfg, F):
    out = 0.0
    for d, f in F.items():
        h = (cfg["dom"][d][1] - cfg["dom"][d][0]) / cfg["n"][d]
        out = out - np.diff(f, axis=1 + d) / h
    return out


# --------------------------------------------------------------------------
# detectors


def sed_1d(v, eps):
    """alpha of one line of values -> array shorter by 6"""
    n = len(v)
    dU = np.array([(v[i + 1] - v[i - 1]) / 2 for i in range(1, n - 1)])
    m = len(dU)
    alpha = np.empty(m - 2)
    for i in range(1, m - 1):
        dv = (dU[i + 1] - dU[i - 1]) / 4
        if abs(dv) <= eps:
            alpha[i - 1] = 1.0
            continue
        vl = dU[i] - dU[i - 1]  # left second difference
        vr = dU[i + 1] - dU[i]
        al = max(0.0, vl / dv)
        ar = max(0.0, vr / dv)
        alpha[i - 1] = min(1.0, al, ar)
    return np.array([min(alpha[i : i + 3]) for i in range(len(alpha) - 2)])


def sed_alpha(v, act, eps):
    """alpha for a padded (3 ghosts along active axes) 3D array of one variable"""
    v = np.asarray(v)
    res = None
    for d in act:
        idx = [slice(3, -3) if (e in act and e != d) else slice(None) for e in range(3)]
        sub = v[tuple(idx)]
        al = np.apply_along_axis(sed_1d, d, sub, eps)
        res = al if res is None else np.minimum(res, al)
    return res


def detect(w, wc, act, opts):
    """
    per-cell detection over padded (3 ghosts along active axes) primitive arrays.
    returns trouble (bool), NAD magnitude, PAD magnitude and the distance of the
    closest decision from its threshold (relative), for tie-avoidance
    """
    nv = 5
    inner = tuple(slice(3, -3) if d in act else slice(None) for d in range(3))
    shape = w[0][inner].shape
    names = ["rho", "vx", "vy", "vz", "P"]
    nad_vars = opts.get("NAD_vars")
    eps = opts["NAD"]
    offs = list(itertools.product(*[(-1, 0, 1) if d in act else (0,) for d in range(3)]))
    ind = np.empty((nv,) + shape)
    flag = np.zeros((nv,) + shape, bool)
    margin = np.inf
    for v in range(nv):
        M = np.full(shape, -np.inf)
        m = np.full(shape, np.inf)
        for o in offs:
            sl = tuple(
                slice(3 + o[d], w.shape[1 + d] - 3 + o[d]) if d in act else slice(None)
                for d in range(3)
            )
            M = np.maximum(M, w[v][sl])
            m = np.minimum(m, w[v][sl])
        c = wc[v][inner]
        gmax, gmin = w[v].max(), w[v].min()
        if opts["NAD_range"] == "relative":
            rng = (gmax - gmin) if opts["NAD_mode"] == "global" else (M - m)
            ind[v] = np.minimum(c - m, M - c)
            thr = -eps * rng
        else:
            if opts["NAD_mode"] == "global":
                lo, up = (1 - eps) * gmin, (1 + eps) * gmax
            else:
                lo, up = (1 - eps) * m, (1 + eps) * M
            ind[v] = np.minimum(c - lo, up - c)
            thr = 0.0
        flag[v] = ind[v] < thr
        sc = np.max(np.abs(w[v])) + np.max(np.abs(wc[v]))
        if sc > 0 and (nad_vars is None or names[v] in nad_vars):
            margin = min(margin, float(np.min(np.abs(ind[v] - thr)) / sc))
        if opts["SED"]:
            al = sed_alpha(wc[v], act, opts["SED_tolerance"])
            flag[v] &= al < 1
        if nad_vars is not None and names[v] not in nad_vars:
            flag[v] = False
    nad = flag.any(axis=0)
    nad_mag = np.where(nad, -ind.min(axis=0), 0.0)
    pad_ind = np.zeros(shape)
    for name, (lo, up) in opts["PAD"].items():
        c = wc[names.index(name)][inner]
        pad_ind = np.minimum(pad_ind, np.minimum(c - lo, up - c))
        for b in (lo, up):
            if np.isfinite(b):
                sc = np.max(np.abs(c)) + abs(b)
                if sc > 0:
                    margin = min(margin, float(np.min(np.abs(c - b)) / sc))
    pad_t = pad_ind < 0
    pad_mag = np.where(pad_t, -pad_ind, 0.0)
    return nad | pad_t, nad_mag, pad_mag, margin


# --------------------------------------------------------------------------
# blending


def cell_weights(trouble, act, convex, periodic):
    """
    fallback weight of every cell, on a grid extended by one cell on each side
    along active directions (cells outside a non-periodic domain are untroubled)
    """
    n = trouble.shape
    ext = tuple(n[d] + 2 if d in act else n[d] for d in range(3))
    th = np.zeros(ext)
    reach = 2 if convex else 0
    offs = itertools.product(
        *[range(-reach, reach + 1) if d in act else (0,) for d in range(3)]
    )
    offs = list(offs)
    for idx in np.argwhere(trouble):
        for o in offs:
            dist = [abs(o[d]) for d in act]
            if max(dist, default=0) == 0:
                wt = 1.0
            elif max(dist) == 1:
                wt = 0.75 if sum(dist) == 1 else 0.5
            else:
                wt = 0.25
            # every image of this cell that falls inside the extended grid
            pos = []
            for d in range(3):
                q = idx[d] + o[d]
                if d not in act:
                    pos.append([q])
                    continue
                cand = []
                if d in periodic:
                    for k in range(-4, 5):
                        e = q + k * n[d]
                        if -1 <= e <= n[d]:
                            cand.append(e + 1)
                elif -1 <= q <= n[d]:
                    cand.append(q + 1)
                pos.append(cand)
            for pp in itertools.product(*pos):
                th[pp] = max(th[pp], wt)
    return th


def face_weights(trouble, act, convex, periodic):
    th = cell_weights(np.asarray(trouble, bool), act, convex, periodic)
    out = {}
    for d in act:
        inner = tuple(
            slice(1, -1) if (e in act and e != d) else slice(None) for e in range(3)
        )
        a = th[inner]
        lo = [slice(None)] * 3
        hi = [slice(None)] * 3
        lo[d], hi[d] = slice(0, -1), slice(1, None)
        out[d] = np.maximum(a[tuple(lo)], a[tuple(hi)])
    return out


def rhs(cfg, u, t=None, want_detail=False):
    """dt and du/dt of the complete scheme, limiting included"""
    dt = timestep(cfg, u, t)
    F = fluxes(cfg, u, t=t)
    detail = {}
    lim = cfg.get("lim")
    if lim is not None:
        act = active(cfg)
        us = u + dt * divergence(cfg, F)
        g3 = tuple(3 if d in act else 0 for d in range(3))
        w = primitives(cfg, u, gw=g3, t=t)
        wc = primitives(cfg, us, gw=g3, t=t)
        tr, nm, pm, margin = detect(w, wc, act, lim)
        if lim.get("force_trouble"):
            tr = np.ones_like(tr)
        detail.update(trouble=tr, nad=nm, pad=pm, margin=margin)
        if tr.any():
            pl = tuple(min(1, q) for q in cfg["p"])
            Fl = fluxes(cfg, u, p=pl, limiter=lim["slope_limiter"], t=t)
            per = [d for d in act if cfg["bc"]["xyz"[d]][0]["type"] == "periodic"]
            th = face_weights(tr, act, lim["convex"], per)
            for d in act:
                F[d] = (1 - th[d]) * F[d] + th[d] * Fl[d]
    out = divergence(cfg, F)
    if want_detail:
        return dt, out, detail
    return dt, out


TABLEAU = {
    "euler": ([[]], [1.0]),
    "ssprk2": ([[], [1.0]], [0.5, 0.5]),
    "ssprk3": ([[], [1.0], [0.25, 0.25]], [1 / 6, 1 / 6, 2 / 3]),
    "rk4": ([[], [0.5], [0.0, 0.5], [0.0, 0.0, 1.0]], [1 / 6, 1 / 3, 1 / 3, 1 / 6]),
}


def rk_step(f, t, u, dt, name):
    """one step of the named method from its Butcher tableau; f(t, u) -> dudt"""
    A, b = TABLEAU[name]
    ks = []
    for row in A:
        ui = u
        for a, k in zip(row, ks):
            if a:
                ui = ui + dt * a * k
        ks.append(f(t + dt * sum(row), ui))
    out = u
    for bi, k in zip(b, ks):
        out = out + dt * bi * k
    return out
