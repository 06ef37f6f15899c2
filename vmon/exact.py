"""exact solution of the Riemann problem of the 1D Euler equations (ideal gas)"""

import numpy as np


def star(l, r, g):
    """(p*, u*) for left and right states (rho, u, p)"""
    from scipy.optimize import brentq

    (rl, ul, pl), (rr, ur, pr) = l, r
    cl, cr = np.sqrt(g * pl / rl), np.sqrt(g * pr / rr)
    if 2 * (cl + cr) / (g - 1) <= ur - ul:
        raise ValueError("vacuum")

    def side(p, rho, pk, c):
        if p > pk:
            A, B = 2 / ((g + 1) * rho), (g - 1) / (g + 1) * pk
            return (p - pk) * np.sqrt(A / (p + B))
        return 2 * c / (g - 1) * ((p / pk) ** ((g - 1) / (2 * g)) - 1)

    def F(p):
        return side(p, rl, pl, cl) + side(p, rr, pr, cr) + ur - ul

    lo, hi = 1e-14 * min(pl, pr), 10 * max(pl, pr)
    while F(hi) < 0:
        hi *= 4
    while F(lo) > 0:
        lo *= 1e-4
        if lo < 1e-200:
            raise ValueError("vacuum")
    p = brentq(F, lo, hi, xtol=1e-300, rtol=1e-14, maxiter=500)
    u = 0.5 * (ul + ur) + 0.5 * (side(p, rr, pr, cr) - side(p, rl, pl, cl))
    return p, u


def waves(l, r, g):
    """speeds of the wave edges: (left head, left tail, contact, right tail, right head)"""
    p, u = star(l, r, g)
    out = []
    for (rho, v, pk), sgn in ((l, -1), (r, 1)):
        c = np.sqrt(g * pk / rho)
        if p > pk:
            s = v + sgn * c * np.sqrt((g + 1) / (2 * g) * p / pk + (g - 1) / (2 * g))
            out.append((s, s))
        else:
            cs = c * (p / pk) ** ((g - 1) / (2 * g))
            out.append((v + sgn * c, u + sgn * cs))
    return out[0][0], out[0][1], u, out[1][1], out[1][0]


def sample(l, r, g, xi):
    """primitive state (3, len(xi)) at the speeds xi = x/t, and which side of the contact"""
    xi = np.asarray(xi, dtype=float)
    p, u = star(l, r, g)
    out = np.zeros((3,) + xi.shape)
    left = xi < u
    for (rho, v, pk), sgn, m in ((l, -1, left), (r, 1, ~left)):
        c = np.sqrt(g * pk / rho)
        x = xi[m]
        w = np.zeros((3,) + x.shape)
        y = sgn * x  # now the wave runs to the right of the contact
        vv, uu = sgn * v, sgn * u
        if p > pk:
            q = p / pk
            a = (g - 1) / (g + 1)
            rs = rho * (q + a) / (a * q + 1)
            s = vv + c * np.sqrt((g + 1) / (2 * g) * q + (g - 1) / (2 * g))
            out_ = y > s
            w[0] = np.where(out_, rho, rs)
            w[1] = np.where(out_, vv, uu)
            w[2] = np.where(out_, pk, p)
        else:
            cs = c * (p / pk) ** ((g - 1) / (2 * g))
            rs = rho * (p / pk) ** (1 / g)
            head, tail = vv + c, uu + cs
            f = 2 / (g + 1) - (g - 1) / ((g + 1) * c) * (vv - y)
            f = np.maximum(f, 1e-300)
            w[0] = np.where(y > head, rho, np.where(y < tail, rs, rho * f ** (2 / (g - 1))))
            w[1] = np.where(y > head, vv, np.where(y < tail, uu, 2 / (g + 1) * (-c + (g - 1) / 2 * vv + y)))
            w[2] = np.where(y > head, pk, np.where(y < tail, p, pk * f ** (2 * g / (g - 1))))
        w[1] *= sgn
        out[:, m] = w
    return out, left


def averages(l, r, g, x0, t, faces, sub=16):
    """cell averages (midpoint rule with sub points) of the primitive solution at time t"""
    n = len(faces) - 1
    s = (np.arange(sub) + 0.5) / sub
    x = faces[:-1, None] + (faces[1:] - faces[:-1])[:, None] * s
    w, left = sample(l, r, g, (x.ravel() - x0) / t)
    return w.reshape(3, n, sub).mean(axis=2), left.reshape(n, sub).mean(axis=1)
