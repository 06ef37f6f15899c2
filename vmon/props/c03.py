"""C03 polynomial exactness of reconstruction and averaging"""

from fractions import Fraction

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C03"
LEVEL = "exploration"
RULE = (
    "random polynomials of degree <= p with known point values and cell averages; all "
    "degrees 0..8, axes and positions are enumerated, polynomials, shapes and mixtures "
    "are sampled. distinct by (operation, degrees, axis, position)"
)
ASSUMPTIONS = ["rounding allowance 1e-11 of the largest value involved"]
REQUIRE = {"exactness comparisons": 400}
KINDS, kind = registry()
TOL = 1e-11


def poly1(rng, deg):
    """coefficients c_k of sum c_k x^k, well scaled on |x| <= 6"""
    return [Fraction(int(rng.integers(-50, 51)), int(3**k)) for k in range(deg + 1)]


def value(c, x):
    x = Fraction(x)
    return sum(ck * x**k for k, ck in enumerate(c))


def mean(c, i):
    """average over the unit cell centred at i"""
    a, b = Fraction(2 * i - 1, 2), Fraction(2 * i + 1, 2)
    return sum(ck * (b ** (k + 1) - a ** (k + 1)) / (k + 1) for k, ck in enumerate(c))


def lines(c, lo, hi):
    idx = range(lo, hi + 1)
    return (
        np.array([float(mean(c, i)) for i in idx]),
        {
            "l": np.array([float(value(c, Fraction(2 * i - 1, 2))) for i in idx]),
            "c": np.array([float(value(c, i)) for i in idx]),
            "r": np.array([float(value(c, Fraction(2 * i + 1, 2))) for i in idx]),
        },
    )


@kind("weights", 9, 9)
def weights(rng, mon, p):
    """weights of every degree and position reproduce all monomials exactly"""
    from fvhoe.stencils import (
        get_conservative_interpolation_stencil_weights as ci,
        get_transverse_reconstruction_stencil_weights as tr,
    )

    ops = [("l", np.asarray(ci(p=p, pos="l"))), ("c", np.asarray(ci(p=p, pos="c"))),
           ("r", np.asarray(ci(p=p, pos="r"))), ("avg", np.asarray(tr(p=p)))]
    for name, w in ops:
        mon.check(len(w) % 2 == 1, "stencil is not centred on the cell", p=p, pos=name)
        k = len(w) // 2
        for m in range(p + 1):
            c = [Fraction(0)] * m + [Fraction(1)]
            av, pt = lines(c, -k, k)
            if name == "avg":
                got, want, mag = w @ pt["c"], float(mean(c, 0)), np.abs(w) @ np.abs(pt["c"])
            else:
                x = {"l": Fraction(-1, 2), "c": 0, "r": Fraction(1, 2)}[name]
                got, want, mag = w @ av, float(value(c, x)), np.abs(w) @ np.abs(av)
            mon.event("exactness comparisons")
            mon.close(got, want, 1e-13, "monomial not reproduced", scale=max(mag, 1e-3),
                      p=p, pos=name, monomial=m)
        mon.see(name, p)
    L, C, R, A = [w for _, w in ops]
    mon.close(L, R[::-1], 1e-14, "left and right weights are not mirror images", scale=1.0, p=p)
    mon.close(C, C[::-1], 1e-14, "centre weights are not symmetric", scale=1.0, p=p)
    mon.close(A, A[::-1], 1e-14, "averaging weights are not symmetric", scale=1.0, p=p)
    mon.sample = dict(p=p, right=[str(f) for f in ref.interp_fracs(p, "r")])


@kind("sweeps along one axis", 162, 1620)
def sweeps(rng, mon, i):
    """sweeps over arrays of any number of dimensions along any axis"""
    from fvhoe.fv import conservative_interpolation, transverse_reconstruction

    p = i % 9
    k = ref.half(p)
    ndim = int(rng.integers(1, 6))
    axis = int(rng.integers(0, ndim))
    n = 2 * k + int(rng.integers(1, 6))
    shape = [int(rng.integers(1, 4)) for _ in range(ndim)]
    shape[axis] = n
    lo = int(rng.integers(-6, 1))
    flat = int(np.prod(shape)) // n
    ava, pts = [], {q: [] for q in "lcr"}
    for _ in range(flat):
        c = poly1(rng, int(rng.integers(0, p + 1)))
        a, q = lines(c, lo, lo + n - 1)
        ava.append(a)
        for s in "lcr":
            pts[s].append(q[s])

    def fold(rows):
        a = np.array(rows).T.reshape([n] + [s for j, s in enumerate(shape) if j != axis])
        return np.moveaxis(a, 0, axis)

    av = fold(ava)
    pt = {s: fold(pts[s]) for s in "lcr"}
    cut = [slice(None)] * ndim
    cut[axis] = slice(k, n - k)
    cut = tuple(cut)
    sc = max(np.abs(av).max(), np.abs(pt["c"]).max(), 1e-3)
    for pos in "lcr":
        a = av.copy()
        got = conservative_interpolation(a, p=p, axis=axis, pos=pos)
        mon.event("exactness comparisons")
        mon.check(np.array_equal(a, av), "input was modified", p=p)
        mon.close(got, pt[pos][cut], TOL, "interpolated value of a polynomial", scale=sc,
                  p=p, axis=axis, pos=pos, ndim=ndim)
        mon.see("interp", p, axis, ndim, pos)
    got = transverse_reconstruction(pt["c"].copy(), p=p, axis=axis)
    mon.event("exactness comparisons")
    mon.close(got, av[cut], TOL, "recovered average of a polynomial", scale=sc, p=p, axis=axis)
    mon.see("recon", p, axis, ndim)
    # mirrored data gives mirrored values, for arbitrary data
    r = rng.normal(size=shape)
    rl = conservative_interpolation(np.flip(r, axis).copy(), p=p, axis=axis, pos="l")
    rr = conservative_interpolation(r.copy(), p=p, axis=axis, pos="r")
    mon.close(np.flip(rl, axis), rr, TOL, "mirrored data does not mirror the values",
              scale=10.0, p=p)
    for pos in "c":
        a = conservative_interpolation(np.flip(r, axis).copy(), p=p, axis=axis, pos=pos)
        b = conservative_interpolation(r.copy(), p=p, axis=axis, pos=pos)
        mon.close(np.flip(a, axis), b, TOL, "mirrored data does not mirror the values",
                  scale=10.0, p=p)


class Poly3:
    """product-form polynomial sum_m a_m x^i y^j z^k, degree <= deg per direction"""

    def __init__(self, rng, deg, nv, terms=4):
        self.t = []
        for _ in range(nv):
            row = []
            for m in range(terms):
                e = [int(rng.integers(0, g + 1)) for g in deg]
                if m == 0:
                    e = list(deg)
                row.append((float(rng.uniform(-1, 1)), e))
            self.t.append(row)

    def point(self, x, y, z):
        return np.array(
            [sum(a * x ** e[0] * y ** e[1] * z ** e[2] for a, e in row) for row in self.t]
        )

    def mean(self, xb, yb, zb):
        """averages over the cells with boundaries xb, yb, zb"""

        def m(b, k):
            return (b[1:] ** (k + 1) - b[:-1] ** (k + 1)) / ((k + 1) * np.diff(b))

        return np.array(
            [
                sum(
                    a
                    * m(xb, e[0])[:, None, None]
                    * m(yb, e[1])[None, :, None]
                    * m(zb, e[2])[None, None, :]
                    for a, e in row
                )
                for row in self.t
            ]
        )


@kind("three-dimensional centres and averages", 80, 1000)
def threed(rng, mon, i):
    """centres from averages and averages from centres, mixed degrees per direction"""
    from fvhoe.fv import interpolate_cell_centers, interpolate_fv_averages

    p = tuple(int(rng.integers(0, 9)) if rng.random() < 0.7 else 0 for _ in range(3))
    if i < 27:
        p = tuple([0, 0, 0][:d] + [i % 9] + [0] * (2 - d) for d in [i // 9])[0]
        p = tuple(p)
    k = [ref.half(q) for q in p]
    n = [2 * k[d] + int(rng.integers(1, 3)) for d in range(3)]
    P = Poly3(rng, p, 2)
    b = [np.linspace(-1, 1, n[d] + 1) * rng.uniform(0.7, 1.2) for d in range(3)]
    av = P.mean(*b)
    c = [0.5 * (q[1:] + q[:-1]) for q in b]
    pt = P.point(*np.meshgrid(*c, indexing="ij"))
    cut = (slice(None),) + tuple(slice(k[d], n[d] - k[d]) for d in range(3))
    sc = max(np.abs(av).max(), np.abs(pt).max())
    mon.close(interpolate_cell_centers(av.copy(), p=p), pt[cut], TOL * 10,
              "centre values of a polynomial", scale=sc, p=p)
    mon.close(interpolate_fv_averages(pt.copy(), p=p), av[cut], TOL * 10,
              "averages of a polynomial", scale=sc, p=p)
    mon.event("exactness comparisons", 2)
    mon.see("3d", p)


@kind("cell averages of functions", 90, 1000)
def averages(rng, mon, i):
    """fv_average of polynomials on random meshes"""
    from fvhoe.fv import fv_average

    p = tuple(int(rng.integers(0, 9)) if rng.random() < 0.8 else 0 for _ in range(3))
    if i < 27:
        p = [0, 0, 0]
        p[i // 9] = i % 9
        p = tuple(p)
    n = [int(rng.integers(1, 5)) for _ in range(3)]
    P = Poly3(rng, p, 3)
    b = []
    for d in range(3):
        a = rng.uniform(-1, 1)
        b.append(np.linspace(a, a + rng.uniform(0.3, 1.5), n[d] + 1))
    c = [0.5 * (q[1:] + q[:-1]) for q in b]
    X, Y, Z = np.meshgrid(*c, indexing="ij")
    keep = X.copy(), Y.copy(), Z.copy()
    h = tuple(float(q[1] - q[0]) for q in b)
    got = fv_average(lambda x, y, z: P.point(x, y, z), X, Y, Z, h=h, p=p)
    want = P.mean(*b)
    mon.event("exactness comparisons")
    mon.close(got, want, TOL, "cell average of a polynomial", scale=max(np.abs(want).max(), 1.0), p=p)
    mon.check(all(np.array_equal(a, q) for a, q in zip(keep, (X, Y, Z))), "mesh was modified")
    mon.see("fv_average", p)


@kind("starting state of a solver", 90, 900)
def starting(rng, mon, i):
    """conservative polynomial initial data gives exact starting averages"""
    from fvhoe.solver import EulerSolver

    dims = work.ALL_DIMS[i % 7]
    act = [ref.AX[c] for c in dims]
    p = [0, 0, 0]
    n = [1, 1, 1]
    dom = [(0.0, 1.0)] * 3
    for d in act:
        p[d] = int(rng.integers(0, 9))
        n[d] = int(rng.integers(2, 6))
        a = float(rng.uniform(-1, 1))
        dom[d] = (a, a + float(rng.uniform(0.3, 1.5)))
    nd = int(rng.integers(0, 3))
    P = Poly3(rng, p, 5 + nd)
    kw = dict(
        w0=work.raw_ic(lambda x, y, z: P.point(x, y, z)[:5]), conservative_ic=True,
        nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1], pz=p[2], x=dom[0], y=dom[1], z=dom[2],
        progress_bar=False,
    )
    if nd:
        kw["w0_passives"] = {
            f"s{j}": (lambda x, y, z, j=j: P.point(x, y, z)[5 + j]) for j in range(nd)
        }
    S = EulerSolver(**kw)
    b = [np.linspace(dom[d][0], dom[d][1], n[d] + 1) for d in range(3)]
    want = P.mean(*b)
    mon.event("exactness comparisons")
    mon.close(work.state(S), want, TOL, "starting averages of a polynomial",
              scale=max(np.abs(want).max(), 1.0), p=p, dims=dims)
    mon.see("solver", dims, tuple(p), nd)
    mon.sample = dict(dims=dims, p=p, n=n)


@kind("centre values in snapshots", 45, 450)
def snapshots(rng, mon, i):
    """centre-valued snapshots of polynomial density at rest are exact in the interior"""
    dims = work.ALL_DIMS[i % 6]
    act = [ref.AX[c] for c in dims]
    p, n = [0, 0, 0], [1, 1, 1]
    for d in act:
        p[d] = int(rng.integers(0, 9))
        n[d] = 2 * ref.half(p[d]) + int(rng.integers(2, 5))
    from fvhoe.solver import EulerSolver
    from fvhoe.boundary_conditions import BoundaryCondition

    P = Poly3(rng, p, 1)

    def ic(x, y, z):
        out = np.zeros((5,) + x.shape)
        out[0] = 4.0 + P.point(x, y, z)[0]
        out[4] = 1.5
        return out

    S = EulerSolver(
        w0=work.raw_ic(ic), conservative_ic=True, nx=n[0], ny=n[1], nz=n[2], px=p[0], py=p[1],
        pz=p[2], progress_bar=False, snapshots_as_fv_averages=False,
        bc=BoundaryCondition(x="free", y="free", z="free"),
    )
    S.euler(n=0)
    w = np.asarray(S.snapshots[0]["w"])
    c = [(np.arange(n[d]) + 0.5) / n[d] for d in range(3)]
    want = 4.0 + P.point(*np.meshgrid(*c, indexing="ij"))[0]
    cut = tuple(slice(ref.half(p[d]), n[d] - ref.half(p[d])) for d in range(3))
    mon.event("exactness comparisons")
    mon.close(w[0][cut], want[cut], TOL, "centre density of a polynomial", scale=10.0, p=p)
    mon.see("snapshot", dims, tuple(p))
