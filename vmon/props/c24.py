"""C24 plots and samples"""

import contextlib
import io
import re

import numpy as np

from vmon import ref, work
from vmon.core import registry

PID = "C24"
LEVEL = "exploration"
RULE = (
    "snapshot histories of real runs and fabricated snapshot lists (non-square meshes, unsorted and uneven "
    "times); lines, planes, contours, field overviews and radial averages at random times, places, variables, "
    "trouble modes; what reaches the axes is compared with a per-point reference. distinct by plot, variable, free directions"
)
ASSUMPTIONS = ["requests within rounding of a tie between two times or cells are not made"]
REQUIRE = {"lines compared": 250, "planes compared": 250, "contours compared": 25, "radial averages compared": 200,
           "overviews compared": 20, "trouble overlays": 60, "summaries compared": 200}
KINDS, kind = registry()
ROW = {"rho": 0, "vx": 1, "vy": 2, "vz": 3, "P": 4}


class Fake:
    """snapshots of a run that never happened"""

    def __init__(self, rng, passives=0, trouble=True, nmax=9):
        self.n = tuple(int(v) for v in rng.integers(2, nmax, 3))
        if rng.random() < 0.3:
            k = int(rng.integers(3))
            self.n = tuple(1 if d == k else m for d, m in enumerate(self.n))
        self.names = [f"dye{k}" for k in range(passives)]
        self.dom = []
        for d in range(3):
            a = float(rng.uniform(-2, 2))
            self.dom.append((a, a + float(rng.uniform(0.3, 3))))
        self.cen = [ref.centres(self.n[d], self.dom[d]) for d in range(3)]
        m = int(rng.integers(1, 6))
        times = np.cumsum(rng.uniform(0.05, 1, m)) - rng.random()
        if rng.random() < 0.3:
            times = rng.permutation(times)
        self.snaps = []
        for t in times:
            s = dict(x=self.cen[0], y=self.cen[1], z=self.cen[2], t=float(t), w=rng.uniform(0.2, 2, (5 + passives,) + self.n) * rng.choice([-1, 1], (5 + passives, 1, 1, 1)))
            s["w"][[0, 4]] = np.abs(s["w"][[0, 4]])
            if trouble:
                nad = np.where(rng.random(self.n) < 0.3, rng.uniform(0, 1, self.n), 0.0)
                pad = np.where(rng.random(self.n) < 0.2, rng.uniform(0, 1, self.n), 0.0)
                s["trouble"] = np.where((nad > 0) | (pad > 0), rng.choice([0.25, 0.5, 0.75, 1.0], self.n), 0.0)
                s["NAD violation magnitude"] = nad
                s["PAD violation magnitude"] = pad
            self.snaps.append(s)


def real(rng):
    """a real run with snapshots"""
    cfg = work.rand_cfg(rng, cells=300, pmax=3, limiting=bool(rng.random() < 0.7))
    if cfg["lim"]:
        cfg["lim"]["force_trouble"] = False
    cfg["CFL"] = 0.3
    u = work.rand_state(rng, cfg, style=work.pick(rng, ["noisy", "jumps"]))
    S = work.build(cfg, u, snapshots_as_fv_averages=bool(rng.random() < 0.5))
    dt = ref.timestep(cfg, u, t=0.0)
    S.run(T=float(2.6 * dt), log_every_step=True)
    work.finite_or_stop(work.state(S))
    return S, cfg


def pick_time(rng, snaps):
    """None, or a time with a unique nearest snapshot; returns (t, index)"""
    if rng.random() < 0.25:
        return None, len(snaps) - 1
    ts = np.array([s["t"] for s in snaps])
    for _ in range(40):
        lo, hi = ts.min(), ts.max()
        if rng.random() < 0.15:
            t = work.pick(rng, [0.0, 0, 1])
            d = np.sort(np.abs(ts - t))
            if len(ts) == 1 or d[1] - d[0] > 1e-9:
                return t, int(np.argmin(np.abs(ts - t)))
        t = float(rng.uniform(lo - 0.3 * (hi - lo) - 0.1, hi + 0.3 * (hi - lo) + 0.1)) if rng.random() < 0.7 else float(ts[int(rng.integers(len(ts)))])
        d = np.sort(np.abs(ts - t))
        if len(ts) == 1 or d[1] - d[0] > 1e-9 * (1 + abs(t)):
            return t, int(np.argmin(np.abs(ts - t)))
    return None, len(snaps) - 1


def pick_place(rng, c):
    """coordinate with a unique nearest cell, also outside the domain"""
    c = np.asarray(c)
    L = (c[-1] - c[0]) if len(c) > 1 else 1.0
    for _ in range(40):
        if rng.random() < 0.15:
            x = work.pick(rng, [0.0, 0, 1, -1])
            d = np.sort(np.abs(c - x))
            if len(c) == 1 or d[1] - d[0] > 1e-9:
                return x, int(np.argmin(np.abs(c - x)))
        x = float(rng.uniform(c[0] - 0.3 * L, c[-1] + 0.3 * L)) if rng.random() < 0.8 else float(c[int(rng.integers(len(c)))])
        d = np.sort(np.abs(c - x))
        if len(c) == 1 or d[1] - d[0] > 1e-9 * (1 + abs(x)):
            return x, int(np.argmin(np.abs(c - x)))
    return float(c[0]), 0


def field(snap, var, names, mode="all", tol=0.0, line=True):
    """reference field of a variable"""
    w = snap["w"]
    if var == "v":
        return np.sqrt(w[1] ** 2 + w[2] ** 2 + w[3] ** 2)
    if var == "trouble":
        return overlay(snap, mode, tol).astype(float) if line else snap["trouble"]
    if var in ("NAD", "PAD"):
        return snap[f"{var} violation magnitude"]
    if var in names:
        return w[5 + names.index(var)]
    return w[ROW[var]]


def overlay(snap, mode, tol):
    nad, pad = snap["NAD violation magnitude"] > tol, snap["PAD violation magnitude"] > 0
    return {"all": nad | pad, True: nad | pad, "NAD": nad, "PAD": pad}[mode]


def axes():
    from matplotlib.figure import Figure
    from matplotlib.backends.backend_agg import FigureCanvasAgg

    fig = Figure()
    FigureCanvasAgg(fig)
    return fig.add_subplot()


def source(rng, i):
    """(object to plot from, snapshots, names, has trouble, how to call)"""
    import fvhoe.visualization as vis

    if i % 3 == 0:
        S, cfg = real(rng)
        if i % 2:
            return S, S.snapshots, cfg["passives"], cfg["lim"] is not None, "method"
        if not cfg["passives"]:
            return S.snapshots, S.snapshots, [], cfg["lim"] is not None, "list"
        return S, S.snapshots, cfg["passives"], cfg["lim"] is not None, "function"
    F = Fake(rng, trouble=bool(rng.random() < 0.8))
    return F.snaps, F.snaps, [], "trouble" in F.snaps[0], "list"


def call(name, src, how, *a, **k):
    import fvhoe.visualization as vis

    if how == "method":
        return getattr(src, name)(*a, **k)
    return getattr(vis, name)(src, *a, **k)


def told(name, src, how, *a, **k):
    """call, and what it printed about the place and time it used"""
    with contextlib.redirect_stdout(io.StringIO()) as f:
        out = call(name, src, how, *a, **k)
    return out, f.getvalue()


def summary(mon, text, snap, idx, wit):
    """the printed summary names the time and the cells that were used"""
    got = dict(re.findall(r"\b([txyz])=(\[[^\]]*\]|[^,\s]+)", text))
    if not mon.check(set(got) == set("txyz"), "the summary does not name time and place", printed=text, **wit):
        return
    want = dict(t=[snap["t"]])
    for d, c in enumerate("xyz"):
        v = snap[c][idx[d]]
        want[c] = [v[0], v[-1]] if np.ndim(v) else [v]
    for c in "txyz":
        vals = [float(x) for x in got[c].strip("[]").split(",")]
        mon.event("summaries compared")
        mon.check(len(vals) == len(want[c]) and np.allclose(vals, np.array(want[c], dtype=float), rtol=1e-6, atol=1e-12),
                  "the summary names another time or place", which=c, printed=text, want=[float(x) for x in want[c]], **wit)


def digest(snaps):
    return [{k: np.array(v) for k, v in s.items()} for s in snaps]


def unchanged(mon, snaps, keep, wit):
    ok = len(snaps) == len(keep) and all(np.array_equal(a[k], b[k]) for a, b in zip(snaps, keep) for k in b)
    mon.check(ok, "plotting modified the snapshots", **wit)


@kind("lines", 300, 6000)
def lines(rng, mon, i):
    src, snaps, names, tr, how = source(rng, i)
    keep = digest(snaps)
    var = work.pick(rng, ["rho", "P", "vx", "vy", "vz", "v"] + names + (["trouble"] * 2 if tr else []))
    free = int(rng.integers(3))
    t, it = pick_time(rng, snaps)
    snap = snaps[it]
    kw, idx = {}, [slice(None)] * 3
    for d in range(3):
        if d != free:
            kw["xyz"[d]], idx[d] = pick_place(rng, snap["xyz"[d]])
    if t is not None:
        kw["t"] = t
    mode, tol = "all", 0.0
    if var == "trouble":
        mode = work.pick(rng, ["all", "NAD", "PAD"])
        tol = float(work.pick(rng, [0.0, 0.3, 0.7]))
        if mode != "all" or rng.random() < 0.5:
            kw["trouble_mode"] = mode
        if tol:
            kw["tol"] = tol
    ax = axes()
    style = {}
    if rng.random() < 0.4:
        style = dict(color="red", linestyle="--", label="curve")
    if rng.random() < 0.3:
        style["verbose"] = True
    out, text = told("plot_1d_slice", src, how, ax, var, **kw, **style) if rng.random() < 0.5 else told("plot_1d_slice", src, how, ax, param=var, **kw, **style)
    wit = dict(variable=var, request=str(kw), source=how, snapshot=it, of=len(snaps), shape=snap["w"].shape)
    if not mon.check(len(ax.lines) == 1, "one line is drawn", lines=len(ax.lines), **wit):
        return
    l = ax.lines[0]
    if "verbose" in style:
        summary(mon, text, snap, idx, wit)
    want = field(snap, var, names, mode, tol)[tuple(idx)]
    mon.event("lines compared")
    mon.close(l.get_xdata(), snap["xyz"[free]], 1e-14, "abscissa of a line", **wit)
    mon.close(l.get_ydata(), want, 1e-13, "ordinate of a line", **wit)
    if "color" in style:
        mon.check(l.get_color() == "red" and l.get_linestyle() == "--" and l.get_label() == "curve", "plot options do not reach the axes", **wit)
    mon.check(out is not None and out[0] is l, "the drawn line is not returned", **wit)
    unchanged(mon, snaps, keep, wit)
    mon.see("line", var, "xyz"[free], mode, how, t is None)
    mon.sample = wit


@kind("planes", 380, 8000)
def planes(rng, mon, i):
    src, snaps, names, tr, how = source(rng, i)
    keep = digest(snaps)
    var = work.pick(rng, ["rho", "P", "vx", "vy", "vz", "v"] + names + (["trouble", "NAD", "PAD"] if tr else []))
    fixed = int(rng.integers(3))
    a, b = [d for d in range(3) if d != fixed]
    t, it = pick_time(rng, snaps)
    snap = snaps[it]
    place, k = pick_place(rng, snap["xyz"[fixed]])
    kw = {"xyz"[fixed]: place}
    if t is not None:
        kw["t"] = t
    idx = [slice(None)] * 3
    idx[fixed] = k
    data = field(snap, var, names, line=False)[tuple(idx)]
    over, tol = None, 0.0
    contour = bool(rng.random() < 0.2) and min(data.shape) >= 2
    if tr and not contour and rng.random() < 0.4:
        over = work.pick(rng, ["all", "NAD", "PAD", True])
        tol = float(work.pick(rng, [0.0, 0.4]))
        kw["overlay_trouble"] = over
        if tol:
            kw["tol"] = tol
    elif rng.random() < 0.2:
        kw["overlay_trouble"] = work.pick(rng, [None, False])
    wit = dict(variable=var, request=str(kw), source=how, snapshot=it, of=len(snaps), shape=snap["w"].shape, contour=contour)
    ax = axes()
    x, y = snap["xyz"[a]], snap["xyz"[b]]
    if contour:
        got = {}

        def rec(*args, **k):
            got["args"], got["kw"] = args, k
            return "contours"

        ax.contour = rec
        lv = work.pick(rng, [None, 7, [0.1, 0.5, 0.9], np.array([0.2, 0.6]), 45, list(np.linspace(0.1, 1.9, 40))])
        if lv is not None:
            kw["levels"] = lv
        out = call("plot_2d_slice", src, how, ax, param=var, contour=True, **kw)
        if not mon.check("args" in got and len(got["args"]) >= 3, "no contours are drawn", **wit):
            return
        X, Y, Z = [np.asarray(v) for v in got["args"][:3]]
        if X.ndim == 1:
            X, Y = np.meshgrid(X, Y)
        mon.event("contours compared")
        if not mon.check(X.shape == Y.shape == Z.shape and Z.size == data.size, "shapes of contour data", shapes=[X.shape, Y.shape, Z.shape], **wit):
            return
        ii = np.argmin(np.abs(X.ravel()[:, None] - x[None]), axis=1)
        jj = np.argmin(np.abs(Y.ravel()[:, None] - y[None]), axis=1)
        mon.close(X.ravel(), x[ii], 1e-13, "coordinates of contour data", scale=max(1, np.abs(x).max()), **wit)
        mon.close(Y.ravel(), y[jj], 1e-13, "coordinates of contour data", scale=max(1, np.abs(y).max()), **wit)
        mon.check(len(set(zip(ii, jj))) == data.size, "contour data does not cover the plane", **wit)
        mon.close(Z.ravel(), data[ii, jj], 1e-13, "values of contour data", **wit)
        levels = got["kw"].get("levels", got["args"][3] if len(got["args"]) > 3 else None)
        want = np.linspace(data.min(), data.max(), lv or 30) if lv is None or isinstance(lv, int) else np.asarray(lv)
        mon.close(levels, want, 1e-12, "contour levels", **wit)
        mon.check(out == "contours", "the drawn contours are not returned", **wit)
    else:
        style = {}
        if rng.random() < 0.3:
            style["cmap"] = work.pick(rng, ["viridis", "plasma"])
        if rng.random() < 0.15 and data.min() > 0:
            style["log"] = True
            lims = work.pick(rng, [(0.1, 10.0), (0.1, 10.0), (1e-3, None), (None, 1e3)])
            style.update({k: v for k, v in zip(("log_vmin", "log_vmax"), lims) if v is not None})
        if rng.random() < 0.3:
            style["verbose"] = True
        if rng.random() < 0.3:
            style["aspect"] = "auto"
        out, text = told("plot_2d_slice", src, how, ax, var, **kw, **style)
        if "verbose" in style:
            summary(mon, text, snap, idx, wit)
        if not mon.check(len(ax.images) == 1, "one image is drawn", images=len(ax.images), **wit):
            return
        im = ax.images[0]
        arr = np.ma.asarray(im.get_array())
        mon.event("planes compared")
        if not mon.check(arr.shape == data.shape[::-1], "shape of the image", got=arr.shape, want=data.shape[::-1], **wit):
            return
        shown = np.ma.filled(np.ma.asarray(arr, dtype=float), np.nan)
        rows = np.arange(shown.shape[0])[::-1] if im.origin == "upper" else np.arange(shown.shape[0])
        shown = shown[rows].T  # indexed like data
        want = np.array(data, dtype=float)
        if over:
            mon.event("trouble overlays")
            mask = overlay(snap, over, tol)[tuple(idx)]
            want = np.where(mask, np.nan, want)
            mon.check(np.array_equal(np.isnan(shown), mask), "marked troubled cells", wrong=int((np.isnan(shown) != mask).sum()), **wit)
        else:
            mon.check(not np.isnan(shown).any(), "cells are marked without request", **wit)
        ok = ~np.isnan(want) & ~np.isnan(shown)
        mon.close(np.where(ok, shown, 0), np.where(ok, want, 0), 1e-13, "values of an image", **wit)
        ext = im.get_extent()
        L = max(np.abs(x).max(), np.abs(y).max(), 1.0)
        e1 = (x[0], x[-1], y[0], y[-1])
        hx = (x[1] - x[0]) / 2 if len(x) > 1 else 0.0
        hy = (y[1] - y[0]) / 2 if len(y) > 1 else 0.0
        e2 = (x[0] - hx, x[-1] + hx, y[0] - hy, y[-1] + hy)
        close = lambda e: np.allclose(ext, e, rtol=0, atol=1e-12 * L)
        mon.check(close(e1) or close(e2), "extent of an image", got=str(ext), want=str(e1), **wit)
        mon.check(out is im, "the drawn image is not returned", **wit)
        if "cmap" in style:
            mon.check(im.get_cmap().name == style["cmap"], "plot options do not reach the axes", got=im.get_cmap().name, **wit)
        if style.get("log"):
            shown_lims = (im.norm.vmin, im.norm.vmax)
            mon.check(all(v is None or s == v for s, v in zip(shown_lims, lims)), "limits of the logarithmic scale",
                      got=list(shown_lims), want=list(lims), **wit)
            import matplotlib.colors as mc

            mon.check(isinstance(im.norm, mc.LogNorm), "the logarithmic scale is missing", **wit)
    unchanged(mon, snaps, keep, wit)
    mon.see("plane", var, "xyz"[fixed], str(over), how, contour, t is None)
    mon.sample = wit


@kind("overviews", 24, 300)
def overviews(rng, mon, i):
    """all fields of a run at once"""
    dims = work.pick(rng, ["x", "y", "z"] if i % 2 else ["xy", "xz", "yz"])
    cfg = work.rand_cfg(rng, dims=dims, cells=150, pmax=2)
    cfg["CFL"] = 0.3
    u = work.rand_state(rng, cfg, style="smooth")
    S = work.build(cfg, u)
    S.run(T=float(2.5 * ref.timestep(cfg, u, t=0.0)), log_every_step=True)
    t, it = pick_time(rng, S.snapshots)
    snap = S.snapshots[it]
    kw = {} if t is None else {"t": t}
    idx = [slice(None)] * 3
    for d in range(3):
        if d not in ref.active(cfg):
            kw["xyz"[d]], idx[d] = pick_place(rng, snap["xyz"[d]])
    wit = dict(dims=dims, request=str(kw), cfg=str(work.describe(cfg)))
    fig, axs = S.plot_fields(**kw)
    mon.event("overviews compared")
    if len(dims) == 1:
        want = ["rho", "P", "v" + dims]
        for ax, v in zip(np.ravel(axs), want):
            if mon.check(len(ax.lines) == 1, "one line per panel", **wit):
                mon.close(ax.lines[0].get_xdata(), snap[dims], 1e-14, "abscissa of an overview", **wit)
                mon.close(ax.lines[0].get_ydata(), field(snap, v, [])[tuple(idx)], 1e-13, f"panel {v} of an overview", **wit)
    else:
        want = ["rho", "P", "v", "vx", "vy", "vz"]
        for ax, v in zip(np.ravel(axs), want):
            if mon.check(len(ax.images) == 1, "one image per panel", **wit):
                im = ax.images[0]
                a = np.asarray(im.get_array(), dtype=float)
                a = (a[::-1] if im.origin == "upper" else a).T
                mon.close(a, field(snap, v, [])[tuple(idx)], 1e-13, f"panel {v} of an overview", **wit)
    mon.see("overview", dims, t is None)


@kind("radial averages", 260, 5000)
def radial(rng, mon, i):
    from fvhoe.visualization import sample_circular_average

    src, snaps, names, tr, how = source(rng, i)
    keep = digest(snaps)
    var = work.pick(rng, ["rho", "P", "vx", "vy", "vz", "v"] + names)
    t, it = pick_time(rng, snaps)
    snap = snaps[it]
    cen = tuple(float(rng.uniform(snap[c][0] - 0.2, snap[c][-1] + 0.2)) for c in "xyz")
    X = np.meshgrid(snap["x"], snap["y"], snap["z"], indexing="ij")
    R = np.sqrt(sum((X[d] - cen[d]) ** 2 for d in range(3)))
    style = int(rng.integers(3))
    m = int(rng.integers(2, 8))
    if style == 0:
        radii = np.sort(rng.uniform(0, 1.2 * R.max(), m))
    elif style == 1:
        radii = np.linspace(0, R.max() * 1.1, m)
    else:
        radii = np.arange(0, max(3, int(np.ceil(R.max())) + 2))
    if np.min(np.abs(R.ravel()[:, None] - radii[None].astype(float))) < 1e-9:
        mon.event("cases too close to a bin edge")
        return
    kw = {} if t is None else {"t": t}
    given = radii.copy()
    avg, rav = sample_circular_average(src, param=var, center=cen, radii=radii, **kw)
    f = field(snap, var, names)
    wa, wr = np.full(len(radii) - 1, np.nan), np.full(len(radii) - 1, np.nan)
    for k in range(len(radii) - 1):
        m_ = (R > radii[k]) & (R < radii[k + 1])
        if m_.any():
            wa[k], wr[k] = f[m_].mean(), R[m_].mean()
    mon.event("radial averages compared")
    wit = dict(variable=var, center=str(cen), radii=radii, request=str(kw), source=how, snapshot=it, of=len(snaps), n=snap["w"].shape[1:])
    if not mon.check(np.shape(avg) == wa.shape and np.shape(rav) == wr.shape, "one value per bin", got=np.shape(avg), want=wa.shape, **wit):
        return
    mon.check(np.array_equal(np.isnan(avg), np.isnan(wa)) and np.array_equal(np.isnan(rav), np.isnan(wr)), "empty bins", got=str(avg), want=str(wa), **wit)
    ok = ~np.isnan(wa)
    mon.close(np.where(ok, avg, 0), np.where(ok, wa, 0), 1e-11, "average over a radial bin", scale=max(1e-3, np.abs(f).max()), **wit)
    mon.close(np.where(ok, rav, 0), np.where(ok, wr, 0), 1e-11, "mean radius of a bin", scale=R.max(), **wit)
    mon.check(np.array_equal(given, radii), "the radii were modified", **wit)
    unchanged(mon, snaps, keep, wit)
    mon.see("radial", var, style, how, t is None, bool((~ok).any()))


@kind("radial bins through cell centres", 60, 800)
def edges(rng, mon, i):
    """cells exactly on a bin edge are counted once, by neighbouring bins that share the edge"""
    from fvhoe.visualization import sample_circular_average

    d = int(rng.integers(3))
    n = int(rng.integers(3, 30))
    h = float(rng.choice([1.0, 0.5, 2.0, 0.125]))
    co = [np.zeros(1)] * 3
    co[d] = h * (np.arange(n) + 0.5)
    shape = [1, 1, 1]
    shape[d] = n
    snap = dict(t=0.0, x=co[0], y=co[1], z=co[2], w=rng.uniform(0.5, 2, [5] + shape))
    cen = [0.0] * 3
    j = int(rng.integers(n))
    cen[d] = float(co[d][j])
    radii = h * np.sort(rng.choice(np.arange(1, n + 2), size=int(rng.integers(2, 6)), replace=False)) if n > 5 else h * np.arange(1, n + 1)
    var = work.pick(rng, ["rho", "P", "vx", "vy", "vz"])
    avg, rav = sample_circular_average([snap], param=var, center=tuple(cen), radii=radii)
    R = np.abs(co[d] - cen[d])
    f = snap["w"][ROW[var]].ravel()
    ok = []
    for upper in (True, False):
        wa, wr = np.full(len(radii) - 1, np.nan), np.full(len(radii) - 1, np.nan)
        for k in range(len(radii) - 1):
            a, b = radii[k], radii[k + 1]
            m = (R > a) & (R <= b) if upper else (R >= a) & (R < b)
            if m.any():
                wa[k], wr[k] = f[m].mean(), R[m].mean()
        ok.append(np.allclose(avg, wa, rtol=1e-12, atol=0, equal_nan=True) and np.allclose(rav, wr, rtol=1e-12, atol=0, equal_nan=True))
    mon.event("radial averages compared")
    mon.event("bins with cells on their edges")
    mon.check(any(ok), "cells on the edge of a radial bin are lost or counted twice", radii=radii, center=cen, variable=var, got=str(avg), axis="xyz"[d])
    mon.see("edges", d, n, len(radii))
