"""C25 plots, read back from the matplotlib artists."""
import math

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()
import matplotlib                                              # noqa: E402
matplotlib.use("Agg")
import matplotlib.pyplot as plt                                # noqa: E402
from mpl_toolkits.mplot3d import art3d                         # noqa: E402

plt.rcParams["figure.max_open_warning"] = 0

SC = st.sampled_from([0, 0, 0, 0, -3, 3, -30, 30, -170, 170, 290])


class Polygons(object):
    """Records the polygons every 3D surface is made of."""

    def __enter__(self):
        self.seen = []
        self.old = old = art3d.Poly3DCollection.__init__

        def init(obj, verts, *a, **k):
            self.seen.append(np.array([np.asarray(v, dtype=float)
                                       for v in verts]))
            return old(obj, verts, *a, **k)
        art3d.Poly3DCollection.__init__ = init
        return self

    def __exit__(self, *a):
        art3d.Poly3DCollection.__init__ = self.old


def drawn(fn, draw):
    """Run a plotting routine on a clean canvas; returns its polygons."""
    plt.close("all")
    with Polygons() as p:
        fn()
        if draw:
            for i in plt.get_fignums():
                plt.figure(i).canvas.draw()
    return p.seen


# ----------------------------------------------------------------- surfaces

@st.composite
def surfaces(draw, rows=9, cols=12, far=False):
    what = draw(st.sampled_from(["scalar", "scalar", "vector", "array"]))
    nr, nc = draw(G.patt_far_or(far, rows, cols, 1200))
    if what == "array":
        nc = max(1, nc - draw(st.integers(0, 1)))
    sc = draw(SC)
    return {"what": what, "nr": nr, "nc": nc, "poles": draw(G.POLES),
            "a": draw(G.samples(nr, nc, st.just(sc))),
            "b": draw(G.samples(nr, nc, st.just(sc))),
            "draw": draw(st.sampled_from([False, False, False, True]))}


def surface_points(T):
    nr, nc = T.shape
    th, ph = O.theta_grid(nr), O.phi_grid(nc)
    return np.stack([T * np.outer(np.sin(th), np.cos(ph)),
                     T * np.outer(np.sin(th), np.sin(ph)),
                     T * np.outer(np.cos(th), np.ones(nc))], axis=2)


def check_surface_polys(seen, T):
    """Every cell of the closed grid is one drawn polygon."""
    K.need(len(seen) == 1, "%d surfaces were drawn", len(seen))
    polys = seen[0]
    K.need(polys.ndim == 3 and polys.shape[2] == 3, "the surface has "
           "polygons of shape %s", polys.shape)
    X = surface_points(T)
    nr, nc = T.shape
    Xc = np.concatenate([X, X[:, :1]], axis=1)       # the seam closes
    cells = np.stack([Xc[:-1, :-1], Xc[:-1, 1:], Xc[1:, 1:], Xc[1:, :-1]],
                     axis=2).reshape(-1, 4, 3)
    tol = 1e-12 * (float(np.max(T)) if T.size else 0.0) + 1e-300
    pc = polys.mean(axis=1)
    cc = cells.mean(axis=1)
    for i in range(len(cells)):
        near = np.where(np.max(np.abs(pc - cc[i]), axis=1) <= 2 * tol)[0]
        ok = False
        for j in near:
            d = np.max(np.abs(polys[j][:, None] - cells[i][None]), axis=2)
            if np.all(d.min(axis=0) <= tol) and np.all(d.min(axis=1) <= tol):
                ok = True
                break
        if not ok:
            r, c = divmod(i, nc)
            K.need(False, "no polygon joins rows %d, %d and columns %d, %d "
                   "of the grid (%d polygons drawn, %d cells)", r, r + 1, c,
                   (c + 1) % nc, len(polys), len(cells))
    # and nothing else is drawn
    for j in range(len(polys)):
        d = np.max(np.abs(cc - pc[j]), axis=1)
        K.need(np.any(d <= 2 * tol), "polygon %d, around %s, is not a cell of "
               "the pattern", j, pc[j])


def check_axes(T):
    """The axes cover equal ranges that hold the surface: it is not distorted
    and fills the box."""
    v = surface_points(T).reshape(-1, 3)
    lo, hi = v.min(axis=0), v.max(axis=0)
    size = float(np.max(hi - lo))
    if not size > 0:
        return
    axs = [a for a in plt.gcf().axes if hasattr(a, "get_zlim3d")]
    K.need(len(axs) == 1, "%d sets of 3D axes", len(axs))
    lim = [sorted(map(float, g())) for g in
           (axs[0].get_xlim3d, axs[0].get_ylim3d, axs[0].get_zlim3d)]
    for k in range(3):
        a, b = lim[k]
        K.need(a <= lo[k] + 1e-9 * size and b >= hi[k] - 1e-9 * size,
               "axis %s covers %r, the surface reaches from %r to %r",
               "xyz"[k], lim[k], lo[k], hi[k])
    w = [b - a for a, b in lim]
    # matplotlib's own margins differ by a tenth between axes
    K.need(max(w) <= 1.2 * min(w), "the axes cover ranges of lengths %r, so "
           "the surface is distorted", w)
    K.need(max(w) <= 1.5 * size, "the axes cover %r, the surface only %r", w,
           size)


def check_surface(case):
    nr, nc, what = case["nr"], case["nc"], case["what"]
    sym = -1 if what == "vector" else 1
    if what == "array":
        # spec positions may lie outside the narrower array
        T = np.abs(G.sample_array(case["a"], nr, nc + nc % 2))[:, :nc].copy()
        keep = T.copy()
        seen = drawn(lambda: sp.plot_mag_on_sphere(T), case["draw"])
        K.same(T, keep, "plot_mag_on_sphere: its argument")
        check_surface_polys(seen, keep)
        check_axes(keep)
    else:
        A = [G.patt_array(case[k], nr, nc, sym, case["poles"])
             for k in ("a", "b")]
        if what == "scalar":
            p = G.make_spatt(sp, A[0])
            P = np.array(p.array)
            T = np.abs(P)
            seen = drawn(lambda: sp.plot_sphere_mag(p), case["draw"])
            K.same(p.array, P, "plot_sphere_mag: its argument")
        else:
            p = G.make_vpatt(sp, *A)
            P = [np.array(x) for x in p.doublesphere]
            T = np.hypot(np.abs(p.theta), np.abs(p.phi))
            seen = drawn(lambda: sp.plot_sphere_mag(p), case["draw"])
            for x, y in zip(p.doublesphere, P):
                K.same(x, y, "plot_sphere_mag: its argument")
        check_surface_polys(seen, T)
        check_axes(T)
    plt.close("all")
    return [what, "rendered" if case["draw"] else "built"]


def fixed_surface(tier):
    hi = 3 if tier == "quick" else 6
    for what in ("scalar", "vector", "array"):
        for nr in range(2, hi + 2):
            for c in range(1, hi + 1):
                d = {"k": "dense", "e": 0, "s": 9 * nr + c, "f": "complex"}
                yield {"what": what, "nr": nr, "nc": 2 * c, "a": d,
                       "b": dict(d, s=3), "poles": "single",
                       "draw": nr + c < 5}
        z = {"k": "points", "e": 0, "v": []}
        yield {"what": what, "nr": 4, "nc": 6, "a": z, "b": z,
               "poles": "single", "draw": True}
        if what != "array":
            # more rows and columns than matplotlib draws by default
            d = {"k": "dense", "e": 0, "s": 5, "f": "complex"}
            yield {"what": what, "nr": 55, "nc": 4, "a": d, "b": d,
                   "poles": "single", "draw": False}
            yield {"what": what, "nr": 4, "nc": 64, "a": d, "b": d,
                   "poles": "single", "draw": False}


# ------------------------------------------------------------- coefficients

@st.composite
def images(draw, hi=12, far=False):
    nmax, mmax = draw(G.nm_far_or(far, hi, modes=1500))
    return {"what": draw(st.sampled_from(["image", "lines"])),
            "nmax": nmax, "mmax": mmax,
            "c": draw(G.coef_values(nmax, mmax, SC)),
            "draw": draw(st.sampled_from([False, False, False, True]))}


def image_cells():
    """(x edges, y edges, values, vmin, vmax, axes) of the picture drawn."""
    for ax in plt.gcf().axes:
        for q in ax.collections:
            if hasattr(q, "get_coordinates"):
                xy = np.asarray(q.get_coordinates())
                z = np.ma.filled(np.ma.masked_invalid(q.get_array()), 0.0)
                z = np.reshape(z, (xy.shape[0] - 1, xy.shape[1] - 1))
                return xy, z, q.norm.vmin, q.norm.vmax, ax
        for q in ax.images:
            z = np.ma.filled(np.ma.masked_invalid(q.get_array()), 0.0)
            l, r, b, t = q.get_extent()
            if q.origin == "upper":
                b, t = t, b
            x, y = np.meshgrid(np.linspace(l, r, z.shape[1] + 1),
                               np.linspace(b, t, z.shape[0] + 1))
            return np.stack([x, y], axis=2), z, q.norm.vmin, q.norm.vmax, ax
    K.need(False, "pcolor_coefs drew no image")


def check_image(case):
    nmax, mmax = case["nmax"], case["mmax"]
    C = G.coef_dict(case["c"], nmax, mmax)
    c = G.make_scoefs(sp, C, nmax, mmax)
    what = case["what"]
    f = sp.pcolor_coefs if what == "image" else sp.plot_coefs
    drawn(lambda: f(c), case["draw"])
    K.coefs_close(c, C, nmax, mmax, 0.0, f.__name__ + ": its argument")
    big = max([abs(x) for x in C.values()] + [0.0])
    tol = 1e-13 * big
    if what == "image":
        xy, z, lo, hi, ax = image_cells()
        mid = (xy[:-1, :-1] + xy[1:, 1:]) / 2.0
        x0, x1 = sorted(ax.get_xlim())
        y0, y1 = sorted(ax.get_ylim())
        for n in range(nmax + 1):
            for m in range(-mmax, mmax + 1):
                d = np.max(np.abs(mid - np.array([m, n])), axis=2)
                i, j = np.unravel_index(int(np.argmin(d)), d.shape)
                K.need(d[i, j] < 1e-6, "no cell is centred on (m=%d, n=%d); "
                       "the closest one is at %s", m, n, mid[i, j])
                w = abs(C.get((n, m), 0.0)) if abs(m) <= n else 0.0
                K.need(abs(z[i, j] - w) <= tol, "the cell of (n=%d, m=%d) "
                       "shows %r, the magnitude is %r", n, m, z[i, j], w)
                K.need(x0 - 1e-9 <= m - 0.49 and m + 0.49 <= x1 + 1e-9 and
                       y0 - 1e-9 <= n - 0.49 and n + 0.49 <= y1 + 1e-9,
                       "the cell of (n=%d, m=%d) lies outside the axes", n, m)
        K.need(lo <= np.min(z) + tol and hi >= np.max(z) - tol,
               "the colours go from %r to %r, the values from %r to %r", lo,
               hi, np.min(z), np.max(z))
    else:
        lines = [(np.asarray(l.get_xdata(), dtype=float),
                  np.asarray(l.get_ydata(), dtype=float))
                 for ax in plt.gcf().axes for l in ax.get_lines()]
        K.need(len(lines) == 2 * mmax + 1, "plot_coefs drew %d lines for "
               "mmax = %d", len(lines), mmax)

        def shows(line, m):
            x, y = line
            for n in range(nmax + 1):
                at = np.where(np.abs(x - n) < 1e-9)[0]
                if n < abs(m):
                    if any(np.isfinite(y[i]) and y[i] != 0 for i in at):
                        return "a value at n = %d < |m|" % n
                    continue
                if len(at) != 1:
                    return "%d points at n = %d" % (len(at), n)
                w = abs(C.get((n, m), 0.0))
                if not abs(y[at[0]] - w) <= tol:
                    return "%r at n = %d, where |c| = %r" % (y[at[0]], n, w)
            rest = y[(x > nmax + 1e-9) | (x < -1e-9)]
            if np.any(np.isfinite(rest) & (rest != 0)):
                return "a value outside 0..nmax"
            return ""
        free = list(range(len(lines)))
        for i, m in enumerate(range(-mmax, mmax + 1)):
            pick = [i] + free
            for j in pick:
                if j in free and not shows(lines[j], m):
                    free.remove(j)
                    break
            else:
                K.need(False, "no line shows m = %d: line %d has %s", m, i,
                       shows(lines[i], m))
    plt.close("all")
    return [what, "rendered" if case["draw"] else "built",
            "m<n" if mmax < nmax else "m=n"]


def fixed_image(tier):
    hi = 4 if tier == "quick" else 9
    for what in ("image", "lines"):
        for n in range(hi + 1):
            for m in range(n + 1):
                yield {"what": what, "nmax": n, "mmax": m, "draw": n < 2,
                       "c": {"k": "dense", "e": 0, "s": 9 * n + m,
                             "f": "complex"}}
        yield {"what": what, "nmax": 3, "mmax": 2, "draw": True,
               "c": {"k": "sparse", "e": 0, "v": []}}


# -------------------------------------------------------------- simple_plot

@st.composite
def harmonics(draw):
    n = draw(st.integers(0, 48))
    return {"n": n, "m": draw(st.integers(-n, n))}


def check_simple(case):
    n, m = case["n"], case["m"]
    seen = drawn(lambda: sp.plot_sphere.simple_plot(n, m)
                 if hasattr(sp, "plot_sphere") else sp.simple_plot(n, m),
                 False)
    plt.close("all")
    K.need(len(seen) == 1, "%d surfaces were drawn", len(seen))
    v = seen[0].reshape(-1, 3)
    r = np.sqrt(np.sum(v ** 2, axis=1))
    peak = math.sqrt((2 * n + 1) / (4 * math.pi))
    on = r > 1e-6 * peak
    th = np.arctan2(np.hypot(v[on, 0], v[on, 1]), v[on, 2])
    key, inv = np.unique(np.round(th, 12), return_inverse=True)
    want = np.abs(O.pbar(n, m, key)[n - abs(m)])[inv]
    # the direction of a short vector is known to fewer digits
    K.close(r[on], want, 1e-9 * peak, "simple_plot: n=%d m=%d" % (n, m))
    # all of the sphere is covered
    th, ph = O.theta_grid(100), O.phi_grid(100)
    Y = np.abs(O.pbar(n, m, th)[n - abs(m)])
    top = int(np.argmax(Y))
    ring = Y[top] * np.stack([np.sin(th[top]) * np.cos(ph),
                              np.sin(th[top]) * np.sin(ph),
                              np.cos(th[top]) * np.ones(100)], axis=1)
    d = np.array([np.min(np.max(np.abs(v - q), axis=1)) for q in ring])
    K.need(np.all(d < 1e-9 * peak), "simple_plot(%d, %d) leaves out the "
           "maximum at phi = %.3g", n, m, ph[int(np.argmax(d))])
    return ["m=0" if m == 0 else "m!=0"]


def fixed_simple(tier):
    for n, m in ((0, 0), (1, 0), (1, -1), (5, 3), (48, 48)):
        yield {"n": n, "m": m}


def nz_surface(c):
    return np.any(G.sample_array(c["a"], c["nr"], c["nc"] + c["nc"] % 2))


FACETS = [
    Facet("surfaces", surfaces, check_surface, nz_surface, quick=260,
          thorough=8000, fixed=fixed_surface, shards=4, tshards=8,
          rule="plot_sphere_mag and plot_mag_on_sphere of generated patterns; "
               "every grid cell must be one polygon; non-trivial = first "
               "component non-zero"),
    Facet("far-surfaces", lambda: surfaces(far=True), check_surface,
          nz_surface, quick=30, thorough=800, shards=4, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("far-coefficients", lambda: images(far=True), check_image,
          lambda c: G.nz(G.coef_dict(c["c"], c["nmax"], c["mmax"])) > 0,
          quick=30, thorough=800, shards=4, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("coefficients", images, check_image,
          lambda c: G.nz(G.coef_dict(c["c"], c["nmax"], c["mmax"])) > 0,
          quick=240, thorough=8000, fixed=fixed_image, shards=3, tshards=8,
          rule="pcolor_coefs and plot_coefs of generated sets, read back "
               "cell by cell and point by point"),
    Facet("harmonic", harmonics, check_simple, None, quick=6, thorough=300,
          fixed=fixed_simple, shards=1, tshards=8,
          rule="simple_plot(n, m): radii of all vertices against |Y_nm|"),
]
