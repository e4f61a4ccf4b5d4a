"""C20 single harmonics on the grid."""
import math

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()


@st.composite
def cases(draw, nhi=16, extra=6, cols=20, far=False):
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, nhi)))
    m = draw(st.one_of(st.integers(-n, n), st.sampled_from([-n, n, 0])))
    if far:
        n = draw(G.logint(1, 300))
        m = draw(st.sampled_from([1, -1])) * min(n, draw(G.logint(1, max(
            1, min(n, 200000 // (n * n))))) - draw(st.integers(0, 1)))
        nrows, ncols = draw(G.grid_long(n, abs(m), 8000, 1200))
        if draw(st.integers(0, 3)) == 0:
            nrows, ncols = draw(G.patt_far())
            ncols += draw(st.integers(0, 1))
    elif draw(st.booleans()):
        # a grid the transform can take
        nrows = n + 2 + draw(st.integers(0, extra))
        ncols = 2 * abs(m) + 2 + 2 * draw(st.integers(0, extra))
    else:
        nrows = draw(st.integers(2, nhi + extra))
        ncols = draw(st.integers(1, cols))
    return {"n": n, "m": m, "nrows": nrows, "ncols": ncols}


def analysable(case):
    return (case["nrows"] >= case["n"] + 2 and case["ncols"] % 2 == 0 and
            case["ncols"] >= 2 * abs(case["m"]) + 2)


def check(case):
    n, m, nr, nc = (case[k] for k in ("n", "m", "nrows", "ncols"))
    it = G.ITYPES[(n + 3 * m + 5 * nr + nc) % len(G.ITYPES)]
    y = K.arr(sp.sph_harmonic_tp(*[G.whole(k, it) for k in (nr, nc, n, m)]),
              (nr, nc),
              "sph_harmonic_tp(%d, %d, %d, %d)" % (nr, nc, n, m))
    peak = math.sqrt((2 * n + 1) / (4 * math.pi))
    tol = 2e-14 * (n + 10) * peak
    th, ph = O.theta_grid(nr), O.phi_grid(nc)
    want = np.outer(O.pbar(n, m, th)[n - abs(m)], np.exp(1j * m * ph))
    K.close(y, want, tol, "Y_nm: n=%d m=%d" % (n, m))
    lab = ["m<0" if m < 0 else "m>0" if m else "m=0",
           "ncols-odd" if nc % 2 else "ncols-even"]
    if analysable(case):
        c = sp.spht(G.make_spatt(sp, y), G.whole(n, it), G.whole(abs(m), it))
        K.coefs_close(c, {(n, m): 1.0}, n, abs(m), 2e-14 * (n + nr + 10)
                      * peak, "spht(Y_nm)")
        # degrees above 1000: see known finding degree-underflow of C27
        N = max(n, min(nr - 2, 1000))
        M = min(N, nc // 2 - 1)
        c = sp.spht(G.make_spatt(sp, y), N, M)
        K.coefs_close(c, {(n, m): 1.0}, N, M, 2e-14 * (N + nr + 10) * peak
                      * math.sqrt(N + 1),
                      "spht(Y_nm) of all modes")
        e = sp.zeros_coefs(n, abs(m))
        e[n, m] = 1.0
        K.close(sp.ispht(e, nr, nc).array, y, 2 * tol,
                "ispht(unit): n=%d m=%d" % (n, m))
        lab.append("transformed")
    else:
        lab.append("sampled-only")
    return lab


def fixed(tier):
    hi = 9 if tier == "quick" else 26
    for n in range(hi + 1):
        for m in range(-n, n + 1):
            for nr, nc in ((n + 2, 2 * abs(m) + 2), (n + 5, 2 * abs(m) + 6),
                           (2, 1), (3 + n % 3, 2 * n + 1)):
                yield {"n": n, "m": m, "nrows": nr, "ncols": nc}


@st.composite
def high(draw):
    n = draw(st.one_of(st.integers(71, 1000), st.integers(71, 400)))
    m = draw(st.one_of(st.integers(-n, n), st.integers(-9, 9),
                       st.sampled_from([-n, n, 0, n - 1, 1 - n])))
    return {"n": n, "m": m, "nrows": draw(st.integers(2, 24)),
            "ncols": draw(st.integers(1, 12))}


def check_high(case):
    """Samples only; the reference is in extended precision."""
    n, m, nr, nc = (case[k] for k in ("n", "m", "nrows", "ncols"))
    it = G.ITYPES[(n + 3 * m + 5 * nr + nc) % len(G.ITYPES)]
    y = K.arr(sp.sph_harmonic_tp(*[G.whole(k, it) for k in (nr, nc, n, m)]),
              (nr, nc),
              "sph_harmonic_tp(%d, %d, %d, %d)" % (nr, nc, n, m))
    th, ph = O.theta_grid_long(nr), O.phi_grid(nc)
    want = np.outer(O.pbar(n, m, th)[n - abs(m)], np.exp(1j * m * ph))
    peak = math.sqrt((2 * n + 1) / (4 * math.pi))
    K.close(y, want, 16 * K.EPS * (n + 60) * peak +
            8 * K.EPS * abs(m) * np.max(np.abs(want)),
            "Y_nm: n=%d m=%d" % (n, m))
    return ["degree %d-%d" % (n // 200 * 200, n // 200 * 200 + 199)]


def fixed_high(tier):
    for n in range(71, 1001, 31 if tier == "quick" else 3):
        for m in (0, 1, -2, n, 1 - n, n // 2, -n // 3):
            yield {"n": n, "m": m, "nrows": 3 + n % 7, "ncols": 5}


FACETS = [
    Facet("grid", cases, check, lambda c: c["n"] > 0, quick=1600,
          thorough=30000, fixed=fixed, shards=6, tshards=8,
          rule="every (n, m) up to a bound on four grids, then generated "
               "modes and grids (also too coarse to analyse and with odd "
               "column counts); non-trivial = n > 0"),
    Facet("degree", lambda: cases(70, 3, 12), check, lambda c: c["n"] > 0,
          quick=120, thorough=2500, shards=2, tshards=8,
          rule="degrees up to 70"),
    Facet("far", lambda: cases(far=True), check, lambda c: c["n"] > 0,
          quick=100, thorough=2500, shards=3, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("high", high, check_high, None, quick=250, thorough=6000,
          fixed=fixed_high, shards=2, tshards=8,
          rule="degrees 71 to 1000, on coarse grids"),
]
