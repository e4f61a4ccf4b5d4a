"""C01 scalar synthesis against the spherical-harmonic sum."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()


@st.composite
def cases(draw, hi=24, extra=12, big=False):
    nmax, mmax = draw(G.nm_of(big, hi))
    nrows, ncols = draw(G.grid_of(big, nmax, mmax, extra))
    return {"nmax": nmax, "mmax": mmax, "nrows": nrows, "ncols": ncols,
            "it": draw(st.sampled_from(G.ITYPES)),
            "defaults": draw(st.sampled_from(["none", "none", "both", "rows",
                                              "cols"])),
            "c": draw(G.coef_values(nmax, mmax))}


def tol_of(C, nmax):
    return 3e-14 * (nmax + 10) * G.coef_bound(C) + 1e-308


def check(case):
    def W(k):
        return G.whole(k, case.get("it"))

    nmax, mmax = case["nmax"], case["mmax"]
    C = G.coef_dict(case["c"], nmax, mmax)
    c = G.make_scoefs(sp, C, nmax, mmax)
    nrows, ncols = case["nrows"], case["ncols"]
    d = case["defaults"]
    if d == "both":
        nrows, ncols = nmax + 2, 2 * mmax + 2
        p = sp.ispht(c) if nmax % 2 else sp.ispht(c, None, None)
    elif d == "rows":
        nrows = nmax + 2
        p = sp.ispht(c, ncols=W(ncols)) if nmax % 2 else \
            sp.ispht(c, None, W(ncols))
    elif d == "cols":
        ncols = 2 * mmax + 2
        p = sp.ispht(c, W(nrows)) if nmax % 2 else \
            sp.ispht(c, nrows=W(nrows), ncols=None)
    else:
        p = sp.ispht(c, W(nrows), W(ncols)) if nmax % 4 else \
            sp.ispht(c, ncols=W(ncols), nrows=W(nrows))
    # what becomes of the coefficients is no matter of the pattern
    c[:, 0] = np.full(nmax + 1, 3.5e3 - 2j)
    c.window(np.full(nmax + 1, -4.0))
    K.need(isinstance(p, sp.ScalarPatternUniform), "ispht returned a %s",
           type(p).__name__)
    K.need(p.nrows == nrows and p.ncols == ncols
           and tuple(p.shape) == (nrows, ncols),
           "pattern has size %s, expected %s", p.shape, (nrows, ncols))
    th, ph = O.theta_grid_long(nrows), O.phi_grid(ncols)
    want = O.synth_scalar(C, nmax, mmax, th, ph)
    tol = tol_of(C, nmax)
    K.close(p.array, want, tol, "ispht samples")
    K.close(p.cdata, want, tol, "ispht samples")
    ds = K.arr(p.doublesphere, (2 * nrows - 2, ncols), "doublesphere")
    cont = np.roll(want, -(ncols // 2), axis=1)[nrows - 2:0:-1, :]
    K.close(ds[nrows:, :], cont, tol, "ispht continuation")
    lab = ["grid-exact" if (nrows, ncols) == (nmax + 2, 2 * mmax + 2)
           else "grid-oversampled", "values-" + case["c"]["k"],
           "mmax=nmax" if mmax == nmax else
           ("mmax=0" if mmax == 0 else "mmax<nmax")]
    return lab


def nontrivial(case):
    return G.nz(G.coef_dict(case["c"], case["nmax"], case["mmax"])) > 0


def fixed(tier):
    """Every mode of every small size on its smallest grids, one unit
    coefficient at a time; plus dense sets on all sizes up to a bound."""
    hi = 5 if tier == "quick" else 9
    for nmax in range(hi + 1):
        for mmax in range(nmax + 1):
            for n, m in O.modes(nmax, mmax):
                yield {"nmax": nmax, "mmax": mmax, "nrows": nmax + 2,
                       "ncols": 2 * mmax + 2, "defaults": "none",
                       "c": {"k": "unit", "e": 0, "n": n, "m": m, "p": 0}}
    hi = 12 if tier == "quick" else 40
    for nmax in range(hi + 1):
        for mmax in range(nmax + 1):
            yield {"nmax": nmax, "mmax": mmax,
                   "nrows": nmax + 2 + (nmax * 7 + mmax) % 5,
                   "ncols": 2 * mmax + 2 + 2 * ((nmax + 3 * mmax) % 4),
                   "defaults": "none",
                   "c": {"k": "dense", "e": 0, "s": nmax * 100 + mmax,
                         "f": "complex"}}


RULE = ("enumerated unit modes and dense sets over all small (nmax, mmax), "
        "then generated sizes, grids, defaults and values; non-trivial = at "
        "least one non-zero coefficient")
FACETS = [
    Facet("small", lambda: cases(14, 8), check, nontrivial, quick=2400,
          thorough=40000, fixed=fixed, shards=4, tshards=8, rule=RULE),
    Facet("medium", lambda: cases(60, 60), check, nontrivial, quick=400,
          thorough=6000, shards=4, tshards=8,
          rule="as small with nmax up to 60 and grids up to 60 rows and 120 "
               "columns larger than needed"),
    Facet("large", lambda: cases(160, 30, True), check, nontrivial, quick=60,
          thorough=2000, shards=2, tshards=8,
          rule="as small with nmax from 50 to 160, mmax limited by cost"),
    Facet("long", lambda: cases(big="long"), check, nontrivial, quick=60,
          thorough=2000, shards=3, tshards=8, fixed=G.fixed_long("c"),
          rule="as small with up to 2500 rows or columns more than needed, or "
               "nmax from 160 to 700"),
    Facet("ladder", None, check, nontrivial, quick=0, thorough=0, shards=8,
          tshards=8, fixed=G.ladder("c"),
          rule="dense values at every degree, every order, every number of "
               "rows and every number of columns up to a bound"),
]
