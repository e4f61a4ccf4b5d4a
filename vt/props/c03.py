"""C03 scalar round trips."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()


@st.composite
def cases(draw, hi=24, extra=16, big=False):
    nmax, mmax = draw(G.nm_of(big, hi))
    nrows, ncols = draw(G.grid_of(big, nmax, mmax, extra))
    r2, c2 = draw(G.grid_of(big, nmax, mmax, extra))
    rn = nmax + draw(st.integers(0, min(nrows - 2 - nmax, 60)))
    rm = draw(st.integers(mmax, min(rn, ncols // 2 - 1)))
    return {"nmax": nmax, "mmax": mmax, "nrows": nrows, "ncols": ncols,
            "r2": r2, "c2": c2, "rn": rn, "rm": rm,
            "less": draw(st.integers(0, nmax)),
            "c": draw(G.coef_values(nmax, mmax))}


def tol_of(C, nmax, nrows):
    """Errors are relative to the size of the sampled field."""
    return 2e-14 * (nmax + nrows + 10) * G.coef_bound(C) + 1e-308


def check(case):
    nmax, mmax = case["nmax"], case["mmax"]
    C = G.coef_dict(case["c"], nmax, mmax)
    c = G.make_scoefs(sp, C, nmax, mmax)
    nrows, ncols = case["nrows"], case["ncols"]
    tol = tol_of(C, nmax, nrows)
    p = sp.ispht(c, nrows, ncols)
    rn, rm = case["rn"], case["rm"]
    back = sp.spht(p, rn, rm)
    K.coefs_close(back, C, rn, rm, tol, "spht(ispht(c))")
    ln = case["less"]
    lm = min(ln, mmax)
    sub = {k: v for k, v in C.items() if k[0] <= ln and abs(k[1]) <= lm}
    K.coefs_close(sp.spht(p, ln, lm), sub, ln, lm, tol,
                  "spht(ispht(c)) of fewer modes")
    if (nrows - 2, ncols // 2 - 1) == (nmax, mmax):
        K.coefs_close(sp.spht(p), C, nmax, mmax, tol, "spht(ispht(c))")
    # the same through the bare array, as a user with measured data has it
    p1 = G.make_spatt(sp, np.array(p.array))
    K.coefs_close(sp.spht(p1, nmax, mmax), C, nmax, mmax, tol,
                  "spht(ScalarPatternUniform(array))")
    # pattern -> coefficients -> pattern on another grid
    tol2 = tol * 4 * (nmax + 1)
    cc = sp.spht(p, nmax, mmax)
    p2 = sp.ispht(cc, case["r2"], case["c2"])
    want = O.synth_scalar(C, nmax, mmax, O.theta_grid_long(case["r2"]),
                          O.phi_grid(case["c2"]))
    K.close(p2.array, want, tol2, "ispht(spht(p)) on another grid")
    p3 = sp.ispht(cc, nrows, ncols)
    K.close(p3.array, p.array, tol2, "ispht(spht(p))")
    return ["grid-exact" if (nrows, ncols) == (nmax + 2, 2 * mmax + 2)
            else "grid-oversampled", "values-" + case["c"]["k"],
            "request-more" if (rn, rm) != (nmax, mmax) else "request-same"]


def nontrivial(case):
    return G.nz(G.coef_dict(case["c"], case["nmax"], case["mmax"])) > 0


def fixed(tier):
    hi = 11 if tier == "quick" else 32
    for nmax in range(hi + 1):
        for mmax in range(nmax + 1):
            for er in (0, 1 + (nmax + mmax) % 4):
                yield {"nmax": nmax, "mmax": mmax, "nrows": nmax + 2 + er,
                       "ncols": 2 * mmax + 2 + 2 * (er % 3),
                       "r2": nmax + 3, "c2": 2 * mmax + 4, "rn": nmax,
                       "rm": mmax, "less": nmax // 2,
                       "c": {"k": "dense", "e": 0, "s": nmax * 100 + mmax,
                             "f": "complex"}}


RULE = ("dense coefficients at every (nmax, mmax) up to a bound, then "
        "generated sizes, grids, requests and values; non-trivial = at least "
        "one non-zero coefficient")
FACETS = [
    Facet("small", lambda: cases(14, 10), check, nontrivial, quick=2000,
          thorough=30000, fixed=fixed, shards=5, tshards=8, rule=RULE),
    Facet("medium", lambda: cases(48, 48), check, nontrivial, quick=360,
          thorough=5000, shards=3, tshards=8,
          rule="as small with nmax up to 48 and up to 48 extra rows"),
    Facet("large", lambda: cases(160, 30, True), check, nontrivial, quick=60,
          thorough=2000, shards=2, tshards=8,
          rule="as small with nmax from 50 to 160, mmax limited by cost"),
    Facet("long", lambda: cases(big="long"), check, nontrivial, quick=60,
          thorough=2000, shards=3, tshards=8, fixed=G.fixed_long("c"),
          rule="as small with up to 2500 rows or columns more than needed, or "
               "nmax from 160 to 700"),
    Facet("ladder", None, check, nontrivial, quick=0, thorough=0, shards=8,
          tshards=8, fixed=G.ladder("c"),
          rule="dense values at every degree, every order, every number of "
               "rows and every number of columns up to a bound"),
]
