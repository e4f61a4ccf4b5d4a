"""C04 vector synthesis against the sum of vector spherical harmonics."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()


@st.composite
def cases(draw, hi=24, extra=12, big=False):
    nmax, mmax = draw(G.nm_of(big, hi))
    nrows, ncols = draw(G.grid_of(big, nmax, mmax, extra))
    sc = draw(G.SCALES)
    c1, c2 = draw(G.pair(G.coef_values(nmax, mmax, st.just(sc))))
    return {"nmax": nmax, "mmax": mmax, "nrows": nrows, "ncols": ncols,
            "it": draw(st.sampled_from(G.ITYPES)),
            "defaults": draw(st.sampled_from(["none", "none", "both", "rows",
                                              "cols"])),
            "c1": c1, "c2": c2}


def tol_of(C1, C2, nmax):
    return 3e-14 * (nmax + 10) * (G.coef_bound(C1) + G.coef_bound(C2)) \
        + 1e-308


def parts(case):
    nmax, mmax = case["nmax"], case["mmax"]
    return (G.drop0(G.coef_dict(case["c1"], nmax, mmax)),
            G.drop0(G.coef_dict(case["c2"], nmax, mmax)))


def check(case):
    def W(k):
        return G.whole(k, case.get("it"))

    nmax, mmax = case["nmax"], case["mmax"]
    C1, C2 = parts(case)
    vc = G.make_vcoefs(sp, C1, C2, nmax, mmax)
    nrows, ncols = case["nrows"], case["ncols"]
    d = case["defaults"]
    if d == "both":
        nrows, ncols = nmax + 2, 2 * mmax + 2
        p = sp.vispht(vc) if nmax % 2 else sp.vispht(vc, None, None)
    elif d == "rows":
        nrows = nmax + 2
        p = sp.vispht(vc, ncols=W(ncols)) if nmax % 2 else \
            sp.vispht(vc, None, W(ncols))
    elif d == "cols":
        ncols = 2 * mmax + 2
        p = sp.vispht(vc, W(nrows)) if nmax % 2 else \
            sp.vispht(vc, nrows=W(nrows), ncols=None)
    else:
        p = sp.vispht(vc, W(nrows), W(ncols)) if nmax % 4 else \
            sp.vispht(vc, ncols=W(ncols), nrows=W(nrows))
    # what becomes of the coefficients is no matter of the pattern
    for s in (vc.scoef1, vc.scoef2):
        s[:, mmax] = np.full(nmax - mmax + 1, 3.5e3 - 2j)
        s.window(np.full(nmax + 1, -4.0))
    K.need(isinstance(p, sp.TransversePatternUniform), "vispht returned a %s",
           type(p).__name__)
    K.need(tuple(p.shape) == (nrows, ncols), "pattern has shape %s, "
           "expected %s", p.shape, (nrows, ncols))
    ft, fp = O.synth_vector(C1, C2, nmax, mmax, O.theta_grid_long(nrows),
                            O.phi_grid(ncols))
    tol = tol_of(C1, C2, nmax)
    K.close(p.theta, ft, tol, "vispht theta")
    K.close(p.phi, fp, tol, "vispht phi")
    dt, dp = p.doublesphere
    for got, want, w in ((dt, ft, "theta"), (dp, fp, "phi")):
        got = K.arr(got, (2 * nrows - 2, ncols), "doublesphere " + w)
        cont = -np.roll(want, -(ncols // 2), axis=1)[nrows - 2:0:-1, :]
        K.close(got[nrows:, :], cont, tol, "vispht continuation " + w)
    return ["grid-exact" if (nrows, ncols) == (nmax + 2, 2 * mmax + 2)
            else "grid-oversampled",
            "set1" if G.nz(C1) else "no-set1",
            "set2" if G.nz(C2) else "no-set2"]


def nontrivial(case):
    C1, C2 = parts(case)
    return G.nz(C1) + G.nz(C2) > 0


ZERO = {"k": "sparse", "e": 0, "v": []}


def fixed(tier):
    hi = 4 if tier == "quick" else 8
    for nmax in range(hi + 1):
        for mmax in range(nmax + 1):
            for n, m in O.modes(nmax, mmax):
                u = {"k": "unit", "e": 0, "n": n, "m": m, "p": 0}
                for a, b in ((u, ZERO), (ZERO, u)):
                    yield {"nmax": nmax, "mmax": mmax, "nrows": nmax + 2,
                           "ncols": 2 * mmax + 2, "defaults": "none",
                           "c1": a, "c2": b}
    hi = 10 if tier == "quick" else 32
    for nmax in range(hi + 1):
        for mmax in range(nmax + 1):
            d = {"k": "dense", "e": 0, "f": "complex"}
            yield {"nmax": nmax, "mmax": mmax,
                   "nrows": nmax + 2 + (nmax * 7 + mmax) % 5,
                   "ncols": 2 * mmax + 2 + 2 * ((nmax + 3 * mmax) % 4),
                   "defaults": "none", "c1": dict(d, s=nmax * 100 + mmax),
                   "c2": dict(d, s=nmax * 100 + mmax + 50)}
    for n, m, d in G.weak_pair("c1", "c2"):
        yield dict(d, nmax=n, mmax=m, nrows=n + 2, ncols=2 * m + 2,
                   defaults="none")


RULE = ("enumerated unit modes of either set and dense sets over all small "
        "(nmax, mmax), then generated; non-trivial = a non-zero coefficient "
        "with n > 0")
FACETS = [
    Facet("small", lambda: cases(12, 8), check, nontrivial, quick=2000,
          thorough=30000, fixed=fixed, shards=5, tshards=8, rule=RULE),
    Facet("medium", lambda: cases(44, 40), check, nontrivial, quick=320,
          thorough=5000, shards=3, tshards=8,
          rule="as small with nmax up to 44"),
    Facet("large", lambda: cases(160, 30, True), check, nontrivial, quick=60,
          thorough=2000, shards=2, tshards=8,
          rule="as small with nmax from 50 to 160, mmax limited by cost"),
    Facet("long", lambda: cases(big="long"), check, nontrivial, quick=60,
          thorough=2000, shards=3, tshards=8, fixed=G.fixed_long("c1", "c2"),
          rule="as small with up to 2500 rows or columns more than needed, or "
               "nmax from 160 to 700"),
    Facet("ladder", None, check, nontrivial, quick=0, thorough=0, shards=8,
          tshards=8, fixed=G.ladder("c1", "c2"),
          rule="dense values at every degree, every order, every number of "
               "rows and every number of columns up to a bound"),
]
