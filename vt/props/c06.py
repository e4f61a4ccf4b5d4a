"""C06 vector round trips."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()


@st.composite
def cases(draw, hi=24, extra=16, big=False):
    nmax, mmax = draw(G.nm_of(big, hi))
    nrows, ncols = draw(G.grid_of(big, nmax, mmax, extra))
    r2, c2 = draw(G.grid_of(big, nmax, mmax, extra))
    rn = nmax + draw(st.integers(0, min(nrows - 2 - nmax, 60)))
    rm = draw(st.integers(mmax, min(rn, ncols // 2 - 1)))
    sc = draw(G.SCALES)
    c1, c2v = draw(G.pair(G.coef_values(nmax, mmax, st.just(sc))))
    return {"nmax": nmax, "mmax": mmax, "nrows": nrows, "ncols": ncols,
            "r2": r2, "c2": c2, "rn": rn, "rm": rm,
            "less": draw(st.integers(0, nmax)),
            "c1": c1, "c2v": c2v}


def parts(case):
    nmax, mmax = case["nmax"], case["mmax"]
    return (G.drop0(G.coef_dict(case["c1"], nmax, mmax)),
            G.drop0(G.coef_dict(case["c2v"], nmax, mmax)))


def check(case):
    nmax, mmax = case["nmax"], case["mmax"]
    C1, C2 = parts(case)
    vc = G.make_vcoefs(sp, C1, C2, nmax, mmax)
    nrows, ncols = case["nrows"], case["ncols"]
    S = G.coef_bound(C1) + G.coef_bound(C2)
    tol = 2e-14 * (nmax + nrows + 10) * S + 1e-308
    p = sp.vispht(vc, nrows, ncols)

    def cmp(got, n, m, what):
        K.need((got.nmax, got.mmax) == (n, m), "%s has size %s, wanted %s",
               what, (got.nmax, got.mmax), (n, m))
        for s, C, w in ((got.scoef1, C1, " set 1"), (got.scoef2, C2,
                                                     " set 2")):
            C = {k: v for k, v in C.items() if k[0] <= n and abs(k[1]) <= m}
            K.coefs_close(s, C, n, m, tol, what + w)

    cmp(sp.vspht(p, case["rn"], case["rm"]), case["rn"], case["rm"],
        "vspht(vispht(vc))")
    ln = case["less"]
    cmp(sp.vspht(p, ln, min(ln, mmax)), ln, min(ln, mmax),
        "vspht(vispht(vc)) of fewer modes")
    cc = sp.vspht(p, nmax, mmax)
    tol2 = tol * 4 * (nmax + 1)
    p2 = sp.vispht(cc, case["r2"], case["c2"])
    ft, fp = O.synth_vector(C1, C2, nmax, mmax, O.theta_grid_long(case["r2"]),
                            O.phi_grid(case["c2"]))
    K.close(p2.theta, ft, tol2, "vispht(vspht(p)) theta")
    K.close(p2.phi, fp, tol2, "vispht(vspht(p)) phi")
    # through bare arrays
    p1 = G.make_vpatt(sp, np.array(p.theta), np.array(p.phi))
    cmp(sp.vspht(p1, nmax, mmax), nmax, mmax, "vspht of the bare arrays")
    return ["grid-exact" if (nrows, ncols) == (nmax + 2, 2 * mmax + 2)
            else "grid-oversampled",
            "both-sets" if G.nz(C1) and G.nz(C2) else "one-set"]


def nontrivial(case):
    C1, C2 = parts(case)
    return G.nz(C1) + G.nz(C2) > 0


def fixed(tier):
    hi = 10 if tier == "quick" else 28
    d = {"k": "dense", "e": 0, "f": "complex"}
    z = {"k": "sparse", "e": 0, "v": []}
    for nmax in range(hi + 1):
        for mmax in range(nmax + 1):
            a = dict(d, s=nmax * 100 + mmax)
            for k, (u, v) in enumerate(((a, z), (z, a),
                                        (a, dict(a, s=a["s"] + 55)))):
                er = (nmax + mmax + k) % 4
                yield {"nmax": nmax, "mmax": mmax, "nrows": nmax + 2 + er,
                       "ncols": 2 * mmax + 2 + 2 * (er % 3),
                       "r2": nmax + 3, "c2": 2 * mmax + 4, "rn": nmax,
                       "rm": mmax, "less": nmax // 2, "c1": u, "c2v": v}
    for n, m, d in G.weak_pair("c1", "c2v"):
        yield dict(d, nmax=n, mmax=m, nrows=n + 2, ncols=2 * m + 2,
                   r2=n + 3, c2=2 * m + 4, rn=n, rm=m, less=n // 2)


RULE = ("dense coefficients in either and both sets at every (nmax, mmax) up "
        "to a bound, then generated; non-trivial = a non-zero coefficient "
        "with n > 0")
FACETS = [
    Facet("small", lambda: cases(12, 10), check, nontrivial, quick=1500,
          thorough=20000, fixed=fixed, shards=5, tshards=8, rule=RULE),
    Facet("medium", lambda: cases(40, 40), check, nontrivial, quick=260,
          thorough=4000, shards=3, tshards=8,
          rule="as small with nmax up to 40"),
    Facet("large", lambda: cases(160, 30, True), check, nontrivial, quick=60,
          thorough=2000, shards=2, tshards=8,
          rule="as small with nmax from 50 to 160, mmax limited by cost"),
    Facet("long", lambda: cases(big="long"), check, nontrivial, quick=60,
          thorough=2000, shards=3, tshards=8, fixed=G.fixed_long("c1", "c2v"),
          rule="as small with up to 2500 rows or columns more than needed, or "
               "nmax from 160 to 700"),
    Facet("ladder", None, check, nontrivial, quick=0, thorough=0, shards=8,
          tshards=8, fixed=G.ladder("c1", "c2v"),
          rule="dense values at every degree, every order, every number of "
               "rows and every number of columns up to a bound"),
]
