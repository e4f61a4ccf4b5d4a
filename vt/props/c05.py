"""C05 vector analysis against projections of the interpolated field."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()


@st.composite
def cases(draw, rows=20, cols=24, big=False):
    if big == "long":
        nrows, ncols = draw(G.patt_long())
        nmax, mmax = draw(G.sub_long(nrows, ncols))
    else:
        nrows, ncols = draw(G.patt_big() if big else
                            G.patt_shape(rows, cols))
        nmax, mmax = draw(G.sub_sizes(nrows, ncols))
    sc = draw(G.SCALES)
    t, p = draw(G.pair(G.samples(nrows, ncols, st.just(sc))))
    return {"nrows": nrows, "ncols": ncols, "nmax": nmax, "mmax": mmax,
            "nmax2": draw(st.integers(0, nmax)),
            "how": "both" if big == "long" else draw(st.sampled_from(
                ["both", "both", "both", "none", "nmax", "mmax"])),
            "it": draw(st.sampled_from(G.ITYPES)),
            "poles": draw(G.POLES),
            "t": t, "p": p}


def vclose(vc, W1, W2, nmax, mmax, tol, what):
    K.need(isinstance(vc, sp.VectorCoefs), "%s returned a %s", what,
           type(vc).__name__)
    K.need((vc.nmax, vc.mmax) == (nmax, mmax), "%s has size %s", what,
           (vc.nmax, vc.mmax))
    K.coefs_close(vc.scoef1, W1, nmax, mmax, tol, what + " set 1")
    K.coefs_close(vc.scoef2, W2, nmax, mmax, tol, what + " set 2")
    K.need(vc.scoef1[0, 0] == 0 and vc.scoef2[0, 0] == 0,
           "%s: monopole is not zero", what)
    if nmax > 0:
        g = vc[nmax, min(nmax, mmax)]
        K.need(g[0] == vc.scoef1[nmax, min(nmax, mmax)]
               and g[1] == vc.scoef2[nmax, min(nmax, mmax)],
               "%s: vc[n, m] is not the pair of its sets' values", what)


def check(case):
    def W(k):
        return G.whole(k, case.get("it"))

    nrows, ncols = case["nrows"], case["ncols"]
    at = G.patt_array(case["t"], nrows, ncols, -1, case["poles"])
    ap = G.patt_array(case["p"], nrows, ncols, -1, case["poles"])
    p = G.make_vpatt(sp, at, ap)
    nmax, mmax = case["nmax"], case["mmax"]
    top_n, top_m = nrows - 2, ncols // 2 - 1
    how = case["how"]
    lab = ["poles-" + case["poles"]]
    if how == "none" and top_m <= top_n:
        nmax, mmax = top_n, top_m
        vc = sp.vspht(p) if nmax % 2 else sp.vspht(p, None, None)
        lab.append("default-sizes")
    elif how == "nmax" and nmax <= top_m:
        mmax = nmax
        vc = sp.vspht(p, W(nmax)) if nmax % 2 else \
            sp.vspht(p, nmax=W(nmax), mmax=None)
        lab.append("only-nmax")
    elif how == "nmax":
        # the order would be nmax, which the columns do not support
        try:
            x = sp.vspht(p, W(nmax))
        except ValueError:
            return lab + ["only-nmax-refused"]
        K.need(False, "vspht(p, %d) of a pattern with %d columns gave "
               "nmax=%s, mmax=%s", nmax, ncols, x.nmax, x.mmax)
    elif how == "mmax":
        nmax = top_n
        vc = sp.vspht(p, mmax=W(mmax)) if mmax % 2 else \
            sp.vspht(p, None, W(mmax))
        lab.append("only-mmax")
    else:
        vc = sp.vspht(p, W(nmax), W(mmax)) if nmax % 4 else \
            sp.vspht(p, mmax=W(mmax), nmax=W(nmax))
        lab.append("full" if (nmax, mmax) == (top_n, min(top_n, top_m))
                   else "subset")
    W1, W2 = O.analyse_vector(O.double_sphere(at, -1),
                              O.double_sphere(ap, -1), nmax, mmax)
    big = max(float(np.max(np.abs(at))), float(np.max(np.abs(ap))))
    tol = 3e-14 * (nrows + 10) * big + 1e-308
    vclose(vc, W1, W2, nmax, mmax, tol, "vspht")
    n2 = case["nmax2"]
    m2 = min(n2, mmax)
    if n2 <= nmax:
        vclose(sp.vspht(p, W(n2), W(m2)), W1, W2, n2, m2, tol,
               "vspht of fewer modes")
    return lab


def nontrivial(case):
    return bool(np.any(G.sample_array(case["t"], case["nrows"],
                                      case["ncols"]))
                or np.any(G.sample_array(case["p"], case["nrows"],
                                         case["ncols"])))


def fixed(tier):
    hi_r, hi_c = (13, 10) if tier == "quick" else (40, 24)
    for nrows in range(2, hi_r + 1):
        for ncols in range(2, hi_c + 1, 2):
            for nmax in sorted({0, nrows - 2, (nrows - 2) // 2}):
                d = {"k": "dense", "e": 0, "f": "complex"}
                yield {"nrows": nrows, "ncols": ncols, "nmax": nmax,
                       "mmax": min(nmax, ncols // 2 - 1), "nmax2": nmax // 2,
                       "how": "both", "poles": "raw",
                       "t": dict(d, s=nrows * 64 + ncols),
                       "p": dict(d, s=nrows * 64 + ncols + 7000)}
    for n, m, d in G.weak_pair("t", "p"):
        for poles in ("raw", "single"):
            yield dict(d, nrows=n + 2, ncols=2 * m + 2, nmax=n, mmax=m,
                       nmax2=n // 2, how="both", poles=poles)


RULE = ("all shapes up to a bound with dense samples, then generated; "
        "non-trivial = some sample non-zero")
FACETS = [
    Facet("small", lambda: cases(12, 16), check, nontrivial, quick=2000,
          thorough=30000, fixed=fixed, shards=5, tshards=8, rule=RULE),
    Facet("medium", lambda: cases(48, 48), check, nontrivial, quick=320,
          thorough=6000, shards=3, tshards=8,
          rule="as small with up to 48 rows and columns"),
    Facet("large", lambda: cases(big=True), check, nontrivial, quick=60,
          thorough=2000, shards=2, tshards=8,
          rule="as small with up to 160 rows or 200 columns, at most 6000 "
               "samples"),
    Facet("long", lambda: cases(big="long"), check, nontrivial, quick=40,
          thorough=1500, shards=4, tshards=8, fixed=G.fixed_long_patt("t", "p"),
          rule="as small with up to 2000 rows or 3000 columns, degrees to "
               "800"),
    Facet("ladder", None, check, nontrivial, quick=0, thorough=0, shards=8,
          tshards=8, fixed=G.ladder_patt("t", "p"),
          rule="dense values at every degree, every order, every number of "
               "rows and every number of columns up to a bound"),
]
