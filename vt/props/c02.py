"""C02 scalar analysis against the projection of the interpolant."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()


@st.composite
def cases(draw, rows=20, cols=24, big=False):
    if big == "long":
        nrows, ncols = draw(G.patt_long())
        nmax, mmax = draw(G.sub_long(nrows, ncols))
    else:
        nrows, ncols = draw(G.patt_big() if big else
                            G.patt_shape(rows, cols))
        nmax, mmax = draw(G.sub_sizes(nrows, ncols))
    return {"nrows": nrows, "ncols": ncols, "nmax": nmax, "mmax": mmax,
            "nmax2": draw(st.integers(0, nmax)),
            "how": "both" if big == "long" else draw(st.sampled_from(
                ["both", "both", "both", "none", "nmax", "mmax"])),
            "it": draw(st.sampled_from(G.ITYPES)),
            "poles": draw(G.POLES), "f": draw(G.samples(nrows, ncols))}


def tol_of(a, nrows):
    return 3e-14 * (nrows + 10) * float(np.max(np.abs(a))) + 1e-308


def check(case):
    def W(k):
        return G.whole(k, case.get("it"))

    nrows, ncols = case["nrows"], case["ncols"]
    a = G.patt_array(case["f"], nrows, ncols, 1, case["poles"])
    p = G.make_spatt(sp, a)
    nmax, mmax = case["nmax"], case["mmax"]
    top_n, top_m = nrows - 2, ncols // 2 - 1
    lab = ["values-" + case["f"]["k"], "poles-" + case["poles"]]
    how = case["how"]
    if how == "none" and top_m <= top_n:
        nmax, mmax = top_n, top_m
        c = sp.spht(p) if nmax % 2 else sp.spht(p, None, None)
        lab.append("default-sizes")
    elif how == "nmax" and nmax <= top_m:
        mmax = nmax
        c = sp.spht(p, W(nmax)) if nmax % 2 else \
            sp.spht(p, nmax=W(nmax), mmax=None)
        lab.append("only-nmax")
    elif how == "nmax":
        # the order would be nmax, which the columns do not support
        try:
            x = sp.spht(p, W(nmax))
        except ValueError:
            return lab + ["only-nmax-refused"]
        K.need(False, "spht(p, %d) of a pattern with %d columns gave "
               "nmax=%s, mmax=%s", nmax, ncols, x.nmax, x.mmax)
    elif how == "mmax":
        nmax = top_n
        c = sp.spht(p, mmax=W(mmax)) if mmax % 2 else \
            sp.spht(p, None, W(mmax))
        lab.append("only-mmax")
    else:
        c = sp.spht(p, W(nmax), W(mmax)) if nmax % 4 else \
            sp.spht(p, mmax=W(mmax), nmax=W(nmax))
        lab.append("full" if (nmax, mmax) == (top_n, min(top_n, top_m))
                   else "subset")
    K.need(isinstance(c, sp.ScalarCoefs), "spht returned a %s",
           type(c).__name__)
    ds = O.double_sphere(a, 1)
    want = O.analyse_scalar(ds, nmax, mmax)
    tol = tol_of(a, nrows)
    K.coefs_close(c, want, nmax, mmax, tol, "spht")
    n2 = case["nmax2"]
    m2 = min(n2, case["mmax"])
    c2 = sp.spht(p, W(n2), W(m2))
    K.coefs_close(c2, want, n2, min(m2, n2), tol, "spht of fewer modes") \
        if n2 <= nmax and m2 <= mmax else None
    return lab


def nontrivial(case):
    return bool(np.any(G.sample_array(case["f"], case["nrows"],
                                      case["ncols"])))


def fixed(tier):
    """Every shape up to a bound with the full set of modes, dense samples:
    every internal FFT length up to about three times the rows."""
    hi_r, hi_c = (16, 12) if tier == "quick" else (48, 30)
    for nrows in range(2, hi_r + 1):
        for ncols in range(2, hi_c + 1, 2):
            for nmax in sorted({0, nrows - 2, (nrows - 2) // 2}):
                yield {"nrows": nrows, "ncols": ncols, "nmax": nmax,
                       "mmax": min(nmax, ncols // 2 - 1), "nmax2": nmax // 2,
                       "how": "both", "poles": "raw",
                       "f": {"k": "dense", "e": 0, "s": nrows * 64 + ncols,
                             "f": "complex"}}


RULE = ("all shapes up to a bound with dense samples, then generated shapes, "
        "samples, requested sizes and ways to request them; non-trivial = "
        "samples not all zero")
FACETS = [
    Facet("small", lambda: cases(12, 16), check, nontrivial, quick=2500,
          thorough=40000, fixed=fixed, shards=5, tshards=8, rule=RULE),
    Facet("medium", lambda: cases(60, 60), check, nontrivial, quick=500,
          thorough=8000, shards=3, tshards=8,
          rule="as small with up to 60 rows and columns"),
    Facet("large", lambda: cases(big=True), check, nontrivial, quick=60,
          thorough=2000, shards=2, tshards=8,
          rule="as small with up to 160 rows or 200 columns, at most 6000 "
               "samples"),
    Facet("long", lambda: cases(big="long"), check, nontrivial, quick=40,
          thorough=1500, shards=4, tshards=8, fixed=G.fixed_long_patt("f"),
          rule="as small with up to 2000 rows or 3000 columns, degrees to "
               "800"),
    Facet("ladder", None, check, nontrivial, quick=0, thorough=0, shards=8,
          tshards=8, fixed=G.ladder_patt("f"),
          rule="dense values at every degree, every order, every number of "
               "rows and every number of columns up to a bound"),
]
