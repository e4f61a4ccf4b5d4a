"""C15 magnitudes, norms and comparisons."""
import math

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()

MID = st.one_of(st.just(0), st.sampled_from(
    [-318, -300, -200, -165, -155, -140, -100, -30, -8, 3, 8, 30, 100, 140,
     153, 155, 200, 300]))


@st.composite
def cases(draw, nhi=10, rows=9, cols=12, far=False):
    what = draw(st.sampled_from(["coefs", "coefs", "patt", "patt", "made",
                                 "open"]))
    sc = draw(MID)
    c = {"what": what, "vector": draw(st.booleans()),
         "z": draw(G.cnum()), "ze": draw(st.sampled_from([0, -2, 2]))}
    if what in ("patt", "open"):
        c["nrows"], c["ncols"] = draw(G.patt_far_or(far, rows, cols))
        # open: a continuation that is not the mirror of the samples, as
        # products, quotients and sums with numbers have
        s = G.samples(c["nrows"] if what == "patt" else 2 * c["nrows"] - 2,
                      c["ncols"], st.just(sc))
        c["poles"] = draw(G.POLES)
    else:
        c["nmax"], c["mmax"] = draw(G.nm_far_or(far, nhi, modes=4000))
        s = G.coef_values(c["nmax"], c["mmax"], st.just(sc))
        c["nrows"], c["ncols"] = draw(G.grid_for(c["nmax"], c["mmax"], 4))
    c["a"] = draw(G.pair(s))
    c["b"] = draw(G.pair(s))
    return c


def build(case, specs):
    """(object, list of arrays or dicts of its parts)"""
    vec = case["vector"]
    if case["what"] == "patt":
        sym = -1 if vec else 1
        A = [G.patt_array(s, case["nrows"], case["ncols"], sym,
                          case["poles"]) for s in specs]
        return (G.make_vpatt(sp, A[0], A[1]) if vec
                else G.make_spatt(sp, A[0]))
    if case["what"] == "open":
        A = [np.array(G.sample_array(s, 2 * case["nrows"] - 2,
                                     case["ncols"])) for s in specs]
        return (sp.TransversePatternUniform(A[0], A[1], doublesphere=True)
                if vec else sp.ScalarPatternUniform(A[0], doublesphere=True))
    n, m = case["nmax"], case["mmax"]
    C = [G.coef_dict(s, n, m) for s in specs]
    c = (G.make_vcoefs(sp, C[0], C[1], n, m) if vec
         else G.make_scoefs(sp, C[0], n, m))
    if case["what"] == "made":
        f = sp.vispht if vec else sp.ispht
        return f(c, case["nrows"], case["ncols"])
    return c



def coefs(o):
    return isinstance(o, (sp.ScalarCoefs, sp.VectorCoefs))


def parts(o):
    """Values of each component, as flat arrays in a fixed order."""
    if isinstance(o, sp.VectorCoefs):
        return parts(o.scoef1) + parts(o.scoef2)
    if isinstance(o, sp.ScalarCoefs):
        return [np.array([v for _, v in sorted(G.scoefs_dict(o).items())])]
    if isinstance(o, sp.TransversePatternUniform):
        return [np.array(x) for x in o.doublesphere]
    return [np.array(o.doublesphere)]


def rss(vals):
    """root of a sum of squares, without over- or underflow"""
    big = max((float(np.max(np.abs(v))) for v in vals if v.size), default=0.0)
    if big == 0 or not np.isfinite(big):
        return big
    return big * math.sqrt(math.fsum(
        float(x) for v in vals for x in ((np.abs(v) / big) ** 2).ravel()))


def rel(got, want, what, tol=1e-13):
    got = np.asarray(got)
    K.need(got.shape == (), "%s is not a number but has shape %s", what,
           got.shape)
    K.need(not np.iscomplexobj(got) or got.imag == 0, "%s is complex: %r",
           what, got)
    K.close(np.real(got), want, tol * abs(want) + 1e-318, what)


def values(x, o, what):
    """The mode-wise or sample-wise result of a magnitude routine."""
    if coefs(o):
        K.need(isinstance(x, sp.ScalarCoefs), "%s of coefficients is a %s",
               what, type(x).__name__)
        K.need((x.nmax, x.mmax) == (o.nmax, o.mmax), "%s has size (%s, %s)",
               what, x.nmax, x.mmax)
        v = parts(x)[0]
        K.need(np.all(v.imag == 0), "%s is complex", what)
        return v.real
    K.need(isinstance(x, np.ndarray) and x.shape == tuple(o.shape),
           "%s of a pattern is %r", what, getattr(x, "shape", type(x)))
    K.need(not np.iscomplexobj(x), "%s is complex", what)
    return x


def check(case):
    a = build(case, case["a"])
    b = build(case, case["b"])
    lab = judge(case, a, b)
    if coefs(a) and a.nmax > 0:
        # written to, and asked again
        k = case["nmax"] * 3 + case["mmax"] + case["nrows"] + case["ncols"]
        n = a.nmax if k % 2 else 1
        m = 0 if k % 2 else -min(1, a.mmax)
        if not case["vector"]:
            if k % 3 == 0:
                a[n, :] = np.asarray(a[n, :]) * 0.5 + 1
            elif k % 3 == 1:
                a[:, m] = np.asarray(a[:, m]) * 0.5 + 1
            else:
                a[n, m] = a[n, m] * 0.5 + 1
        elif k % 3 == 0:
            c = (a.scoef1, a.scoef2)[k // 3 % 2]
            c.window(0.5 * (np.arange(a.nmax + 1) + 1))
        elif k % 3 == 1:
            c = (a.scoef1, a.scoef2)[k // 3 % 2]
            c[n, m] = c[n, m] * 0.5 + 1
        else:
            x, y = a[n, m]
            a[n, m] = (x * 0.5 + 1, y * 0.5 - 1j)
        judge(case, a, b)
        lab.append("asked-again")
    return lab


def judge(case, a, b):
    vec = case["vector"]
    isc = coefs(a)
    pa, pb = parts(a), parts(b)
    name = "%s %s" % ("vector" if vec else "scalar",
                      "coefficients" if isc else "pattern")
    lab = [name.replace(" ", "-"), case["what"]]

    # what a magnitude routine covers: all modes, or the samples
    def seen(ps):
        return ps if isc else [p[:a.nrows] for p in ps]

    sa = seen(pa)
    want = np.zeros(sa[0].shape)
    for x in sa:
        want = np.hypot(want, np.abs(x))
    m = values(sp.mag(a), a, "mag of " + name)
    K.close(m, want, 1e-14 * want + 1e-322, "mag of " + name)
    m2 = values(sp.mag2(a), a, "mag2 of " + name)
    top = want > 1e153                      # their squares may overflow
    K.close(m2[~top], want[~top] ** 2, 1e-14 * want[~top] ** 2 + 1e-305,
            "mag2 of " + name)
    K.need(np.all(m2[top] > 0.9e306), "mag2 of large values of " + name)
    if not vec:
        ab = values(sp.abs(a), a, "abs of " + name)
        K.same(ab, m, "abs and mag of " + name)

    L2, LI = ((sp.L2_coef, sp.LInf_coef) if isc
              else (sp.L2_patt, sp.LInf_patt))
    wl2 = rss(pa)
    tops = [float(np.max(np.abs(x))) for x in pa]
    wli = math.hypot(*tops) if vec else tops[0]
    l2, li = L2(a), LI(a)
    rel(l2, wl2, "L2 norm of " + name)
    rel(li, wli, "LInf norm of " + name)
    K.need((l2 == 0) == all(not np.any(x) for x in pa) and
           (li == 0) == (l2 == 0), "%s: a norm is zero for non-zero data or "
           "the reverse (%r, %r)", name, l2, li)
    # homogeneity and the triangle inequality
    z = G.cplx(case["z"]) * 10.0 ** case["ze"]
    if z != 0:
        rel(L2(a * z), abs(z) * wl2, "L2 norm of a multiple of " + name)
        rel(LI(a * z), abs(z) * wli, "LInf norm of a multiple of " + name)
    K.need(L2(a + b) <= (l2 + L2(b)) * (1 + 1e-12) + 1e-318 and
           LI(a + b) <= (li + LI(b)) * (1 + 1e-12) + 1e-318,
           "triangle inequality of " + name)
    K.need(L2(a - a) == 0 and LI(a - a) == 0, "norm of x - x, " + name)
    if isc and not vec:
        den = math.fsum(np.abs(pa[0]))
        num = math.fsum(np.abs(pa[0] - pb[0]))
        if den > 0:
            rel(sp.compare_relative(a, b), num / den, "compare_relative",
                1e-12)
            K.need(sp.compare_relative(a, a) == 0, "compare_relative(c, c)")
            lab.append("compared")
    if isc:
        # the magnitudes are coefficients that can be transformed
        n, mm = a.nmax, a.mmax
        mc = sp.mag(a)
        nr, nc = n + 2, 2 * mm + 2
        C = G.scoefs_dict(mc)
        if G.coef_bound(C) < 1e280:
            K.close(sp.ispht(mc).array,
                    O.synth_scalar(C, n, mm, O.theta_grid(nr),
                                   O.phi_grid(nc)),
                    1e-12 * (n + 10) * G.coef_bound(C) + 1e-290,
                    "pattern of the magnitudes")
    for o, ps in ((a, pa), (b, pb)):
        for x, y in zip(parts(o), ps):
            K.same(x, y, "a norm or magnitude changed its argument")
    for f in (sp.mag, sp.mag2, sp.abs):
        for bad in (None, "x", [1.0], np.ones(3)):
            K.raises(lambda: f(bad), TypeError, "a magnitude of %r" % (bad,))
    return lab


def nontrivial(case):
    if case["what"] in ("patt", "open"):
        k = case["nrows"]
        return bool(np.any(G.sample_array(
            case["a"][0], k if case["what"] == "patt" else 2 * k - 2,
            case["ncols"])))
    return G.nz(G.coef_dict(case["a"][0], case["nmax"], case["mmax"])) > 0


def fixed_far(tier):
    """One mode or one sample only, at every place of a larger object."""
    z = {"k": "sparse", "e": 0, "v": []}
    for i, n in enumerate((11, 12, 16, 33, 64)):
        for m in sorted({-n, 1 - n, -11, -10, -9, -1, 0, 1, 9, 10, 11, n}):
            u = {"k": "unit", "e": 0, "n": n, "m": m, "p": 2}
            for vec in (False, True):
                yield {"what": "coefs", "vector": vec, "nmax": n, "mmax": n,
                       "nrows": n + 2, "ncols": 2 * n + 2, "z": [0.0, 2.0],
                       "ze": 0, "b": [u, z],
                       "a": [z, u] if vec and i % 2 else [u, z]}


def fixed(tier):
    for vec in (False, True):
        for what in ("coefs", "made"):
            for n in range(0, 5):
                for m in range(0, n + 1):
                    for k in range(2):
                        d = {"k": "dense", "e": 0, "f": "complex", "s": 7 * n}
                        yield {"what": what, "vector": vec, "nmax": n,
                               "mmax": m, "nrows": n + 2,
                               "ncols": 2 * m + 2, "z": [0.3, -0.4],
                               "ze": 0, "a": [d, dict(d, s=1)],
                               "b": [dict(d, s=2), dict(d, s=3, e=-k)]}
                # one mode only, in either set
                for i in range(2):
                    u = {"k": "unit", "e": 0, "n": n, "m": -(n // 2), "p": 1}
                    e = {"k": "sparse", "e": 0, "v": []}
                    yield {"what": what, "vector": vec, "nmax": n,
                           "mmax": n, "nrows": n + 2, "ncols": 2 * n + 2,
                           "z": [0.0, 2.0], "ze": 0,
                           "a": [u, e] if i else [e, u], "b": [e, u]}


FACETS = [
    Facet("far", lambda: cases(far=True), check, nontrivial, quick=140,
          thorough=3000, shards=4, tshards=8, fixed=fixed_far,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("norms", cases, check, nontrivial, quick=1600, thorough=60000,
          fixed=fixed, shards=8, tshards=8,
          rule="coefficients, given patterns and synthesised patterns, "
               "scales 1e-318..1e300; non-trivial = first component "
               "non-zero"),
]
