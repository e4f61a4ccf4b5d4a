"""C27 accuracy at high degree."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()
LIMIT = 1000


# Degrees are drawn so that nmax**2 * (mmax + 1), to which the cost of a
# transform is proportional, stays under a budget.
def upto(lo, hi):
    """Both ends alike: bounded draws lean towards the lower end."""
    hi = max(lo, hi)
    return st.one_of(st.integers(lo, hi),
                     st.integers(0, hi - lo).map(lambda k: hi - k))


@st.composite
def degrees(draw, cost, top=LIMIT):
    k = draw(st.sampled_from(["narrow", "narrow", "zero", "square", "near",
                              "any"]))
    if k in ("square", "near"):
        n = draw(upto(60, min(top, int(cost ** (1 / 3.)))))
        m = n if k == "square" else n - draw(st.integers(0, 6))
    elif k == "any":
        n = draw(upto(60, top))
        m = draw(st.integers(0, max(0, min(n, int(cost / n / n) - 1))))
    else:
        n = draw(upto(100, top))
        m = min(0 if k == "zero" else draw(st.integers(0, 8)),
                max(0, int(cost / n / n) - 1))
    return n, m


@st.composite
def grids(draw, n, m):
    """(rows, columns): tight, a little more, or elongated."""
    nr, nc = n + 2, 2 * m + 2
    k = draw(st.sampled_from(["tight", "tight", "more", "long", "wide"]))
    if k == "more":
        nr += draw(st.integers(0, 40))
        nc += 2 * draw(st.integers(0, 40))
    elif k == "long":
        nr = nr * draw(st.integers(1, 3)) + draw(st.integers(0, 40))
    elif k == "wide":
        nc = nc * draw(st.integers(1, 12)) + 2 * draw(st.integers(0, 50))
    if nr * nc > 1500000:
        nr, nc = n + 2, 2 * m + 2
    return nr, nc


def values(n, m):
    top = st.tuples(st.integers(0, 12), st.integers(-m, m)).map(
        lambda t: [max(n - t[0], abs(t[1])), t[1]])
    edge = st.tuples(st.integers(0, m), st.integers(0, 6),
                     st.sampled_from([1, -1])).map(
        lambda t: [min(n, t[0] + t[1]), t[2] * t[0]])
    free = st.tuples(st.integers(0, n), st.integers(-m, m)).map(
        lambda t: [max(t[0], abs(t[1])), t[1]])
    few = st.lists(st.tuples(st.one_of(top, edge, free), G.cnum()).map(
        lambda t: [t[0][0], t[0][1]] + t[1]), min_size=1, max_size=4)
    return st.one_of(
        few.map(lambda v: {"k": "sparse", "e": 0, "v": v}),
        st.tuples(G.SEED, st.sampled_from(
            ["complex", "complex", "real", "decay", "grow", "holes"])).map(
                lambda t: {"k": "dense", "e": 0, "s": t[0], "f": t[1]}))


@st.composite
def cases(draw, cost, top=LIMIT):
    n, m = draw(degrees(cost, top))
    nr, nc = draw(grids(n, m))
    return {"n": n, "m": m, "nr": nr, "nc": nc, "a": draw(values(n, m)),
            "b": draw(values(n, m)), "sel": draw(G.SEED)}


def label(case):
    n, m = case["n"], case["m"]
    return {"degree %d-%d" % (n // 200 * 200, n // 200 * 200 + 199),
            "order " + ("zero" if m == 0 else "close to the degree"
                        if m >= n - 6 else "between" if m > 20 else "low"),
            "long" if case["nr"] > 1.5 * n + 40 else
            "wide" if case["nc"] > 3 * m + 90 else "tight",
            case["a"]["k"]}


def cols(C, n, m):
    return np.array([C.get((k, m), 0.0) for k in range(abs(m), n + 1)],
                    dtype=np.complex128)


def scale(C, n):
    return max([abs(v) for v in C.values()] + [1e-300])


def tol_coef(case, *Cs):
    return 8 * K.EPS * (case["n"] + 60) * max(scale(C, case["n"])
                                              for C in Cs)


def compare(d, C, case, tol, what, from_n=0):
    n, m = case["n"], case["m"]
    K.need((d.nmax, d.mmax) == (n, m), "%s has sizes %s", what,
           (d.nmax, d.mmax))
    for k in range(-m, m + 1):
        w = cols(C, n, k)
        if abs(k) < from_n:
            w[:from_n - abs(k)] = 0
        K.close(d[:, k], w, tol, "%s (order %d of degree %d)" % (what, k, n))


def pick(case, nrows, ncols, k=6):
    """A few columns and all rows; a few rows and all columns."""
    r = np.random.RandomState(case["sel"] % (2 ** 31))
    js = sorted(set([0, 1, nrows // 2, nrows - 2, nrows - 1]
                    + list(r.randint(0, nrows, k))))
    ks = sorted(set([0, ncols // 2, ncols - 1] + list(r.randint(0, ncols,
                                                                 k))))
    return js, ks


def tol_field(case, C, T=None):
    """The sum of |c_n| per order bounds what one order contributes; orders
    of dense sets add like their squares do."""
    n, m = case["n"], case["m"]
    s = 0.0
    for k in range(-m, m + 1):
        w = np.abs(cols(C, n, k))
        ns = np.arange(abs(k), n + 1)
        s += float(np.sum((w * np.sqrt((2 * ns + 1) / (4 * np.pi))) ** 2))
    return 16 * K.EPS * (n + 60) * np.sqrt(s) + 1e-300


def check_synthesis(case):
    n, m, nr, nc = case["n"], case["m"], case["nr"], case["nc"]
    C = G.coef_dict(case["a"], n, m)
    c = G.make_scoefs(sp, C, n, m)
    p = sp.ispht(c, nr, nc).array
    K.need(p.shape == (nr, nc), "the pattern has shape %s", p.shape)
    js, ks = pick(case, nr, nc)
    th, ph = O.theta_grid_long(nr), O.phi_grid(nc)
    tol = tol_field(case, C)
    K.close(p[js, :], O.synth_scalar(C, n, m, th[js], ph), tol,
            "synthesis at some rows")
    if nr * (n + 1) * (m + 1) < 3e6:
        K.close(p[:, ks], O.synth_scalar(C, n, m, th, ph[ks]), tol,
                "synthesis at some columns")
    return label(case)


def check_vsynthesis(case):
    n, m, nr, nc = case["n"], case["m"], case["nr"], case["nc"]
    C1 = G.drop0(G.coef_dict(case["a"], n, m))
    C2 = G.drop0(G.coef_dict(case["b"], n, m))
    vc = G.make_vcoefs(sp, C1, C2, n, m)
    p = sp.vispht(vc, nr, nc)
    js, ks = pick(case, nr, nc)
    th, ph = O.theta_grid_long(nr), O.phi_grid(nc)
    tol = 2 * (tol_field(case, C1) + tol_field(case, C2))
    for sel, tt, pp in ((np.s_[js, :], th[js], ph),) + \
            (((np.s_[:, ks], th, ph[ks]),)
             if nr * (n + 1) * (m + 1) < 3e6 else ()):
        ft, fp = O.synth_vector(C1, C2, n, m, tt, pp)
        K.close(p.theta[sel], ft, tol, "vector synthesis, theta component")
        K.close(p.phi[sel], fp, tol, "vector synthesis, phi component")
    return label(case)


def check_round(case):
    n, m = case["n"], case["m"]
    C = G.coef_dict(case["a"], n, m)
    c = G.make_scoefs(sp, C, n, m)
    p = sp.ispht(c, case["nr"], case["nc"])
    compare(sp.spht(p, n, m), C, case, tol_coef(case, C), "round trip")
    # a lower request gives the same low modes
    n2 = case["sel"] % (n + 1)
    m2 = min(m, n2)
    d = sp.spht(p, n2, m2)
    K.need((d.nmax, d.mmax) == (n2, m2), "sizes of a smaller request")
    for k in {0, m2, -m2, m2 // 2}:
        K.close(d[:, k], cols(C, n2, k), tol_coef(case, C),
                "round trip asked for fewer modes")
    return label(case)


def check_vround(case):
    C1 = G.drop0(G.coef_dict(case["a"], case["n"], case["m"]))
    C2 = G.drop0(G.coef_dict(case["b"], case["n"], case["m"]))
    vc = G.make_vcoefs(sp, C1, C2, case["n"], case["m"])
    p = sp.vispht(vc, case["nr"], case["nc"])
    d = sp.vspht(p, case["n"], case["m"])
    t = tol_coef(case, C1, C2)
    compare(d.scoef1, C1, case, t, "vector round trip, first set")
    compare(d.scoef2, C2, case, t, "vector round trip, second set")
    return label(case)


@st.composite
def probes(draw, cost):
    """A field summed up by the reference model, then analysed."""
    n, m = draw(degrees(cost))
    nr, nc = draw(grids(n, m))
    if nr * nc > 60000:
        nr, nc = n + 2, 2 * m + 2
    if nr * nc > 60000:
        m = draw(st.integers(0, 60000 // nr // 2 - 2))
        nc = 2 * m + 2
    ms = draw(st.lists(st.integers(-m, m), min_size=1, max_size=3,
                       unique=True))
    v = []
    for k in ms:
        for _ in range(draw(st.integers(1, 2))):
            l = draw(st.one_of(st.integers(abs(k), n), st.just(n),
                               st.just(abs(k))))
            v.append([l, k] + draw(G.cnum()))
    return {"n": n, "m": m, "nr": nr, "nc": nc,
            "a": {"k": "sparse", "e": 0, "v": v}, "vec": draw(st.booleans()),
            "which": draw(st.integers(0, 1)), "sel": 0}


def check_analysis(case):
    n, m = case["n"], case["m"]
    C = G.coef_dict(case["a"], n, m)
    th, ph = O.theta_grid_long(case["nr"]), O.phi_grid(case["nc"])
    tol = 2 * tol_coef(case, C)
    if not case["vec"]:
        f = O.synth_scalar(C, n, m, th, ph)
        d = sp.spht(G.make_spatt(sp, f), n, m)
        compare(d, C, case, tol, "analysis of a computed field")
        return label(case)
    C = G.drop0(C)
    Z = [{}, {}]
    Z[case["which"]] = C
    ft, fp = O.synth_vector(Z[0], Z[1], n, m, th, ph)
    d = sp.vspht(G.make_vpatt(sp, ft, fp), n, m)
    compare(d.scoef1, Z[0], case, tol, "analysis of a computed tangential "
            "field, first set")
    compare(d.scoef2, Z[1], case, tol, "analysis of a computed tangential "
            "field, second set")
    return label(case) | {"vector"}


@st.composite
def singles(draw):
    n = draw(upto(60, LIMIT))
    m = draw(st.one_of(st.integers(-n, n), st.integers(0, 8).map(
        lambda k: n - k), st.integers(0, 8).map(lambda k: k - n),
        st.integers(-4, 4)))
    return {"n": n, "m": m, "nr": draw(st.integers(2, 30)),
            "nc": 2 * draw(st.integers(1, 10))}


def check_single(case):
    """One harmonic of any order, on a coarse grid."""
    n, m = case["n"], case["m"]
    p = sp.sph_harmonic_tp(case["nr"], case["nc"], n, m)
    th, ph = O.theta_grid_long(case["nr"]), O.phi_grid(case["nc"])
    w = np.outer(O.pbar(n, m, th)[n - abs(m)], np.exp(1j * m * ph))
    p = p.array if hasattr(p, "array") else np.asarray(p)
    K.close(p, w, 16 * K.EPS * (n + 60) * np.sqrt((2 * n + 1) / 4 / np.pi)
            + K.EPS * abs(m) * np.max(np.abs(w)) * 8, "one harmonic")
    return {"degree %d-%d" % (n // 200 * 200, n // 200 * 200 + 199),
            "order " + ("close to the degree" if abs(m) > n - 9 else
                        "low" if abs(m) < 9 else "between")}


def fixed_round(tier):
    """The corners: highest degree, highest order that is affordable."""
    D = {"k": "dense", "e": 0, "s": 5, "f": "complex"}
    sz = [(1000, 8), (1000, 0), (300, 300), (420, 418)]
    if tier == "thorough":
        sz += [(1000, 300), (700, 699), (1000, 1000)]
    return [{"n": n, "m": m, "nr": n + 2, "nc": 2 * m + 2, "a": D,
             "b": dict(D, s=6), "sel": n - 1} for n, m in sz]


def underflow():
    c = sp.zeros_coefs(1100, 0)
    c[1100, 0] = 1.0
    e = abs(sp.spht(sp.ispht(c), 1100, 0)[1100, 0] - 1)
    return "degree 1100 comes back with error %g" % e if not e < 1e-9 else ""


KNOWN = {"degree-underflow": underflow}

QC = 1.2e7
FACETS = [
    Facet("synthesis", lambda: cases(QC), check_synthesis, None, quick=70,
          thorough=1500, shards=2, tshards=6,
          rule="every case: degree 60 to 1000, the field is compared with "
               "the reference sum at some rows and columns"),
    Facet("vector-synthesis", lambda: cases(QC), check_vsynthesis, None,
          quick=40, thorough=1000, shards=2, tshards=6, rule="the same"),
    Facet("round-trip", lambda: cases(QC), check_round, None, quick=70,
          thorough=1500, fixed=fixed_round, shards=2, tshards=6,
          rule="every case: the coefficients come back"),
    Facet("vector-round-trip", lambda: cases(QC), check_vround, None,
          quick=50, thorough=1000, fixed=fixed_round, shards=2, tshards=6,
          rule="the same for both sets"),
    Facet("analysis", lambda: probes(QC), check_analysis, None, quick=60,
          thorough=1200, shards=2, tshards=6,
          rule="fields of at most 60000 samples summed up by the reference "
               "model"),
    Facet("single", singles, check_single, None, quick=60, thorough=1500,
          rule="one harmonic of degree 60 to 1000 and any order"),
]
