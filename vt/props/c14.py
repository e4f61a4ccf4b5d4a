"""C14 factories."""
import math

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()

POW = st.floats(-12, 12).map(lambda x: 10.0 ** x)
MU = st.one_of(st.just(0.0), st.sampled_from([1.0, -2.5, 1e6, 1e-9, 3, -40]),
               POW, POW.map(lambda x: -x))
SIGMA = st.one_of(st.just(1.0), st.sampled_from([1.0, 0.5, 1e-6, 1e3, 2]),
                  POW)
KINDS = ["zeros", "ones", "random"]


@st.composite
def cases(draw, nhi=14, rows=14, cols=18, far=False):
    c = {"what": draw(st.sampled_from(["coefs", "patt"])),
         "kind": draw(st.sampled_from(KINDS)),
         "vector": draw(st.booleans()),
         "explicit": draw(st.booleans()),
         "call": draw(st.integers(0, 3)),
         "seed": draw(st.integers(0, 2 ** 32 - 1))}
    if c["what"] == "coefs":
        c["nmax"], c["mmax"] = draw(G.nm_far_or(far, nhi))
        if c["kind"] == "random":
            c["mu"] = draw(MU)
            c["sigma"] = draw(st.one_of(SIGMA, st.just(0.0)))
    else:
        c["nrows"], c["ncols"] = draw(G.patt_far_or(far, rows, cols))
    return c


def make(case, kind=None):
    kind = kind or case["kind"]
    it = G.ITYPES[case["seed"] % len(G.ITYPES)]
    v = sp.vector if case["vector"] else sp.scalar
    call = case.get("call", 0)
    if call in (1, 2):
        # everything by position, or everything by name
        if case["what"] == "coefs":
            names = ["nmax", "mmax", "mu", "sigma", "coef_type"]
            args = [G.whole(case["nmax"], it), G.whole(case["mmax"], it),
                    case.get("mu", 0.0), case.get("sigma", 1.0), v]
            if kind != "random":
                del names[2:4], args[2:4]
        else:
            names = ["nrows", "ncols", "patt_type"]
            args = [G.whole(case["nrows"], it), G.whole(case["ncols"], it), v]
        f = getattr(sp, kind + ("_coefs" if case["what"] == "coefs"
                                else "_patt_uniform"))
        return f(*args) if call == 1 else f(**dict(zip(names, args)))
    if call == 3 and case["what"] == "coefs" and kind == "random":
        return sp.random_coefs(G.whole(case["nmax"], it),
                               G.whole(case["mmax"], it),
                               case.get("mu", 0.0), case.get("sigma", 1.0),
                               coef_type=v)
    if case["what"] == "coefs":
        f = getattr(sp, kind + "_coefs")
        kw = {}
        if case["vector"] or case["explicit"]:
            kw["coef_type"] = v
        if kind == "random" and "mu" in case:
            kw.update(mu=case["mu"], sigma=case["sigma"])
        return f(G.whole(case["nmax"], it), G.whole(case["mmax"], it), **kw)
    f = getattr(sp, kind + "_patt_uniform")
    kw = {"patt_type": v} if case["vector"] or case["explicit"] else {}
    return f(G.whole(case["nrows"], it), G.whole(case["ncols"], it), **kw)


def parts(o):
    """All the data of an object, as a list of arrays."""
    if isinstance(o, sp.VectorCoefs):
        return parts(o.scoef1) + parts(o.scoef2)
    if isinstance(o, sp.ScalarCoefs):
        return [np.array([v for _, v in sorted(G.scoefs_dict(o).items())])]
    if isinstance(o, sp.TransversePatternUniform):
        return [np.array(x) for x in o.doublesphere]
    return [np.array(o.doublesphere)]


def kind_and_size(o, case):
    vec = case["vector"]
    if case["what"] == "coefs":
        K.need(type(o) is (sp.VectorCoefs if vec else sp.ScalarCoefs),
               "a %s was returned", type(o).__name__)
        n, m = case["nmax"], case["mmax"]
        K.need((o.nmax, o.mmax) == (n, m), "size (%s, %s) instead of (%s, %s)",
               o.nmax, o.mmax, n, m)
        L = O.n_modes(n, m)
        for s in ([o.scoef1, o.scoef2] if vec else [o]):
            K.need((s.nmax, s.mmax) == (n, m) and s.size == L,
                   "a set has size (%s, %s), %s", s.nmax, s.mmax, s.size)
        for x in parts(o):
            K.arr(x, (L,), "modes")
    else:
        K.need(type(o) is (sp.TransversePatternUniform if vec
                           else sp.ScalarPatternUniform),
               "a %s was returned", type(o).__name__)
        nr, nc = case["nrows"], case["ncols"]
        K.need(tuple(o.shape) == (nr, nc), "shape %s instead of %s", o.shape,
               (nr, nc))
        for x in parts(o):
            K.arr(x, (2 * nr - 2, nc), "doublesphere")
        for x in (o.array if vec else [o.array]):
            K.arr(x, (nr, nc), "array")


def monopoles(o):
    if isinstance(o, sp.VectorCoefs):
        K.need(o.scoef1[0, 0] == 0 and o.scoef2[0, 0] == 0,
               "the vector monopole is not zero")


def check(case):
    kind, vec, what = case["kind"], case["vector"], case["what"]
    name = "%s_%s %s" % (kind, what, "vector" if vec else "scalar")
    lab = [name.replace(" ", "-")]
    np.random.seed(case["seed"])
    a = make(case)
    b = make(case)
    np.random.seed(case["seed"])
    a2 = make(case)
    for o in (a, b, a2):
        kind_and_size(o, case)
        monopoles(o)
    pa, pb, pa2 = parts(a), parts(b), parts(a2)
    for x, y in zip(pa, pa2):
        K.same(x, y, name + ": the same seed gave other values")
    if what == "patt" and not (vec and kind == "ones"):
        for o in (a, b):
            K.need(o.is_symmetric, "%s is not symmetric", name)
    if kind in ("zeros", "ones"):
        v = 0.0 if kind == "zeros" else 1.0
        for x in pa:
            w = np.full(x.shape, v)
            if what == "coefs" and vec:
                w[0] = 0.0
            if what == "patt" and vec and kind == "ones":
                # known finding ones-vector: only the given half is judged
                x = x[1:case["nrows"] - 1]
                w = w[1:case["nrows"] - 1]
            K.same(x, w, name)
    else:
        flat = np.concatenate([x.ravel() for x in pa])
        K.need(np.all(np.isfinite(flat)), "%s has non-finite values", name)
        sg = case.get("sigma", 1.0)
        mu = case.get("mu", 0.0)
        i0 = 1 if (vec and what == "coefs") else 0
        dev = [abs(part - mu) for x in pa for part in
               ((x.real[i0:], x.imag[i0:]) if what == "coefs"
                else (x.real * 1, x.imag * 1))]
        for d in dev:
            if d.size:
                K.need(np.max(d) <= 9 * sg + 1e-9 * abs(mu) + 1e-300 or
                       (what == "patt" and np.max(d) < 9),
                       "%s: a value is %.3g deviations from the mean", name,
                       np.max(d) / sg if sg else np.inf)
        if sg > 1e-9 * abs(mu):
            n_free = sum(x.size for x in pa) - (2 if i0 else 0)
            if n_free > 0:
                K.need(any(np.any(x != y) for x, y in zip(pa, pb)),
                       "%s: two draws in a row are identical", name)
            # within an object no value repeats (except by symmetry)
            for x in pa:
                if what == "coefs":
                    y = x[i0:]
                else:
                    y = x[1:case["nrows"] - 1].ravel()
                z = np.concatenate([y.real, y.imag])
                if abs(mu) < 1e3 * sg:
                    K.need(len(np.unique(z)) == z.size,
                           "%s: values repeat within one object", name)
            if len(pa) == 2:
                y0, y1 = pa
                if what == "coefs":
                    y0, y1 = y0[1:], y1[1:]
                else:
                    nr = case["nrows"]
                    y0, y1 = y0[1:nr - 1], y1[1:nr - 1]
                if y0.size and abs(mu) < 1e3 * sg:
                    K.need(not np.any(y0.real == y1.real) and
                           not np.any(y0.imag == y1.imag),
                           "%s: the two parts repeat each other", name)
    # new and independent: change every element of a
    if what == "coefs":
        for s in ([a.scoef1] if vec else [a]):
            for m in range(-s.mmax, s.mmax + 1):
                s[:, m] = np.full(s.nmax - abs(m) + 1, 7.0 - 3j)
            for m in range(-s.mmax, s.mmax + 1):
                K.same(s[:, m], np.full(s.nmax - abs(m) + 1, 7.0 - 3j),
                       name + ": complex values do not survive assignment")
    else:
        for x in (a.array[:1] if vec else [a.array]):
            x[...] = 7.0 - 3j
            K.same(x, np.full(x.shape, 7.0 - 3j), name + ": complex values")
    if vec:
        K.same(parts(a)[1], pa[1], name + ": changing the first part changed "
                                          "the second")
    for x, y in zip(parts(b), pb):
        K.same(x, y, name + ": two objects share storage")
    np.random.seed(case["seed"])
    for x, y in zip(parts(make(case)), pa):
        K.same(x, y, name + ": changing an object changed a later one")
    # the transforms take it
    if what == "patt" and not (vec and kind == "ones"):
        n = case["nrows"] - 2
        m = min(n, case["ncols"] // 2 - 1)
        t = (sp.vspht if vec else sp.spht)(b, n, m)
        if kind == "zeros":
            for x in parts(t):
                K.same(x, np.zeros(x.shape), "transform of zeros")
        elif kind == "ones":
            C = {(0, 0): math.sqrt(4 * math.pi)}
            K.coefs_close(t, C, n, m, 1e-13 * (n + 10),
                          "transform of ones")
    return lab


# ------------------------------------------------------------- statistics

@st.composite
def stats(draw):
    mu = draw(st.one_of(st.just(0.0), st.floats(-1e4, 1e4)))
    sigma = draw(SIGMA)
    if sigma < 1e-6 * abs(mu):        # would be rounded away
        mu = 0.0
    return {"what": draw(st.sampled_from(["coefs", "patt"])),
            "vector": draw(st.booleans()), "explicit": True,
            "kind": "random", "seed": draw(st.integers(0, 2 ** 32 - 1)),
            "nmax": draw(st.integers(90, 130)), "mmax": draw(
                st.integers(60, 90)),
            "nrows": draw(st.integers(60, 90)),
            "ncols": 2 * draw(st.integers(60, 80)),
            "mu": mu, "sigma": sigma}


def check_stats(case):
    np.random.seed(case["seed"])
    coefs = case["what"] == "coefs"
    mu, sg = (case["mu"], case["sigma"]) if coefs else (0.0, 1.0)
    if coefs:
        f = sp.random_coefs
        v = sp.vector if case["vector"] else sp.scalar
        o = f(case["nmax"], case["mmax"], mu, sg, v)
        ps = [x[1:] for x in parts(o)]
    else:
        o = make(case)
        nr = case["nrows"]
        ps = [x[1:nr - 1].ravel() for x in parts(o)]
    z = []
    for x in ps:
        z += [(x.real - mu) / sg, (x.imag - mu) / sg]
    S = 7.0
    for i, x in enumerate(z):
        n = x.size
        K.need(abs(np.mean(x)) < S / math.sqrt(n),
               "mean of part %d is off by %.3g deviations (n = %d)", i,
               np.mean(x), n)
        K.need(abs(np.var(x) - 1) < S * math.sqrt(2.0 / n),
               "variance of part %d is %.4g instead of 1", i, np.var(x))
        K.need(abs(np.mean(x ** 3)) < S * math.sqrt(15.0 / n),
               "skewness of part %d is %.4g", i, np.mean(x ** 3))
        K.need(abs(np.mean(x ** 4) - 3) < S * math.sqrt(96.0 / n),
               "kurtosis of part %d is %.4g, expected 3", i, np.mean(x ** 4))
        K.need(abs(np.mean(np.abs(x) < 1) - 0.682689) <
               S * math.sqrt(0.2167 / n), "part %d is not normal", i)
        K.need(abs(np.mean(x[1:] * x[:-1])) < S / math.sqrt(n),
               "neighbours of part %d are correlated", i)
        for j in range(i):
            K.need(abs(np.mean(x * z[j])) < S / math.sqrt(n),
                   "parts %d and %d are correlated (%.3g)", j, i,
                   np.mean(x * z[j]))
    return [case["what"], "vector" if case["vector"] else "scalar"]


# --------------------------------------------------------------- refusals

@st.composite
def refusals(draw):
    return {"what": draw(st.sampled_from(["mmax", "odd", "kind-c",
                                          "kind-p"])),
            "f": draw(st.sampled_from(KINDS)),
            "vector": draw(st.booleans()),
            "n": draw(st.integers(0, 30)), "d": draw(st.integers(1, 30)),
            "r": draw(st.integers(2, 30)), "c": draw(st.integers(0, 30)),
            "k": draw(st.sampled_from([2, 3, -1, 10, "scalar", "vector",
                                       None, 0.5, (0,)]))}


def check_refusal(case):
    v = sp.vector if case["vector"] else sp.scalar
    fc = getattr(sp, case["f"] + "_coefs")
    fp = getattr(sp, case["f"] + "_patt_uniform")
    n, d, r, c = case["n"], case["d"], case["r"], case["c"]
    if case["what"] == "mmax":
        K.raises(lambda: fc(n, n + d, coef_type=v), ValueError,
                 "%s_coefs(%d, %d)" % (case["f"], n, n + d))
    elif case["what"] == "odd":
        K.raises(lambda: fp(r, 2 * c + 1, patt_type=v), ValueError,
                 "%s_patt_uniform(%d, %d)" % (case["f"], r, 2 * c + 1))
    elif case["what"] == "kind-c":
        K.raises(lambda: fc(n + d, n, coef_type=case["k"]), TypeError,
                 "%s_coefs of kind %r" % (case["f"], case["k"]))
    else:
        K.raises(lambda: fp(r, 2 * c + 2, patt_type=case["k"]), TypeError,
                 "%s_patt_uniform of kind %r" % (case["f"], case["k"]))
    return [case["what"] + "-" + case["f"]]


def fixed_refusals(tier):
    for f in KINDS:
        for v in (False, True):
            b = {"f": f, "vector": v, "n": 0, "d": 1, "r": 2, "c": 0, "k": 2}
            yield dict(b, what="mmax")
            yield dict(b, what="mmax", n=3)
            yield dict(b, what="odd")
            yield dict(b, what="odd", r=5, c=3)
        for k in (2, -1, "scalar", None):
            yield dict(b, what="kind-c", k=k, f=f)
            yield dict(b, what="kind-p", k=k, f=f)


def fixed_stats(tier):
    for i, (mu, sg) in enumerate([(0.0, 1e-12), (0.0, 1e-3), (2.0, 30.0),
                                  (-5.0, 1e3), (0.0, 1e5), (1e4, 1e8),
                                  (-1e-6, 1e12)]):
        yield {"what": "coefs", "vector": i % 2 == 0, "explicit": True,
               "kind": "random", "seed": i, "nmax": 95, "mmax": 70,
               "nrows": 60, "ncols": 120, "mu": mu, "sigma": sg}


def fixed(tier):
    for kind in KINDS:
        for vec in (False, True):
            for ex in (False, True):
                b = {"kind": kind, "vector": vec, "explicit": ex, "seed": 11}
                for n in range(0, 6):
                    for m in range(0, n + 1):
                        yield dict(b, what="coefs", nmax=n, mmax=m)
                for r in range(2, 6):
                    for c in (2, 4, 6):
                        yield dict(b, what="patt", nrows=r, ncols=c)


def ones_vector():
    p = sp.ones_patt_uniform(5, 8, patt_type=sp.vector)
    return "" if p.is_symmetric else \
        "single_val %s" % (p.single_val,)


KNOWN = {"ones-vector": ones_vector}

FACETS = [
    Facet("objects", cases, check, None, quick=1000, thorough=30000,
          fixed=fixed, shards=4, tshards=8,
          rule="every factory, kind and small size, then generated; every "
               "case compares every value of the object"),
    Facet("far", lambda: cases(far=True), check, None, quick=100,
          thorough=2500, shards=3, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("statistics", stats, check_stats, None, quick=60, thorough=2000,
          shards=2, tshards=8, fixed=fixed_stats,
          rule="moments, correlations and shape of > 8000 values per part, "
               "bounds of 7 deviations"),
    Facet("refusals", refusals, check_refusal, None, quick=300,
          thorough=5000, fixed=fixed_refusals, shards=1, tshards=4,
          rule="every case demands an error"),
]
