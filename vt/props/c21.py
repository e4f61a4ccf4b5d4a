"""C21 sizes are validated."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet, Violation

sp = sut.load()

HUGE = [10 ** 6, 2 ** 31 - 2, 2 ** 31, 2 ** 32, 2 ** 62, 2 ** 63, 2 ** 70,
        -2 ** 31, -2 ** 63, -2 ** 70]


@st.composite
def around(draw, lim, none=True):
    k = draw(st.integers(0, 9))
    if none and k == 0:
        return None
    if k == 1:
        return draw(st.sampled_from(HUGE))
    if k == 2:
        return draw(st.integers(-4, 60))
    if k <= 5:
        return draw(st.integers(lim - 1, lim + 1))
    return draw(st.integers(-2, max(lim, 0) + 4))


def call(fn, what):
    """(result, None) or (None, the ValueError)."""
    try:
        return fn(), None
    except ValueError as e:
        return None, e
    except Exception as e:
        raise Violation("%s raised %s (%s), not ValueError"
                        % (what, type(e).__name__, e))


# --------------------------------------------------------------- analysis

@st.composite
def forward(draw, rhi=9, chi=11, far=False):
    nr = draw(st.integers(1, rhi))
    nc = draw(st.one_of(st.integers(1, chi),
                        st.integers(1, chi // 2).map(lambda x: 2 * x)))
    if far:
        nr, nc = draw(G.patt_far(3000, 400, 400))
        nc += draw(st.sampled_from([0, 0, 0, 1]))
    return {"v": draw(st.booleans()), "nr": nr, "nc": nc,
            "ds": draw(st.booleans()), "s": draw(G.SEED),
            "nmax": draw(around(nr - 2)),
            "mmax": draw(around((nc - 1) // 2)), "kw": draw(st.booleans()),
            "it": draw(st.sampled_from(G.ITYPES))}


def data(case, k):
    r = np.random.RandomState((case["s"] + 77 * k) % 2 ** 31)
    sh = (case["nr"], case["nc"])
    return r.standard_normal(sh) + 1j * r.standard_normal(sh)


def full(a, sym):
    """Both sides of the sphere, also for odd column counts (which only have
    to be refused)."""
    if a.shape[1] % 2:
        return np.concatenate([a, a[1:-1][::-1]])
    return O.double_sphere(a, sym)


def legal_forward(nr, nc, nmax, mmax):
    return (nc % 2 == 0 and 0 <= mmax <= nmax <= nr - 2 and 2 * mmax < nc)


def outcomes(nr, nc, nmax, mmax):
    """(sizes that may come back, whether a refusal is allowed)."""
    half = nc // 2 - 1
    n = nr - 2 if nmax is None else nmax
    if mmax is not None:
        ok = legal_forward(nr, nc, n, mmax)
        return [(n, mmax)] if ok else [], not ok
    if nmax is not None:
        # the order is the degree asked for
        ok = legal_forward(nr, nc, n, n)
        return [(n, n)] if ok else [], not ok
    # all is left to the library: the number of columns decides; it may clip
    # or refuse when its own choice is illegal
    res = [(n, m) for m in sorted({half, min(n, half)})
           if legal_forward(nr, nc, n, m)]
    return res, not legal_forward(nr, nc, n, half)


def check_forward(case):
    v, nr, nc = case["v"], case["nr"], case["nc"]
    nmax, mmax = case["nmax"], case["mmax"]
    sym = -1 if v else 1
    A = [data(case, k) for k in range(2 if v else 1)]
    what = "%s of a %dx%d pattern with nmax=%s, mmax=%s" % (
        "vspht" if v else "spht", nr, nc, nmax, mmax)
    sizes, may_refuse = outcomes(nr, nc, nmax, mmax)
    cls = sp.TransversePatternUniform if v else sp.ScalarPatternUniform
    f = sp.vspht if v else sp.spht
    ds = case["ds"] and nr >= 2
    D = [full(a, sym) if ds else a for a in A]
    keep = [d.copy() for d in D]
    a, b = [G.whole(k, case.get("it")) for k in (nmax, mmax)]

    def run():
        p = cls(*D, doublesphere=ds)
        if case["kw"]:
            kw = {}
            if a is not None:
                kw["nmax"] = a
            if b is not None:
                kw["mmax"] = b
            return f(p, **kw)
        return f(p, a, b)
    r, err = call(run, what)
    for d, k in zip(D, keep):
        K.same(d, k, what + ": the samples")
    if err is not None:
        K.need(may_refuse, "%s is legal but was refused: %s", what, err)
        return ["refused", "refused-vector" if v else "refused-scalar"]
    K.need(sizes, "%s is illegal but was accepted, giving (%s, %s)", what,
           getattr(r, "nmax", "?"), getattr(r, "mmax", "?"))
    n, m = r.nmax, r.mmax
    K.need((n, m) in sizes, "%s gave size (%s, %s), expected %s", what, n, m,
           sizes)
    if v:
        want = O.analyse_vector(full(A[0], -1), full(A[1], -1), n, m)
        got = [r.scoef1, r.scoef2]
    else:
        want, got = [O.analyse_scalar(full(A[0], 1), n, m)], [r]
    for g, w in zip(got, want):
        K.coefs_close(g, w, n, m, 1e-12 * (n + 4) * 10, what)
    return ["accepted", "accepted-vector" if v else "accepted-scalar",
            "at-the-limit" if n == nr - 2 or 2 * m == nc - 2 else "inside"]


def fixed_forward(tier):
    R, C = (5, 7) if tier == "quick" else (8, 11)
    i = 0
    for v in (False, True):
        for nr in range(1, R + 1):
            for nc in range(1, C + 1):
                for nmax in [None] + list(range(-2, nr + 1)):
                    for mmax in [None] + list(range(-2, nc // 2 + 3)):
                        i += 1
                        yield {"v": v, "nr": nr, "nc": nc, "nmax": nmax,
                               "mmax": mmax, "s": i, "ds": bool(i % 3 == 0),
                               "kw": bool(i % 5 == 0),
                               "it": G.ITYPES[i % len(G.ITYPES)]}


# -------------------------------------------------------------- synthesis

@st.composite
def backward(draw, hi=8, far=False):
    nmax, mmax = draw(G.nm_far_or(far, hi, modes=4000))
    nr = draw(around(nmax + 2))
    nc = draw(around(2 * mmax + 2))
    # very large legal grids are not generated: they would fill the memory
    if nr is not None and nr > nmax + 200:
        nr = nmax + 200
    if nc is not None and nc > 10000:
        nc += 1 - nc % 2
    return {"v": draw(st.booleans()), "nmax": nmax, "mmax": mmax,
            "nr": nr, "nc": nc, "s": draw(G.SEED),
            "kw": draw(st.booleans()),
            "it": draw(st.sampled_from(G.ITYPES))}


def check_backward(case):
    v, nmax, mmax = case["v"], case["nmax"], case["mmax"]
    what = "%s of (%d, %d) coefficients on nrows=%s, ncols=%s" % (
        "vispht" if v else "ispht", nmax, mmax, case["nr"], case["nc"])
    nr = nmax + 2 if case["nr"] is None else case["nr"]
    nc = 2 * mmax + 2 if case["nc"] is None else case["nc"]
    legal = nr >= nmax + 2 and nc % 2 == 0 and nc >= 2 * mmax + 2
    if not v and nr == nmax + 1 and nr >= 2:
        return ["known"]                    # known finding ispht-nrows
    if legal and nr * nc > 10 ** 6:
        return ["too-large"]
    spec = {"k": "dense", "e": 0, "f": "complex"}
    C = [G.coef_dict(dict(spec, s=(case["s"] + k) % 2 ** 31), nmax, mmax)
         for k in (0, 1)]
    if v:
        C = [G.drop0(c) for c in C]
        c = G.make_vcoefs(sp, C[0], C[1], nmax, mmax)
        f = sp.vispht
    else:
        c = G.make_scoefs(sp, C[0], nmax, mmax)
        f = sp.ispht
    a, b = [G.whole(k, case.get("it")) for k in (case["nr"], case["nc"])]

    def run():
        if case["kw"]:
            kw = {}
            if a is not None:
                kw["nrows"] = a
            if b is not None:
                kw["ncols"] = b
            return f(c, **kw)
        return f(c, a, b)
    p, err = call(run, what)
    parts = [c.scoef1, c.scoef2] if v else [c]
    for s, w in zip(parts, C):
        K.coefs_close(s, w, nmax, mmax, 0.0, what + ": its coefficients")
    if err is not None:
        K.need(not legal, "%s is legal but was refused: %s", what, err)
        return ["refused", "refused-vector" if v else "refused-scalar"]
    K.need(legal, "%s is illegal but was accepted", what)
    th, ph = O.theta_grid(nr), O.phi_grid(nc)
    tol = 1e-13 * (nmax + 10) * sum(G.coef_bound(x) for x in C) + 1e-308
    K.need(tuple(p.shape) == (nr, nc), "%s gave shape %s", what, p.shape)
    if v:
        want = O.synth_vector(C[0], C[1], nmax, mmax, th, ph)
        got = [p.theta, p.phi]
        tol *= nmax + 1
    else:
        want = [O.synth_scalar(C[0], nmax, mmax, th, ph)]
        got = [p.array]
    for g, w in zip(got, want):
        K.close(g, w, tol, what)
    return ["accepted", "accepted-vector" if v else "accepted-scalar",
            "at-the-limit" if nr == nmax + 2 or nc == 2 * mmax + 2
            else "inside"]


def fixed_backward(tier):
    hi = 3 if tier == "quick" else 6
    i = 0
    for v in (False, True):
        for nmax in range(hi + 1):
            for mmax in range(nmax + 1):
                for nr in [None] + list(range(-2, nmax + 5)):
                    for nc in [None] + list(range(-3, 2 * mmax + 6)):
                        i += 1
                        yield {"v": v, "nmax": nmax, "mmax": mmax,
                               "nr": nr, "nc": nc, "s": i,
                               "kw": bool(i % 5 == 0),
                               "it": G.ITYPES[i % len(G.ITYPES)]}


def fixed_far(tier):
    """One less, just enough and one more, along every order of magnitude."""
    i = 0
    for nmax, mmax in ((10, 10), (16, 16), (20, 15), (31, 31), (32, 32),
                       (33, 33), (40, 35), (64, 3), (70, 40), (101, 20),
                       (128, 1), (255, 0), (256, 2)):
        for v in (False, True):
            for nr, nc in ((0, -1), (0, -2), (0, -4), (0, 0), (-1, 0), (-2, 0),
                           (1, 2), (0, 1)):
                i += 1
                yield {"v": v, "nmax": nmax, "mmax": mmax,
                       "nr": nmax + 2 + nr, "nc": 2 * mmax + 2 + nc, "s": i,
                       "kw": i % 5 == 0,
                       "it": G.ITYPES[i % len(G.ITYPES)]}


# ---------------------------------------------------------------- objects

@st.composite
def objects(draw):
    what = draw(st.sampled_from(["scoefs", "vcoefs", "vcoefs2", "factory",
                                 "window", "vpattern"]))
    nmax = draw(st.integers(-3, 10))
    mmax = draw(st.integers(-4, 12))
    if draw(st.booleans()) and nmax >= 0:
        mmax = draw(st.integers(0, nmax))
    return {"what": what, "nmax": nmax, "mmax": mmax,
            "d": draw(st.one_of(st.just(0), st.integers(-8, 8))),
            "e": draw(st.one_of(st.just(0), st.integers(-4, 4))),
            "f": draw(st.sampled_from(["zeros", "ones", "random"])),
            "v": draw(st.booleans()),
            "it": draw(st.sampled_from(G.ITYPES))}


def check_object(case):
    what, n, m, d = case["what"], case["nmax"], case["mmax"], case["d"]
    legal = 0 <= m <= n
    L = O.n_modes(n, m) if legal else None
    a, b = [G.whole(k, case.get("it")) for k in (n, m)]
    z = np.zeros
    if what in ("scoefs", "vcoefs", "vcoefs2"):
        # around the length the size formula gives, also for illegal sizes
        base = L if legal else abs((n + 1) + m * (2 * n - m + 1))
        ln = max(base + d, 0)
        good = legal and ln == L
        x = np.arange(ln) + 1j
        if what == "scoefs":
            t = "ScalarCoefs(%d values, %d, %d)" % (ln, n, m)
            r, err = call(lambda: sp.ScalarCoefs(x, a, b), t)
        else:
            l2 = max(ln + (case["e"] if what == "vcoefs2" else 0), 0)
            good = good and l2 == ln
            y = np.arange(l2) - 1j
            t = "VectorCoefs(%d, %d values, %d, %d)" % (ln, l2, n, m)
            r, err = call(lambda: sp.VectorCoefs(x, y, a, b), t)
        if good:
            K.need(err is None, "%s is legal but was refused: %s", t, err)
            K.need((r.nmax, r.mmax, r.size) == (n, m, L), "%s gave (%s, %s), "
                   "%s", t, r.nmax, r.mmax, r.size)
            return [what, "accepted"]
        K.need(err is not None, "%s is illegal but was accepted", t)
        return [what, "refused"]
    if what == "factory":
        f = getattr(sp, case["f"] + "_coefs")
        t = "%s_coefs(%d, %d)" % (case["f"], n, m)
        r, err = call(lambda: f(a, b, coef_type=sp.vector if case["v"]
                                else sp.scalar), t)
        if legal:
            K.need(err is None, "%s is legal but was refused: %s", t, err)
            K.need((r.nmax, r.mmax) == (n, m), "%s gave (%s, %s)", t, r.nmax,
                   r.mmax)
            return [what, "accepted"]
        K.need(err is not None, "%s is illegal but was accepted", t)
        return [what, "refused"]
    n, m = abs(n), abs(m)
    if what == "window":
        m = min(m, n)
        c = sp.zeros_coefs(n, m)
        want = {}
        for k in range(-m, m + 1):
            c[:, k] = np.arange(abs(k), n + 1) + 1j * k + 1
            for q in range(abs(k), n + 1):
                want[(q, k)] = q + 1 + 1j * k
        ln = max(n + 1 + d, 0)
        t = "window of %d values on nmax=%d" % (ln, n)
        w = np.arange(ln) + 2.0
        if ln == n + 1:
            c.window(w)
            want = {q: x * w[q[0]] for q, x in want.items()}
            K.coefs_close(c, want, n, m, 1e-13 * (n + 2) ** 2, t)
            return [what, "accepted"]
        K.raises(lambda: c.window(w), ValueError, t)
        return [what, "refused"]
    sh1 = (n + 2, 2 * m + 2)
    sh2 = (max(n + 2 + d, 0), max(2 * m + 2 + case["e"], 0))
    t = "TransversePatternUniform of shapes %s and %s" % (sh1, sh2)
    r, err = call(lambda: sp.TransversePatternUniform(
        z(sh1, complex), z(sh2, complex)), t)
    if sh1 == sh2:
        K.need(err is None, "%s is legal but was refused: %s", t, err)
        return [what, "accepted"]
    K.need(err is not None, "%s is illegal but was accepted", t)
    return [what, "refused"]


def fixed_objects(tier):
    hi = 4 if tier == "quick" else 8
    i = 0
    for n in range(-2, hi + 1):
        for m in range(-2, n + 3):
            for what in ("scoefs", "vcoefs"):
                for d in (-2, -1, 0, 1, 2):
                    i += 1
                    yield {"what": what, "nmax": n, "mmax": m, "d": d,
                           "e": 0, "f": "zeros", "v": False}
            for f in ("zeros", "ones", "random"):
                for v in (False, True):
                    yield {"what": "factory", "nmax": n, "mmax": m, "d": 0,
                           "e": 0, "f": f, "v": v}
            if m >= 0:
                for d in (-1, 0, 1):
                    yield {"what": "window", "nmax": abs(n), "mmax": m,
                           "d": d, "e": 0, "f": "zeros", "v": False}


def ispht_nrows():
    c = sp.ones_coefs(3, 3)
    try:
        p = sp.ispht(c, 4, 8)
    except ValueError:
        return ""
    C = {q: 1.0 for q in O.modes(3, 3)}
    w = O.synth_scalar(C, 3, 3, O.theta_grid(4), O.phi_grid(8))
    return "accepted, off by %.3g" % float(np.max(np.abs(p.array - w)))


KNOWN = {"ispht-nrows": ispht_nrows}

FACETS = [
    Facet("analysis", forward, check_forward, None, quick=2400,
          thorough=60000, fixed=fixed_forward, shards=4, tshards=8,
          rule="every combination of pattern size, nmax and mmax around the "
               "limits up to a bound (None included), then generated ones "
               "with huge and negative values; each case demands either the "
               "right coefficients or ValueError"),
    Facet("synthesis", backward, check_backward, None, quick=2000,
          thorough=60000, fixed=fixed_backward, shards=3, tshards=8,
          rule="the same for the two inverse transforms"),
    Facet("far-analysis", lambda: forward(far=True), check_forward, None,
          quick=200, thorough=5000, shards=4, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("far-synthesis", lambda: backward(far=True), check_backward, None,
          quick=200, thorough=5000, shards=4, tshards=8, fixed=fixed_far,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("objects", objects, check_object, None, quick=1500,
          thorough=40000, fixed=fixed_objects, shards=1, tshards=4,
          rule="constructors, factories and windows with every length and "
               "size around the legal one"),
]
