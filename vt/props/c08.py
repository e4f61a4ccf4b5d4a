"""C08 linearity, rotation, conjugation, reflection, refinement."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()
SMALLSC = st.sampled_from([0, 0, 0, -6, 6, -100, 100])


# ---------------------------------------------------------- on patterns

@st.composite
def pat_cases(draw, rows=16, cols=20):
    nrows, ncols = draw(G.patt_shape(rows, cols))
    nmax, mmax = draw(G.sub_sizes(nrows, ncols))
    sc = draw(SMALLSC)
    f = G.samples(nrows, ncols, st.just(sc))
    return {"nrows": nrows, "ncols": ncols, "nmax": nmax, "mmax": mmax,
            "a": draw(G.cnum()), "b": draw(G.cnum()),
            "shift": draw(st.integers(0, ncols - 1)),
            "f": [draw(f) for _ in range(4)]}


def check_pat(case):
    nrows, ncols = case["nrows"], case["ncols"]
    nmax, mmax = case["nmax"], case["mmax"]
    al, be = G.cplx(case["a"]), G.cplx(case["b"])
    s = case["shift"]
    A = [G.patt_array(f, nrows, ncols, 1, "raw") for f in case["f"]]
    big = max(float(np.max(np.abs(x))) for x in A)
    tol = 5e-14 * (nrows + 10) * big * (1 + abs(al) + abs(be)) + 1e-308

    def T(x):
        return sp.spht(G.make_spatt(sp, x), nmax, mmax)

    # linearity uses single-valued poles so that no half-zero pole appears
    X, Y = (G.single_valued_poles(A[i], 1) for i in (0, 1))
    cx, cy, cz = T(X), T(Y), T(al * X + be * Y)
    dx, dy = G.scoefs_dict(cx), G.scoefs_dict(cy)
    K.coefs_close(cz, {k: al * dx[k] + be * dy[k] for k in dx}, nmax, mmax,
                  tol, "spht linearity")
    dx = G.scoefs_dict(T(A[0]))
    ang = 2 * np.pi * s / ncols
    K.coefs_close(T(np.roll(A[0], s, axis=1)),
                  {(n, m): v * np.exp(-1j * m * ang)
                   for (n, m), v in dx.items()}, nmax, mmax, tol,
                  "spht of a shifted pattern")
    K.coefs_close(T(np.conj(A[0])),
                  {(n, m): (-1) ** m * np.conj(dx[(n, -m)]) for n, m in dx},
                  nmax, mmax, tol, "spht of a conjugated pattern")
    K.coefs_close(T(A[0][::-1, :].copy()),
                  {(n, m): (-1) ** (n + m) * v for (n, m), v in dx.items()},
                  nmax, mmax, tol, "spht of a reflected pattern")

    # ------------------------------------------------------------- vector
    B = [G.patt_array(f, nrows, ncols, -1, "raw") for f in case["f"]]

    def V(t, p):
        vc = sp.vspht(G.make_vpatt(sp, t, p), nmax, mmax)
        return G.scoefs_dict(vc.scoef1), G.scoefs_dict(vc.scoef2)

    S = [G.single_valued_poles(x, -1) for x in B]
    v1, v2 = V(S[0], S[1]), V(S[2], S[3])
    v3 = V(al * S[0] + be * S[2], al * S[1] + be * S[3])
    for i in (0, 1):
        dclose(v3[i], {k: al * v1[i][k] + be * v2[i][k] for k in v1[i]},
               tol, "vspht linearity set %d" % (i + 1))
    v = V(B[0], B[1])
    r = V(np.roll(B[0], s, axis=1), np.roll(B[1], s, axis=1))
    c = V(np.conj(B[0]), np.conj(B[1]))
    m_ = V(-B[0][::-1, :].copy(), B[1][::-1, :].copy())
    for i, sg in ((0, -1), (1, 1)):
        w = " set %d" % (i + 1)
        dclose(r[i], {(n, m): x * np.exp(-1j * m * ang)
                      for (n, m), x in v[i].items()}, tol,
               "vspht of a shifted pattern" + w)
        dclose(c[i], {(n, m): sg * (-1) ** m * np.conj(v[i][(n, -m)])
                      for n, m in v[i]}, tol,
               "vspht of a conjugated pattern" + w)
        dclose(m_[i], {(n, m): sg * (-1) ** (n + m) * x
                       for (n, m), x in v[i].items()}, tol,
               "vspht of a mirrored field" + w)
    return ["shift" if s else "noshift"]


# ------------------------------------------- homogeneity over magnitudes

@st.composite
def homog_cases(draw, hi=10):
    nmax, mmax = draw(G.nm_sizes(hi))
    nrows, ncols = draw(G.grid_for(nmax, mmax, 5))
    zero = st.just(0)
    return {"nmax": nmax, "mmax": mmax, "nrows": nrows, "ncols": ncols,
            "a": draw(G.cnum()),
            "e": draw(st.one_of(st.integers(-30, 30),
                                st.integers(-250, 250))),
            "c": [draw(G.coef_values(nmax, mmax, zero)) for _ in (0, 1)],
            "f": [draw(G.samples(nrows, ncols, zero)) for _ in (0, 1)]}


def check_homog(case):
    """T(f x) = f T(x) for a factor f of any magnitude."""
    nmax, mmax = case["nmax"], case["mmax"]
    nrows, ncols = case["nrows"], case["ncols"]
    f = (G.cplx(case["a"]) or 1.0) * 10.0 ** case["e"]
    D = [G.coef_dict(c, nmax, mmax) for c in case["c"]]
    tol = 1e-13 * (nmax + 10) * abs(f) * sum(G.coef_bound(d) for d in D) \
        + 1e-308

    def mul(d):
        return {k: f * v for k, v in d.items()}

    def T(d):
        return sp.ispht(G.make_scoefs(sp, d, nmax, mmax), nrows, ncols).array

    K.close(T(mul(D[0])), f * T(D[0]), tol, "ispht of scaled coefficients")
    D = [G.drop0(d) for d in D]

    def V(a, b):
        x = sp.vispht(G.make_vcoefs(sp, a, b, nmax, mmax), nrows, ncols)
        return x.theta, x.phi

    for g, w in zip(V(mul(D[0]), mul(D[1])), V(*D)):
        K.close(g, f * w, tol, "vispht of scaled coefficients")

    A = [G.patt_array(x, nrows, ncols, 1, "single") for x in case["f"]]
    big = max(float(np.max(np.abs(x))) for x in A)
    tol = 5e-14 * (nrows + 10) * big * abs(f) + 1e-308

    def S(x):
        return G.scoefs_dict(sp.spht(G.make_spatt(sp, x), nmax, mmax))

    dclose(S(f * A[0]), mul(S(A[0])), tol, "spht of scaled samples")
    B = [G.single_valued_poles(x, -1) for x in A]

    def W(t, p):
        vc = sp.vspht(G.make_vpatt(sp, t, p), nmax, mmax)
        return G.scoefs_dict(vc.scoef1), G.scoefs_dict(vc.scoef2)

    for g, w in zip(W(f * B[0], f * B[1]), W(B[0], B[1])):
        dclose(g, mul(w), tol, "vspht of scaled samples")
    return ["tiny" if case["e"] < -12 else "huge" if case["e"] > 12
            else "moderate"]


def dclose(got, want, tol, what):
    ks = sorted(want)
    K.close(np.array([got[k] for k in ks]), np.array([want[k] for k in ks]),
            tol, what)


# ------------------------------------------------------ on coefficients

@st.composite
def coef_cases(draw, hi=14):
    nmax, mmax = draw(G.nm_sizes(hi))
    nrows, ncols = draw(G.grid_for(nmax, mmax, 5))
    sc = draw(SMALLSC)
    v = G.coef_values(nmax, mmax, st.just(sc))
    return {"nmax": nmax, "mmax": mmax, "nrows": nrows, "ncols": ncols,
            "kr": draw(st.integers(1, 4)), "kc": draw(st.integers(1, 4)),
            "a": draw(G.cnum()), "b": draw(G.cnum()),
            "shift": draw(st.integers(0, ncols - 1)),
            "c": [draw(v) for _ in range(4)]}


def check_coef(case):
    nmax, mmax = case["nmax"], case["mmax"]
    nrows, ncols = case["nrows"], case["ncols"]
    al, be = G.cplx(case["a"]), G.cplx(case["b"])
    s = case["shift"]
    ang = 2 * np.pi * s / ncols
    D = [G.coef_dict(c, nmax, mmax) for c in case["c"]]
    tol = 1e-13 * (nmax + 10) * (1 + abs(al) + abs(be)) \
        * sum(G.coef_bound(d) for d in D) + 1e-308

    def T(d, r=nrows, c=ncols):
        return sp.ispht(G.make_scoefs(sp, d, nmax, mmax), r, c).array

    def lin(x, y):
        return {k: al * x.get(k, 0) + be * y.get(k, 0)
                for k in set(x) | set(y)}

    p, q = T(D[0]), T(D[1])
    K.close(T(lin(D[0], D[1])), al * p + be * q, tol, "ispht linearity")
    K.close(T({(n, m): v * np.exp(-1j * m * ang)
               for (n, m), v in D[0].items()}), np.roll(p, s, axis=1), tol,
            "ispht of rotated coefficients")
    K.close(T({(n, -m): (-1) ** m * np.conj(v)
               for (n, m), v in D[0].items()}), np.conj(p), tol,
            "ispht of conjugated coefficients")
    K.close(T({(n, m): (-1) ** (n + m) * v for (n, m), v in D[0].items()}),
            p[::-1, :], tol, "ispht of reflected coefficients")
    kr, kc = case["kr"], case["kc"]
    f = T(D[0], kr * (nrows - 1) + 1, kc * ncols)
    K.close(f[::kr, ::kc], p, tol, "ispht on a refined grid")

    D = [G.drop0(d) for d in D]

    def V(a, b, r=nrows, c=ncols):
        x = sp.vispht(G.make_vcoefs(sp, a, b, nmax, mmax), r, c)
        return x.theta, x.phi

    p, q = V(D[0], D[1]), V(D[2], D[3])
    z = V(lin(D[0], D[2]), lin(D[1], D[3]))
    rot = V(*[{(n, m): v * np.exp(-1j * m * ang) for (n, m), v in d.items()}
              for d in D[:2]])
    con = V({(n, -m): -(-1) ** m * np.conj(v) for (n, m), v in D[0].items()},
            {(n, -m): (-1) ** m * np.conj(v) for (n, m), v in D[1].items()})
    f = V(D[0], D[1], kr * (nrows - 1) + 1, kc * ncols)
    for i, w in ((0, " theta"), (1, " phi")):
        K.close(z[i], al * p[i] + be * q[i], tol, "vispht linearity" + w)
        K.close(rot[i], np.roll(p[i], s, axis=1), tol,
                "vispht of rotated coefficients" + w)
        K.close(con[i], np.conj(p[i]), tol,
                "vispht of conjugated coefficients" + w)
        K.close(f[i][::kr, ::kc], p[i], tol, "vispht on a refined grid" + w)
    # duality: set 1 alone is set 2 alone turned by 90 degrees
    a, b = V(D[0], {}), V({}, D[0])
    K.close(a[0], -1j * b[1], tol, "duality of the two sets: theta")
    K.close(a[1], 1j * b[0], tol, "duality of the two sets: phi")
    return ["shift" if s else "noshift", "refine" if kr * kc > 1 else "same"]


FACETS = [
    Facet("patterns", pat_cases, check_pat,
          lambda c: bool(np.any(G.sample_array(c["f"][0], c["nrows"],
                                               c["ncols"]))),
          quick=800, thorough=20000, shards=4, tshards=8,
          rule="generated pattern pairs, factors and shifts; non-trivial = "
               "first pattern non-zero"),
    Facet("coefficients", coef_cases, check_coef,
          lambda c: G.nz(G.coef_dict(c["c"][0], c["nmax"], c["mmax"])) > 0,
          quick=800, thorough=20000, shards=4, tshards=8,
          rule="generated coefficient pairs, factors, shifts, refinements; "
               "non-trivial = first set non-zero"),
    Facet("large", lambda: coef_cases(40), check_coef,
          lambda c: G.nz(G.coef_dict(c["c"][0], c["nmax"], c["mmax"])) > 0,
          quick=60, thorough=1500, shards=2, tshards=8,
          rule="as coefficients with nmax up to 40"),
    Facet("magnitudes", homog_cases, check_homog,
          lambda c: G.nz(G.coef_dict(c["c"][0], c["nmax"], c["mmax"])) > 0
          and bool(np.any(G.sample_array(c["f"][0], c["nrows"],
                                         c["ncols"]))),
          quick=500, thorough=10000, shards=3, tshards=8,
          rule="factors with powers of ten from -250 to 250; non-trivial = "
               "first set and first pattern non-zero"),
]
