"""C07 native against pure-Python versions."""
import contextlib
import math

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet, Violation
from vt.props import c02, c05

sp = sut.load()
impl = sp.spherepy            # the module that holds the switch
py, cx = sp.pysphi, sp.csphi


@contextlib.contextmanager
def switched_off():
    """The extension switched off; None if there is no such switch."""
    if not hasattr(impl, "use_cext"):
        yield False
        return
    old = impl.use_cext
    impl.use_cext = False
    try:
        yield True
    finally:
        impl.use_cext = old


# ------------------------------------------------------------- synthesis

@st.composite
def syn_cases(draw, hi=14, extra=8):
    nmax, mmax = draw(G.nm_sizes(hi))
    nrows, ncols = draw(G.grid_for(nmax, mmax, extra))
    sc = draw(G.SCALES)
    return {"nmax": nmax, "mmax": mmax, "nrows": nrows, "ncols": ncols,
            "c": draw(G.coef_values(nmax, mmax, st.just(sc))),
            "c2": draw(G.coef_values(nmax, mmax, st.just(sc)))}


def check_syn(case):
    nmax, mmax = case["nmax"], case["mmax"]
    nrows, ncols = case["nrows"], case["ncols"]
    C = G.coef_dict(case["c"], nmax, mmax)
    C2 = G.coef_dict(case["c2"], nmax, mmax)
    c = G.make_scoefs(sp, C, nmax, mmax)
    tol = 3e-14 * (nmax + 10) * G.coef_bound(C) + 1e-308
    a = sp.ispht(c, nrows, ncols)
    b = sp.ispht_slow(c, nrows, ncols)
    K.close(b.doublesphere, a.doublesphere, tol, "ispht_slow against ispht")
    lab = []
    with switched_off() as off:
        if off:
            d = sp.ispht(c, nrows, ncols)
            K.close(d.doublesphere, a.doublesphere, tol,
                    "ispht without extension")
    C, C2 = G.drop0(C), G.drop0(C2)
    vc = G.make_vcoefs(sp, C, C2, nmax, mmax)
    va = sp.vispht(vc, nrows, ncols)
    tol = 3e-14 * (nmax + 10) * (G.coef_bound(C) + G.coef_bound(C2)) + 1e-308
    with switched_off() as off:
        if off:
            vb = sp.vispht(vc, nrows, ncols)
            K.close(vb.theta_double, va.theta_double, tol,
                    "vispht without extension: theta")
            K.close(vb.phi_double, va.phi_double, tol,
                    "vispht without extension: phi")
            lab.append("switch-present")
    return lab


# -------------------------------------------------------------- analysis

def check_ana(case):
    nrows, ncols = case["nrows"], case["ncols"]
    nmax, mmax = case["nmax"], case["mmax"]
    a = G.patt_array(case["t"], nrows, ncols, 1, case["poles"])
    p = G.make_spatt(sp, a)
    tol = 3e-14 * (nrows + 10) * float(np.max(np.abs(a))) + 1e-308
    n = sp.spht(p, nmax, mmax)
    want = G.scoefs_dict(n)
    K.coefs_close(sp.spht_slow(p, nmax, mmax), want, nmax, mmax, tol,
                  "spht_slow against spht")
    with switched_off() as off:
        if off:
            K.coefs_close(sp.spht(p, nmax, mmax), want, nmax, mmax, tol,
                          "spht without extension")
    at = G.patt_array(case["t"], nrows, ncols, -1, case["poles"])
    ap = G.patt_array(case["p"], nrows, ncols, -1, case["poles"])
    v = G.make_vpatt(sp, at, ap)
    big = max(float(np.max(np.abs(at))), float(np.max(np.abs(ap))))
    tol = 3e-14 * (nrows + 10) * big + 1e-308
    vn = sp.vspht(v, nmax, mmax)
    with switched_off() as off:
        if off:
            vp = sp.vspht(v, nmax, mmax)
            c05.vclose(vp, G.scoefs_dict(vn.scoef1), G.scoefs_dict(vn.scoef2),
                       nmax, mmax, tol, "vspht without extension")
    return ["poles-" + case["poles"]]


# ------------------------------------------------------------- low level

@st.composite
def low_cases(draw):
    nmax, mmax = draw(G.nm_sizes(12))
    rows = 2 * draw(st.integers(nmax + 1, nmax + 10))
    cols = 2 * draw(st.integers(mmax + 1, mmax + 6))
    return {"nmax": nmax, "mmax": mmax, "rows": rows, "cols": cols,
            "s": draw(G.SEED), "e": draw(G.SCALES),
            "f": draw(st.sampled_from(["complex", "real", "imag", "holes"])),
            "c": draw(G.coef_values(nmax, mmax)),
            "n": draw(st.integers(0, 60)), "m": draw(st.integers(-62, 62)),
            "pad": draw(st.integers(0, 5))}


def check_low(case):
    nmax, mmax = case["nmax"], case["mmax"]
    R, Cc = case["rows"], case["cols"]
    # coefficients -> Fourier data
    C = G.coef_dict(case["c"], nmax, mmax)
    vec = storage(C, nmax, mmax)
    keep = vec.copy()
    fc = np.zeros((R, Cc), dtype=np.complex128)
    cx.sc_to_fc(fc, vec, nmax, mmax)
    K.same(vec, keep, "csphi.sc_to_fc changed its input: vec")
    fp = py.sc_to_fc(vec, nmax, mmax, R, Cc)
    K.same(vec, keep, "pysphi.sc_to_fc changed its input: vec")
    tol = 1e-14 * (nmax + 10) * G.coef_bound(C) + 1e-308
    K.close(fc, fp, tol, "csphi.sc_to_fc against pysphi.sc_to_fc")
    # Fourier data -> coefficients.  The unpaired row is zero in all that
    # the transforms hand over.
    f = G.fill((R, Cc), case["s"], case["f"]) * 10.0 ** case["e"]
    f[R // 2, :] = 0
    keep = f.copy()
    sc = np.zeros(O.n_modes(nmax, mmax), dtype=np.complex128)
    cx.fc_to_sc(f, sc, nmax, mmax)
    K.same(f, keep, "csphi.fc_to_sc changed its input: fdata")
    spv = py.fc_to_sc(f, nmax, mmax)
    K.same(f, keep, "pysphi.fc_to_sc changed its input: fdata")
    tol = 3e-14 * (R + 10) * float(np.sum(np.max(np.abs(f), axis=1))) + 1e-308
    K.close(sc, spv, tol, "csphi.fc_to_sc against pysphi.fc_to_sc")
    # Fourier coefficients of one harmonic
    n, m = case["n"], case["m"]
    L = n + 1 + case["pad"]
    y = np.full(L, 7.0)
    cx.ynunm(n, m, y)
    yp = py.ynunm(n, m, L)
    K.close(y, yp, 1e-12, "csphi.ynunm against pysphi.ynunm")
    a, b = cx.ynnm(n, m), py.ynnm(n, m)
    K.close(a, b, 1e-13 * abs(b) + 1e-300, "csphi.ynnm against pysphi.ynnm")
    lab = ["|m|<=n" if abs(m) <= n else "|m|>n"]
    if abs(m) > n:
        K.need(not np.any(y) and not np.any(yp) and a == 0 and b == 0,
               "coefficients of the impossible mode (%d, %d) are not zero",
               n, m)
    else:
        # summing them gives the harmonic
        th = np.linspace(0.0, np.pi, 7)
        nu = np.arange(-n, n + 1)
        full = np.concatenate([(y[1:n + 1] * (-1) ** m)[::-1], y[:n + 1]])
        val = (1j ** m) * (np.exp(1j * np.outer(th, nu)) @ full)
        want = O.pbar(n, m, th)[n - abs(m)] if n >= abs(m) else 0 * th
        K.close(val, want, 1e-13 * (n + 10), "sum of ynunm")
        K.close(y[n], a, 1e-13 * abs(a) + 1e-300, "ynunm start value")
        K.need(not np.any(y[n + 1:]), "ynunm writes beyond degree n")
    # index of the first value of each m block
    for mm in range(-mmax, mmax + 1):
        k = py.mindx(mm, nmax, mmax)
        K.need(int(k) == block(mm, nmax), "mindx(%d, %d, %d) = %s, expected "
               "%d", mm, nmax, mmax, k, block(mm, nmax))
    # admissible FFT lengths
    S = R + nmax
    q = cx.FindQ(S)
    K.need(q >= S and smooth(q, (2, 3, 5)), "FindQ(%d) = %d", S, q)
    q2 = py.smallest_prime_factor(S)
    K.need(q2 >= S and smooth(int(q2), (2, 3, 5, 7)),
           "smallest_prime_factor(%d) = %s", S, q2)
    # kernel data, in the domain the docs give (Q greater than nrows + nmax)
    Q = S + 1 + case["pad"]
    s = np.full(Q, 5 + 5j)
    cx.SData(s, R, nmax)
    K.close(s, py.s_data(R, nmax, Q), 1e-15, "csphi.SData against s_data")
    return lab


def smooth(q, primes):
    for p in primes:
        while q % p == 0:
            q //= p
    return q == 1


def block(m, nmax):
    k, i = 0, 0
    order = [0] + [x for a in range(1, nmax + 1) for x in (-a, a)]
    for x in order:
        if x == m:
            return k
        k += nmax - abs(x) + 1


def storage(C, nmax, mmax):
    order = [0] + [x for a in range(1, mmax + 1) for x in (-a, a)]
    return np.array([C.get((n, m), 0.0) for m in order
                     for n in range(abs(m), nmax + 1)], dtype=np.complex128)


def fixed_syn(tier):
    hi = 6 if tier == "quick" else 14
    d = {"k": "dense", "e": 0, "f": "complex"}
    for nmax in range(hi + 1):
        for mmax in range(nmax + 1):
            yield {"nmax": nmax, "mmax": mmax, "nrows": nmax + 2 + mmax % 3,
                   "ncols": 2 * mmax + 2 + 2 * (nmax % 3),
                   "c": dict(d, s=nmax), "c2": dict(d, s=mmax + 99)}


def fixed_low(tier):
    hi = 12 if tier == "quick" else 60
    for n in range(hi + 1):
        for m in range(-n - 1, n + 2):
            nm = n % 7
            yield {"nmax": nm, "mmax": nm // 2, "rows": 2 * nm + 4,
                   "cols": 2 * (nm // 2) + 2, "s": n, "e": 0, "f": "complex",
                   "c": {"k": "dense", "e": 0, "s": n, "f": "complex"},
                   "n": n, "m": m, "pad": 0}


FACETS = [
    Facet("synthesis", syn_cases, check_syn,
          lambda c: G.nz(G.coef_dict(c["c"], c["nmax"], c["mmax"])) > 0,
          quick=450, thorough=12000, fixed=fixed_syn, shards=3, tshards=8,
          rule="all small sizes, then generated sizes, grids and values; "
               "non-trivial = non-zero coefficients"),
    Facet("analysis", lambda: c05.cases(14, 16), check_ana, c05.nontrivial,
          quick=450, thorough=12000, shards=3, tshards=8,
          rule="generated patterns and requested sizes; non-trivial = "
               "non-zero samples"),
    Facet("lowlevel", low_cases, check_low, quick=500, thorough=15000,
          fixed=fixed_low, shards=2, tshards=8,
          rule="every (n, m) up to a bound, then generated Fourier data, "
               "coefficients, sizes and modes"),
]
