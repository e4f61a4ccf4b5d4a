"""C09 power and angular power spectrum."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()


@st.composite
def cases(draw, hi=16, far=False):
    nmax, mmax = draw(G.nm_far_or(far, hi))
    return {"nmax": nmax, "mmax": mmax, "ang": draw(st.floats(0, 6.28)),
            "c": draw(G.coef_values(nmax, mmax, G.MILD))}


def cc_weights(nrows):
    """Clenshaw-Curtis weights for int f(theta) sin(theta) dtheta at
    theta_j = pi j/(nrows-1): exact for polynomials in cos(theta) of degree
    up to nrows-1."""
    N = nrows - 1
    j = np.arange(nrows)
    w = np.zeros(nrows)
    for k in range(0, N + 1, 2):
        t = 2.0 / (1.0 - k * k) * np.cos(k * np.pi * j / N)
        w += t * (0.5 if k in (0, N) else 1.0)
    w *= 2.0 / N
    w[[0, -1]] *= 0.5
    return w


def check(case):
    nmax, mmax = case["nmax"], case["mmax"]
    C = G.coef_dict(case["c"], nmax, mmax)
    c = G.make_scoefs(sp, C, nmax, mmax)
    want = np.zeros(nmax + 1)
    for (n, m), v in C.items():
        want[n] += abs(v) ** 2
    tot = float(np.sum(want))
    s = K.arr(c.angular_power_spectrum(), (nmax + 1,), "spectrum")
    K.need(not np.iscomplexobj(s), "the spectrum is not real")
    K.close(s, want, 1e-13 * (tot + 1e-300), "angular_power_spectrum")
    for n in range(nmax + 1):      # each degree to its own precision
        K.close(s[n], want[n], 1e-12 * want[n] + 1e-300,
                "angular_power_spectrum of one degree")
    p = c.power()
    K.need(np.ndim(p) == 0 and not np.iscomplexobj(p), "power is %r", p)
    K.close(p, tot, 1e-12 * tot + 1e-300, "power")
    K.close(np.sum(s), p, 1e-12 * tot + 1e-300, "sum of the spectrum")
    # the set changes, and is asked again
    how = case["c"].get("s", nmax) % 4
    D = dict(C)
    for (n, m), v in C.items():
        if how == 0 and n == nmax // 2 or how == 1 and m == -mmax // 2 or \
                how == 2 and (n, m) == (nmax, mmax):
            D[(n, m)] = -0.5 * v + 1.0
        elif how == 3:
            D[(n, m)] = v * 0.5 ** (n % 3)
    k, q = nmax // 2, -mmax // 2
    if how == 0:
        c[k, :] = [D.get((k, m), 0) for m in range(-min(k, mmax), min(k, mmax) + 1)]
    elif how == 1:
        c[:, q] = np.array([D.get((n, q), 0j) for n in range(abs(q), nmax + 1)])
    elif how == 2:
        c[nmax, mmax] = D.get((nmax, mmax), 0)
    else:
        c.window(0.5 ** (np.arange(nmax + 1) % 3))
    t2 = float(sum(abs(v) ** 2 for v in D.values()))
    K.close(c.power(), t2, 1e-12 * t2 + 1e-300, "power after a write")
    K.close(np.sum(c.angular_power_spectrum()), t2, 1e-12 * t2 + 1e-300,
            "spectrum after a write")
    c = G.make_scoefs(sp, C, nmax, mmax)
    # energy of the field
    nrows, ncols = 2 * nmax + 3, 2 * mmax + 2
    f = sp.ispht(c, nrows, ncols).array
    e = float(cc_weights(nrows) @ np.sum(np.abs(f) ** 2, axis=1)
              * 2 * np.pi / ncols)
    K.close(e, tot, 1e-11 * (nmax + 1) * (tot + 1e-300),
            "energy of the synthesised pattern")
    r = G.make_scoefs(sp, {(n, m): v * np.exp(1j * m * case["ang"])
                           for (n, m), v in C.items()}, nmax, mmax)
    K.close(r.angular_power_spectrum(), want, 1e-12 * (tot + 1e-300),
            "spectrum after a rotation")
    return ["values-" + case["c"]["k"], "mmax<nmax" if mmax < nmax
            else "mmax=nmax"]


def fixed(tier):
    hi = 8 if tier == "quick" else 24
    for nmax in range(hi + 1):
        for mmax in range(nmax + 1):
            yield {"nmax": nmax, "mmax": mmax, "ang": 0.7,
                   "c": {"k": "dense", "e": 0, "s": nmax * 50 + mmax,
                         "f": "complex"}}


FACETS = [
    Facet("power", cases, check,
          lambda c: G.nz(G.coef_dict(c["c"], c["nmax"], c["mmax"])) > 0,
          quick=2000, thorough=30000, fixed=fixed, shards=8, tshards=8,
          rule="all small sizes, then generated; non-trivial = non-zero "
               "coefficients"),
    Facet("far", lambda: cases(far=True), check,
          lambda c: G.nz(G.coef_dict(c["c"], c["nmax"], c["mmax"])) > 0,
          quick=80, thorough=2000, shards=3, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
]
