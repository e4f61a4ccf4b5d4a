"""C18 the verification routines, on files with known disagreement."""
import math
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet
from vt.props.c15 import rss
from vt.props.c17 import grid_lines, put, storage_order

sp = sut.load()
import spherepy.verify as vf                                   # noqa: E402

SC = st.sampled_from([0, 0, 0, -6, 6, -100, 100])


@st.composite
def cases(draw, nhi=9, far=False):
    k = draw(st.sampled_from(["spht", "ispht", "fdata", "vspht", "vispht"]))
    vec = k.startswith("v")
    nmax, mmax = draw(G.nm_far_or(far, nhi, 1 if vec else 0, 1500))
    nrows, ncols = draw(G.grid_for(nmax, mmax, 5))
    sc = draw(SC)
    coef = G.coef_values(nmax, mmax, st.just(sc))
    return {"k": k, "nmax": nmax, "mmax": mmax, "nrows": nrows,
            "ncols": ncols, "C": [draw(coef), draw(coef)],
            "order": draw(st.sampled_from(["row", "random"])),
            "inj": draw(st.sampled_from(["none", "none", "coef", "coef",
                                         "sample", "sample", "scale",
                                         "swap", "noise"])),
            "set": draw(st.integers(0, 1)),
            "i": draw(st.integers(0, 10 ** 6)),
            "j": draw(st.integers(0, 10 ** 6)),
            "d": draw(st.sampled_from([1.0, -0.1, 1e-3, 1e-6, 30.0])),
            "s": draw(G.SEED)}


def coef_lines(v, n, m):
    return ["%d,%d" % (n, m)] + ["%.17e,%.17e" % (x.real, x.imag) for x in v]


def check(case):
    k = case["k"]
    vec = k.startswith("v")
    n, m = case["nmax"], case["mmax"]
    nr, nc = case["nrows"], case["ncols"]
    ns = 2 if vec else 1
    sym = -1 if vec else 1
    order = storage_order(n, m)
    C = [G.coef_dict(s, n, m) for s in case["C"][:ns]]
    if vec:
        C = [G.drop0(c) for c in C]
    th, ph = O.theta_grid(nr), O.phi_grid(nc)

    def synth(D):
        if vec:
            return list(O.synth_vector(D[0], D[1], n, m, th, ph))
        return [O.synth_scalar(D[0], n, m, th, ph)]
    P = [G.single_valued_poles(p, sym) for p in synth(C)]
    F = None
    if k == "fdata":
        ds = O.double_sphere(P[0], 1)
        F = np.fft.fft2(ds) / ds.size
    # the disagreement
    big_c = max([abs(x) for c in C for x in c.values()] + [0.0])
    big_p = max(float(np.max(np.abs(p))) for p in P)
    inj = case["inj"]
    w = case["set"] % ns
    d = case["d"]
    if inj == "coef":
        q = order[case["i"] % len(order)]
        if vec and q == (0, 0):
            q = order[1]
        C[w] = dict(C[w])
        C[w][q] = C[w].get(q, 0.0) + (d + 0.5j * d) * (big_c or 1.0)
    elif inj == "sample":
        r = case["i"] % (nr - 2) + 1 if nr > 2 else 0
        P[w] = P[w].copy()
        P[w][r, case["j"] % nc] += (d - 0.5j * d) * (big_p or 1.0)
        if nr == 2:
            P[w] = G.single_valued_poles(P[w], sym)
        if F is not None:
            F[case["i"] % F.shape[0], case["j"] % nc] += (d - 0.5j * d) * (
                big_c or 1.0)
    elif inj == "scale":
        C[w] = {q: x * (1 + d) for q, x in C[w].items()}
    elif inj == "swap" and vec:
        P.reverse()
    elif inj == "noise":
        rs = np.random.RandomState(case["s"])
        for p in P:
            p += d * big_p * (rs.standard_normal(p.shape)
                              + 1j * rs.standard_normal(p.shape))
        P = [G.single_valued_poles(p, sym) for p in P]
        if F is not None:
            F += d * big_c * rs.standard_normal(F.shape)
    # what they should say
    tol_c = 1e-13 * (n + 10) * max([abs(x) for c in C for x in c.values()]
                                   + [float(np.max(np.abs(p))) for p in P]
                                   + [0.0]) + 1e-290
    if k == "fdata":
        ds = O.double_sphere(synth(C)[0], 1)
        want = [float(np.max(np.abs(F - np.fft.fft2(ds) / ds.size)))]
        tol = [tol_c]
    else:
        if k == "spht":
            A = [O.analyse_scalar(O.double_sphere(P[0], 1), n, m)]
        elif k == "vspht":
            A = O.analyse_vector(O.double_sphere(P[0], -1),
                                 O.double_sphere(P[1], -1), n, m)
        if k in ("spht", "vspht"):
            file_ = [np.array([c.get(q, 0.0) for q in order]) for c in C]
            mine = [np.array([a.get(q, 0.0) for q in order]) for a in A]
        else:
            file_ = [O.double_sphere(p, sym) for p in P]
            mine = [O.double_sphere(p, sym) for p in synth(C)]
        dif = [a - b for a, b in zip(file_, mine)]
        f2, fi = rss(file_), rss([np.array([np.max(np.abs(x))])
                                  for x in file_])
        d2, di = rss(dif), rss([np.array([np.max(np.abs(x))]) for x in dif])
        want = [d2, di]
        t = tol_c * math.sqrt(sum(x.size for x in dif))
        tol = [t, t]
        # relative figures, when the file's own norm is sound
        if f2 > 1e-8 * max(big_c, big_p) and f2 > 0:
            want += [d2 / f2, di / fi]
            tol += [t / f2 + 1e-12 * d2 / f2, t / fi + 1e-12 * di / fi]
    top = tempfile.mkdtemp(dir=os.environ["VT_OUT"], prefix="ver-")
    try:
        fs = [os.path.join(top, x) for x in ("p1", "p2", "c1", "c2")]
        c2 = {"order": case["order"], "sep": ",", "spell": "e17",
              "eol": "\n", "last": True}
        for i in range(ns):
            put(fs[i], grid_lines(F if F is not None else P[i], c2,
                                  case["s"]), c2)
            put(fs[2 + i], coef_lines([complex(C[i].get(q, 0.0))
                                       for q in order], n, m), c2)
        files = fs if vec else [fs[0], fs[2]]
        got = getattr(vf, "verify_" + k)(*files)
    finally:
        shutil.rmtree(top, ignore_errors=True)
    names = ["L2", "LInf", "relative L2", "relative LInf"]
    if k == "fdata":
        got = [got]
        names = ["largest difference"]
    K.need(len(got) == len(names), "verify_%s returned %d figures", k,
           len(got))
    for g, x, t, nm in zip(got, want, tol, names):
        K.close(g, x, t, "verify_%s: %s" % (k, nm))
    return [k, "inj-" + inj, "rel" if len(want) > 2 else "abs-only",
            "nonzero" if want[0] > 100 * tol[0] else "agree"]


def fixed(tier):
    for k in ("spht", "ispht", "fdata", "vspht", "vispht"):
        for inj in ("none", "coef", "sample", "scale"):
            for w in (0, 1):
                for n, m in ((1, 0), (1, 1), (4, 2), (5, 5)):
                    d = {"k": "dense", "e": 0, "f": "complex", "s": n}
                    yield {"k": k, "nmax": n, "mmax": m, "nrows": n + 3,
                           "ncols": 2 * m + 4, "C": [d, dict(d, s=91)],
                           "order": "row", "inj": inj, "set": w, "i": n,
                           "j": m, "d": 0.3, "s": 1}


FACETS = [
    Facet("far", lambda: cases(far=True), check,
          lambda c: G.nz(G.coef_dict(c["C"][0], c["nmax"], c["mmax"])) > 0,
          quick=80, thorough=2000, shards=4, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("files", cases, check,
          lambda c: G.nz(G.coef_dict(c["C"][0], c["nmax"], c["mmax"])) > 0,
          quick=1000, thorough=40000, fixed=fixed, shards=8, tshards=8,
          rule="consistent files for all five routines with a generated "
               "discrepancy in one mode, one sample, one set, or everywhere; "
               "non-trivial = some coefficient non-zero"),
]
