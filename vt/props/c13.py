"""C13 patterns, their continuation over the poles, and the symmetry report."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, sut
from vt.engine import Facet

sp = sut.load()

WIDE = st.one_of(st.just(0), st.sampled_from([-300, -200, -160, -30, -8, 8, 30,
                                              160, 200, 300]))
LAYOUT = ["c", "c", "fortran", "strided", "real", "int", "negative-stride",
          "complex64", "float32", "uint8", "int8", "bool"]


# single samples that something might take for nothing: row, column (as
# fractions), which part, what
ODD = st.one_of(st.just([]), st.lists(st.tuples(
    st.floats(0, 0.999), st.floats(0, 0.999), st.integers(0, 1),
    st.sampled_from([5e-324, -5e-324, 2.3e-308, -1e-310, 1e-300, 0.0, 1e300,
                     -1e-17, 2.0 ** -1074 * 3])).map(list), max_size=4))


@st.composite
def cases(draw, rows=14, cols=20, far=False):
    nrows, ncols = draw(G.patt_far_or(far, rows, cols))
    return {"nrows": nrows, "ncols": ncols, "vector": draw(st.booleans()),
            "poles": draw(st.sampled_from(["single", "raw", "raw", "half"])),
            "layout": draw(st.sampled_from(LAYOUT)),
            "a": draw(G.samples(nrows, ncols, WIDE)),
            "b": draw(G.samples(nrows, ncols, WIDE)),
            "odd": draw(ODD)}


def raw(spec, case, sym):
    a = G.sample_array(spec, case["nrows"], case["ncols"])
    for i, j, k, v in case.get("odd", []):
        r, c = int(i * a.shape[0]), int(j * a.shape[1])
        a[r, c] = v if k == 0 else complex(0.0, v)
    if case["layout"] == "real":
        a = a.real + 0j
    elif case["layout"] == "int":
        a = np.round(np.clip(a.real, -9, 9)) + 0j
    elif case["layout"] == "int8":
        a = np.round(np.clip(100 * a.real, -128, 127)) + 0j
    elif case["layout"] == "uint8":
        a = np.round(np.clip(128 + 100 * a.real, 0, 255)) + 0j
    elif case["layout"] == "bool":
        a = (a.real > 0) + 0j
    elif case["layout"] in ("complex64", "float32"):
        a = np.clip(a.real, -1e30, 1e30) + (
            1j * np.clip(a.imag, -1e30, 1e30)
            if case["layout"] == "complex64" else 0)
        a = a.astype(np.complex64).astype(np.complex128)
    if case["poles"] == "single":
        a = G.single_valued_poles(a, sym)
    elif case["poles"] == "half":                # zeros opposite to non-zeros
        a[0, : a.shape[1] // 2] = 0
    return a.copy()


def laid_out(a, layout):
    if layout == "fortran":
        return np.asfortranarray(a)
    if layout == "strided":
        b = np.full((a.shape[0] * 2, a.shape[1] * 3), 7.0 + 0j)
        b[::2, ::3] = a
        return b[::2, ::3]
    if layout == "negative-stride":
        return a[::-1, ::-1].copy()[::-1, ::-1]
    if layout == "real":
        return a.real.copy()
    if layout == "int":
        return a.real.astype(np.int64)
    if layout in ("int8", "uint8", "bool", "float32"):
        b = a.real.astype(layout)
        return b if np.array_equal(b, a.real) else a.copy()
    if layout == "complex64":
        b = a.astype(layout)
        return b if np.array_equal(b, a) else a.copy()
    return a.copy()


def model(a, sym):
    """(exact rows, pole rows and their tolerance) of the continuation."""
    nrows, ncols = a.shape
    R, h = 2 * nrows - 2, ncols // 2
    out = np.zeros((R, ncols), dtype=np.complex128)
    sh = sym * np.roll(a, -h, axis=1)
    for j in range(1, nrows - 1):
        out[j] = a[j]
        out[R - j] = sh[j]
    for j in (0, nrows - 1):
        s, t = sh[j], a[j]
        out[j] = np.where((s == 0) | (t == 0), s + t, s / 2 + t / 2)
    return out


def deviation(d, sym):
    """Worst relative deviation from d(-theta, phi) = sym d(theta, phi+pi)."""
    R, C = d.shape
    p = sym * np.roll(d[(-np.arange(R)) % R, :], -(C // 2), axis=1)
    with np.errstate(all="ignore"):
        r = np.where(p != 0, np.abs(p - d) / np.abs(p),
                     np.where(d != 0, 1.0, 0.0))
    return float(np.max(r)) if r.size else 0.0


def check_component(got, front, a, sym, what):
    nrows, ncols = a.shape
    w = model(a, sym)
    K.arr(got, w.shape, what)
    body = [j for j in range(w.shape[0]) if j not in (0, nrows - 1)]
    K.same(got[body], w[body], what + " off the poles")
    single = deviation(np.concatenate([a[[0]], a[[0]]]), sym) == 0 and \
        deviation(np.concatenate([a[[-1]], a[[-1]]]), sym) == 0
    for j in (0, nrows - 1):
        for k in range(ncols):
            K.close(got[j, k], w[j, k], 4 * K.EPS * abs(w[j, k]) + 1e-323,
                    what + " at a pole")
    R = w.shape[0]
    back = sym * np.roll(got[(-np.arange(R)) % R], -(ncols // 2), axis=1)
    K.same(got, back, what + ": value(-theta, phi) against "
                             "value(theta, phi + pi)")
    K.same(front, got[:nrows], what + ": samples are not the front half")
    if single:
        for j in (0, nrows - 1):
            for k in range(ncols):
                K.close(front[j, k], a[j, k], 4 * K.EPS * abs(a[j, k])
                        + 1e-323, what + ": a single-valued pole")
    return single


def check(case):
    nrows, ncols, vec = case["nrows"], case["ncols"], case["vector"]
    sym = -1 if vec else 1
    A = [raw(case["a"], case, sym)]
    if vec:
        A.append(raw(case["b"], case, sym))
    given = [laid_out(a, case["layout"]) for a in A]
    keep = [g.copy() for g in given]
    p = (sp.TransversePatternUniform(*given) if vec
         else sp.ScalarPatternUniform(*given))
    for g, k in zip(given, keep):
        K.same(g, k, "building a pattern changed the samples array")
    K.need((p.nrows, p.ncols) == (nrows, ncols) and
           tuple(p.shape) == (nrows, ncols), "shape %s of a %s pattern",
           p.shape, (nrows, ncols))
    lab = ["vector" if vec else "scalar", "poles-" + case["poles"],
           case["layout"]]
    if vec:
        D, F = p.doublesphere, (p.theta, p.phi)
        for x, y in ((p.theta_double, D[0]), (p.phi_double, D[1]),
                     (p.array[0], F[0]), (p.array[1], F[1]),
                     (sp.array(p)[0], F[0]), (sp.array(p)[1], F[1])):
            K.same(x, y, "the views of a tangential pattern differ")
        names = ["theta component", "phi component"]
    else:
        D, F = [p.doublesphere], [p.array]
        K.same(p.cdata, F[0], "cdata and array differ")
        K.same(sp.array(p), F[0], "array(p) and p.array differ")
        names = ["scalar pattern"]
    single = True
    for d, f, a, n in zip(D, F, A, names):
        single &= check_component(d, f, a, sym, n)
        K.same(sp.continue_sphere(a, sym), d, "continue_sphere of the " + n)
        K.same(sp.double_sphere(np.array(d), sym), d,
               "double_sphere of symmetric data (" + n + ")")
    lab.append("single-valued" if single else "averaged-poles")
    K.need(p.is_symmetric, "a pattern built from samples reports itself "
           "asymmetric (single_val %s)", p.single_val)
    sv = p.single_val if vec else (p.single_val,)
    K.need(len(sv) == len(D) and all(v == 0 for v in sv),
           "single_val of a symmetric pattern is %s", sv)
    # a pattern owns its samples
    for g in given:
        g[...] = 3
    for d, a in zip(D, A):
        body = [j for j in range(d.shape[0]) if j not in (0, nrows - 1)]
        K.same(d[body], model(a, sym)[body],
               "changing the given array afterwards changed the pattern")
    return lab


@st.composite
def broken(draw, rows=12, cols=16, far=False):
    nrows, ncols = draw(G.patt_far_or(far, rows, cols))
    R = 2 * nrows - 2
    return {"nrows": nrows, "ncols": ncols, "vector": draw(st.booleans()),
            "zero": draw(st.booleans()), "e": draw(WIDE),
            "s": draw(G.SEED), "comp": draw(st.integers(0, 1)),
            "at": [draw(st.integers(0, R - 1)),
                   draw(st.integers(0, ncols - 1))],
            "how": draw(st.sampled_from(["sign", "zero", "scale", "phase",
                                         "set", "tiny", "conj"])),
            "x": draw(st.floats(1e-6, 3.0)),
            "more": draw(st.one_of(st.just([]), st.lists(st.tuples(
                st.integers(0, 1), st.integers(0, R - 1),
                st.integers(0, ncols - 1),
                st.sampled_from(["sign", "zero", "scale", "phase", "tiny"]),
                st.floats(1e-6, 30.0)).map(list), min_size=1,
                max_size=4)))}


def check_broken(case):
    nrows, ncols, vec = case["nrows"], case["ncols"], case["vector"]
    sym = -1 if vec else 1
    sc = 10.0 ** case["e"]
    D = []
    for i in range(2 if vec else 1):
        a = G.fill((nrows, ncols), case["s"] + i, "complex") * sc
        a += 0.05 * sc * np.sign(a.real)
        if case["zero"]:
            a[:] = 0
        D.append(sp.continue_sphere(G.single_valued_poles(a, sym), sym))
    comp = case["comp"] if vec else 0
    r, c = case["at"]
    how = "set" if case["zero"] else case["how"]
    x = case["x"]
    for k, i, j, h, y in [[comp, r, c, how, x]] + case.get("more", []):
        k = min(k, len(D) - 1)
        v = D[k][i, j]
        D[k][i, j] = {"sign": -v, "zero": 0.0, "scale": v * (1 + y),
                      "phase": v * np.exp(1j * y), "set": sc * y,
                      "tiny": v * (1 + 10.0 ** (-6 - 5.9 * min(1.0, y / 3))), "conj": np.conj(v)}[h]
    want = [deviation(d, sym) for d in D]
    mk = sp.TransversePatternUniform if vec else sp.ScalarPatternUniform
    p = mk(*[np.array(d) for d in D], doublesphere=True)
    for d, g in zip(D, p.doublesphere if vec else [p.doublesphere]):
        K.same(g, d, "doublesphere=True changed the data")
    K.need(tuple(p.shape) == (nrows, ncols), "shape %s", p.shape)
    got = p.single_val if vec else (p.single_val,)
    K.need(len(got) == len(want), "single_val has %d parts", len(got))
    for g, w in zip(got, want):
        K.close(g, w, 1e-12 * w + 4 * K.EPS, "single_val")
    worst = max(want)
    if worst == 0:
        K.need(p.is_symmetric, "symmetric data reported asymmetric")
        return ["still-symmetric"]
    if worst < 1e-12:
        return ["near-threshold"]
    K.need(not p.is_symmetric, "%s component is off by a relative %.3g at "
           "(%d, %d) but the pattern reports itself symmetric",
           ("theta", "phi")[comp] if vec else "the", worst, r, c)
    return [how, "phi" if comp else ("theta" if vec else "scalar"),
            "zero-field" if case["zero"] else "field"]


def nontrivial(case):
    return bool(np.any(G.sample_array(case["a"], case["nrows"],
                                      case["ncols"])))


def fixed(tier):
    for vec in (False, True):
        for nrows in range(2, 8):
            for ncols in range(2, 11, 2):
                for poles in ("single", "raw", "half"):
                    d = {"k": "dense", "e": 0, "f": "complex", "s": nrows}
                    yield {"nrows": nrows, "ncols": ncols, "vector": vec,
                           "poles": poles, "layout": LAYOUT[
                               (nrows + ncols) % len(LAYOUT)],
                           "a": d, "b": dict(d, s=99)}


def fixed_broken(tier):
    for vec in (False, True):
        for comp in ((0, 1) if vec else (0,)):
            for nrows, ncols in ((2, 2), (4, 4), (5, 6)):
                for r in range(2 * nrows - 2):
                    for c in range(ncols):
                        yield {"nrows": nrows, "ncols": ncols, "vector": vec,
                               "zero": (r + c) % 2 == 1, "e": 0, "s": 5,
                               "comp": comp, "at": [r, c], "x": 0.5,
                               "how": "set" if (r + c) % 2 else "scale"}
                # another pair is worse than the one without a partner, and
                # comes before or after it
                yield {"nrows": nrows, "ncols": ncols, "vector": vec,
                       "zero": False, "e": 0, "s": 7 + nrows, "comp": comp,
                       "at": [1, 1], "x": 0.5, "how": "zero",
                       "more": [[comp, 0, 0, "scale", 20.0],
                                [comp, nrows - 1, 1, "tiny", 1.0]]}
                yield {"nrows": nrows, "ncols": ncols, "vector": vec,
                       "zero": False, "e": 0, "s": 8 + nrows, "comp": comp,
                       "at": [0, 0], "x": 0.5, "how": "zero",
                       "more": [[comp, nrows - 1, 1, "scale", 20.0]]}


FACETS = [
    Facet("build", cases, check, nontrivial, quick=1000, thorough=40000,
          fixed=fixed, shards=4, tshards=8,
          rule="scalar and tangential samples of all layouts and scales "
               "1e-300..1e300; non-trivial = some sample non-zero"),
    Facet("far", lambda: cases(far=True), check, nontrivial, quick=120,
          thorough=3000, shards=3, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("far-broken", lambda: broken(far=True), check_broken, None,
          quick=120, thorough=3000, shards=2, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("broken", broken, check_broken, None, quick=1000, thorough=30000,
          fixed=fixed_broken, shards=4, tshards=8,
          rule="symmetric data with one sample of one component changed; "
               "every case is counted"),
]
