"""C23 Fourier-domain operators, judged by the functions they represent."""
import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, sut
from vt.engine import Facet

sp = sut.load()
import spherepy.ops as ops                                     # noqa: E402

OPS = ["sin", "divsin", "dtheta", "dphi", "sinLdot", "L", "pad", "fix",
       "chain"]
# those that make sense of two rows
SHORT = ["dtheta", "dphi", "L", "pad", "fix"]
SC = st.one_of(st.sampled_from([0, 0, 0, -8, 8, -150, 150]),
               st.integers(-280, 280))


@st.composite
def cases(draw, rows=40, cols=24, area=10 ** 9):
    op = draw(st.sampled_from(OPS))
    lo = 1 if op in SHORT else 2
    R = 2 * draw(st.one_of(st.integers(lo, 6), st.integers(lo, rows // 2),
                           G.logint(lo, rows // 2)))
    C = 2 * draw(st.one_of(st.integers(1, 4), st.integers(1, cols // 2),
                           G.logint(1, cols // 2)))
    if R * C > area:                # one of the two sides stays long
        if draw(st.booleans()):
            R = max(2 * lo, area // C // 2 * 2)
        else:
            C = max(2, area // R // 2 * 2)
    return {"op": op, "R": R, "C": C,
            "more": 2 * draw(st.one_of(
                st.integers(0, 12), st.integers(0, 12),
                st.integers(0, 10 * R if R * C < 2000 else R))),
            "less": 2 * draw(st.integers(0, 3)),
            "kind": draw(st.sampled_from(["dense", "dense", "real", "int",
                                          "one", "one", "edge"])),
            "i": draw(st.integers(0, 10 ** 6)), "e": draw(SC),
            "s": draw(G.SEED), "t": draw(G.SEED),
            "layout": draw(st.sampled_from(["C", "C", "F", "S", "T"])),
            "wide": draw(st.integers(0, 1)),
            "tall": draw(st.integers(0, 1)),
            "gap": draw(st.sampled_from([0, 0, 0, 1, 2]))}


def ks(n):
    """Frequencies in storage order; the unpaired one counts as negative."""
    k = np.arange(n)
    k[k >= (n + 1) // 2] -= n
    return k


def field(case, seed, band):
    """Fourier data with |k| <= band; with or without the unpaired column."""
    R, C = case["R"], case["C"]
    a = np.zeros((R, C), dtype=np.complex128)
    k, m = ks(R), ks(C)
    rows = np.abs(k) <= band
    cols = np.abs(m) < C // 2 + case["wide"]
    inside = np.outer(rows, cols)
    if case["kind"] in ("one", "edge"):
        ok = inside
        if case["kind"] == "edge":
            ok = inside & (np.abs(k) == band)[:, None]
        idx = np.argwhere(ok)
        if not len(idx):
            return a
        i, j = idx[(case["i"] + seed) % len(idx)]
        a[i, j] = 1.0 - 0.5j
    else:
        r = G.fill((R, C), seed, {"dense": "complex"}.get(case["kind"],
                                                          case["kind"]))
        a[inside] = r[inside]
    if case.get("gap") == 1:        # no content constant in theta
        a[0] = 0
    elif case.get("gap") == 2:      # none constant in phi
        a[:, 0] = 0
    return a * 10.0 ** case["e"]


def points(case):
    r = np.random.RandomState(case["t"])
    # poles, the equator, and anywhere on the double sphere
    th = np.concatenate([[0.0, np.pi, np.pi / 2],
                         r.uniform(0, 2 * np.pi, 9)])
    ph = r.uniform(0, 2 * np.pi, th.size)
    return th, ph


def ev(F, th, ph, R=None):
    """Values of the trigonometric sum at the points."""
    k, m = ks(F.shape[0]), ks(F.shape[1])
    A = np.exp(1j * np.outer(th, k))
    B = np.exp(1j * np.outer(ph, m))
    return np.sum((A @ F) * B, axis=1)


def ev_d(F, th, ph, dk, dm):
    """The same of a derivative, differentiated term by term."""
    k, m = ks(F.shape[0]), ks(F.shape[1])
    A = np.exp(1j * np.outer(th, k)) * (1j * k) ** dk
    B = np.exp(1j * np.outer(ph, m)) * (1j * m) ** dm
    return np.sum((A @ F) * B, axis=1)


def lay(a, case):
    how = case["layout"]
    if how == "F":
        return np.asfortranarray(a)
    if how == "S":                        # part of a larger array
        b = np.full((a.shape[0] + 3, 2 * a.shape[1]), 7.0 + 0j)
        b[1:-2, ::2] = a
        return b[1:-2, ::2]
    if how == "T":                        # backwards in memory
        return a[::-1, ::-1].copy()[::-1, ::-1]
    return a.copy()


def times_sin(a):
    """Coefficients of sin(theta) times the field, written independently:
    each term spreads to its two neighbours."""
    R = a.shape[0]
    b = np.zeros_like(a)
    for i, k in enumerate(ks(R)):
        for d, w in ((1, -0.5j), (-1, 0.5j)):
            if np.any(a[i]):
                b[(k + d) % R] += w * a[i]
    return b


def check(case):
    R, C = case["R"], case["C"]
    M = R // 2
    op = case["op"]
    th, ph = points(case)
    f = field(case, case["s"], M - 2)
    full = field(case, case["s"], M - 1)
    # the same with the unpaired row
    whole = field(case, case["s"], M) if case.get("tall") else full
    g = field(case, case["s"] + 1 if case["s"] < 2 ** 31 - 2 else 0, M - 2)
    big = float(max(np.sum(np.abs(x)) for x in (f, full, g, whole)))
    tol = 1e-14 * (R + C + 10) * big + 1e-307
    top = float(max(np.max(np.abs(x)) for x in (f, full, g, whole)))
    k1, m1 = 1j * ks(R)[:, None], 1j * ks(C)[None, :]
    name = {"pad": "pad_rows_fdata", "fix": "fix_even_row_data_fc"}.get(
        op, op + "_fc")

    def agree(F, want, scale=1.0, coefs=None, factor=1.0):
        F = K.arr(F, (R, C), name)
        if coefs is not None:
            # the coefficients themselves are determined as well
            K.close(F, coefs, 2e-15 * (R + 10) * top * factor + 1e-307, name)
        K.close(ev(F, th, ph), want, tol * scale, name)
    if op == "sin":
        x = lay(f, case)
        ops.sin_fc(x)
        agree(x, np.sin(th) * ev(f, th, ph), 1.0, times_sin(f))
    elif op == "divsin":
        x = lay(times_sin(f), case)
        ops.divsin_fc(x)
        agree(x, ev(f, th, ph), R, f)
    elif op == "dtheta":
        x = lay(whole, case)
        ops.dtheta_fc(x)
        agree(x, ev_d(whole, th, ph, 1, 0), R, k1 * whole)
    elif op == "dphi":
        x = lay(whole, case)
        ops.dphi_fc(x)
        agree(x, ev_d(whole, th, ph, 0, 1), C, m1 * whole, C)
    elif op == "sinLdot":
        # sin(theta) L . F = i dF_theta/dphi - i d(sin(theta) F_phi)/dtheta
        got = ops.sinLdot_fc(lay(full, case), lay(g, case))
        want = 1j * ev_d(full, th, ph, 0, 1) - 1j * (
            np.cos(th) * ev(g, th, ph) + np.sin(th) * ev_d(g, th, ph, 1, 0))
        agree(got, want, R + C,
              1j * m1 * full - 1j * k1 * times_sin(g), C + 10)
    elif op == "L":
        # L_theta = i/sin(theta) d/dphi, L_phi = -i d/dtheta; what depends on
        # phi has to vanish at the poles
        h = field(case, case["s"], M - 2)
        f = times_sin(h)
        f[:, 0] = full[:, 0]
        h[:, 0] = 0
        got = ops.L_fc(lay(f, case))
        K.need(len(got) == 2, "L_fc returned %d arrays", len(got))
        agree(got[0], 1j * ev_d(h, th, ph, 0, 1), R * C, 1j * m1 * h, C)
        agree(got[1], -1j * ev_d(f, th, ph, 1, 0), R, -1j * k1 * f)
        if R <= 400:
            got = ops.L_fc(lay(whole, case))
            agree(got[1], -1j * ev_d(whole, th, ph, 1, 0), R)
    elif op == "pad":
        Le = R + case["more"]
        x = lay(whole, case)
        out = lay(G.fill((Le, C), case["t"], "complex") + 1, case)
        ops.pad_rows_fdata(x, out)
        # the unpaired row is left out
        bare = whole.copy()
        bare[M] = 0
        K.close(ev(out, th, ph), ev(bare, th, ph), tol, name)
        K.same(x, whole, name + ": its input")
        if case["less"] and R - case["less"] > 0:
            small = np.zeros((R - case["less"], C), dtype=complex)
            try:
                ops.pad_rows_fdata(x, small)
            except Exception:
                pass
            else:
                K.need(False, "pad_rows_fdata accepted %d rows for %d",
                       small.shape[0], R)
    elif op == "fix":
        n = R - case["i"] % 2          # odd counts have no unpaired row
        if case["kind"] in ("one", "edge"):
            a = np.zeros((n, C), dtype=complex)
            a[case["i"] % n, case["t"] % C] = 1.0 - 0.5j
        else:
            a = G.fill((n, C), case["s"], {"dense": "complex"}.get(
                case["kind"], case["kind"]))
        if case.get("gap") == 1:
            a[0] = 0
        a = a * 10.0 ** case["e"]
        x = lay(a, case)
        ops.fix_even_row_data_fc(x)
        want = a.copy()
        if n % 2 == 0:
            want[n // 2] = 0
        K.same(x, want, name)
        return [op, "rows-odd" if n % 2 else "rows-even"]
    else:
        # division undoes multiplication; derivatives commute
        x = lay(f, case)
        ops.sin_fc(x)
        ops.divsin_fc(x)
        name = "sin_fc then divsin_fc"
        agree(x, ev(f, th, ph), R, f)
        x, y = lay(full, case), lay(full, case)
        ops.dtheta_fc(x)
        ops.dphi_fc(x)
        ops.dphi_fc(y)
        ops.dtheta_fc(y)
        name = "dtheta_fc and dphi_fc"
        agree(x, ev_d(full, th, ph, 1, 1), R * C, k1 * m1 * full, C)
        agree(y, ev_d(full, th, ph, 1, 1), R * C, k1 * m1 * full, C)
    return [op, "values-" + case["kind"], "layout-" + case["layout"],
            "unpaired-column" if case["wide"] else "paired-columns",
            "unpaired-row" if case.get("tall") else "paired-rows"]


def fixed(tier):
    hi = 5 if tier == "quick" else 12
    for op in OPS:
        for r in range(1 if op in SHORT else 2, hi + 2):
            for c in range(1, hi + 1):
                for kind in ("dense", "edge"):
                    yield {"op": op, "R": 2 * r, "C": 2 * c,
                           "more": 2 * (c - 1), "less": 2,
                           "tall": (r + 2 * c) % 3 % 2 or kind == "edge",
                           "kind": kind, "i": r + c, "e": 0,
                           "s": 100 * r + c, "t": 7, "layout": "C",
                           "wide": (r + c) % 2}


def fixed_long(tier):
    for op in OPS:
        for R, C in ((3000, 2), (2050, 8), (1024, 20), (8, 2500), (20, 1026),
                     (512, 60), (60, 500)):
            yield {"op": op, "R": R, "C": C, "more": 6, "less": 2,
                   "kind": "edge" if C == 8 else "dense", "i": R + C, "e": 0,
                   "s": 100 * R + C, "t": 7, "layout": "C", "wide": C % 4 // 2}


FACETS = [
    Facet("operators", cases, check, None, quick=2000, thorough=60000,
          fixed=fixed, shards=4, tshards=8,
          rule="every operator on every small even size, then generated; each "
               "case compares the resulting trigonometric sum with the named "
               "operation at 12 directions, poles included"),
    Facet("large", lambda: cases(240, 60), check, None, quick=300,
          thorough=8000, shards=2, tshards=8,
          rule="the same up to 240 rows and 60 columns"),
    Facet("long", lambda: cases(3000, 3000, 30000), check, None, quick=400,
          thorough=8000, shards=4, tshards=8, fixed=fixed_long,
          rule="the same with up to 3000 rows or columns"),
]
