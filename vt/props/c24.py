"""C24 representations of coefficient sets."""
import contextlib
import io
import re

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet, Violation

sp = sut.load()

FORMS = ["array", "per-m", "per-n", "str", "repr", "pretty"]


@st.composite
def cases(draw, hi=14, far=False):
    nmax, mmax = draw(G.nm_far_or(far, hi, modes=1500))
    k = draw(st.sampled_from(["dense", "dense", "mixed", "small", "sparse"]))
    c = {"nmax": nmax, "mmax": mmax, "vector": draw(st.booleans()),
         "form": draw(st.sampled_from(FORMS)), "kind": k, "s": draw(G.SEED)}
    if k == "small":
        # a few awkward values
        c["v"] = draw(st.lists(st.tuples(*[VAL] * 2).map(list), min_size=1,
                               max_size=12))
    elif k == "sparse":
        c["v"] = draw(st.lists(st.tuples(
            st.integers(0, 10 ** 6), VAL, VAL).map(list), max_size=4))
    else:
        c["e"] = draw(st.sampled_from([0, 0, -5, 5, -100, 100, -300, 290]))
    return c


VAL = st.one_of(
    st.sampled_from([0.0, -0.0, 1.0, -1.0, 0.5, 1e-5, 1e16, -1e300, 5e-324,
                     float("inf"), float("-inf"), float("nan"), 100.0,
                     0.1, 99.5, 0.00099]),
    st.floats(-1e3, 1e3, allow_nan=False),
    st.integers(-20, 20).map(float))


def values(case, which):
    """{(n, m): value} of one set."""
    ms = O.modes(case["nmax"], case["mmax"])
    if case["kind"] == "sparse":
        d = {q: 0j for q in ms}
        for i, a, b in case["v"]:
            d[ms[(i + which) % len(ms)]] = complex(a, b)
        return d
    if case["kind"] == "small":
        v = [complex(*case["v"][(i + which) % len(case["v"])])
             for i in range(len(ms))]
    else:
        v = G.fill((len(ms),), (case["s"] + which) % 2 ** 31, "complex")
        v = v * 10.0 ** case["e"]
        if case["kind"] == "mixed":
            # every value another magnitude
            v = v * 10.0 ** (np.arange(len(ms)) % 9 - 4.0)
    return {q: complex(x) for q, x in zip(ms, v)}


def eq(a, b, rel):
    """The same number, to the digits the form gives."""
    for x, y in ((a.real, b.real), (a.imag, b.imag)):
        if np.isnan(y):
            if not np.isnan(x):
                return False
        elif np.isinf(y) or y == 0:
            if x != y:
                return False
        elif not abs(x - y) <= rel * abs(y) + 5e-324 * (rel > 1e-3):
            return False
    return True


def show(v, want, rel, what):
    K.need(eq(complex(v), want, rel), "%s shows %r, the value is %r", what,
           v, want)


NUM = r"(?:\d+\.?\d*(?:[eE][-+]?\d+)?|inf|nan)"
CPX = re.compile(r"[-+]?%s[-+]%sj|[-+]?%sj|[-+]?%s" % (NUM, NUM, NUM, NUM))


def tokens(text):
    return [complex(t) for t in CPX.findall(text)]


def check_array(a, d, nmax, mmax, what):
    a = K.arr(a, (nmax + 1, 2 * mmax + 1), what)
    for n in range(nmax + 1):
        for m in range(-mmax, mmax + 1):
            show(a[n, m + mmax], d.get((n, m), 0j), 1e-15,
                 "%s at (n=%d, m=%d)" % (what, n, m))


def check_per_m(l, d, nmax, mmax, what):
    order = [0] + [s * m for m in range(1, mmax + 1) for s in (-1, 1)]
    K.need(len(l) == len(order), "%s has %d entries for mmax=%d", what,
           len(l), mmax)
    for x, m in zip(l, order):
        x = K.arr(x, (nmax - abs(m) + 1,), "%s, m=%d" % (what, m))
        for i, v in enumerate(x):
            show(v, d[(abs(m) + i, m)], 1e-15,
                 "%s at (n=%d, m=%d)" % (what, abs(m) + i, m))


def check_per_n(l, d, nmax, mmax, what):
    K.need(len(l) == nmax + 1, "%s has %d entries for nmax=%d", what, len(l),
           nmax)
    for n, x in enumerate(l):
        t = min(n, mmax)
        K.need(len(x) == 2 * t + 1, "%s has %d values for n=%d", what, len(x),
               n)
        for i, v in enumerate(x):
            show(v, d[(n, i - t)], 1e-15, "%s at (n=%d, m=%d)"
                 % (what, n, i - t))


def check_str(text, d, nmax, mmax):
    head, _, body = text.partition("n = 0 ::")
    K.need(re.findall(r"\d+", head) == [str(nmax), str(mmax)],
           "str starts with %r", head)
    lines = ("n = 0 ::" + body).strip().splitlines()
    K.need(len(lines) == nmax + 1, "str has %d lines for nmax=%d",
           len(lines), nmax)
    rows = []
    for n, l in enumerate(lines):
        m = re.match(r"n = (\d+) ::(.*)$", l)
        K.need(m and int(m.group(1)) == n, "str: line %d is %.60r", n, l)
        rows.append(tokens(m.group(2)))
    check_per_n_printed(rows, d, nmax, mmax, "str")


def check_repr(text, d, nmax, mmax):
    head, _, body = text.partition("[")
    K.need(re.findall(r"\d+", head) == [str(nmax), str(mmax)],
           "repr starts with %r", head)
    K.need("ScalarCoefs" in head, "repr starts with %r", head)
    rows = [tokens(x) for x in re.findall(r"\[([^\[\]]*)\]", "[" + body)]
    check_per_n_printed(rows, d, nmax, mmax, "repr")


def check_per_n_printed(rows, d, nmax, mmax, what):
    K.need(len(rows) == nmax + 1, "%s shows %d degrees for nmax=%d", what,
           len(rows), nmax)
    for n, x in enumerate(rows):
        t = min(n, mmax)
        K.need(len(x) == 2 * t + 1, "%s shows %d values for n=%d", what,
               len(x), n)
        for i, v in enumerate(x):
            show(v, d[(n, i - t)], 1e-7, "%s at (n=%d, m=%d)"
                 % (what, n, i - t))


def check_pretty(text, d, nmax, mmax):
    lines = text.splitlines()
    foot = [l for l in lines if re.search(r"m = -?\d", l)]
    K.need(len(foot) == 1, "pretty_coefs shows no m labels: %r", text)
    cols = {int(x.group(1)): (x.start() + x.end()) / 2.0
            for x in re.finditer(r"m = (-?\d+)", foot[0])}
    K.need(sorted(cols) == [-2, -1, 0, 1, 2], "pretty_coefs labels %s",
           sorted(cols))
    seen = set()
    for l in lines:
        h = re.match(r"(\d+):(.*)$", l)
        if not h:
            continue
        n = int(h.group(1))
        K.need(n in (0, 1, 2) and n not in seen, "pretty_coefs has row %d", n)
        seen.add(n)
        toks = [(x.group(0), (x.start() + x.end()) / 2.0)
                for x in re.finditer(r"\S+", h.group(2))]
        off = h.start(2)
        ms = [m for m in range(-2, 3)
              if n <= nmax and abs(m) <= min(n, mmax)]
        K.need(len(toks) == len(ms), "pretty_coefs shows %d values for n=%d: "
               "%r", len(toks), n, l)
        fits = all(len(t) <= 13 for t, _ in toks)
        for (t, pos), m in zip(toks, ms):
            try:
                v = complex(t)
            except ValueError:
                raise Violation("pretty_coefs shows %r" % t)
            show(v, d[(n, m)], 0.06, "pretty_coefs at (n=%d, m=%d)" % (n, m))
            if fits:
                near = min(cols, key=lambda q: abs(cols[q] - pos - off))
                K.need(near == m, "pretty_coefs puts (n=%d, m=%d) under "
                       "m = %d: %r", n, m, near, l)
    K.need(seen == {0, 1, 2}, "pretty_coefs has rows %s", sorted(seen))


def check(case):
    nmax, mmax, vec = case["nmax"], case["mmax"], case["vector"]
    form = case["form"]
    D = [values(case, w) for w in (0, 1)]
    if vec:
        for d in D:
            d[(0, 0)] = 0j
        c = G.make_vcoefs(sp, D[0], D[1], nmax, mmax)
    else:
        c = G.make_scoefs(sp, D[0], nmax, mmax)
    lab = [form, "vector" if vec else "scalar", "values-" + case["kind"]]
    meth = {"array": ("_array_2d_repr", check_array),
            "per-m": ("_reshape_n_vecs", check_per_m),
            "per-n": ("_reshape_m_vecs", check_per_n)}.get(form)
    if meth:
        f = getattr(c, meth[0], None)
        if f is None:
            return lab + ["absent"]
        r = f()
        if vec:
            K.need(len(r) == 2, "%s of vector coefficients has %d parts",
                   form, len(r))
            for x, d, w in zip(r, D, "12"):
                meth[1](x, d, nmax, mmax, "%s form of set %s" % (form, w))
        else:
            meth[1](r, D[0], nmax, mmax, form + " form")
        return lab
    if vec:
        # the printed form of a vector set gives its sizes; its sets print
        for t in (repr(c), str(c)):
            K.need(re.findall(r"\d+", t)[:2] == [str(nmax), str(mmax)],
                   "a vector set prints as %.200r", t)
    for s, d in (zip((c.scoef1, c.scoef2), D) if vec else [(c, D[0])]):
        if form == "str":
            check_str(str(s), d, nmax, mmax)
        elif form == "repr":
            check_repr(repr(s), d, nmax, mmax)
        else:
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                sp.pretty_coefs(s)
            check_pretty(out.getvalue(), d, nmax, mmax)
    return lab


def fixed(tier):
    hi = 6 if tier == "quick" else 14
    for form in FORMS:
        for n in range(hi + 1):
            for m in range(n + 1):
                for v in (False, True):
                    yield {"nmax": n, "mmax": m, "vector": v, "form": form,
                           "kind": "mixed", "e": 0, "s": 50 * n + m}


def nontrivial(case):
    return case["nmax"] > 0 and (case["kind"] != "sparse" or any(
        x[1] or x[2] for x in case["v"]))


def fixed_wide(tier):
    """Rows or columns of more than a thousand values."""
    for i, (n, m, v, forms) in enumerate([
            (500, 500, False, ["str", "repr", "per-n"]),
            (1001, 0, False, ["str", "repr", "array", "per-m", "per-n"]),
            (1030, 1, True, ["str", "array", "per-m"]),
            (501, 501, False, ["array", "per-m"])]):
        for f in forms:
            yield {"nmax": n, "mmax": m, "vector": v, "form": f,
                   "kind": "mixed", "e": 0, "s": 7 + i}


FACETS = [
    Facet("forms", cases, check, nontrivial, quick=2000, thorough=60000,
          fixed=fixed, shards=4, tshards=8,
          rule="all six forms at every small size, then generated sizes and "
               "values (huge, tiny, zero, infinite, NaN), read back mode by "
               "mode; non-trivial = nmax > 0 and not all zero"),
    Facet("far", lambda: cases(far=True), check, nontrivial, quick=60,
          thorough=1500, shards=3, tshards=8,
          rule="degrees up to 260, up to 1500 modes"),
    Facet("wide", None, check, nontrivial, quick=0, thorough=0, shards=5,
          tshards=5, fixed=fixed_wide,
          rule="degrees and orders from 500 to 1030"),
    Facet("large", lambda: cases(60), check, nontrivial, quick=100,
          thorough=3000, shards=2, tshards=8,
          rule="degrees up to 60"),
]
