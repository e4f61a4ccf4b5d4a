"""C26 purity and independence of history.

A case is a pool of objects and a sequence of operations on it.  Around every
operation the whole pool is compared with what it was; every operation is
repeated, the second result is overwritten, and neither the pool nor the first
result may notice; and some operations are repeated in a process that has never
done anything else, where they must give the same result.
"""
import contextlib
import gc
import hashlib
import io
import itertools
import locale
import os
import pickle
import random
import shutil
import struct
import sys
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()
SC = st.sampled_from([0, 0, 0, 0, -8, 8, -100, 100])
REL = 1e-11


# ------------------------------------------------------------ the operations
# name -> (kinds of the arguments, kind of the result, function)
# kinds: s, v: coefficient sets; p, t: patterns; the result kind is one of
# those, "x" (numbers, text, arrays: new storage), "w" (may be a view).

TYPES = [float, int, complex, np.float64, np.complex128, np.int64]


def num(z):
    """[re, im, type of a real number]"""
    t = TYPES[z[2] if len(z) > 2 else 0]
    z = complex(z[0], z[1])
    if z.imag != 0:
        return z
    if t in (int, np.int64):
        return t(round(z.real)) if abs(z.real) < 2 ** 53 else z.real
    return t(z.real)


def backend(o, f):
    old = sp.spherepy.use_cext
    sp.spherepy.use_cext = not o["py"]
    try:
        return f()
    finally:
        sp.spherepy.use_cext = old


SHARED = []                  # C28: one folder for the files of all threads
COUNT = itertools.count()


@contextlib.contextmanager
def folder():
    """Gives the function from a name to the path of a file."""
    if SHARED:
        k = next(COUNT)
        yield lambda n: os.path.join(SHARED[0], "%d-%s" % (k, n))
        return
    d = tempfile.mkdtemp()
    try:
        yield lambda n: os.path.join(d, n)
    finally:
        shutil.rmtree(d)


def file_text(save, x):
    with folder() as d:
        f = d("f.txt")
        save(x, f)
        return open(f).read()


def through_file(save, load, x):
    with folder() as d:
        f = d("f.txt")
        save(x, f)
        return load(f)


def two_files(x):
    with folder() as d:
        f = [d(n) for n in "ab"]
        for a, n in zip((x.theta, x.phi), f):
            sp.file.save_patt(sp.ScalarPatternUniform(np.array(a)), n)
        return sp.file.load_vpatt(*f)


def no_file():
    with folder() as d:
        return sp.file.load_coef(d("missing.txt"))


def shown(f, x):
    b = io.StringIO()
    with contextlib.redirect_stdout(b):
        f(x)
    return b.getvalue()


def assign(o, c, m, v):
    v = np.resize(np.array([num(z) for z in v], dtype=np.complex128),
                  c.nmax - abs(m) + 1 + o["k"] % 5 // 4)
    c[:, m] = v


def assign_n(o, c, n, v):
    v = np.resize(np.array([num(z) for z in v], dtype=np.complex128),
                  2 * min(n, c.mmax) + 1 + o["k"] % 5 // 4)
    c[n, :] = v


def col(o, c):
    return (o["k"] * 7) % (2 * c.mmax + 1) - c.mmax


def row(o, c):
    return (o["k"] * 5) % (c.nmax + 1)


def second(o, c):
    return (c.scoef1, c.scoef2)[o["k"] % 2]


def form(name, c):
    f = getattr(c, name, None)
    return f() if f else "no such form"


def sizes(o):
    return o["n1"], o["n2"]


def swap(c):
    """The same values for the opposite orders and, where all is symmetric,
    other degrees."""
    for m in range(1, c.mmax + 1):
        a, b = np.array(c[:, m]), np.array(c[:, -m])
        c[:, m], c[:, -m] = b, a
    for m in range(0, min(c.mmax, c.nmax - 1) + 1):
        if m or c.nmax > 1:
            a = np.array(c[:, m])
            i = 1 if m == 0 else 0
            a[i:] = a[i:][::-1]
            c[:, m] = a


def swapped(c):
    d = c.copy()
    for x in ((d.scoef1, d.scoef2) if kind(c) == "v" else (d,)):
        swap(x)
    return d


def exchanged(c):
    d = sp.zeros_coefs(c.nmax, c.mmax, coef_type=sp.vector)
    refill(d.scoef1, columns(c.scoef2))
    refill(d.scoef2, columns(c.scoef1))
    return d


OPS = {
    # the same values in other places
    "s.swap": ("s", "!", lambda o, c: swap(c)),
    "v.swap": ("v", "!", lambda o, c: swap(second(o, c))),
    "s.swapped": ("s", "s", lambda o, c: swapped(c)),
    "v.swapped": ("v", "v", lambda o, c: swapped(c)),
    "v.exchanged": ("v", "v", lambda o, c: exchanged(c)),
    "p.turned": ("p", "p", lambda o, p: sp.ScalarPatternUniform(
        np.roll(p.array, 1, axis=1))),
    "p.flipped": ("p", "p", lambda o, p: sp.ScalarPatternUniform(
        np.array(p.array[::-1]))),
    "t.turned": ("t", "t", lambda o, p: sp.TransversePatternUniform(
        np.roll(p.theta, 1, axis=1), np.roll(p.phi, 1, axis=1))),
    "t.exchanged": ("t", "t", lambda o, p: sp.TransversePatternUniform(
        p.phi, p.theta)),
    # new coefficient sets
    "s.copy": ("s", "s", lambda o, c: c.copy()),
    "v.copy": ("v", "v", lambda o, c: c.copy()),
    "s.trunc": ("s", "s", lambda o, c: c[0:o["k"], :]),
    "v.trunc": ("v", "v", lambda o, c: c[0:o["k"], :]),
    "v.first": ("v", "s", lambda o, c: c.scoef1.copy()),
    "v.second": ("v", "s", lambda o, c: c.scoef2.copy()),
    "abs": ("s", "s", lambda o, c: sp.abs(c)),
    "mag": ("s", "s", lambda o, c: sp.mag(c)),
    "mag2": ("s", "s", lambda o, c: sp.mag2(c)),
    "v.mag": ("v", "s", lambda o, c: sp.mag(c)),
    "v.mag2": ("v", "s", lambda o, c: sp.mag2(c)),
    # transforms
    "ispht": ("s", "p", lambda o, c: backend(o, lambda: sp.ispht(c))),
    "ispht.n": ("s", "p", lambda o, c: backend(o, lambda: sp.ispht(
        c, c.nmax + 1 + o["n1"], 2 * c.mmax + 1 + o["n2"]))),
    "vispht": ("v", "t", lambda o, c: backend(o, lambda: sp.vispht(c))),
    "vispht.n": ("v", "t", lambda o, c: backend(o, lambda: sp.vispht(
        c, c.nmax + 1 + o["n1"], 2 * c.mmax + 1 + o["n2"]))),
    "ispht_slow": ("s", "p", lambda o, c: sp.ispht_slow(
        c, c.nmax + 2 + o["n1"], 2 * c.mmax + 2 + o["n2"] // 2 * 2)),
    "spht": ("p", "s", lambda o, p: backend(o, lambda: sp.spht(p))),
    "spht.n": ("p", "s", lambda o, p: backend(o, lambda: sp.spht(
        p, *sizes(o)))),
    "vspht": ("t", "v", lambda o, p: backend(o, lambda: sp.vspht(p))),
    "vspht.n": ("t", "v", lambda o, p: backend(o, lambda: sp.vspht(
        p, *sizes(o)))),
    "spht_slow": ("p", "s", lambda o, p: sp.spht_slow(
        p, min(p.nrows - 2, o["n1"]),
        min(p.nrows - 2, o["n1"], p.ncols // 2 - 1, o["n2"]))),
    # figures and text
    "power": ("s", "x", lambda o, c: c.power()),
    "spectrum": ("s", "x", lambda o, c: c.angular_power_spectrum()),
    "size": ("s", "x", lambda o, c: c.size),
    "v.size": ("v", "x", lambda o, c: c.size),
    "L2": ("s", "x", lambda o, c: sp.L2_coef(c)),
    "v.L2": ("v", "x", lambda o, c: sp.L2_coef(c)),
    "LInf": ("s", "x", lambda o, c: sp.LInf_coef(c)),
    "v.LInf": ("v", "x", lambda o, c: sp.LInf_coef(c)),
    "p.L2": ("p", "x", lambda o, c: sp.L2_patt(c)),
    "t.L2": ("t", "x", lambda o, c: sp.L2_patt(c)),
    "p.LInf": ("p", "x", lambda o, c: sp.LInf_patt(c)),
    "t.LInf": ("t", "x", lambda o, c: sp.LInf_patt(c)),
    "compare": ("ss", "x", lambda o, c, d: sp.compare_relative(c, d)),
    "text": ("svpt", "x", lambda o, *a: [repr(x) for x in a]),
    "str": ("sv", "x", lambda o, *a: [str(x) for x in a]),
    "pretty": ("s", "x", lambda o, c: shown(sp.pretty_coefs, c)),
    "get": ("s", "x", lambda o, c: c[row(o, c), col(o, c)]),
    "v.get": ("v", "x", lambda o, c: list(c[row(o, c), col(o, c)])),
    "column": ("s", "w", lambda o, c: c[:, col(o, c)]),
    "row": ("s", "x", lambda o, c: c[row(o, c), :]),
    "v.column": ("v", "w", lambda o, c: list(c[:, col(o, c)])),
    "p.mag": ("p", "x", lambda o, p: sp.mag(p)),
    "p.abs": ("p", "x", lambda o, p: sp.abs(p)),
    "p.mag2": ("p", "x", lambda o, p: sp.mag2(p)),
    "t.mag": ("t", "x", lambda o, p: sp.mag(p)),
    "t.mag2": ("t", "x", lambda o, p: sp.mag2(p)),
    "p.single": ("p", "x", lambda o, p: [p.single_val, p.is_symmetric]),
    "t.single": ("t", "x", lambda o, p: [p.single_val, p.is_symmetric]),
    "p.array": ("p", "w", lambda o, p: [sp.array(p), p.cdata]),
    "t.array": ("t", "w", lambda o, p: list(sp.array(p))),
    "doubled": ("p", "x", lambda o, p: sp.double_sphere(p.doublesphere, 1)),
    "continued": ("p", "x", lambda o, p: sp.continue_sphere(p.array, 1)),
    "p.again": ("p", "p", lambda o, p: sp.ScalarPatternUniform(p.array)),
    "t.again": ("t", "t", lambda o, p: sp.TransversePatternUniform(
        p.theta, p.phi)),
    # files
    "s.saved": ("s", "x", lambda o, c: file_text(sp.file.save_coef, c)),
    "p.saved": ("p", "x", lambda o, c: file_text(sp.file.save_patt, c)),
    "s.file": ("s", "s", lambda o, c: through_file(
        sp.file.save_coef, sp.file.load_coef, c)),
    "p.file": ("p", "p", lambda o, c: through_file(
        sp.file.save_patt, sp.file.load_patt, c)),
    "t.file": ("t", "t", lambda o, c: two_files(c)),
    # out of nothing
    "zeros": ("", "s", lambda o: sp.zeros_coefs(o["n1"], o["n2"])),
    "ones": ("", "s", lambda o: sp.ones_coefs(o["n1"], o["n2"])),
    "v.zeros": ("", "v", lambda o: sp.zeros_coefs(
        o["n1"], o["n2"], coef_type=sp.vector)),
    "v.ones": ("", "v", lambda o: sp.ones_coefs(
        o["n1"], o["n2"], coef_type=sp.vector)),
    "p.zeros": ("", "p", lambda o: sp.zeros_patt_uniform(
        o["n1"], o["n2"])),
    "p.ones": ("", "p", lambda o: sp.ones_patt_uniform(o["n1"], o["n2"])),
    "t.zeros": ("", "t", lambda o: sp.zeros_patt_uniform(
        o["n1"], o["n2"], patt_type=sp.vector)),
    "random": ("", "s", lambda o: seeded(o, lambda: sp.random_coefs(
        o["n1"], o["n2"], 1.0, 2.0))),
    "p.random": ("", "p", lambda o: seeded(o, lambda: sp.random_patt_uniform(
        o["n1"], o["n2"]))),
    "v.random": ("", "v", lambda o: seeded(o, lambda: sp.random_coefs(
        o["n1"], o["n2"], coef_type=sp.vector))),
    "t.random": ("", "t", lambda o: seeded(o, lambda: sp.random_patt_uniform(
        o["n1"], o["n2"], patt_type=sp.vector))),
    "2d": ("s", "x", lambda o, c: form("_array_2d_repr", c)),
    "per-m": ("s", "w", lambda o, c: form("_reshape_n_vecs", c)),
    "per-n": ("s", "x", lambda o, c: form("_reshape_m_vecs", c)),
    "v.2d": ("v", "x", lambda o, c: form("_array_2d_repr", c)),
    "hankel": ("", "x", lambda o: [f(0.3 + o["n2"], o["n1"] + 1) for f in (
        sp.sbesselh1, sp.sbesselh2)]),
    "diagnose": ("", "x", lambda o: [
        sp.sbesselj_sum(0.3 + o["n2"], 60 + o["n1"]),
        sp.sbessel_test_cross_product(0.3 + o["n2"], o["n1"] + 1)]),
    "ynunm": ("", "x", lambda o: sp.pysphi.ynunm(
        o["n1"], min(o["n1"], o["n2"]), o["n1"] + 1)),
    "harmonic": ("", "x", lambda o: sp.sph_harmonic_tp(
        o["n1"] + 2, o["n2"] * 2 + 2, o["n1"], min(o["n1"], o["n2"]))),
    "besselj": ("", "x", lambda o: sp.sbesselj(0.3 + o["n2"], o["n1"] + 1)),
    "bessely": ("", "x", lambda o: sp.sbessely(0.3 + o["n2"], o["n1"] + 1)),
    "besselj.a": ("", "x", lambda o: sp.sbesselj_array(
        np.arange(1.0, 4.0) * o["n2"] + 0.5, o["n1"] + 1)),
    # in place
    "s.set.m": ("s", "!", lambda o, c: assign(o, c, col(o, c), o["z"])),
    "s.set.n": ("s", "!", lambda o, c: assign_n(o, c, row(o, c), o["z"])),
    "s.set": ("s", "!", lambda o, c: c.__setitem__(
        (row(o, c), min(max(col(o, c), -row(o, c)), row(o, c))
         + o["k"] % 5 // 4 * (c.nmax + 1)), num(o["z"][0]))),
    "window": ("s", "!", lambda o, c: c.window(
        np.linspace(0.5, 1, c.nmax + 1 + o["k"] % 5 // 4))),
    "v.set": ("v", "!", lambda o, c: c.__setitem__(
        (row(o, c), min(max(col(o, c), -row(o, c)), row(o, c))),
        (num(o["z"][0]), num(o["z"][-1])))),
    "v.set.m": ("v", "!", lambda o, c: assign(
        o, second(o, c), col(o, c) or c.mmax and 1, o["z"])),
    "v.window": ("v", "!", lambda o, c: second(o, c).window(
        np.linspace(0.5, 1, c.nmax + 1))),
    # failures
    "bad.spht": ("p", "x", lambda o, p: sp.spht(p, p.nrows + o["k"], 0)),
    "bad.vspht": ("t", "x", lambda o, p: sp.vspht(p, 1 + o["k"],
                                                  2 + o["k"])),
    "bad.ispht": ("s", "x", lambda o, c: sp.ispht(c, c.nmax - o["k"], 2)),
    "bad.vispht": ("v", "x", lambda o, c: sp.vispht(c, c.nmax + 9,
                                                    2 * c.mmax + 3)),
    "bad.get": ("s", "x", lambda o, c: c[c.nmax + 1 + o["k"], 0]),
    "bad.column": ("s", "x", lambda o, c: c[:, c.mmax + 1]),
    "bad.div": ("s", "x", lambda o, c: c / 0),
    "bad.mix": ("sp", "x", lambda o, c, p: c + p),
    "bad.file": ("", "x", lambda o: no_file()),
    "bad.zeros": ("", "x", lambda o: sp.zeros_coefs(o["k"], o["k"] + 1)),
}


def seeded(o, f):
    old = np.random.get_state()
    try:
        np.random.seed(o["k"])
        return f()
    finally:
        np.random.set_state(old)


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b,
       "*": lambda a, b: a * b, "/": lambda a, b: a / b}
for _k in "svpt":
    for _b, _f in BIN.items():
        OPS[_k + _b + _k] = (_k * 2, _k, lambda o, a, b, f=_f: f(a, b))
        OPS[_k + _b + "z"] = (_k, _k,
                              lambda o, a, f=_f: f(a, num(o["z"][0])))
        OPS["z" + _b + _k] = (_k, _k,
                              lambda o, a, f=_f: f(num(o["z"][0]), a))

GROUPS = {}
for _n in OPS:
    GROUPS.setdefault(
        "transform" if "spht" in _n and "bad" not in _n else
        "bad" if _n.startswith("bad") else
        "arith" if _n[-2:-1] in BIN and len(_n) == 3 else
        "inplace" if OPS[_n][1] == "!" else
        "make" if OPS[_n][1] in "svpt" else "look", []).append(_n)
PICK = ["transform"] * 5 + ["arith"] * 3 + ["make"] * 3 + ["look"] * 3 + \
    ["inplace"] * 2 + ["bad"]


@st.composite
def numbers(draw):
    """Neutral elements often: they tempt to return the operand itself."""
    k = draw(st.integers(0, len(TYPES) - 1))
    if draw(st.booleans()):
        return [draw(st.sampled_from([1, 0, -1, 2])), 0, k]
    return draw(G.cnum()) + [k]


@st.composite
def op(draw, size):
    n = draw(st.sampled_from(GROUPS[draw(st.sampled_from(PICK))]))
    return {"op": n, "a": draw(st.integers(0, 5)), "b": draw(
        st.integers(0, 5)), "k": draw(st.integers(0, 9)),
        "n1": draw(st.integers(0, size)), "n2": draw(st.integers(0, size)),
        "z": draw(st.lists(numbers(), min_size=1, max_size=2)),
        "py": draw(st.integers(0, 3)) == 0}


@st.composite
def pool(draw, size):
    out = []
    for k in "svpt":
        for _ in range(draw(st.integers(1, 2))):
            if k in "sv":
                n = draw(st.integers(0, size))
                m = draw(st.one_of(st.just(n), st.integers(0, n)))
                a, b = draw(G.pair(G.coef_values(n, m, SC)))
                out.append({"k": k, "n": n, "m": m, "a": a, "b": b})
            else:
                n = draw(st.integers(2, size + 2))
                m = 2 * draw(st.integers(1, size + 1))
                a, b = draw(G.pair(G.samples(n, m, SC)))
                out.append({"k": k, "n": n, "m": m, "a": a, "b": b,
                            "poles": draw(G.POLES)})
    return out


def histories(size, nops):
    @st.composite
    def s(draw):
        return {"pool": draw(pool(size)),
                "ops": draw(st.lists(op(size), min_size=3,
                                     max_size=nops)),
                "fresh": draw(st.lists(st.integers(0, nops), min_size=1,
                                       max_size=3, unique=True))}
    return s()


def every_op(tier):
    """Every operation at least once on every pool below, with every neutral
    element, and twice in a row."""
    D = {"k": "dense", "e": 0, "s": 3, "f": "complex"}
    R = dict(D, f="real")

    def pl(n, m, d):
        return [dict(k=k, n=n, m=m, a=d, b=dict(d, s=4)) for k in "sv"] + \
            [dict(k=k, n=n + 2, m=2 * m + 2, a=d, b=dict(d, s=4), poles="raw")
             for k in "pt"]
    pools = [pl(3, 3, D), pl(2, 0, R), pl(4, 1, D)]
    if tier == "thorough":
        pools += [pl(0, 0, D), pl(1, 1, R), pl(6, 2, D)]
    out = []
    for name in OPS:
        if name == "walk":
            continue
        neutral = [[1, 0, 0]]
        if "z" in name and len(name) == 3:
            neutral = [[v, 0, t] for v in (1, 0, -1)
                       for t in range(len(TYPES))]
        for i, p in enumerate(pools):
            for z in neutral:
                o = {"op": name, "a": 0, "b": 0, "k": i + 1, "n1": i + 2,
                     "n2": i + 1 + i % 2, "z": [z], "py": False}
                out.append({"pool": p, "ops": [o, dict(o, a=1)],
                            "fresh": [0] if z == [1, 0, 0] else []})
    # sums of a single value do not depend on the order of summation
    U = {"k": "unit", "e": 0, "n": 3, "m": 1, "p": 0}
    W = {"k": "unit", "e": 0, "n": 2, "m": -2, "p": 0}
    P = {"k": "points", "e": 0, "v": [[1, 2, 1.0, 0.0], [3, 2, 1.0, 0.0]]}
    Q = {"k": "points", "e": 0, "v": [[2, 1, 1.0, 0.0]]}
    single = [dict(k=k, n=3, m=3, a=U, b=W) for k in "sv"] + \
        [dict(k=k, n=5, m=8, a=P, b=Q, poles="raw") for k in "pt"]
    # something is asked for, the object is written, the same is asked again
    for name, (kinds, res, _) in sorted(OPS.items()):
        for w, (k, r, _) in sorted(OPS.items()):
            if r == "!" and res != "!" and k in kinds[:1]:
                o = {"op": name, "a": 0, "b": 0, "k": 2, "n1": 3, "n2": 2,
                     "z": [[2.5, 1]], "py": False}
                s = dict(o, op=w, k=1)
                out.append({"pool": single if "swap" in w else pools[0],
                            "ops": [o, s, o],
                            "fresh": [2] if "swap" in w else []})
    # something is asked of one object and then of another that holds the
    # same values in other places
    for name, (kinds, res, _) in sorted(OPS.items()):
        for w in ("s.swapped", "v.swapped", "v.exchanged", "p.turned",
                  "p.flipped", "t.turned", "t.exchanged"):
            if OPS[w][0] == kinds[:1] and res != "!" and "spht" in name or \
                    w in ("s.swapped", "t.turned") and OPS[w][0] == kinds[:1] \
                    and res in "x!":
                o = {"op": name, "a": 0, "b": 0, "k": 2, "n1": 3, "n2": 2,
                     "z": [[2.5, 1]], "py": False}
                out.append({"pool": single, "ops": [
                    o, dict(o, op=w), dict(o, a=1)], "fresh": [2]})
    return out


# ------------------------------------------------------------------ the state

def build(d):
    k, n, m = d["k"], d["n"], d["m"]
    if k == "s":
        return G.make_scoefs(sp, G.coef_dict(d["a"], n, m), n, m)
    if k == "v":
        return G.make_vcoefs(sp, G.coef_dict(d["a"], n, m),
                             G.coef_dict(d["b"], n, m), n, m)
    if k == "p":
        return G.make_spatt(sp, G.patt_array(d["a"], n, m, 1, d["poles"]))
    return G.make_vpatt(sp, G.patt_array(d["a"], n, m, -1, d["poles"]),
                        G.patt_array(d["b"], n, m, -1, d["poles"]))


def kind(x):
    for k, c in (("s", sp.ScalarCoefs), ("v", sp.VectorCoefs),
                 ("p", sp.ScalarPatternUniform),
                 ("t", sp.TransversePatternUniform)):
        if isinstance(x, c):
            return k
    return None


def look(x):
    """Everything observable of a result, as plain data."""
    k = kind(x)
    if k == "s":
        return ["s", x.nmax, x.mmax, [np.array(x[:, m]) for m in
                                      range(-x.mmax, x.mmax + 1)]]
    if k == "v":
        return ["v", look(x.scoef1), look(x.scoef2)]
    if k == "p":
        return ["p", x.nrows, x.ncols, np.array(x.doublesphere)]
    if k == "t":
        return ["t", x.nrows, x.ncols, [np.array(d) for d in x.doublesphere]]
    if isinstance(x, np.ndarray):
        return np.array(x)
    if isinstance(x, (list, tuple)):
        return [look(y) for y in x]
    if isinstance(x, (np.generic, int, float, complex, bool)):
        return np.array(x)
    return x


def scribble(x):
    """Overwrite every array of a result that can be reached and written."""
    k = kind(x)
    if k == "s":
        for m in range(-x.mmax, x.mmax + 1):
            x[:, m] = np.full(x.nmax - abs(m) + 1, 9e7)
    elif k == "v":
        scribble(x.scoef1)
        scribble(x.scoef2)
    elif k in ("p", "t"):
        for d in ([x.doublesphere] if k == "p" else x.doublesphere):
            if isinstance(d, np.ndarray) and d.flags.writeable:
                d[...] = 9e7
    elif isinstance(x, np.ndarray):
        if x.flags.writeable and x.dtype.kind in "fc":
            x[...] = 9e7
    elif isinstance(x, (list, tuple)):
        for y in x:
            scribble(y)


def agree(a, b, what, exact=False):
    """Two looks agree."""
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        K.need(a.shape == b.shape, "%s: shape %s, then %s", what, a.shape,
               b.shape)
        if exact or a.dtype.kind not in "fc":
            K.same(b, a, what)
            return
        ok = (a == b) | ((a != a) & (b != b))
        if not np.all(ok):
            fin = np.isfinite(a)
            s = float(np.max(np.abs(a[fin]))) if np.any(fin) else 0.0
            bad = ~ok & ~(np.abs(a - b) <= REL * s)
            K.need(not np.any(bad), "%s: %s, then %s", what, a[bad][:1],
                   b[bad][:1])
        return
    if isinstance(a, list) and isinstance(b, list):
        K.need(len(a) == len(b), "%s: %d parts, then %d", what, len(a),
               len(b))
        for x, y in zip(a, b):
            agree(x, y, what, exact)
        return
    K.need(type(a) is type(b) and a == b, "%s: %.300r, then %.300r", what,
           a, b)


def quiet(*a):
    pass


def settle():
    """Settings of the process nobody would choose, so that a change to the
    usual ones shows as well."""
    np.seterr(divide="call", over="call", under="call", invalid="call")
    np.seterrcall(quiet)
    np.set_printoptions(precision=6, threshold=900, linewidth=71,
                        edgeitems=2)
    warnings.resetwarnings()
    warnings.filterwarnings("ignore", message=".*", append=True)


def world():
    return [sorted(np.geterr().items()), id(np.geterrcall()),
        np.getbufsize(), sorted(
        (k, str(v)) for k, v in np.get_printoptions().items()),
        os.getcwd(), sp.spherepy.use_cext, sys.getrecursionlimit(),
        [str(f) for f in warnings.filters], dict(os.environ),
        locale.setlocale(locale.LC_ALL), gc.isenabled(), gc.get_threshold(),
        sys.getswitchinterval(), id(sys.excepthook), list(sys.path),
        "python's random state " + hashlib.md5(repr(
            random.getstate()).encode()).hexdigest(),
        "random state " + hashlib.md5(pickle.dumps(
            np.random.get_state())).hexdigest()]


def noise():
    """Fill recently freed memory with large numbers."""
    for n in (1, 2, 3, 5, 8, 13, 21, 34, 55, 89, 144, 233, 377):
        a = [np.full(n, 7.7e77, dtype=np.complex128) for _ in range(6)]
        del a


def perform(o, args):
    """["ok", result, look] or ["raised", class name]."""
    try:
        r = OPS[o["op"]][2](o, *args)
    except Exception as e:
        return ["raised", None, type(e).__name__]
    return ["ok", r, look(r)]


def columns(c):
    return [np.array(c[:, m]) for m in range(-c.mmax, c.mmax + 1)]


def refill(c, cols):
    for m, v in zip(range(-c.mmax, c.mmax + 1), cols):
        c[:, m] = v


def pack(o, args):
    """An operation and what it works on, as content: what an object may have
    remembered of its past is left out."""
    seen, out = {}, []
    for x in args:
        k, d = kind(x), None
        if id(x) in seen:
            d = ["same", seen[id(x)]]
        elif k == "s":
            d = ["s", x.nmax, x.mmax, columns(x)]
        elif k == "v":
            d = ["v", x.nmax, x.mmax, columns(x.scoef1), columns(x.scoef2)]
        elif k == "p":
            d = ["p", np.array(x.doublesphere)]
        elif k == "t":
            d = ["t"] + [np.array(y) for y in x.doublesphere]
        if d is None or k in ("s", "v") and d[0] == k and not all(
                np.iscomplexobj(y) for l in d[3:] for y in l):
            d = ["object", x]        # magnitudes: real numbers
        seen[id(x)] = len(out)
        out.append(d)
    return pickle.dumps([o, out])


def unpack(msg):
    o, plain = pickle.loads(msg)
    args = []
    for d in plain:
        if d[0] == "same":
            x = args[d[1]]
        elif d[0] == "s":
            x = sp.zeros_coefs(d[1], d[2])
            refill(x, d[3])
        elif d[0] == "v":
            x = sp.zeros_coefs(d[1], d[2], coef_type=sp.vector)
            refill(x.scoef1, d[3])
            refill(x.scoef2, d[4])
        elif d[0] == "p":
            x = sp.ScalarPatternUniform(d[1], doublesphere=True)
        elif d[0] == "t":
            x = sp.TransversePatternUniform(d[1], d[2], doublesphere=True)
        else:
            x = d[1]
        args.append(x)
    return o, args


# ------------------------------------------------- a process with no history
# Forked here, before this process has done anything with the library; it
# forks again for every request.

def start_zygote():
    a, b = os.pipe(), os.pipe()
    pid = os.fork()
    if pid:
        os.close(a[0])
        os.close(b[1])
        return a[1], b[0]
    try:
        os.close(a[1])
        os.close(b[0])
        settle()
        while True:
            raw = read_n(a[0], 8)
            if raw is None:
                os._exit(0)
            msg = read_n(a[0], struct.unpack("<q", raw)[0])
            if msg is None:
                os._exit(0)
            child = os.fork()
            if child == 0:
                try:
                    o, args = unpack(msg)
                    f = perform(o, args)
                    out = [f[0], f[2], [look(x) for x in args]]
                except BaseException as e:               # noqa
                    out = ["broken", repr(e), None]
                m = pickle.dumps(out)
                write_all(b[1], struct.pack("<q", len(m)) + m)
                os._exit(0)
            _, s = os.waitpid(child, 0)
            if s:
                m = pickle.dumps(["broken", "died, status %d" % s, None])
                write_all(b[1], struct.pack("<q", len(m)) + m)
    finally:
        os._exit(1)


def read_n(fd, n):
    out = b""
    while len(out) < n:
        x = os.read(fd, n - len(out))
        if not x:
            return None
        out += x
    return out


def write_all(fd, m):
    while m:
        m = m[os.write(fd, m):]


def pristine(msg):
    write_all(ZYGOTE[0], struct.pack("<q", len(msg)) + msg)
    raw = read_n(ZYGOTE[1], 8)
    K.need(raw is not None, "the fresh process ended")
    return pickle.loads(read_n(ZYGOTE[1], struct.unpack("<q", raw)[0]))


# ------------------------------------------------------------------ the check

def check(case):
    objs = {"s": [], "v": [], "p": [], "t": []}
    for d in case["pool"]:
        objs[d["k"]].append(build(d))
    settle()
    lab, log, state = set(), [], world()
    everything = lambda: [(k, i, x) for k in "svpt"
                          for i, x in enumerate(objs[k])]
    for step, o in enumerate(case["ops"]):
        kinds, out, _ = OPS[o["op"]]
        pick = [o["a"], o["b"], o["a"] + 1, o["b"] + 1]
        args = [objs[k][i % len(objs[k])] for k, i in zip(kinds, pick)]
        what = "step %d, %s" % (step, o["op"])
        before = [(x, "%s%d" % (k, i), look(x)) for k, i, x in everything()]
        msg = pack(o, args)

        def untouched(when, but=None):
            for x, n, b in before:
                if x is not but:
                    agree(b, look(x), "%s changed object %s (%s)"
                          % (what, n, when), exact=True)
            K.need(world() == state, "%s changed the state of the process: "
                   "%s, then %s", what, state, world())

        if out == "!":
            target = args[0]
            r1 = perform(o, args)
            if r1[0] == "raised":
                untouched("it failed with %s" % r1[2])
            else:
                untouched("in place on another", but=target)
            r1[2] = [r1[2] if r1[0] == "raised" else None, look(target)]
        else:
            r1 = perform(o, args)
            untouched("it %s" % ("failed with %s" % r1[2] if r1[0] == "raised"
                                 else "succeeded"))
            noise()
            r2 = perform(o, args)
            agree([r1[0], r1[2]], [r2[0], r2[2]], what + " done twice")
            if r2[0] == "ok" and out != "w":
                scribble(r2[1])
                untouched("its result was overwritten")
                agree(r1[2], look(r1[1]), what + ": its result, when the "
                      "result of a second call was overwritten", exact=True)
            if r1[0] == "ok" and out != "w" and args:
                # what it was given is overwritten before the result is
                # looked at
                o3, args3 = unpack(msg)
                r3 = OPS[o["op"]][2](o3, *args3)
                for x in args3:
                    scribble(x)
                agree(r1[2], look(r3), what + ": its result, when what it was "
                      "given is overwritten first")
        log.append((o, what, msg, r1[0], r1[2], out == "!"))
        lab.add("fails" if r1[0] == "raised" else
                "in place" if out == "!" else "works")
        lab.add(next(g for g in GROUPS if o["op"] in GROUPS[g]))
        if r1[0] == "ok" and out in "svpt":
            K.need(kind(r1[1]) == out, "%s returned %s", what,
                   type(r1[1]).__name__)
            # keep the pool small, and never mix names for one object
            objs[out] = objs[out][-3:] + [r1[1]]
    # backwards, on copies of what the operations were given
    for o, what, msg, status, seen, inplace in reversed(log):
        o2, args = unpack(msg)
        r = perform(o2, args)
        again = [r[2] if r[0] == "raised" else None, look(args[0])] \
            if inplace else r[2]
        agree([status, seen], [r[0], again], what + ", repeated after the "
              "whole history")
    for i in case["fresh"]:
        o, what, msg, status, seen, inplace = log[i % len(log)]
        got = pristine(msg)
        K.need(got[0] != "broken", "%s in a fresh process: %s", what, got[1])
        again = [got[1] if got[0] == "raised" else None, got[2][0]] \
            if inplace else got[1]
        agree([got[0], again], [status, seen], what + ", in a fresh process "
              "and then here")
        lab.add("fresh process")
    return lab


def nontrivial(case):
    return len(case["ops"]) >= 3 and len({o["op"] for o in case["ops"]}) >= 3


# --------------------------------------- one size after another, same key parts

@st.composite
def size_walk(draw, size):
    """Transforms at a walk of neighbouring sizes, replayed out of order."""
    n = draw(st.integers(1, size))
    steps = []
    for _ in range(draw(st.integers(3, 12))):
        m = draw(st.integers(0, n))
        er, ec = draw(st.integers(0, 3)), draw(st.integers(0, 3))
        steps.append({"n": n, "m": m, "nr": n + 2 + er,
                      "nc": 2 * m + 2 + 2 * ec, "s": draw(st.integers(0, 3)),
                      "w": draw(st.sampled_from("sv")),
                      "py": draw(st.integers(0, 4)) == 0 and n < 12})
        n = max(0, min(size, n + draw(st.sampled_from(
            [0, 0, 1, -1, 2, -2, 5, -5, size, -size]))))
    return {"steps": steps, "order": draw(st.permutations(
        list(range(len(steps))))), "fresh": draw(st.integers(0, 11))}


def walk_step(s):
    o = {"py": s["py"]}
    C = G.coef_dict({"k": "dense", "e": 0, "s": s["s"], "f": "complex"},
                    s["n"], s["m"])
    D = G.coef_dict({"k": "dense", "e": 0, "s": s["s"] + 9, "f": "complex"},
                    s["n"], s["m"])
    if s["w"] == "s":
        c = G.make_scoefs(sp, C, s["n"], s["m"])
        there, back = sp.ispht, sp.spht
    else:
        c = G.make_vcoefs(sp, C, D, s["n"], s["m"])
        there, back = sp.vispht, sp.vspht
    was = look(c)
    p = backend(o, lambda: there(c, s["nr"], s["nc"]))
    agree(was, look(c), "the coefficients a synthesis was given", exact=True)
    was = look(p)
    d = backend(o, lambda: back(p, s["n"], s["m"]))
    agree(was, look(p), "the pattern an analysis was given", exact=True)
    return [look(p), look(d)]


OPS["walk"] = ("", "x", lambda o: walk_step(o["step"]))


def check_walk(case):
    settle()
    state = world()
    first = [walk_step(s) for s in case["steps"]]
    for i in case["order"]:
        agree(first[i], walk_step(case["steps"][i]), "step %d, repeated in "
              "another order" % i)
    K.need(world() == state, "the transforms changed the state of the "
           "process: %s, then %s", state, world())
    i = case["fresh"] % len(first)
    got = pristine(pack({"op": "walk", "step": case["steps"][i]}, []))
    K.need(got[0] == "ok", "step %d in a fresh process: %s", i, got[1])
    agree(got[1], look(first[i]), "step %d, in a fresh process and then here" % i)
    return {"walk", "falls" if any(
        a["n"] > b["n"] for a, b in zip(case["steps"], case["steps"][1:]))
        else "rises"}


ZYGOTE = None if os.environ.get("VT_ENVCHILD") else start_zygote()

FACETS = [
    Facet("history", lambda: histories(7, 12), check, nontrivial, quick=220,
          thorough=6000, fixed=every_op, shards=4, rule="first every operation on fixed pools, "
          "with every neutral element; generated histories count when they "
          "have at least three operations of at least three kinds"),
    Facet("history-poison", lambda: histories(7, 8), check, nontrivial,
          quick=80, thorough=3000, mode="poison",
          rule="at least three operations of at least three kinds"),
    Facet("sizes", lambda: size_walk(24), check_walk,
          lambda c: len({s["n"] for s in c["steps"]}) >= 3, quick=60,
          thorough=2500, shards=2, rule="at least three different degrees"),
]
