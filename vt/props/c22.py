"""C22 native memory: bounds, uninitialised data, undefined arithmetic, leaks."""
import ctypes
import gc
import os
import resource
import subprocess
import sys

import numpy as np
from hypothesis import strategies as st

from vt import build as B, common as K, gen as G, oracle as O, sut
from vt.engine import Facet, Inconclusive, Violation

sp = sut.load()
cs = sp.csphi

KINDS = ["spht", "vspht", "ispht", "vispht", "fc_to_sc", "sc_to_fc",
         "ynunm", "SData"]
DIRECT = KINDS[4:]


@st.composite
def one(draw, hi=20, kinds=KINDS, extra=14):
    k = draw(st.sampled_from(kinds))
    c = {"k": k, "s": draw(G.SEED)}
    n = draw(st.one_of(st.integers(0, 6), st.integers(0, hi)))
    m = draw(st.one_of(st.just(n), st.just(0), st.integers(0, n)))
    c["n"], c["m"] = n, m
    c["er"] = draw(st.one_of(st.just(0), st.integers(0, extra)))
    c["ec"] = draw(st.one_of(st.just(0), st.integers(0, extra)))
    return c


@st.composite
def calls(draw, hi=20, kinds=KINDS, most=6):
    return {"calls": draw(st.lists(one(hi, kinds), min_size=1,
                                   max_size=most))}


def sizes(c):
    """rows and columns of the grid: legal, and all FFT lengths occur."""
    return c["n"] + 2 + c["er"], 2 * c["m"] + 2 + 2 * c["ec"]


def length(n, m):
    return O.n_modes(n, m)


def cvals(shape, s):
    r = np.random.RandomState(s % 2 ** 31)
    return r.standard_normal(shape) + 1j * r.standard_normal(shape)


PAD = 24
CANARY = {np.complex128: complex(3.25e77, -1.75e-33), np.float64: -7.125e55}


class Guarded(object):
    """A C-contiguous array in the middle of a block of known values."""

    def __init__(self, a):
        a = np.ascontiguousarray(a)
        self.t = a.dtype.type
        self.buf = np.full(a.size + 2 * PAD, CANARY[self.t], dtype=a.dtype)
        self.a = self.buf[PAD:PAD + a.size].reshape(a.shape)
        self.a[...] = a

    def ok(self, what):
        w = CANARY[self.t]
        K.need(np.all(self.buf[:PAD] == w), "%s wrote before its array", what)
        K.need(np.all(self.buf[self.buf.size - PAD:] == w),
               "%s wrote behind its array", what)


def run_one(c, guard=True):
    """Perform one call; returns the arrays it produced."""
    k, n, m, s = c["k"], c["n"], c["m"], c["s"]
    nr, nc = sizes(c)
    L = length(n, m)
    if k in ("spht", "vspht"):
        A = [cvals((nr, nc), s), cvals((nr, nc), s + 1)]
        keep = [a.copy() for a in A]
        if k == "spht":
            r = [sp.spht(sp.ScalarPatternUniform(A[0]), n, m)]
        else:
            v = sp.vspht(sp.TransversePatternUniform(*A), n, m)
            r = [v.scoef1, v.scoef2]
        for a, b in zip(A, keep):
            K.same(a, b, k + ": its input")
        return [np.concatenate([np.asarray(x[:, q]) for q in
                                range(-m, m + 1)]) for x in r]
    if k in ("ispht", "vispht"):
        C = [G.coef_dict({"k": "dense", "e": 0, "f": "complex",
                          "s": (s + i) % 2 ** 31}, n, m) for i in (0, 1)]
        if k == "ispht":
            x = G.make_scoefs(sp, C[0], n, m)
            p = [np.array(sp.ispht(x, nr, nc).array)]
            x = [x]
        else:
            C = [G.drop0(q) for q in C]
            x = G.make_vcoefs(sp, C[0], C[1], n, m)
            p = sp.vispht(x, nr, nc)
            p = [np.array(p.theta), np.array(p.phi)]
            x = [x.scoef1, x.scoef2]
        for a, b in zip(x, C):
            K.coefs_close(a, b, n, m, 0.0, k + ": its input")
        return p
    if k == "fc_to_sc":
        f = Guarded(cvals((2 * nr, nc), s))
        # the result array holds anything beforehand
        o = Guarded(np.full(L, complex(np.nan, np.inf)))
        keep = f.a.copy()
        cs.fc_to_sc(f.a, o.a, n, m)
        K.same(f.a, keep, "fc_to_sc: its input")
        f.ok("fc_to_sc")
        o.ok("fc_to_sc")
        return [o.a.copy()]
    if k == "sc_to_fc":
        o = Guarded(np.zeros((2 * nr - 2, nc), dtype=complex))
        v = Guarded(cvals((L,), s))
        keep = v.a.copy()
        cs.sc_to_fc(o.a, v.a, n, m)
        K.same(v.a, keep, "sc_to_fc: its input")
        v.ok("sc_to_fc")
        o.ok("sc_to_fc")
        return [o.a.copy()]
    if k == "ynunm":
        y = Guarded(np.full(n + 1 + c["er"], np.nan))
        q = m if s % 2 else -m
        cs.ynunm(n, q, y.a)
        y.ok("ynunm")
        return [y.a.copy(), np.array([cs.ynnm(n, q)])]
    nrow = 2 * nr
    Q = cs.FindQ(nrow + n + c["ec"])
    o = Guarded(np.full(Q, complex(np.nan, np.nan)))
    cs.SData(o.a, nrow, n)
    o.ok("SData")
    return [o.a.copy()]


def labels(case):
    return sorted({"call-" + c["k"] for c in case["calls"]})


def nontrivial(case):
    return any(c["n"] > 0 for c in case["calls"])


# ------------------------------------------- sanitizers and canaries

def check_asan(case):
    for c in case["calls"]:
        for a in run_one(c):
            K.need(np.all(np.isfinite(a)), "%s(n=%d, m=%d, grid %s) gave a "
                   "value that is not finite", c["k"], c["n"], c["m"],
                   sizes(c))
    return labels(case)


def fixed_asan(tier):
    hi = 8 if tier == "quick" else 30
    for k in KINDS:
        for n in range(hi + 1):
            for m in sorted({0, 1, n // 2, n - 1, n}):
                if 0 <= m <= n:
                    yield {"calls": [{"k": k, "n": n, "m": m, "er": e,
                                      "ec": e // 2, "s": n * 31 + m}
                                     for e in (0, 1, 3)]}


# ------------------------------------------------ uninitialised memory

LIBC = ctypes.CDLL(None)
M_PERTURB = -6


def check_poison(case):
    """The same results whatever freshly allocated memory holds."""
    out = []
    try:
        for fill in (85, 1, 254, 85):
            LIBC.mallopt(M_PERTURB, fill)
            got = []
            for c in case["calls"]:
                got.append(run_one(c))
            out.append(got)
    finally:
        LIBC.mallopt(M_PERTURB, 85)
    for c, first, *rest in zip(case["calls"], *out):
        for r in rest:
            for a, b in zip(first, r):
                what = "%s: n=%d, m=%d, grid %s" % (c["k"], c["n"], c["m"],
                                                    sizes(c))
                K.need(np.all(np.isfinite(a)), what + " gave a value that is "
                       "not finite")
                K.close(b, a, 1e-13 * np.max(np.abs(a)) + 1e-300,
                        what + " with other contents of fresh memory")
    return labels(case)


# ---------------------------------------------------------------- leaks

class Mallinfo2(ctypes.Structure):
    _fields_ = [(x, ctypes.c_size_t) for x in
                ("arena", "ordblks", "smblks", "hblks", "hblkhd", "usmblks",
                 "fsmblks", "uordblks", "fordblks", "keepcost")]


LIBC.mallinfo2.restype = Mallinfo2


def in_use():
    i = LIBC.mallinfo2()
    return i.uordblks + i.hblkhd


@st.composite
def loops(draw, hi=24):
    return {"calls": draw(st.lists(one(hi, KINDS, 30), min_size=1,
                                   max_size=3)),
            "bad": draw(st.booleans())}


def refused():
    """Calls that are refused; they must not leak either."""
    p = sp.ScalarPatternUniform(np.ones((4, 6), dtype=complex))
    for f in (lambda: sp.spht(p, 9, 1), lambda: sp.spht(p, 2, 5),
              lambda: sp.ispht(sp.zeros_coefs(3, 3), 2, 8),
              lambda: sp.ispht(sp.zeros_coefs(3, 3), 8, 7)):
        try:
            f()
        except ValueError:
            pass


def check_leak(case):
    """Blocks in use after rounds of identical calls do not grow."""
    REP = 12

    def round_():
        for _ in range(REP):
            for c in case["calls"]:
                run_one(c)
            if case["bad"]:
                refused()
        gc.collect()
        return in_use(), sys.getallocatedblocks()
    round_()
    round_()
    marks = [round_() for _ in range(4)]
    # a leak of even the smallest block in every call adds 32 bytes per call
    d = [b[0] - a[0] for a, b in zip(marks, marks[1:])]
    K.need(not all(x >= 24 * REP for x in d), "every %d repetitions of %s "
           "leave %s more bytes allocated", REP,
           [(c["k"], c["n"], c["m"], sizes(c)) for c in case["calls"]], d)
    e = [b[1] - a[1] for a, b in zip(marks, marks[1:])]
    K.need(not all(x >= REP for x in e), "every %d repetitions of %s leave "
           "%s more Python blocks allocated", REP,
           [(c["k"], c["n"], c["m"]) for c in case["calls"]], e)
    return labels(case) + (["with-refused"] if case["bad"] else [])


def fixed_leak(tier):
    for k in KINDS:
        for n, m in ((0, 0), (1, 1), (5, 2), (16, 16), (40, 3)):
            yield {"calls": [{"k": k, "n": n, "m": m, "er": n % 3,
                              "ec": m % 2, "s": 5}], "bad": n == 5}


# ------------------------------------------------- MemorySanitizer driver

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_driver = {}


def unlimited():
    """MemorySanitizer reserves terabytes of address space."""
    try:
        hard = resource.getrlimit(resource.RLIMIT_AS)[1]
        resource.setrlimit(resource.RLIMIT_AS, (hard, hard))
    except (OSError, ValueError):
        pass


def run_driver(exe, text):
    return subprocess.run([exe], input=text, text=True, timeout=300,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                          preexec_fn=unlimited)


def driver():
    """Build the native driver under MemorySanitizer, once per process."""
    if "path" not in _driver:
        out = os.path.join(os.environ["VT_OUT"], "msan-%d" % os.getpid())
        srcs = [os.path.join(B.SRC, f) for f in B.c_sources()
                if f != "csphi_wrap.c"]
        cmd = ["clang", "-O1", "-g", "-w", "-fsanitize=memory",
               "-fno-sanitize-recover=memory", "-I" + B.SRC, "-o", out,
               os.path.join(HERE, "native", "driver.c")] + srcs + ["-lm"]
        p = subprocess.run(cmd, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        why = p.stdout[-2000:]
        if p.returncode == 0:
            # does MemorySanitizer run here at all?
            p = run_driver(out, "ynunm 0 0 1 0 1\n")
            why = p.stderr[-2000:]
        _driver["path"] = out if p.returncode == 0 else None
        _driver["why"] = why
    return _driver["path"]


@st.composite
def msan_cases(draw, hi=40):
    return {"calls": draw(st.lists(one(hi, DIRECT, 40), min_size=1,
                                   max_size=12))}


def check_msan(case):
    exe = driver()
    if exe is None:
        # the internal C interface may be refactored; the other facets judge
        raise Inconclusive(_driver["why"])
    lines = []
    for c in case["calls"]:
        nr, nc = sizes(c)
        n, m, k = c["n"], c["m"], c["k"]
        a = {"fc_to_sc": (2 * nr, nc, n, m),
             "sc_to_fc": (2 * nr - 2, nc, n, m),
             "ynunm": (n, m if c["s"] % 2 else -m, n + 1 + c["er"], 0),
             "SData": (cs.FindQ(2 * nr + n + c["ec"]), 2 * nr, n, 0)}[k]
        lines.append("%s %d %d %d %d %d" % ((k,) + a + (c["s"],)))
    p = run_driver(exe, "\n".join(lines) + "\n")
    got = p.stdout.strip().splitlines()
    if p.returncode != 0:
        raise Violation("the native driver failed (%d) at %r: %s" % (
            p.returncode, lines[min(len(got), len(lines) - 1)],
            p.stderr.strip()[:1500]))
    K.need(len(got) == len(lines), "the driver answered %d of %d calls",
           len(got), len(lines))
    for l, g in zip(lines, got):
        K.need(np.isfinite(float(g.split()[1])), "%s gave %s", l, g)
    return labels(case)


def fixed_msan(tier):
    for c in fixed_asan(tier):
        if c["calls"][0]["k"] in DIRECT:
            yield c


FACETS = [
    Facet("sanitizers", lambda: calls(24), check_asan, nontrivial,
          quick=600, thorough=20000, fixed=fixed_asan, shards=4, tshards=8,
          mode="asan", cpu=300,
          rule="transforms and direct native calls under AddressSanitizer "
               "and UndefinedBehaviorSanitizer, on arrays between canaries; "
               "non-trivial = some n > 0"),
    Facet("poison", lambda: calls(24, most=4), check_poison, nontrivial,
          quick=300, thorough=10000, fixed=fixed_asan, shards=2, tshards=8,
          mode="poison",
          rule="the same calls with fresh memory filled in four ways; "
               "results must agree"),
    Facet("leaks", loops, check_leak, nontrivial, quick=60, thorough=2000,
          fixed=fixed_leak, shards=2, tshards=8,
          rule="72 repetitions of generated calls; allocated bytes and "
               "Python blocks must not grow from round to round"),
    Facet("msan", msan_cases, check_msan, nontrivial, quick=150,
          thorough=6000, fixed=fixed_msan, shards=1, tshards=8,
          rule="the exported native routines under MemorySanitizer, results "
               "checked for uninitialised bytes"),
]
