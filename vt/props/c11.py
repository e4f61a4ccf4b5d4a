"""C11 coefficient arithmetic."""
import fractions
import operator

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet

sp = sut.load()
OPS = {"add": operator.add, "sub": operator.sub, "mul": operator.mul,
       "div": operator.truediv}
IOPS = {"add": operator.iadd, "sub": operator.isub, "mul": operator.imul,
        "div": operator.itruediv}
NUMKINDS = ["int", "float", "complex", "np.float64", "np.complex128",
            "np.int64", "np.float32", "bool", "bigint", "fraction",
            "np.int8", "np.uint16", "np.float16", "np.complex64"]


@st.composite
def number(draw):
    k = draw(st.sampled_from(NUMKINDS))
    if k in ("int", "np.int64", "np.int8", "np.uint16"):
        return [k, draw(st.integers(-50, 50)), 0]
    if k == "bool":
        return [k, draw(st.integers(0, 1)), 0]
    if k == "bigint":
        return [k, draw(st.integers(-9, 9)), draw(st.one_of(st.integers(15, 60),
                                                      st.integers(61, 200)))]
    if k == "fraction":
        return [k, draw(st.integers(-50, 50)), draw(st.integers(1, 60))]
    v = draw(st.one_of(st.integers(-8, 8).map(lambda x: x / 4.0),
                       st.floats(-1e6, 1e6),
                       st.sampled_from([1e-30, 1e30, 1e-200, -1e-150, 1e200,
                                        -1e120, 1.0, -1.0, 2.0, 0.5])))
    w = 0
    if "complex" in k:
        w = draw(st.one_of(st.floats(-100, 100),
                           st.sampled_from([1.0, -1.0, 0.0])))
        if draw(st.integers(0, 3)) == 0:
            v = 0.0
    return [k, v, w]


def num(x):
    k, a, b = x

    def within(v, top):
        return max(-top, min(top, v))
    return {"int": lambda: int(a), "float": lambda: float(a),
            "complex": lambda: complex(a, b),
            "np.float64": lambda: np.float64(a),
            "np.complex128": lambda: np.complex128(complex(a, b)),
            "np.int64": lambda: np.int64(a), "bool": lambda: bool(a),
            "bigint": lambda: int(a) * 10 ** int(b),
            "fraction": lambda: fractions.Fraction(int(a), int(b) or 1),
            "np.int8": lambda: np.int8(a), "np.uint16":
            lambda: np.uint16(abs(a)),
            "np.float16": lambda: np.float16(within(a, 6e4)),
            "np.complex64": lambda: np.complex64(complex(within(a, 1e30), b)),
            "np.float32": lambda: np.float32(within(a, 1e30))}[k]()


def plain(x):
    """The value in double precision, where numpy has no type for it."""
    return float(x) if type(x) in (int, bool, fractions.Fraction) else x


def eqv(got, want, what):
    """Element-wise equal up to rounding, with equal non-finite values."""
    got, want = np.asarray(got), np.asarray(want)
    K.need(got.shape == want.shape, "%s has shape %s, expected %s", what,
           got.shape, want.shape)
    same = (got == want) | (np.isnan(got) & np.isnan(want))
    fin = np.isfinite(want) & np.isfinite(got)
    near = np.zeros(got.shape, bool)
    near[fin] = np.abs(got[fin] - want[fin]) <= 1e-14 * np.abs(want[fin]) \
        + 1e-300
    # infinities may carry a different sign of a zero or nan part
    inf = np.isinf(got) & np.isinf(want)
    ok = same | near | inf | (~np.isfinite(got) & ~np.isfinite(want))
    if not np.all(ok):
        k = np.unravel_index(int(np.argmin(ok)), ok.shape)
        K.need(False, "%s: at %s got %r, expected %r", what,
               tuple(int(i) for i in k), got[k], want[k])


REL = {"same": lambda z: z, "conj": lambda z: z.conjugate(),
       "minus": lambda z: -z, "times-j": lambda z: 1j * z,
       "near": lambda z: z * (1 + 1e-9), "real": lambda z: complex(z.real, 0),
       "minus-conj": lambda z: -z.conjugate()}


def every(sides, name, use):
    """The operators one after the other; sides: the operands as objects and
    what they hold, use(result, wanted arrays, what)."""
    (a, x), (b, y) = sides
    for op in sorted(OPS):
        f = OPS[op]
        for u, p, v, q in ((a, x, b, y), (b, y, a, x)):
            if op == "div" and not isinstance(q, list) and q == 0:
                continue
            n = max(len(z) for z in (p, q) if isinstance(z, list))
            with np.errstate(all="ignore"):
                want = [f(p[i] if isinstance(p, list) else p,
                          q[i] if isinstance(q, list) else q)
                        for i in range(n)]
            use(f(u, v), want, "%s, %s among others" % (name, op))


@st.composite
def cases(draw, hi=8, far=False):
    nmax, mmax = draw(G.nm_far_or(far, hi))
    sc = G.coef_values(nmax, mmax, st.sampled_from([0, 0, 0, -3, 3, 80, -80]))
    kind = draw(st.sampled_from(["obj", "obj", "num", "num", "zero",
                                 "mismatch", "foreign"]))
    c = {"nmax": nmax, "mmax": mmax, "vector": draw(st.booleans()),
         "op": draw(st.sampled_from(sorted(OPS))), "kind": kind,
         "aug": draw(st.integers(0, 3)) == 0,
         "a": draw(G.pair(sc))}
    if kind == "obj":
        c["b"] = draw(G.pair(sc))
        if draw(st.integers(0, 3)) == 0:
            # the right operand is made from the left one
            c["b"] = c["a"]
            c["rel"] = draw(st.sampled_from(sorted(REL)))
        c["self"] = draw(st.integers(0, 9)) == 0
    elif kind == "num":
        c["x"] = draw(number())
        c["left"] = draw(st.booleans())
    elif kind == "zero":
        c["x"] = [draw(st.sampled_from(NUMKINDS)), 0, 0]
    elif kind == "mismatch":
        m = draw(G.nm_sizes(hi + 2))
        if m == (nmax, mmax):
            m = (nmax + 1, mmax)
        twin = same_length(nmax, mmax)
        if twin and draw(st.booleans()):
            m = draw(st.sampled_from(twin))
        c["size2"] = list(m)
    else:
        c["other"] = draw(st.sampled_from(
            ["str", "none", "list", "array", "otherkind", "pattern", "dict"]))
    return c


def same_length(nmax, mmax):
    """Other sizes with the same number of coefficients."""
    L = O.n_modes(nmax, mmax)
    return [(n, m) for n in range(0, 40) for m in range(0, n + 1)
            if O.n_modes(n, m) == L and (n, m) != (nmax, mmax)]


def build(case, specs, nmax, mmax, rel=None):
    D = [G.coef_dict(s, nmax, mmax) for s in specs]
    if rel:
        D = [{k: REL[rel](complex(v)) for k, v in d.items()} for d in D]
    if case["vector"]:
        return G.make_vcoefs(sp, G.drop0(D[0]), G.drop0(D[1]), nmax, mmax)
    return G.make_scoefs(sp, D[0], nmax, mmax)


def members(c):
    return [c.scoef1, c.scoef2] if isinstance(c, sp.VectorCoefs) else [c]


def flat(s):
    return np.concatenate([np.array(s[:, m])
                           for m in range(-s.mmax, s.mmax + 1)])


def check(case):
    nmax, mmax = case["nmax"], case["mmax"]
    f = OPS[case["op"]]
    # a op= b gives another name to a op b
    g = IOPS[case["op"]] if case.get("aug") else f
    a = build(case, case["a"], nmax, mmax)
    before = [flat(s) for s in members(a)]
    kind = case["kind"]
    lab = [kind + "-" + case["op"], "vector" if case["vector"] else "scalar"]
    name = "%s %s" % ("vector" if case["vector"] else "scalar", case["op"])

    def verify(r, wants, what):
        K.need(type(r) is type(a), "%s gave a %s", what, type(r).__name__)
        K.need((r.nmax, r.mmax) == (nmax, mmax), "%s has size %s, expected "
               "%s", what, (r.nmax, r.mmax), (nmax, mmax))
        i0 = mmax * nmax - mmax * (mmax - 1) // 2   # place of (0, 0)
        for s, w in zip(members(r), wants):
            if case["vector"]:
                w = w.copy()
                w[i0] = 0
                K.need(s[0, 0] == 0, "%s has a monopole", what)
            eqv(flat(s), w, what)
        if all(np.all(np.isfinite(w)) and np.max(np.abs(w)) < 1e250
               for w in wants):
            p = sp.vispht(r) if case["vector"] else sp.ispht(r)
            K.need(tuple(p.shape) == (nmax + 2, 2 * mmax + 2),
                   "%s: its pattern has shape %s", what, p.shape)
        for s in members(r):
            for s2 in members(a):
                K.need(not np.shares_memory(s[:, 0], s2[:, 0]),
                       "%s shares storage with its operand", what)
        # each set of the result is its own
        last = members(r)[-1]
        keep = flat(last)
        for m in range(-mmax, mmax + 1):
            first = members(r)[0]
            first[:, m] = np.full(nmax - abs(m) + 1, 99.5 - 2j)
        if case["vector"]:
            K.same(flat(last), keep, what + ": writing to the first set of "
                   "the result changed the second")

    def compare(r, wants, what):
        i0 = mmax * nmax - mmax * (mmax - 1) // 2
        for s, w in zip(members(r), wants):
            if case["vector"]:
                w = w.copy()
                w[i0] = 0
            eqv(flat(s), w, what)

    def later(make, b=None):
        """The result is what the operands were, whatever becomes of them,
        and the reverse."""
        want = [flat(s) for s in members(make(a, b))]
        r = make(a, b)
        for s in members(r):
            s.window(np.full(nmax + 1, 3.0))
        for s, w in zip(members(a), before):
            K.same(flat(s), w, name + ": the left operand, when the result "
                   "is windowed")
        a2 = build(case, case["a"], nmax, mmax)
        b2 = a2 if b is a else b
        if b is not None and b is not a:
            b2 = build(case, case["b"], nmax, mmax,
                                               case.get("rel"))
        r = make(a2, b2)
        for s in members(a2) + (members(b2) if b2 is not None else []):
            if case["op"] in ("add", "mul"):
                s.window(np.full(nmax + 1, -2.5))
            for m in range(-mmax, mmax + 1):
                s[:, m] = np.full(nmax - abs(m) + 1, 41.5 - 2j)
        for s, w in zip(members(r), want):
            eqv(flat(s), w, name + ": the result, when the operands are "
                "written to before it is read")

    if kind == "obj":
        b = a if case["self"] else build(case, case["b"], nmax, mmax,
                                               case.get("rel"))
        bb = [flat(s) for s in members(b)]
        verify(g(a, b), [f(x, y) for x, y in zip(before, bb)],
               name + " of two sets")
        later(g, b)
        every(((a, before), (b, bb)), name, compare)
        for s, w in zip(members(b), bb):
            K.same(flat(s), w, name + " changed its right operand")
    elif kind == "num":
        x = num(case["x"])
        every(((a, before), (x, plain(x))), name + " number", compare)
        if case["left"]:
            verify(f(x, a), [f(plain(x), y) for y in before], "number " + name)
            later(lambda c, _: f(x, c))
        elif not (case["op"] == "div" and x == 0):
            verify(g(a, x), [f(y, plain(x)) for y in before], name + " number")
            later(lambda c, _: g(c, x))
        lab.append(case["x"][0])
    elif kind == "zero":
        K.raises(lambda: operator.truediv(a, num(case["x"])),
                 ZeroDivisionError, "division of coefficients by zero")
    elif kind == "mismatch":
        n2, m2 = case["size2"]
        b = build(case, [{"k": "dense", "e": 0, "s": 1, "f": "complex"}] * 2,
                  n2, m2)
        K.raises(lambda: g(a, b), ValueError,
                 "%s of sizes %s and %s" % (name, (nmax, mmax), (n2, m2)))
        K.raises(lambda: g(b, a), ValueError,
                 "%s of sizes %s and %s" % (name, (n2, m2), (nmax, mmax)))
        lab.append("same-length" if O.n_modes(n2, m2) ==
                   O.n_modes(nmax, mmax) else "other-length")
    else:
        o = {"str": "x", "none": None, "list": [1.0], "dict": {},
             "array": np.ones(len(before[0])),
             "otherkind": sp.zeros_coefs(nmax, mmax, sp.scalar
                                         if case["vector"] else sp.vector),
             "pattern": sp.zeros_patt_uniform(4, 4)}[case["other"]]
        K.raises(lambda: g(a, o), (TypeError, ValueError),
                 "%s with a %s" % (name, case["other"]))
        if case["other"] not in ("array",):
            K.raises(lambda: f(o, a), (TypeError, ValueError),
                     "a %s %s" % (case["other"], name))
    for s, w in zip(members(a), before):
        K.same(flat(s), w, name + " changed its left operand")
    return lab


def fixed(tier):
    """All operators and number kinds on both sides; all pairs of different
    sizes whose lengths coincide."""
    d = {"k": "dense", "e": 0, "s": 3, "f": "complex"}
    e = dict(d, s=4)
    for v in (False, True):
        for op in sorted(OPS):
            base = {"nmax": 4, "mmax": 2, "vector": v, "op": op,
                    "a": [d, e]}
            for own in (False, True):
                for aug in (False, True):
                    yield dict(base, kind="obj", b=[e, d], self=own, aug=aug)
            for k in NUMKINDS:
                for left in (False, True):
                    yield dict(base, kind="num", x=[k, 3, 2], left=left)
                yield dict(base, kind="num", x=[k, 3, 2], left=False,
                           aug=True)
                yield dict(base, kind="zero", x=[k, 0, 0])
            for o in ("str", "none", "list", "array", "otherkind", "pattern",
                      "dict"):
                yield dict(base, kind="foreign", other=o)
            for nmax in range(0, 9):
                for mmax in range(0, nmax + 1):
                    for t in same_length(nmax, mmax) + [(0, 0), (nmax, nmax)]:
                        if tuple(t) != (nmax, mmax):
                            yield dict(base, nmax=nmax, mmax=mmax,
                                       kind="mismatch", size2=list(t))


FACETS = [
    Facet("arith", cases, check, None, quick=3000, thorough=60000,
          fixed=fixed, shards=8, tshards=8,
          rule="every operator with every number kind on both sides and all "
               "different sizes of equal length, then generated operands; "
               "every case is counted as non-trivial (each performs an "
               "operation and compares every mode, or demands a refusal)"),
    Facet("far", lambda: cases(far=True), check, None, quick=120,
          thorough=3000, shards=3, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
]
