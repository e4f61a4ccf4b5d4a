"""C12 pattern arithmetic."""
import operator

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet
from vt.props.c11 import (IOPS, NUMKINDS, OPS, REL, eqv, every, num, number,
                          plain)

sp = sut.load()


@st.composite
def cases(draw, hi=8, far=False):
    nrows, ncols = draw(G.patt_far_or(far, hi, 12))
    sc = draw(st.sampled_from([0, 0, 0, -3, 3, 80, -80]))
    s = G.samples(nrows, ncols, st.just(sc))
    kind = draw(st.sampled_from(["obj", "obj", "num", "num", "zero",
                                 "mismatch", "foreign"]))
    c = {"nrows": nrows, "ncols": ncols, "vector": draw(st.booleans()),
         "op": draw(st.sampled_from(sorted(OPS))), "kind": kind,
         "aug": draw(st.integers(0, 3)) == 0,
         "poles": draw(G.POLES), "a": draw(G.pair(s))}
    if kind == "obj":
        c["b"] = draw(G.pair(s))
        if draw(st.integers(0, 3)) == 0:
            # the right operand is made from the left one
            c["b"] = c["a"]
            c["rel"] = draw(st.sampled_from(sorted(REL)))
        c["self"] = draw(st.integers(0, 9)) == 0
    elif kind == "num":
        c["x"] = draw(number())
        c["left"] = draw(st.booleans())
    elif kind == "zero":
        c["x"] = [draw(st.sampled_from(NUMKINDS)), 0, 0]
    elif kind == "mismatch":
        m = draw(st.one_of(G.patt_shape(hi, 12),
                           st.just((nrows + 1, ncols)),
                           st.just((nrows, ncols + 2)),
                           st.just((2, 2))))
        if tuple(m) == (nrows, ncols):
            m = (nrows, ncols + 2)
        c["size2"] = list(m)
    else:
        c["other"] = draw(st.sampled_from(
            ["str", "none", "list", "array", "otherkind", "coefs", "dict"]))
    return c


def build(case, specs, nrows, ncols, rel=None):
    sym = -1 if case["vector"] else 1
    A = [G.patt_array(s, nrows, ncols, sym, case.get("poles", "raw"))
         for s in specs]
    if rel:
        A = [np.vectorize(REL[rel], otypes=[complex])(x) for x in A]
    if case["vector"]:
        return G.make_vpatt(sp, A[0], A[1])
    return G.make_spatt(sp, A[0])


def data(p):
    if isinstance(p, sp.TransversePatternUniform):
        return [np.array(x) for x in p.doublesphere]
    return [np.array(p.doublesphere)]


def front(p):
    if isinstance(p, sp.TransversePatternUniform):
        return [p.theta, p.phi]
    return [p.array]


def partner(d):
    """value at (-theta, phi + pi)"""
    R, C = d.shape
    return np.roll(d[(-np.arange(R)) % R, :], -(C // 2), axis=1)


def check(case):
    nrows, ncols = case["nrows"], case["ncols"]
    vec = case["vector"]
    sym = -1 if vec else 1
    f = OPS[case["op"]]
    # a op= b gives another name to a op b
    g = IOPS[case["op"]] if case.get("aug") else f
    a = build(case, case["a"], nrows, ncols)
    before = data(a)
    K.need(before[0].shape == (2 * nrows - 2, ncols), "doublesphere shape %s",
           before[0].shape)
    kind, op = case["kind"], case["op"]
    name = "%s %s" % ("tangential" if vec else "scalar", op)
    made = []
    lab = [kind + "-" + op, "vector" if vec else "scalar"]

    def verify(r, wants, what, linear):
        K.need(type(r) is type(a), "%s gave a %s", what, type(r).__name__)
        K.need(tuple(r.shape) == (nrows, ncols), "%s has shape %s", what,
               r.shape)
        got = data(r)
        for g, w, fr in zip(got, wants, front(r)):
            eqv(g, w, what)
            K.same(fr, g[:nrows], what + ": array is not the front half")
        if linear and all(np.all(np.isfinite(w)) for w in wants):
            for g in got:
                big = float(np.max(np.abs(g)))
                K.close(sym * partner(g), g, 1e-13 * big + 1e-300,
                        what + ": symmetry")
        for x in (r.doublesphere if vec else [r.doublesphere]):
            for y in (a.doublesphere if vec else [a.doublesphere]):
                K.need(not np.shares_memory(x, y),
                       "%s shares storage with its operand", what)
        made.append(r)

    def compare(r, wants, what):
        for s, w in zip(data(r), wants):
            eqv(s, w, what)

    if kind == "obj":
        b = a if case["self"] else build(case, case["b"], nrows, ncols,
                                                 case.get("rel"))
        bb = data(b)
        r = g(a, b)
        lin = op in ("add", "sub") or not vec
        verify(r, [f(x, y) for x, y in zip(before, bb)],
               name + " of two patterns", lin)
        every(((a, before), (b, bb)), name, compare)
        for s, w in zip(data(b), bb):
            K.same(s, w, name + " changed its right operand")
        if op in ("add", "sub"):
            K.need(r.is_symmetric, "%s of two symmetric patterns is not "
                   "symmetric", name)
            # the transform of the result is the combination of transforms
            n = nrows - 2
            m = min(n, ncols // 2 - 1)
            T = sp.vspht if vec else sp.spht
            tr, ta, tb = T(r, n, m), T(a, n, m), T(b, n, m)
            tol = 1e-12 * (nrows + 10) * max(
                float(np.max(np.abs(x))) for x in before + bb) + 1e-290
            for u, v, w in zip(_m(tr), _m(ta), _m(tb)):
                for k in range(-m, m + 1):
                    K.close(u[:, k], f(v[:, k], w[:, k]), tol,
                            "transform of a " + op)
    elif kind == "num":
        x = num(case["x"])
        every(((a, before), (x, plain(x))), name + " number", compare)
        lin = (op == "mul") or (op == "div" and not case["left"]) or not vec
        if case["left"]:
            verify(f(x, a), [f(plain(x), y) for y in before], "number " + name, lin)
        elif not (op == "div" and x == 0):
            r = g(a, x)
            verify(r, [f(y, plain(x)) for y in before], name + " number", lin)
            if op == "mul" and not np.iscomplexobj(x) and x != 0:
                K.need(r.is_symmetric, "a real multiple of a symmetric "
                       "pattern is not symmetric")
            if lin and op in ("mul", "div") and nrows > 2:
                n = min(nrows - 2, 6)
                m = min(n, ncols // 2 - 1)
                T = sp.vspht if vec else sp.spht
                big = max(float(np.max(np.abs(v))) for v in before)
                big = max(big * abs(plain(x)), big / abs(plain(x))
                          if x else 0.0)
                if big < 1e250:
                    for u, v in zip(_m(T(r, n, m)), _m(T(a, n, m))):
                        for k in range(-m, m + 1):
                            K.close(u[:, k], f(v[:, k], plain(x)),
                                    1e-12 * (nrows + 10) * big + 1e-290,
                                    "transform of a multiple")
        lab.append(case["x"][0])
    elif kind == "zero":
        K.raises(lambda: operator.truediv(a, num(case["x"])),
                 ZeroDivisionError, "division of a pattern by zero")
    elif kind == "mismatch":
        r2, c2 = case["size2"]
        d = {"k": "dense", "e": 0, "s": 1, "f": "complex"}
        b = build(case, [d, d], r2, c2)
        K.raises(lambda: g(a, b), ValueError,
                 "%s of shapes %s and %s" % (name, (nrows, ncols), (r2, c2)))
        K.raises(lambda: g(b, a), ValueError,
                 "%s of shapes %s and %s" % (name, (r2, c2), (nrows, ncols)))
    else:
        o = {"str": "x", "none": None, "list": [1.0], "dict": {},
             "array": np.ones(before[0].shape),
             "otherkind": sp.zeros_patt_uniform(
                 nrows, ncols, sp.scalar if vec else sp.vector),
             "coefs": sp.zeros_coefs(2, 2)}[case["other"]]
        K.raises(lambda: g(a, o), (TypeError, ValueError),
                 "%s with a %s" % (name, case["other"]))
        if case["other"] != "array":
            K.raises(lambda: f(o, a), (TypeError, ValueError),
                     "a %s %s" % (case["other"], name))
    for r in made:
        D = r.doublesphere if vec else [r.doublesphere]
        keep = np.array(D[-1])
        if D[0].flags.writeable:
            D[0][...] = 99.5 - 2j
        if vec:
            K.same(D[1], keep, name + ": writing to the first component of "
                   "the result changed the second")
    for s, w in zip(data(a), before):
        K.same(s, w, name + " changed its left operand")
    return lab


def _m(c):
    return [c.scoef1, c.scoef2] if isinstance(c, sp.VectorCoefs) else [c]


def fixed(tier):
    d = {"k": "dense", "e": 0, "s": 3, "f": "complex"}
    e = dict(d, s=4)
    for v in (False, True):
        for op in sorted(OPS):
            base = {"nrows": 5, "ncols": 6, "vector": v, "op": op,
                    "poles": "raw", "a": [d, e]}
            for own in (False, True):
                for aug in (False, True):
                    yield dict(base, kind="obj", b=[e, d], self=own, aug=aug)
            for k in NUMKINDS:
                for left in (False, True):
                    yield dict(base, kind="num", x=[k, 3, 2], left=left)
                yield dict(base, kind="num", x=[k, 3, 2], left=False,
                           aug=True)
                yield dict(base, kind="zero", x=[k, 0, 0])
            for o in ("str", "none", "list", "array", "otherkind", "coefs",
                      "dict"):
                yield dict(base, kind="foreign", other=o)
            for s in ((2, 2), (2, 6), (5, 2), (5, 8), (6, 6), (4, 6), (3, 12),
                      (6, 5 * 2), (2, 48)):
                yield dict(base, kind="mismatch", size2=list(s))


FACETS = [
    Facet("arith", cases, check, None, quick=2500, thorough=50000,
          fixed=fixed, shards=8, tshards=8,
          rule="every operator with every number kind on both sides, then "
               "generated operands; every case is counted as non-trivial "
               "(each performs an operation and compares every sample, or "
               "demands a refusal)"),
    Facet("far", lambda: cases(far=True), check, None, quick=100,
          thorough=3000, shards=3, tshards=8,
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
]
