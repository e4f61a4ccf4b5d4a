"""C10 coefficient containers against a map model, over operation histories."""
import fractions

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, oracle as O, sut
from vt.engine import Facet, Violation

sp = sut.load()


def idx(hi):
    """An index, mostly legal, sometimes just outside."""
    return st.one_of(st.integers(0, hi), st.integers(0, hi),
                     st.integers(-hi - 2, hi + 2))


ODD = st.sampled_from([0.0, -0.0, 1.0, -1.0, 1e-16, 5e-324, -1e-300, 1e300])


@st.composite
def val(draw):
    k = draw(st.integers(0, 7))
    if k == 0:
        return [draw(G.any_finite()), draw(G.any_finite())]
    if k == 1:
        return [draw(ODD), draw(ODD)]
    return [float(draw(st.integers(-99, 99))),
            float(draw(st.integers(-99, 99)))]


LENS = st.sampled_from([0, 0, 0, 0, 0, -1, 1, -2, 2, 7])
BAD = ["s_1:3,0", "s_:2,0", "s_::1,0", "s_0,1:", "s_0,:1", "s_0,::2",
       "s_:,:", "s_0:2,1:", "s_1:2,:", "s_0:2:1,:", "f_1.0,0", "x_str",
       "t_3", "t_1", "none"]


@st.composite
def op(draw, nmax, mmax, vector):
    k = draw(st.sampled_from(
        ["set", "set", "get", "row", "row", "col", "col", "setrow", "setrow",
         "setcol", "setcol", "trunc", "trunc", "copy", "window", "own", "bad",
         "badset", "badval"]))
    n, m = draw(idx(nmax)), draw(idx(mmax))
    if draw(st.booleans()) and 0 <= n <= nmax:
        t = min(n, mmax)
        m = draw(st.integers(-t, t))
    o = {"op": k, "n": n, "m": m, "it": draw(st.sampled_from(G.ITYPES))}
    if vector:
        o["set"] = draw(st.integers(0, 2))     # 0: the vector object itself
    if k in ("set",):
        o["v"] = draw(val())
        o["w"] = draw(val())
        o["form"] = draw(st.sampled_from(["py", "py", "np", "tuple3", "one",
                                          "int", "float", "np32", "frac", "bool",
                                          "c64", "i8", "big"]))
    if k in ("setrow", "setcol"):
        o["s"] = draw(G.SEED)
        o["dl"] = draw(LENS)
        o["form"] = draw(st.one_of(st.sampled_from(["list", "array", "tuple"]),
                                   st.sampled_from(sorted(LINES))))
    if k == "trunc":
        o["adopt"] = draw(st.booleans())
    if k == "copy":
        o["adopt"] = draw(st.booleans())
    if k == "window":
        o["s"] = draw(G.SEED)
        o["dl"] = draw(st.sampled_from([0, 0, 0, 0, 1, 3, -1, -2, -99]))
        o["kind"] = draw(st.sampled_from(["real", "complex", "zero", "mask",
                                          "own", "list"]))
    if k == "own":
        o["what"] = draw(st.sampled_from(["col-mirror", "col-reversed",
                                          "row-reversed"]))
    if k == "badval":
        o["bad"] = draw(st.sampled_from(BADVAL))
        o["where"] = draw(st.sampled_from(["row", "row", "col", "one"]))
        o["at"] = draw(st.floats(0, 0.999))
        o["form"] = draw(st.sampled_from(["list", "array", "tuple"]))
    if k in ("bad", "badset"):
        o["what"] = draw(st.sampled_from(BAD))
    return o


@st.composite
def cases(draw, vector, hi=8, steps=25, far=False):
    nmax, mmax = draw(G.nm_far_or(far, hi, modes=600))
    start = draw(st.sampled_from(["zeros", "dense", "dense"] if vector else
                                 ["zeros", "dense", "dense", "dense", "abs",
                                  "mag", "mag2"]))
    ops = draw(st.lists(op(nmax, mmax, vector), min_size=1, max_size=steps))
    return {"nmax": nmax, "mmax": mmax, "start": start, "s": draw(G.SEED),
            "ops": ops}


# rows and columns given as lists or arrays of other kinds of number
LINES = {"ints": lambda v: [int(x) for x in v.real],
         "floats": lambda v: [float(x) for x in v.real],
         "mixed": lambda v: [complex(x) if i % 3 else float(x.real)
                             for i, x in enumerate(v)],
         "bools": lambda v: [bool(x) for x in v],
         "i64": lambda v: v.real.astype(np.int64),
         "i8": lambda v: v.real.astype(np.int8),
         "u16": lambda v: abs(v.real).astype(np.uint16),
         "f64": lambda v: v.real.copy(),
         "f32": lambda v: v.real.astype(np.float32),
         "f16": lambda v: v.real.astype(np.float16),
         "c64": lambda v: v.astype(np.complex64),
         "b": lambda v: v.real > 0,
         "other-endian": lambda v: v.astype(">c16"),
         "strided": lambda v: np.repeat(v, 3)[::3],
         "reversed": lambda v: v[::-1].copy()[::-1],
         "range": lambda v: range(1, len(v) + 1),
         "readonly": lambda v: frozen(v)}


def frozen(v):
    v = v.copy()
    v.flags.writeable = False
    return v


BADVAL = ["str", "seq", "object", "array", "empty", "dict"]


def bad_value(k):
    return {"str": "x", "seq": [1.0, 2.0], "object": object(),
            "array": np.array([1.0, 2.0]), "empty": [], "dict": {}}[k]


def with_bad(o, L):
    """L values of which one is no number."""
    v = [complex(i + 0.5, -i) for i in range(L)]
    v[int(o["at"] * L)] = bad_value(o["bad"])
    if o["form"] == "array":
        w = np.empty(L, dtype=object)
        for i in range(L):
            w[i] = v[i]
        return w
    return tuple(v) if o["form"] == "tuple" else v


def number(z, form):
    """(the number to write, the complex it stands for)"""
    z = complex(z)
    if form == "int":
        x = int(z.real) if abs(z.real) < 1e15 else 7
        return x, complex(x)
    if form == "float":
        return z.real, complex(z.real)
    if form == "bool":
        return bool(z), complex(bool(z))
    if form == "c64":
        if not abs(z) < 1e30:
            z = 1.5 - 2j
        x = np.complex64(z)
        return x, complex(x)
    if form == "i8":
        x = np.int8(int(max(-100, min(100, z.real))))
        return x, complex(x)
    if form == "big":
        x = (int(max(-1e15, min(1e15, z.real))) << 70) + 1
        return x, complex(x)
    if form == "np32":
        x = np.float32(max(-1e30, min(1e30, z.real)))
        return x, complex(x)
    if form == "frac":
        x = fractions.Fraction(max(-1e30, min(1e30, z.real)))
        return x, complex(float(x))
    return (np.complex128(z) if form == "np" else z), z


class Ref(object):
    """One scalar set: the model."""

    def __init__(self, nmax, mmax, d):
        self.nmax, self.mmax, self.d = nmax, mmax, d

    def legal(self, n, m):
        return 0 <= n <= self.nmax and abs(m) <= min(n, self.mmax)

    def row_ms(self, n):
        t = min(n, self.mmax)
        return list(range(-t, t + 1))

    def col_ns(self, m):
        return list(range(abs(m), self.nmax + 1))

    def copy(self):
        return Ref(self.nmax, self.mmax, dict(self.d))

    def trunc(self, k):
        return Ref(k, min(k, self.mmax),
                   {nm: v for nm, v in self.d.items() if nm[0] <= k})


def agree(c, r, what):
    K.need((c.nmax, c.mmax) == (r.nmax, r.mmax), "%s: size is %s, expected "
           "%s", what, (c.nmax, c.mmax), (r.nmax, r.mmax))
    for m in range(-r.mmax, r.mmax + 1):
        want = np.array([r.d[(n, m)] for n in r.col_ns(m)])
        K.same(c[:, m], want, "%s: column m=%d" % (what, m))
        i = 1 if m == 0 else 0          # the monopole may lose its sign
        K.signs(c[:, m][i:], want[i:], "%s: column m=%d" % (what, m))


def agree_full(c, r, what):
    agree(c, r, what)
    K.need(c.size == len(r.d), "%s: size %s, expected %d modes", what, c.size,
           len(r.d))
    for n in range(r.nmax + 1):
        row = np.array([r.d[(n, m)] for m in r.row_ms(n)])
        K.same(c[n, :], row, "%s: row n=%d" % (what, n))
        if n > 0:
            K.signs(c[n, :], row, "%s: row n=%d" % (what, n))
        for m in r.row_ms(n):
            K.same(c[n, m], r.d[(n, m)], "%s: mode (%d, %d)" % (what, n, m))


class Refused(Exception):
    pass


def attempt(fn):
    """Value of fn(), or Refused when it raised an error."""
    try:
        return fn()
    except (AttributeError, IndexError, KeyError, TypeError, ValueError) as e:
        raise Refused(str(e))


def expect(fn, legal, what):
    """fn() when legal must work; otherwise it must be refused."""
    try:
        r = attempt(fn)
    except Refused as e:
        K.need(not legal, "%s is legal but was refused: %s", what, e)
        return None
    K.need(legal, "%s is not legal but was accepted, giving %.100r", what, r)
    return r


def bad_index(what):
    return {"s_1:3,0": (slice(1, 3), 0), "s_:2,0": (slice(None, 2), 0),
            "s_::1,0": (slice(None, None, 1), 0), "s_0,1:": (0, slice(1, None)),
            "s_0,:1": (0, slice(None, 1)), "s_0,::2": (0, slice(None, None, 2)),
            "s_:,:": (slice(None), slice(None)),
            "s_0:2,1:": (slice(0, 2), slice(1, None)),
            "s_1:2,:": (slice(1, 2), slice(None)),
            "s_0:2:1,:": (slice(0, 2, 1), slice(None)),
            "f_1.0,0": (1.0, 0), "x_str": ("a", 0), "t_3": (0, 0, 0),
            "t_1": (0,), "none": (None, None)}[what]


def cvals(seed, n, form):
    v = G.fill((max(n, 0),), seed, "int") + 0.25
    if seed % 4 == 0:
        v = G.fill((max(n, 0),), seed, "special")
    if form in LINES:
        w = v.copy()
        w[~(abs(w) < 100)] = 3.0          # what every kind of number holds
        return LINES[form](w)
    if form == "list":
        return [complex(x) for x in v]
    if form == "tuple":
        return tuple(complex(x) for x in v)
    return v


def put(c, i, v):
    c[i] = v


def step_scalar(c, r, o, vec_sub=False, kept=None):
    """Apply o to the scalar container c and its model r."""
    k, n, m = o["op"], o["n"], o["m"]
    lab = k
    ni, mi = G.whole(n, o.get("it")), G.whole(m, o.get("it"))
    if vec_sub and k in ("set",) and n == 0:
        return c, r, "skip"
    if k == "set":
        v, z = number(G.cplx(o["v"]), o["form"])
        ok = r.legal(n, m)
        expect(lambda: put(c, (ni, mi), v), ok, "c[%d, %d] = v" % (n, m))
        if ok:
            r.d[(n, m)] = z
        lab += "-legal" if ok else "-illegal"
    elif k == "get":
        ok = r.legal(n, m)
        g = expect(lambda: c[ni, mi], ok, "c[%d, %d]" % (n, m))
        if ok:
            K.same(g, r.d[(n, m)], "c[%d, %d]" % (n, m))
        lab += "-legal" if ok else "-illegal"
    elif k == "row":
        ok = 0 <= n <= r.nmax
        g = expect(lambda: c[ni, :], ok, "c[%d, :]" % n)
        if ok:
            K.same(g, np.array([r.d[(n, x)] for x in r.row_ms(n)]),
                   "c[%d, :]" % n)
            lab += "-beyond-mmax" if n > r.mmax else ""
    elif k == "col":
        ok = abs(m) <= r.mmax
        g = expect(lambda: c[:, mi], ok, "c[:, %d]" % m)
        if ok:
            K.same(g, np.array([r.d[(x, m)] for x in r.col_ns(m)]),
                   "c[:, %d]" % m)
    elif k == "setrow":
        ms = r.row_ms(n) if 0 <= n <= r.nmax else []
        v = cvals(o["s"], len(ms) + o["dl"] if ms else 3, o["form"])
        ok = bool(ms) and len(v) == len(ms)
        if vec_sub and n == 0:
            return c, r, "skip"
        expect(lambda: put(c, (ni, slice(None)), v), ok,
               "c[%d, :] = %d values" % (n, len(v)))
        if ok:
            for x, y in zip(ms, v):
                r.d[(n, x)] = complex(y)
        lab += "-legal" if ok else "-illegal"
    elif k == "setcol":
        ns = r.col_ns(m) if abs(m) <= r.mmax else []
        v = cvals(o["s"], len(ns) + o["dl"] if ns else 3, o["form"])
        ok = bool(ns) and len(v) == len(ns)
        if vec_sub and m == 0:
            return c, r, "skip"
        expect(lambda: put(c, (slice(None), mi), v), ok,
               "c[:, %d] = %d values" % (m, len(v)))
        if ok:
            for x, y in zip(ns, v):
                r.d[(x, m)] = complex(y)
        lab += "-legal" if ok else "-illegal"
    elif k == "trunc":
        ok = 0 <= n <= r.nmax
        g = expect(lambda: c[0:ni, :], ok, "c[0:%d, :]" % n)
        if ok:
            t = r.trunc(n)
            agree_full(g, t, "c[0:%d, :]" % n)
            # what is done to the truncated set stays there
            keep = g[n, 0]
            g[n, 0] = 12345.0
            agree(c, r, "original after writing to c[0:%d, :]" % n)
            g[n, 0] = keep
            if kept is not None:
                # one that is only looked at much later
                kept.append((c[0:ni, :], t.copy(), "truncation"))
            if o["adopt"]:
                return g, t, lab + "-adopt"
        lab += "-legal" if ok else "-illegal"
    elif k == "copy":
        g = c.copy()
        agree_full(g, r, "copy")
        h = c.copy()
        h[r.nmax, 0] = 54321.0
        h[:, 0] = np.arange(r.nmax + 1) + 0.5
        agree(c, r, "original after writing to its copy")
        agree(g, r, "first copy after writing to the second")
        if kept is not None:
            kept.append((c.copy(), r.copy(), "copy"))
        if o["adopt"]:
            c[r.nmax, 0] = -777.0
            agree(g, r, "copy after writing to the original")
            return g, r, lab + "-adopt"
    elif k == "window":
        # -99: a single value, which must not be broadcast
        N = 1 if o["dl"] == -99 else max(r.nmax + 1 + o["dl"], 0)
        w = G.fill((N,), o["s"], "int").real + 0.5
        if o["kind"] == "complex":
            w = w + 0.5j
        elif o["kind"] == "zero":
            w = w * 0
        elif o["kind"] == "mask":
            w = (w > 0) * 1.0
        elif o["kind"] == "list":
            w = [float(x) for x in w]
        elif o["kind"] == "own" and o["dl"] == 0:
            # the window is the set's own m = 0 column
            own = c[:, 0]
            w = np.array([r.d[(x, 0)] for x in range(N)])
            K.same(own, w, "c[:, 0]")
            lab += "-own"
        ok = N == r.nmax + 1
        arg = own if lab == "window-own" else w
        expect(lambda: c.window(arg), ok, "window of %d values" % N)
        if ok:
            for (x, y) in r.d:
                r.d[(x, y)] = complex(np.complex128(r.d[(x, y)]) * w[x])
            # products may differ by rounding: read back within 1 ulp
            for y in range(-r.mmax, r.mmax + 1):
                want = np.array([r.d[(x, y)] for x in r.col_ns(y)])
                got = np.asarray(c[:, y])
                K.need(got.shape == want.shape, "window changed a column's "
                       "shape")
                fin = np.isfinite(want)
                K.close(got[fin], want[fin],
                        4e-16 * np.abs(want[fin]) * 4 + 1e-320, "window")
                for x, v in zip(r.col_ns(y), got):
                    r.d[(x, y)] = complex(v)
        lab += "-legal" if ok else "-illegal"
    elif k == "own":
        # writing what the set itself gave, once more or in another order
        if o["what"].startswith("col") and abs(m) <= r.mmax and not (
                vec_sub and m == 0):
            rev = o["what"] == "col-reversed"
            v = [r.d[(x, m if rev else -m)] for x in r.col_ns(m)]
            if rev:
                v = v[::-1]
                c[:, m] = c[:, m][::-1]
            else:
                c[:, m] = c[:, -m]
            for x, y in zip(r.col_ns(m), v):
                r.d[(x, m)] = y
        elif o["what"].startswith("row") and 0 <= n <= r.nmax:
            v = [r.d[(n, x)] for x in r.row_ms(n)][::-1]
            c[n, :] = c[n, :][::-1]
            for x, y in zip(r.row_ms(n), v):
                r.d[(n, x)] = y
        lab += "-" + o["what"]
    elif k == "badval":
        w = o["where"]
        if w == "row" and 0 <= n <= r.nmax:
            v = with_bad(o, len(r.row_ms(n)))
            expect(lambda: put(c, (ni, slice(None)), v), False,
                   "c[%d, :] = %r" % (n, v))
        elif w == "col" and abs(m) <= r.mmax:
            v = with_bad(o, len(r.col_ns(m)))
            expect(lambda: put(c, (slice(None), mi), v), False,
                   "c[:, %d] = %r" % (m, v))
        elif r.legal(n, m):
            v = bad_value(o["bad"])
            expect(lambda: put(c, (ni, mi), v), False,
                   "c[%d, %d] = %r" % (n, m, v))
        lab += "-" + w
    elif k == "bad":
        i = bad_index(o["what"])
        expect(lambda: c[i], False, "c[%r]" % (i,))
    elif k == "badset":
        i = bad_index(o["what"])
        expect(lambda: put(c, i, 1.0), False, "c[%r] = 1.0" % (i,))
    return c, r, lab


DERIVED = ("abs", "mag", "mag2")


def check_scalar(case):
    nmax, mmax = case["nmax"], case["mmax"]
    ms = O.modes(nmax, mmax)
    v = np.zeros(len(ms), complex) if case["start"] == "zeros" else \
        G.fill((len(ms),), case["s"], "complex")
    r = Ref(nmax, mmax, {k: complex(x) for k, x in zip(ms, v)})
    c = G.make_scoefs(sp, r.d, nmax, mmax)
    labs = []
    if case["start"] in DERIVED:
        # a set some operation made; what it holds is another property's
        # business, so the model starts from what it reads as
        c = getattr(sp, case["start"])(c)
        for k in ms:
            r.d[k] = complex(c[k])
        labs.append("derived")
    agree_full(c, r, "start")
    kept = []
    for o in case["ops"]:
        was = c, r.copy()
        c, r, lab = step_scalar(c, r, o, kept=kept)
        if c is not was[0]:
            if o["op"] == "copy":
                was[1].d[(r.nmax, 0)] = -777.0 + 0j
            kept.append((was[0], was[1], "set left behind"))
        labs.append(lab)
        agree(c, r, "after " + o["op"])
    agree_full(c, r, "end")
    for g, q, what in kept:
        agree(g, q, "a %s, at the end" % what)
    return labs


def check_vector(case):
    nmax, mmax = case["nmax"], case["mmax"]
    ms = O.modes(nmax, mmax)
    R = []
    for s in (0, 1):
        v = np.zeros(len(ms), complex) if case["start"] == "zeros" else \
            G.fill((len(ms),), case["s"] + s, "complex")
        v[0] = 0
        R.append(Ref(nmax, mmax, {k: complex(x) for k, x in zip(ms, v)}))
    c = G.make_vcoefs(sp, R[0].d, R[1].d, nmax, mmax)
    labs = []

    def both(what):
        K.need((c.nmax, c.mmax) == (R[0].nmax, R[0].mmax),
               "%s: size is %s", what, (c.nmax, c.mmax))
        agree(c.scoef1, R[0], what + ", set 1")
        agree(c.scoef2, R[1], what + ", set 2")
        K.need(c.scoef1[0, 0] == 0 and c.scoef2[0, 0] == 0,
               "%s: there is a monopole", what)

    both("start")
    kept = []
    for o in case["ops"]:
        k, n, m = o["op"], o["n"], o["m"]
        if o["set"] and k in ("set", "get", "row", "col", "setrow", "setcol",
                              "window", "own", "bad", "badset",
                              "badval"):
            i = o["set"] - 1
            sc = (c.scoef1, c.scoef2)[i]
            got = step_scalar(sc, R[i], o, vec_sub=True)
            labs.append("sub-" + got[2])
            both("after %s on set %d" % (k, i + 1))
            continue
        lab = "v-" + k
        ni, mi = G.whole(n, o.get("it")), G.whole(m, o.get("it"))
        r1, r2 = R
        if k == "set":
            (va, a), (vb, b) = [number(G.cplx(o[x]), o["form"])
                                for x in ("v", "w")]
            v = {"np": [va, vb], "tuple3": (a, b, a),
                 "one": a}.get(o["form"], (va, vb))
            ok = o["form"] not in ("tuple3", "one") and r1.legal(n, m) \
                and n != 0
            expect(lambda: put(c, (ni, mi), v), ok, "vc[%d, %d] = %s"
                   % (n, m, o["form"]))
            if ok:
                r1.d[(n, m)], r2.d[(n, m)] = a, b
            lab += "-legal" if ok else "-illegal"
        elif k == "get":
            ok = r1.legal(n, m) and n != 0
            g = expect(lambda: c[ni, mi], ok, "vc[%d, %d]" % (n, m))
            if ok:
                K.need(len(g) == 2, "vc[n, m] is not a pair")
                K.same(g[0], r1.d[(n, m)], "vc[%d, %d] first" % (n, m))
                K.same(g[1], r2.d[(n, m)], "vc[%d, %d] second" % (n, m))
        elif k == "row":
            ok = 0 < n <= r1.nmax
            g = expect(lambda: c[ni, :], ok, "vc[%d, :]" % n)
            if ok:
                for x, r in zip(g, R):
                    K.same(x, np.array([r.d[(n, y)] for y in r.row_ms(n)]),
                           "vc[%d, :]" % n)
        elif k == "col":
            ok = abs(m) <= r1.mmax
            g = expect(lambda: c[:, mi], ok, "vc[:, %d]" % m)
            if ok:
                for x, r in zip(g, R):
                    K.same(x, np.array([r.d[(y, m)] for y in r.col_ns(m)]),
                           "vc[:, %d]" % m)
        elif k == "setrow":
            expect(lambda: put(c, (n, slice(None)), (1.0, 2.0)), False,
                   "vc[%d, :] = pair" % n)
        elif k == "setcol":
            expect(lambda: put(c, (slice(None), m), (1.0, 2.0)), False,
                   "vc[:, %d] = pair" % m)
        elif k == "trunc":
            ok = 0 <= n <= r1.nmax
            g = expect(lambda: c[0:ni, :], ok, "vc[0:%d, :]" % n)
            if ok:
                t = [x.trunc(n) for x in R]
                K.need((g.nmax, g.mmax) == (t[0].nmax, t[0].mmax),
                       "vc[0:%d, :] has size %s", n, (g.nmax, g.mmax))
                agree_full(g.scoef1, t[0], "vc[0:%d, :] set 1" % n)
                agree_full(g.scoef2, t[1], "vc[0:%d, :] set 2" % n)
                if n > 0:
                    keep = g[n, 0]
                    g[n, 0] = (1234.0, 4321.0)
                    both("original after writing to a truncation")
                    g[n, 0] = keep
                kept.append((c[0:ni, :], [x.copy() for x in t],
                             "truncation"))
                if o["adopt"]:
                    kept.append((c, [x.copy() for x in R],
                                 "set left behind"))
                    c, R[:] = g, t
                    lab += "-adopt"
        elif k == "copy":
            g = c.copy()
            if r1.nmax > 0:
                h = c.copy()
                h[r1.nmax, 0] = (1234.0, 4321.0)
                both("original after writing to its copy")
            kept.append((c.copy(), [x.copy() for x in R], "copy"))
            if o["adopt"]:
                q = [x.copy() for x in R]
                if r1.nmax > 0:
                    c[r1.nmax, 0] = (-5.0, -6.0)
                    q[0].d[(r1.nmax, 0)] = -5.0 + 0j
                    q[1].d[(r1.nmax, 0)] = -6.0 + 0j
                kept.append((c, q, "set left behind"))
                c = g
                lab += "-adopt"
        elif k == "badval":
            v = [2.5 + 1j, -3.5j]
            v[int(2 * o["at"])] = bad_value(o["bad"])
            v = tuple(v) if o["form"] == "tuple" else v
            expect(lambda: put(c, (ni, mi), v), False, "vc[%d, %d] = %r"
                   % (n, m, v))
        elif k == "bad":
            i = bad_index(o["what"])
            expect(lambda: c[i], False, "vc[%r]" % (i,))
        elif k == "badset":
            i = bad_index(o["what"])
            expect(lambda: put(c, i, (1.0, 2.0)), False, "vc[%r] = .." % (i,))
        labs.append(lab)
        both("after " + k)
    agree_full(c.scoef1, R[0], "end, set 1")
    agree_full(c.scoef2, R[1], "end, set 2")
    for g, q, what in kept:
        agree(g.scoef1, q[0], "set 1 of a %s, at the end" % what)
        agree(g.scoef2, q[1], "set 2 of a %s, at the end" % what)
    K.need(c.size == len(R[0].d), "size %s, expected %d", c.size,
           len(R[0].d))
    return labs


def fixed_all(vector):
    def f(tier):
        """Every mode, row, column and truncation of every small size, with
        the first illegal index on each side."""
        hi = 5 if tier == "quick" else 9
        for nmax in range(hi + 1):
            for mmax in range(nmax + 1):
                ops = []
                for n in range(-2, nmax + 3):
                    for m in range(-mmax - 2, mmax + 3):
                        o = {"op": "set", "n": n, "m": m, "set": 0,
                             "it": G.ITYPES[(n + 2 * m) % len(G.ITYPES)],
                             "v": [n, m], "w": [m - 0.5, n], "form": "py"}
                        ops += [o, dict(o, op="get")]
                    for k in ("row", "setrow", "trunc"):
                        for dl in ((0, 1, -1) if k == "setrow" else (0,)):
                            ops.append({"op": k, "n": n, "m": 0, "s": n + 10,
                                        "set": 1 if k == "setrow" else 0,
                                        "dl": dl, "form": "list",
                                        "adopt": False})
                for m in range(-mmax - 2, mmax + 3):
                    for k in ("col", "setcol"):
                        for dl in ((0, 1, -1) if k == "setcol" else (0,)):
                            ops.append({"op": k, "n": 0, "m": m, "s": m + 10,
                                        "set": 2 if k == "setcol" else 0,
                                        "dl": dl, "form": "array"})
                for i, b in enumerate(BADVAL * 6):
                    ops.append({"op": "badval", "n": i % (nmax + 1), "bad": b,
                                "m": (i // 2) % (mmax + 1), "set": i % 3,
                                "at": (i % 4) / 4.0 + 0.1,
                                "where": ["row", "col", "one"][i // 3 % 3],
                                "form": ["list", "array", "tuple"][i // 5 % 3],
                                "it": G.ITYPES[i % len(G.ITYPES)]})
                for b in BAD:
                    ops.append({"op": "bad", "n": 0, "m": 0, "what": b,
                                "set": 0})
                    ops.append({"op": "badset", "n": 0, "m": 0, "what": b,
                                "set": 0})
                yield {"nmax": nmax, "mmax": mmax, "start": "dense",
                       "s": nmax * 10 + mmax, "ops": ops}
                yield {"nmax": nmax, "mmax": mmax, "start": "dense",
                       "s": nmax * 10 + mmax, "ops": [
                           {"op": "window", "n": 0, "m": 0, "set": i % 3,
                            "dl": 0, "s": 5, "kind": k} for i, k in
                           enumerate(["own", "real", "own", "list", "own"])]}
                # one zero over another
                yield {"nmax": nmax, "mmax": mmax, "start": "zeros", "s": 1,
                       "ops": [{"op": "set", "n": n, "m": m, "set": i % 3,
                                "v": v, "w": v, "form": "py"}
                               for i, (n, m) in enumerate(
                                   O.modes(nmax, mmax))
                               for v in ([-0.0, 0.0], [0.0, -0.0],
                                         [-0.0, -0.0], [0.0, 0.0])[:4 - i % 2]
                               if n > 0 or not vector]}
                if not vector and nmax < 4:
                    for k in DERIVED:
                        yield {"nmax": nmax, "mmax": mmax, "start": k,
                               "s": nmax * 10 + mmax, "ops": ops}
    return f


def fixed_wide(vector):
    def f(tier):
        """Many orders: writes, cuts, rows and columns at both ends and in
        the middle."""
        for i, (nmax, mmax) in enumerate(
                [(30, 28), (26, 26), (40, 13), (60, 60), (64, 33), (100, 20),
                 (200, 9)] + ([(100, 100), (300, 40), (150, 150)]
                              if tier == "thorough" else [])):
            ops = []
            for m in (0, 1, -1, mmax // 2, -(mmax // 2), mmax - 1, 1 - mmax,
                      mmax, -mmax):
                for k in ("col", "setcol"):
                    ops.append({"op": k, "n": 0, "m": m, "s": m + 200,
                                "dl": 0, "form": "array",
                                "set": abs(m) % 2 + 1 if vector and
                                (k == "setcol" or m % 3) else 0})
            for n in (nmax, nmax - 1, mmax, mmax - 1, nmax // 2, 1):
                for k in ("row", "setrow"):
                    ops.append({"op": k, "n": n, "m": 0, "s": n + 10, "dl": 0,
                                "form": "list", "set": n % 2 + 1 if vector and
                                (k == "setrow" or n % 3) else 0})
                for m in (-min(n, mmax), min(n, mmax), n // 2 % mmax):
                    o = {"op": "set", "n": n, "m": m, "set": 0,
                         "v": [n, m], "w": [m - 0.5, n], "form": "py"}
                    ops += [o, dict(o, op="get")]
            ops.append({"op": "window", "n": 0, "m": 0, "dl": 0, "s": 5,
                        "kind": "real", "set": i % 2 + 1})
            for n in (nmax - 1, (nmax + mmax) // 2, mmax - 1, mmax // 2, 3):
                ops.append({"op": "trunc", "n": n, "m": 0, "set": 0,
                            "adopt": n % 2 == i % 2})
                ops.append({"op": "copy", "n": 0, "m": 0, "set": 0,
                            "adopt": n % 2 == 0})
            for j in range(2):
                yield {"nmax": nmax, "mmax": mmax, "start": "dense",
                       "s": 7 * i, "ops": ops[j::2] if j else
                       [o for o in ops if not o.get("adopt")]}
    return f


def nontrivial(case):
    return len(case["ops"]) >= 3 and any(
        o["op"].startswith("set") or o["op"] in ("window", "trunc")
        for o in case["ops"])


R_ = ("exhaustive indexing of every small size, then generated histories of "
      "reads, writes, windows, truncations, copies and illegal accesses "
      "against a map model, compared after every step; non-trivial = at least "
      "3 operations with a write, window or truncation")
FACETS = [
    Facet("far-scalar", lambda: cases(False, steps=6, far=True),
          check_scalar, nontrivial, quick=80, thorough=2500, shards=4,
          tshards=8, fixed=fixed_wide(False),
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("far-vector", lambda: cases(True, steps=6, far=True),
          check_vector, nontrivial, quick=80, thorough=2500, shards=4,
          tshards=8, fixed=fixed_wide(True),
          rule="as the first, with nmax up to 260, or shapes up to 1500 "
               "rows or columns, each order of magnitude as likely"),
    Facet("scalar", lambda: cases(False), check_scalar, nontrivial,
          quick=1200, thorough=40000, fixed=fixed_all(False), shards=4,
          tshards=8, rule=R_),
    Facet("vector", lambda: cases(True), check_vector, nontrivial,
          quick=1000, thorough=30000, fixed=fixed_all(True), shards=4,
          tshards=8, rule="as scalar, on vector sets and their two members"),
]
