"""C19 spherical Bessel and Hankel functions against high precision."""
import fractions
import functools
import math

import numpy as np
from hypothesis import strategies as st

from vt import common as K, gen as G, sut
from vt.engine import Facet

sp = sut.load()
import mpmath as mp                                            # noqa: E402


@functools.lru_cache(maxsize=4000)
def ref(x, N):
    """(j, y) for n = 0..N-1 as mpf, 50 digits: j by downward recurrence
    normalised with the closed forms, y upwards."""
    with mp.workdps(60):
        X = mp.mpf(x)
        s, c = mp.sin(X), mp.cos(X)
        y = [-c / X, -c / X ** 2 - s / X]
        for n in range(2, N):
            y.append((2 * n - 1) / X * y[-1] - y[-2])
        j0, j1 = s / X, s / X ** 2 - c / X
        if x < 1e-3:                              # series, no cancellation
            j = []
            t = mp.mpf(1)
            h = -X * X / 2
            for n in range(N):
                if n:
                    t = t * X / (2 * n + 1)
                a, v = mp.mpf(1), mp.mpf(1)
                for k in range(1, 30):
                    a = a * h / (k * (2 * n + 2 * k + 1))
                    v += a
                j.append(t * v)
        elif x > N + 4000:                        # stable upwards
            j = [j0, j1]
            for n in range(2, N):
                j.append((2 * n - 1) / X * j[-1] - j[-2])
            j = j[:N]
        else:
            top = int(max(N, x)) + 60 + int(12 * x ** (1.0 / 3))
            a, b = mp.mpf(0), mp.mpf(1)
            j = [None] * N
            last = {}
            for n in range(top, -1, -1):
                a, b = b, (2 * n + 3) / X * b - a
                if n < N:
                    j[n] = b
                if n < 2:
                    last[n] = b
            q = j0 / last[0] if abs(last[0]) >= abs(last[1]) \
                else j1 / last[1]
            j = [v * q for v in j]
        return tuple(j), tuple(y[:N])


@functools.lru_cache(maxsize=1)
def zeros():
    """doubles nearest to zeros of j_n and y_n"""
    out = []
    with mp.workdps(30):
        for n in range(0, 14):
            for k in (1, 2, 4):
                out.append(float(mp.besseljzero(n + mp.mpf(1) / 2, k)))
                out.append(float(mp.besselyzero(n + mp.mpf(1) / 2, k)))
    return out


@st.composite
def argument(draw, hi=1000.0):
    k = draw(st.integers(0, 9))
    if k == 9:
        return draw(st.floats(1.0, 9.0)) * 10.0 ** draw(
            st.one_of(st.integers(-307, 307), st.integers(3, 20)))
    if k == 0:
        return 10.0 ** draw(st.integers(-150, -1)) * draw(
            st.sampled_from([1.0, 3.0, 7.5]))
    if k == 1:
        return float(draw(st.integers(1, 300)))
    if k == 2:
        return draw(st.integers(1, 200)) * math.pi / 2
    if k == 3:
        n = draw(st.integers(2, 200))
        return math.sqrt(4.0 * n * n - 1.0)
    if k == 4:
        z = draw(st.sampled_from(zeros()))
        return z * (1 + draw(st.integers(-2, 2)) * K.EPS)
    if k == 5:
        return draw(st.floats(1.0, hi))
    if k == 6:
        return math.nextafter(float(draw(st.integers(1, 100))),
                              draw(st.sampled_from([0.0, 1e9])))
    return draw(st.floats(1e-3, 60.0))


@st.composite
def far(draw):
    """Orders and arguments of some hundreds or thousands."""
    N = draw(st.one_of(st.integers(300, 1500), st.integers(100, 500)))
    k = draw(st.integers(0, 5))
    if k == 0:
        x = draw(argument())
    elif k == 1:
        x = max(1.0, N + draw(st.floats(-20.0, 20.0)))
    elif k == 2:
        x = float(draw(st.integers(1, 3000)))
    elif k == 3:
        x = draw(st.floats(1.0, 10.0)) * 10.0 ** draw(st.integers(3, 306))
    else:
        x = draw(st.floats(1.0, 3000.0))
    return {"x": x, "N": N, "neg": draw(st.integers(0, 3)) == 0,
            "type": draw(st.sampled_from(["float", "float64", "int", "float32",
                                          "int16", "uint16"]))}


def fixed_far(tier):
    for N in (300, 500, 512, 700, 1000, 1024, 1500):
        for x in (1e-9, 1.0, 77.5, 0.3 * N, 0.8 * N, N - 1.5, float(N),
                  N + 1.5, 2.0 * N):
            for neg in (False, True):
                yield {"x": x, "N": N, "type": "float", "neg": neg}
    for N, x in ((3000, 0.5), (3000, 2900.0), (3000, 1700.5), (6000, 5000.0),
                 (6000, 123.456), (2, 3e4), (2500, 8e3)) + (
            () if tier == "quick" else ((12000, 11000.0), (12000, 9000.5),
                                        (20000, 19990.0))):
        yield {"x": x, "N": N, "type": "float", "neg": N == 2500}


TYPES = ["float", "float", "float64", "int", "float", "int64", "float32",
         "float16", "longdouble", "int8", "int16", "int32", "uint8", "uint16",
         "uint32", "uint64", "frac"]


def typed(x, t):
    """x as a number of a type, where that holds just this value."""
    if t == "int":
        return int(x) if x == int(x) and abs(x) < 1e18 else x
    if t == "frac":
        return fractions.Fraction(x) if abs(x) < 1e18 else x
    if t == "float":
        return x
    d = np.dtype(t)
    if d.kind in "iu":
        i = np.iinfo(d)
        return d.type(int(x)) if i.min <= x <= i.max and x == int(x) and \
            abs(x) < 1e18 else x
    with np.errstate(all="ignore"):
        return d.type(x) if float(d.type(x)) == x else x


@st.composite
def cases(draw):
    x = draw(argument())
    if draw(st.integers(0, 5)) == 0:
        x = draw(st.one_of(st.integers(1, 120).map(float),
                           st.integers(1, 500).map(lambda k: k / 8.0)))
    k = draw(st.integers(0, 3))
    if k == 0:
        N = draw(st.integers(1, 6))
    elif k == 1:
        N = max(1, int(x) + draw(st.integers(-3, 3)))
        N = min(N, 400)
    elif k == 2:
        N = min(400, max(1, int(x / 2) + 1))
    else:
        N = draw(st.integers(1, 400 if draw(st.integers(0, 5)) == 0 else 60))
    return {"x": x, "N": N, "neg": draw(st.integers(0, 3)) == 0,
            "type": draw(st.sampled_from(TYPES)),
            "ntype": draw(st.sampled_from(G.ITYPES))}


def check(case):
    x, N = case["x"], case["N"]
    rj, ry = ref(x, N)
    if case["neg"]:
        # j_n is even or odd like n, y_n the other way round
        rj = [(-1) ** n * v for n, v in enumerate(rj)]
        ry = [-(-1) ** n * v for n, v in enumerate(ry)]
    a = typed(-x if case["neg"] else x, case["type"])
    I = G.whole(N, case.get("ntype"))
    j = K.arr(sp.sbesselj(a, I), (N,), "sbesselj(%r, %d)" % (a, N))
    K.need(not np.iscomplexobj(j), "sbesselj is complex")
    wj = np.array([float(v) for v in rj])
    big = float(np.max(np.abs(wj)))
    # sin and cos of x are exact to 1 ulp; the recursions lose a few more
    tol = 2e-14 * (1 + 0.02 * N)
    K.close(j, wj, tol * big + 1e-320, "sbesselj(%r, %d)" % (x, N))
    for n in range(N):
        if n > x and abs(wj[n]) > 1e-290:
            K.close(j[n], wj[n], 1e-12 * abs(wj[n]),
                    "sbesselj(%r, %d), n = %d beyond x" % (x, N, n))
    y = K.arr(sp.sbessely(a, I), (N,), "sbessely(%r, %d)" % (x, N))
    K.need(not np.iscomplexobj(y), "sbessely is complex")
    M = 0
    while M < N and abs(ry[M]) < 1e300:
        M += 1
    wy = np.array([float(v) for v in ry[:M]])
    mod = np.hypot(wy, wj[:M])
    K.close(y[:M], wy, tol * mod, "sbessely(%r, %d)" % (x, N))
    h1 = K.arr(sp.sbesselh1(a, I), (N,), "sbesselh1")
    h2 = K.arr(sp.sbesselh2(a, I), (N,), "sbesselh2")
    K.close(h1[:M], wj[:M] + 1j * wy, tol * mod + tol * big,
            "sbesselh1(%r, %d)" % (x, N))
    K.close(h2[:M], wj[:M] - 1j * wy, tol * mod + tol * big,
            "sbesselh2(%r, %d)" % (x, N))
    lab = ["N=1" if N == 1 else "N>x" if N > x + 1 else "N<=x",
           "tiny" if x < 1e-3 else "small" if x < 3 else "large"
           if x > 60 else "mid"]
    if case["neg"]:
        lab.append("negative")
    if M < N:
        lab.append("y-overflows")
    # a shorter vector is the beginning of a longer one
    if N > 1:
        s = sp.sbesselj(a, N // 2)
        if N // 2:
            K.close(s, wj[: N // 2],
                    tol * float(np.max(np.abs(wj[: N // 2]))),
                    "sbesselj of fewer orders")
    return lab


# ----------------------------------------------------- arrays, diagnostics

LISTS = ["list", "array", "array", "tuple", "int", "int8", "int16", "float32",
         "float16", "uint8", "strided", "back", "longdouble", "mixed"]


def listed(xs, how):
    """The arguments in a container, and their values there."""
    if how == "list":
        return list(xs), xs
    if how == "tuple":
        return tuple(xs), xs
    if how == "mixed":
        v = [typed(x, TYPES[i % len(TYPES)]) for i, x in enumerate(xs)]
        return v, [float(x) for x in v]
    if how == "strided":
        return np.repeat(np.array(xs), 3)[::3], xs
    if how == "back":
        return np.array(xs[::-1])[::-1], xs
    if how in ("int", "int8", "int16", "uint8"):
        xs = [float(int(x) or 1) for x in xs]
        if how == "uint8":
            xs = [abs(x) for x in xs]
    if how in ("float32", "float16"):
        xs = [float(np.dtype(how).type(x)) for x in xs]
    return np.array(xs, dtype=float if how == "array" else how), xs


@st.composite
def acases(draw):
    xs = draw(st.lists(st.one_of(st.floats(0.05, 80.0), st.floats(-60.0, -0.05),
                                 st.integers(1, 40).map(float)),
                       min_size=1, max_size=6))
    # longer lists: each once more, in reverse, and so on
    xs = (xs + xs[::-1]) * draw(st.sampled_from([0, 0, 0, 1, 5, 30, 90])) \
        or xs
    return {"xs": xs, "N": draw(st.one_of(st.integers(1, 40),
                                          st.integers(41, 160))),
            "list": draw(st.sampled_from(LISTS)), "z": draw(st.floats(0.05, 120.0)),
            "extra": draw(st.integers(0, 60)), "C": draw(st.integers(1, 60))}


def check_arrays(case):
    N = case["N"]
    v, xs = listed(case["xs"], case["list"])
    kept = list(v)
    J = K.arr(sp.sbesselj_array(v, N), (N, len(xs)), "sbesselj_array")
    Y = K.arr(sp.sbessely_array(v, N), (N, len(xs)), "sbessely_array")
    K.need(list(v) == kept, "an array routine changed its argument")
    for i, x in enumerate(xs):
        rj, ry = ref(abs(x), N)
        wj = np.array([float(t) for t in rj])
        wy = np.array([float(t) for t in ry])
        if x < 0:
            wj[1::2] *= -1
            wy[0::2] *= -1
        tol = 2e-14 * (1 + 0.02 * N)
        K.close(J[:, i], wj, tol * np.max(np.abs(wj)), "sbesselj_array")
        ok = np.abs(wy) < 1e300
        K.close(Y[ok, i], wy[ok], tol * np.hypot(wy, wj)[ok],
                "sbessely_array")
    z = case["z"]
    N = int(1.3 * z) + 25 + case["extra"]
    e = sp.sbesselj_sum(z, N)
    K.need(np.ndim(e) == 0 and 0 <= e < 1e-12, "the sum rule is off by %r at "
           "x = %r, N = %d", e, z, N)
    # too few orders: the sum rule must notice
    Ns = max(1, int(z / 3))
    rj = ref(z, Ns)[0]
    s = float(sum((2 * n + 1) * t * t for n, t in enumerate(rj)))
    K.close(sp.sbesselj_sum(z, Ns), abs((s - 1) / s),
            1e-11 * (1 + abs((s - 1) / s)), "sum rule of few orders")
    C = case["C"]
    if abs(ref(z, C + 1)[1][-1]) < 1e300:
        e = sp.sbessel_test_cross_product(z, C)
        K.need(np.ndim(e) == 0 and 0 <= e < 1e-11, "the cross product is off "
               "by %r at x = %r, N = %d", e, z, C)
    return ["arrays"]


def fixed(tier):
    for N in list(range(1, 13)) + [50, 200, 400]:
        for x in (1e-150, 1e-20, 1e-8, 1e-3, 0.1, 1.0, 2.0, math.pi, 5.5,
                  math.sqrt(15.0), math.sqrt(35.0), 5.76345919689455,
                  8.182561452571242, 30.0, 100.0, 900.0, 12345.0, 1e6,
                  4e9, 1e15, 1.3e154, 1.4e154, 1e200, 1.7e308, 1e-300,
                  1e-200, 2.3e-308):
            yield {"x": x, "N": N, "type": "float", "neg": False}
            yield {"x": x, "N": N, "type": "float", "neg": True}
    for n in range(2, 60):
        yield {"x": math.sqrt(4.0 * n * n - 1.0), "N": n, "type": "float", "neg": False}
    for z in zeros():
        yield {"x": z, "N": int(z) + 8, "type": "float64", "neg": False}


FACETS = [
    Facet("values", cases, check, lambda c: c["N"] > 1, quick=1600,
          thorough=60000, fixed=fixed, shards=6, tshards=8,
          rule="arguments from 1e-150 to 1000, zeros of the functions, "
               "multiples of pi/2, points where the continued fraction has "
               "poles; non-trivial = more than one order"),
    Facet("far", far, check, None, quick=150, thorough=8000, shards=6,
          tshards=8, fixed=fixed_far,
          rule="100 to 1500 orders, arguments to 3000"),
    Facet("arrays", acases, check_arrays, None, quick=300, thorough=8000,
          shards=2, tshards=4,
          rule="array forms column by column, lists of up to a thousand "
               "arguments, and the two diagnostics"),
]
