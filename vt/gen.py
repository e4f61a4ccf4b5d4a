"""Hypothesis strategies for JSON-able cases, and their realisation."""
import math
import zlib
import numpy as np
from hypothesis import strategies as st

from vt import oracle as O

# ---------------------------------------------------------------- sizes


def logint(lo, hi):
    """Whole numbers from lo to hi, every order of magnitude as likely."""
    lo = max(lo, 1)
    r = np.log(hi / lo)
    return st.integers(0, 10 ** 6).map(
        lambda k: min(hi, int(round(lo * np.exp(r * k / 1e6)))))


@st.composite
def nm_sizes(draw, nmax_hi=24, nmin=0):
    """(nmax, mmax): often equal, often mmax small or zero."""
    nmax = draw(st.one_of(st.integers(nmin, min(6, nmax_hi)),
                          st.integers(nmin, nmax_hi)))
    kind = draw(st.integers(0, 5))
    if kind <= 1:
        mmax = nmax
    elif kind == 2:
        mmax = draw(st.integers(0, min(2, nmax)))
    elif kind == 3:
        mmax = max(0, nmax - draw(st.integers(1, 2)))
    else:
        mmax = draw(st.integers(0, nmax))
    return nmax, mmax


ITYPES = ["int", "int", "int64", "int32", "intp", "int8", "int16", "uint8",
          "uint16", "uint32", "uint64"]


def whole(k, t):
    """k as an integer of a type of numpy's, where that can hold it."""
    if t in (None, "int") or k is None:
        return k
    i = np.iinfo(t)
    return np.dtype(t).type(k) if i.min <= k <= i.max else k


def high_end(lo, hi):
    """Both ends alike: bounded draws lean towards the lower end."""
    return st.one_of(st.integers(lo, hi),
                     st.integers(0, hi - lo).map(lambda k: hi - k))


@st.composite
def nm_big(draw, lo=50, hi=160, cost=150000):
    """Degrees lo..hi; nmax**2 * (mmax + 1), the cost of a transform, is kept
    under a budget."""
    nmax = draw(high_end(lo, hi))
    top = max(0, min(nmax, cost // (nmax * nmax) - 1))
    return nmax, draw(st.one_of(st.just(0), st.integers(0, top),
                                st.just(top)))


@st.composite
def grid_for(draw, nmax, mmax, extra_hi=12):
    """A legal synthesis grid: nrows >= nmax+2, even ncols >= 2*mmax+2."""
    er = draw(st.one_of(st.just(0), st.integers(0, 3),
                        st.integers(0, extra_hi)))
    ec = draw(st.one_of(st.just(0), st.integers(0, 3),
                        st.integers(0, extra_hi)))
    return nmax + 2 + er, 2 * mmax + 2 + 2 * ec


@st.composite
def nm_long(draw, hi=700, cost=600000):
    """Few degrees (for long grids), or degrees of some hundreds."""
    if draw(st.booleans()):
        return draw(nm_sizes(12))
    return draw(nm_big(160, hi, cost))


@st.composite
def grid_long(draw, nmax, mmax, cells=24000, far=2500):
    """A legal grid with up to some thousand rows or columns too many."""
    nrows, ncols = nmax + 2, 2 * mmax + 2
    k = draw(st.integers(0, 3))
    if k in (0, 2) and cells // ncols > nrows:
        nrows += draw(logint(1, min(far, cells // ncols - nrows)))
    if k in (1, 2) and cells // nrows > ncols + 1:
        ncols += 2 * draw(logint(1, min(far, (cells // nrows - ncols) // 2)))
    return nrows, ncols


@st.composite
def nm_of(draw, big, hi):
    return draw(nm_long() if big == "long" else
                nm_big(50, hi) if big else nm_sizes(hi))


@st.composite
def grid_of(draw, big, nmax, mmax, extra):
    return draw(grid_long(nmax, mmax) if big == "long" else
                grid_for(nmax, mmax, extra))


@st.composite
def patt_long(draw, cells=24000):
    """Up to 2000 rows or 3000 columns."""
    if draw(st.booleans()):
        nrows = draw(st.one_of(logint(2, 2000), high_end(160, 2000)))
        return nrows, 2 * draw(logint(1, max(1, cells // nrows // 2)))
    ncols = 2 * draw(st.one_of(logint(1, 1500), high_end(100, 1500)))
    return draw(logint(2, max(2, min(2000, cells // ncols)))), ncols


@st.composite
def sub_long(draw, nrows, ncols, cost=600000, top=800):
    n_hi, m_hi = nrows - 2, ncols // 2 - 1
    nmax = draw(st.one_of(st.just(min(n_hi, top)),
                          st.integers(0, min(n_hi, 40)),
                          st.integers(0, min(n_hi, top))))
    hi = min(nmax, m_hi, max(0, cost // (nmax * nmax + 1) - 1))
    return nmax, draw(st.one_of(st.just(hi), st.integers(0, hi)))


@st.composite
def nm_far(draw, hi=260, modes=8000):
    """Every order of magnitude of degrees, the number of modes bounded."""
    nmax = draw(st.one_of(logint(1, hi), high_end(90, hi)))
    top = min(nmax, max(0, modes // (2 * nmax)))
    k = draw(st.integers(0, 4))
    if k == 0 and modes >= 10000:
        nmax = draw(high_end(100, int(modes ** 0.5) - 1))
        return nmax, draw(high_end(min(99, nmax), nmax))
    return nmax, draw(st.one_of(st.just(top), logint(1, top) if top else
                                st.just(0), st.integers(0, top)))


@st.composite
def patt_far(draw, cells=6000, rows=1000, cols=1500):
    """Every order of magnitude of rows and columns."""
    if draw(st.booleans()):
        nrows = draw(st.one_of(logint(2, rows), high_end(60, rows)))
        return nrows, 2 * draw(logint(1, max(1, min(cols, cells // nrows)
                                             // 2)))
    ncols = 2 * draw(st.one_of(logint(1, cols // 2),
                               high_end(30, cols // 2)))
    return draw(logint(2, max(2, min(rows, cells // ncols)))), ncols


@st.composite
def nm_far_or(draw, far, hi, nmin=0, modes=8000):
    if not far:
        return draw(nm_sizes(hi, nmin))
    n, m = draw(nm_far(modes=modes))
    return max(n, nmin), m


@st.composite
def patt_far_or(draw, far, rows, cols, cells=6000):
    return draw(patt_far(cells) if far else patt_shape(rows, cols))


@st.composite
def pair(draw, s):
    """Two of s, now and then the same one twice, now and then one much
    weaker than the other."""
    a = draw(s)
    k = draw(st.integers(0, 11))
    if k <= 2:
        return [a, dict(a)]
    b = draw(s)
    if k in (3, 4):
        w = b if k == 3 else a
        w["e"] -= draw(st.sampled_from([3, 6, 8, 10, 11]))
    return [a, b]


WEAK = [9, 10, 11]


def weak_pair(*keys):
    """Dense values, those of one key much smaller, at small sizes."""
    i = 0
    for n in (1, 2, 3, 5):
        for e in WEAK:
            for k in keys:
                i += 1
                d = _dense(keys, i)
                d[k] = dict(d[k], e=-e)
                yield n, min(n, 2), d


def _dense(keys, i):
    return {k: {"k": "dense", "e": 0, "s": 31 * i + j, "f": "complex"}
            for j, k in enumerate(keys)}


def fixed_long(*keys):
    """Synthesis far out: (nmax, mmax, nrows, ncols)."""
    def f(tier):
        for i, (n, m, r, c) in enumerate([
                (2, 2, 2600, 6), (2, 1, 4, 2600), (5, 0, 1030, 2),
                (1, 1, 515, 12), (9, 9, 11, 1030), (300, 1, 302, 4),
                (600, 0, 602, 2), (520, 2, 522, 6), (180, 6, 400, 14),
                (100, 2, 102, 260), (64, 8, 257, 18)]):
            yield dict({"nmax": n, "mmax": m, "nrows": r, "ncols": c,
                        "r2": n + 3, "c2": 2 * m + 4, "rn": n, "rm": m,
                        "less": n // 2, "defaults": "none"},
                       **_dense(keys, i))
    return f


def fixed_long_patt(*keys):
    """Analysis far out: (nrows, ncols, nmax, mmax)."""
    def f(tier):
        for i, (r, c, n, m) in enumerate([
                (2050, 4, 3, 1), (4, 3000, 2, 2), (1025, 8, 6, 3),
                (514, 2, 512, 0), (602, 4, 600, 1), (302, 6, 300, 2),
                (11, 1030, 9, 9), (257, 18, 40, 8), (130, 130, 20, 20),
                (600, 30, 12, 12)]):
            yield dict(_dense(keys, i), nrows=r, ncols=c, nmax=n, mmax=m,
                       nmax2=n // 2, how="both", poles="raw")
    return f


def _synth(n, m, r, c, i, keys):
    return dict({"nmax": n, "mmax": m, "nrows": r, "ncols": c,
                 "r2": n + 3, "c2": 2 * m + 4, "rn": n, "rm": m,
                 "less": n // 2, "defaults": "none"}, **_dense(keys, i))


def ladder(*keys):
    """Synthesis at every degree, every order and every number of columns up
    to a bound, few of the other."""
    def f(tier):
        q = tier == "quick"
        i = 0
        for n in range(0, 300 if q else 700):
            m = min(n, 1 + n % 3)
            for r, c in ((n + 2, 2 * m + 2),
                         (n + 2 + (7 * n) % 11, 2 * m + 2 + 2 * (n % 4)),
                         (n + 3 + (5 * n) % 13, 2 * m + 4))[:2 if q else 3]:
                i += 1
                yield _synth(n, m, r, c, i, keys)
        for m in list(range(0, 70 if q else 150)) + [84, 97, 110]:
            i += 1
            n = m + m % 3
            yield _synth(n, m, n + 2 + m % 2, 2 * m + 2 + 2 * (m % 2), i,
                         keys)
        for h in range(1, 560 if q else 1500):
            i += 1
            n = h % 6
            m = min(n, h - 1, 1 + h % 5)
            yield _synth(n, m, n + 2 + h % 3, 2 * h, i, keys)
        for r in range(2, 600 if q else 1500):
            i += 1
            n = min(r - 2, 3 + r % 7)
            yield _synth(n, min(n, r % 3), r, 2 * min(n, r % 3) + 2, i, keys)
    return f


def ladder_patt(*keys):
    """Analysis at every number of rows and columns up to a bound."""
    def f(tier):
        q = tier == "quick"
        i = 0

        def case(r, c, n, m):
            return dict(_dense(keys, i), nrows=r, ncols=c, nmax=n, mmax=m,
                        nmax2=n // 2, how="both", poles="raw")
        for r in range(2, 230 if q else 600):
            for n in (r - 2, (r - 2) * 3 // 4)[:1 if q and r > 90 else 2]:
                i += 1
                m = min(n, 1 + r % 3)
                yield case(r, 2 * m + 2, n, m)
        for r in range(230, 600 if q else 1500):
            i += 1
            yield case(r, 4, 3 + r % 7, 1)
        for h in range(1, 560 if q else 1500):
            i += 1
            r = 3 + h % 6
            yield case(r, 2 * h, r - 2, min(r - 2, h - 1))
        for h in list(range(1, 56 if q else 130)) + [69, 81, 90, 101]:
            i += 1
            yield case(h + 2, 2 * h + 2, h, h)
            yield case(h + 2, 2 * h, h, h - 1)
    return f


def side(nrows, k):
    """A number of columns that stands in a simple relation to nrows."""
    return max(2, [2 * nrows - 4, 2 * nrows - 2, 2 * nrows, 4 * nrows - 4,
                   nrows + nrows % 2, nrows - nrows % 2][k])


@st.composite
def patt_shape(draw, rows_hi=24, cols_hi=30):
    nrows = draw(st.one_of(st.integers(2, 7), st.integers(2, rows_hi)))
    if draw(st.integers(0, 5)) == 0:
        return nrows, side(nrows, draw(st.integers(0, 5)))
    ncols = 2 * draw(st.one_of(st.integers(1, 5),
                               st.integers(1, cols_hi // 2)))
    return nrows, ncols


@st.composite
def patt_big(draw, rows=(62, 160), cols=(2, 200), cells=6000):
    """Many rows or many columns or (few cases) both."""
    if draw(st.integers(0, 9)) == 9:
        nrows = draw(high_end(40, 104))
        return nrows, side(nrows, draw(st.integers(0, 5)))
    if draw(st.booleans()):
        nrows = draw(high_end(*rows))
        ncols = 2 * draw(high_end(1, max(1, min(cols[1], cells // nrows)
                                         // 2)))
    else:
        ncols = 2 * draw(high_end(30, cols[1] // 2))
        nrows = draw(high_end(2, max(2, min(rows[1], cells // ncols))))
    return nrows, ncols


@st.composite
def sub_sizes(draw, nrows, ncols):
    """Legal (nmax, mmax) to request from a pattern of this shape."""
    n_hi, m_hi = nrows - 2, ncols // 2 - 1
    nmax = draw(st.one_of(st.just(n_hi), st.just(max(0, n_hi - 1)),
                          st.integers(0, n_hi)))
    top = min(nmax, m_hi)
    mmax = draw(st.one_of(st.just(top), st.just(max(0, top - 1)),
                          st.integers(0, top)))
    return nmax, mmax


# --------------------------------------------------------------- numbers

MANT = st.one_of(st.sampled_from([1.0, -1.0, 0.5, 2.0, 0.0]),
                 st.floats(-1.0, 1.0, allow_nan=False, width=64).map(
                     lambda x: 0.0 if abs(x) < 1e-6 else x))


@st.composite
def cnum(draw):
    k = draw(st.integers(0, 5))
    a = draw(MANT)
    if k == 0:
        return [a, 0.0]
    if k == 1:
        return [0.0, a]
    return [a, draw(MANT)]


def cplx(v):
    return complex(v[0], v[1])


def any_finite(lo=-1e300, hi=1e300):
    return st.floats(lo, hi, allow_nan=False, allow_infinity=False)


SCALES = st.one_of(st.just(0), st.just(0), st.sampled_from([-3, 3, -8, 8]),
                   st.sampled_from([-280, -200, -150, -100, -30, 30, 100, 150,
                                    200, 280]))

# of values that get squared or multiplied
MILD = st.one_of(st.just(0), st.just(0), st.sampled_from([-3, 3, -8, 8]),
                 st.sampled_from([-150, -100, -30, 30, 100, 150]))

SEED = st.integers(0, 2 ** 31 - 1)

FLAVORS = ["complex", "real", "imag", "decay", "grow", "int", "holes",
           "rows", "special", "const", "plus", "minus", "zonal", "realfield",
           "imagfield", "even", "odd"]

# values that a test, a threshold or a shortcut might treat differently
SPECIAL = np.array([0.0, -0.0, 1.0, -1.0, 1j, -1j, complex(-0.0, 1.0),
                    complex(1.0, -0.0), 2.0, 0.5, 1e-5, 1e-9, -1e-12, 1e-16,
                    1e-17j, 1e-30, 1e-60, 1 + 1j, 1e3, -255.0, 3.0])


# ---------------------------------------------------------- coefficients

@st.composite
def coef_values(draw, nmax, mmax, scales=SCALES, dense=True):
    """A description of the values of one scalar coefficient set."""
    k = draw(st.integers(0, 9))
    sc = draw(scales)
    if not dense or k <= 2:
        ms = draw(st.lists(mode(nmax, mmax), min_size=0, max_size=4))
        return {"k": "sparse", "e": sc,
                "v": [list(m) + draw(cnum()) for m in ms]}
    if k == 3:
        n, m = draw(mode(nmax, mmax))
        return {"k": "unit", "e": sc, "n": n, "m": m,
                "p": draw(st.integers(0, 3))}
    return {"k": "dense", "e": sc, "s": draw(SEED),
            "f": draw(st.sampled_from(FLAVORS))}


@st.composite
def mode(draw, nmax, mmax):
    n = draw(st.one_of(st.integers(0, nmax), st.just(nmax)))
    t = min(n, mmax)
    m = draw(st.one_of(st.integers(-t, t), st.sampled_from([-t, t])))
    return n, m


def fill(shape, seed, flavor):
    r = np.random.RandomState(seed)
    a = r.standard_normal(shape) + 1j * r.standard_normal(shape)
    if flavor == "real":
        a = a.real + 0j
    elif flavor == "imag":
        a = 1j * a.imag
    elif flavor == "int":
        a = np.round(3 * a.real) + 1j * np.round(3 * a.imag)
    elif flavor == "holes":
        a = a * (r.uniform(size=shape) < 0.3)
    elif flavor == "special":
        a = SPECIAL[r.randint(0, len(SPECIAL), size=shape)]
    elif flavor == "const":
        a = np.full(shape, a.ravel()[0] if a.size else 0)
    elif flavor == "same-rows":
        a = np.repeat(a[:1], shape[0], axis=0)
    elif flavor == "same-cols":
        a = np.repeat(a[:, :1], shape[1], axis=1)
    elif flavor == "checker":
        a = a.ravel()[0] * (1.0 - 2.0 * (np.indices(shape).sum(axis=0) % 2))
    elif flavor == "half-turn":
        a[:, shape[1] // 2:] = a[:, :shape[1] // 2]
    elif flavor == "unit-circle":
        a = a / np.abs(a)
    return a


def keep_mode(flavor, n, m):
    return {"plus": m > 0, "minus": m < 0, "zonal": m == 0,
            "even": (n + m) % 2 == 0, "odd": (n + m) % 2 == 1}[flavor]


def coef_dict(spec, nmax, mmax):
    """spec -> {(n, m): complex} over all modes that are non-zero."""
    s = 10.0 ** spec["e"]
    C = {}
    if spec["k"] == "sparse":
        for n, m, re, im in spec["v"]:
            C[(n, m)] = complex(re, im) * s
        return C
    if spec["k"] == "unit":
        C[(spec["n"], spec["m"])] = s * (1j) ** spec["p"]
        return C
    ms = O.modes(nmax, mmax)
    v = fill(len(ms), spec["s"], spec["f"])
    one = {}
    for (n, m), x in zip(ms, v):
        if spec["f"] == "decay":
            x = x * 10.0 ** (-8.0 * n / max(nmax, 1))
        elif spec["f"] == "grow":
            x = x * 10.0 ** (-8.0 * (nmax - n) / max(nmax, 1))
        elif spec["f"] == "rows" and (n + spec["s"]) % 3:
            x = 0.0
        elif spec["f"] in ("plus", "minus", "zonal", "even", "odd") and \
                not keep_mode(spec["f"], n, m):
            x = 0.0
        elif spec["f"] in ("realfield", "imagfield"):
            # the field of c(n,-m) = (-1)**m conj(c(n,m)) is real
            g = 1.0 if spec["f"] == "realfield" else -1.0
            if m > 0:
                x = g * (-1) ** m * np.conj(one[n, -m])
            elif m == 0:
                x = x.real if g > 0 else 1j * x.imag
        one[n, m] = x
        C[(n, m)] = complex(x * s)
    return C


def coef_bound(C):
    """Upper bound of |sum c Y|."""
    return sum(abs(c) * math.sqrt((2 * n + 1) / (4 * math.pi))
               for (n, m), c in C.items())


def nz(C):
    return sum(1 for v in C.values() if v != 0)


def by_columns(sp, C, nmax, mmax):
    """Build a ScalarCoefs through public column assignment."""
    c = sp.zeros_coefs(nmax, mmax)
    put(c, C, nmax, mmax)
    return c


def col(C, m, nmax, mono=True):
    return np.array([C.get((n, m), 0.0) if mono or n else 0.0
                     for n in range(abs(m), nmax + 1)], dtype=np.complex128)


def put(c, C, nmax, mmax, mono=True):
    for m in range(-mmax, mmax + 1):
        c[:, m] = col(C, m, nmax, mono)


def put_rows(c, C, nmax, mmax, mono=True):
    for n in range(nmax, -1, -1):
        t = min(n, mmax)
        c[n, :] = np.array([C.get((n, m), 0.0) if mono or n else 0.0
                            for m in range(-t, t + 1)], dtype=np.complex128)


def put_single(c, C, nmax, mmax, mono=True):
    for n, m in reversed(O.modes(nmax, mmax)):
        if mono or n:
            c[n, m] = complex(C.get((n, m), 0.0))


def put_strided(c, C, nmax, mmax, mono=True):
    """Columns again, from views that are not contiguous, over garbage."""
    for m in range(mmax, -mmax - 1, -1):
        v = col(C, m, nmax, mono)
        if mono or m:
            c[:, m] = np.full(len(v), 7.25 - 3j)
        w = np.full((len(v), 3), 1e3 + 1j)
        w[::-1, 1] = v
        c[:, m] = w[::-1, 1]


def stored(C, nmax, mmax, mono=True):
    """Values in the order of storage: m = 0, -1, 1, -2, 2, ..."""
    ms = [0] + [s * m for m in range(1, mmax + 1) for s in (-1, 1)]
    return np.concatenate([col(C, m, nmax, mono) for m in ms])


def junk(C, nmax, mmax, seed):
    """C inside a larger set full of other values."""
    n2, m2 = nmax + 1 + seed % 3, mmax
    if mmax == nmax:
        m2 = min(mmax + (seed // 3) % 3, n2)
    D = dict(zip(O.modes(n2, m2), 1e3 * fill(len(O.modes(n2, m2)), seed,
                                             "complex")))
    for n, m in O.modes(nmax, mmax):
        D[(n, m)] = C.get((n, m), 0.0)
    return D, n2, m2


ROUTES = ["columns", "columns", "rows", "single", "strided", "larger",
          "copy", "vector", "plus-zero", "scaled", "again", "sum", "used",
          "used"]
MADE = {}


def route_of(nmax, mmax, *Cs):
    v = [complex(x) for C in Cs for x in list(C.values())[:6]]
    h = zlib.crc32(np.array([nmax, mmax] + v, dtype=np.complex128).tobytes())
    return h // 16, ROUTES[h % len(ROUTES)]


def bits(C, nmax, mmax, mono, c):
    """c holds exactly C (as bits)."""
    try:
        return all(np.asarray(c[:, m], dtype=np.complex128).tobytes()
                   == col(C, m, nmax, mono).tobytes()
                   for m in range(-mmax, mmax + 1))
    except Exception:
        return False


def tell(route):
    MADE[route] = MADE.get(route, 0) + 1


PUTS = {"rows": put_rows, "single": put_single, "strided": put_strided}


# a set that has been looked at in every way and is then written to: what
# was found out before must not be given as an answer afterwards

LOOKS = [lambda sp, c: sp.ispht(c), lambda sp, c: sp.vispht(c),
         lambda sp, c: sp.ispht(c, c.nmax + 4, 2 * c.mmax + 6),
         lambda sp, c: sp.vispht(c, c.nmax + 4, 2 * c.mmax + 6),
         lambda sp, c: sp.L2_coef(c), lambda sp, c: sp.LInf_coef(c),
         lambda sp, c: sp.mag(c), lambda sp, c: sp.mag2(c),
         lambda sp, c: sp.abs(c), lambda sp, c: sp.compare_relative(c, c),
         lambda sp, c: c.power(), lambda sp, c: c.angular_power_spectrum(),
         lambda sp, c: (str(c), repr(c), c.size),
         lambda sp, c: (c.copy(), c[0:c.nmax // 2, :], c + c, 2 * c),
         lambda sp, c: c._array_2d_repr(), lambda sp, c: c._reshape_n_vecs(),
         lambda sp, c: c._reshape_m_vecs()]
PLOOKS = [lambda sp, p: sp.spht(p), lambda sp, p: sp.vspht(p),
          lambda sp, p: sp.spht(p, min(1, p.nrows - 2), 0),
          lambda sp, p: sp.vspht(p, min(1, p.nrows - 2), 0),
          lambda sp, p: (sp.L2_patt(p), sp.LInf_patt(p)),
          lambda sp, p: sp.mag(p), lambda sp, p: sp.mag2(p),
          lambda sp, p: sp.abs(p), lambda sp, p: (str(p), repr(p)),
          lambda sp, p: p.single_val, lambda sp, p: p.is_symmetric,
          lambda sp, p: sp.array(p), lambda sp, p: p.doublesphere,
          lambda sp, p: (p + p, 2 * p)]


def ask(sp, x, looks=LOOKS):
    for f in looks:
        try:
            with np.errstate(all="ignore"):
                f(sp, x)
        except Exception:
            pass


def altered(C, nmax, mmax, how, mono=True):
    """(values that differ from C in one mode, one row, one column or by a
    window; what to write into a set that holds them to have C there)"""
    D = {k: C.get(k, 0.0) for k in O.modes(nmax, mmax)}
    kind = ("first", "last", "row", "column", "window")[how % 5]
    n, m = (how // 5) % (nmax + 1), (how // 7) % (2 * mmax + 1) - mmax
    if not mono:
        n, m = max(n, min(1, nmax)), m or -mmax
    if kind == "first":
        n, m = min(1, nmax), 0
    if kind == "last" or n == 0 and not mono:
        n, m = nmax, mmax
    if kind == "row":
        ks = [(n, j) for j in range(-min(n, mmax), min(n, mmax) + 1)]
    elif kind == "column":
        ks = [(i, m) for i in range(abs(m), nmax + 1)]
    elif kind == "window":
        ks = list(D)
    else:
        ks = [(n, m)]
    for k in ks:
        D[k] = D[k] * 2.0 if kind == "window" else 3.5 - 2j - 0.5 * D[k]
    if not mono:
        D[(0, 0)] = 0.0

    def restore(c, second=None, C2=None):
        if kind == "window":
            for x in (c, second):
                if x is not None:
                    x.window(np.full(nmax + 1, 0.5))
            return
        for x, V in ((c, C), (second, C2)):
            if x is None:
                continue
            if kind == "row":
                if mono or n:
                    x[n, :] = np.array([V.get(k, 0.0) for k in ks])
            elif kind == "column":
                if mono or m:
                    x[:, m] = np.array([V.get(k, 0.0) for k in ks])
            elif mono or n:
                x[n, m] = complex(V.get((n, m), 0.0))
    return D, restore


def write_back(sp, c, C, nmax, mmax, how):
    """c holds C; make it something else, look at it, and make it C again
    (by columns should that not succeed)."""
    D, restore = altered(C, nmax, mmax, how)
    put(c, D, nmax, mmax)
    ask(sp, c)
    try:
        restore(c)
    except Exception:
        pass
    if not bits(C, nmax, mmax, True, c):
        put(c, C, nmax, mmax)


def vwrite_back(sp, c, C1, C2, nmax, mmax, how):
    D1, restore = altered(C1, nmax, mmax, how, False)
    D2, _ = altered(C2, nmax, mmax, how, False)
    for s, D in ((c.scoef1, D1), (c.scoef2, D2)):
        put(s, D, nmax, mmax, False)
    ask(sp, c)
    try:
        if how % 5 < 2 and nmax > 0 and how % 2:
            n, m = (min(1, nmax), 0) if how % 5 == 0 else (nmax, mmax)
            c[n, m] = (complex(C1.get((n, m), 0.0)),
                       complex(C2.get((n, m), 0.0)))
        else:
            restore(c.scoef1, c.scoef2, C2)
    except Exception:
        pass
    if not (bits(C1, nmax, mmax, False, c.scoef1)
            and bits(C2, nmax, mmax, False, c.scoef2)):
        for s, C in ((c.scoef1, C1), (c.scoef2, C2)):
            put(s, C, nmax, mmax, False)


def make_scoefs(sp, C, nmax, mmax):
    """Build a ScalarCoefs holding C in one of the ways a caller has, chosen
    by the values. How sets are written and read, cut, copied and combined is
    a matter of other properties: a set that does not come out with the very
    bits of C is built by columns instead."""
    h, route = route_of(nmax, mmax, C)
    c = None
    try:
        with np.errstate(all="ignore"):
            c = _make_s(sp, C, nmax, mmax, route, h)
    except Exception:
        pass
    if c is None or not bits(C, nmax, mmax, True, c):
        route, c = "columns", by_columns(sp, C, nmax, mmax)
    tell(route)
    return c


def _make_s(sp, C, nmax, mmax, route, h):
    if route in PUTS:
        if route == "single" and len(O.modes(nmax, mmax)) > 400:
            return None
        c = sp.zeros_coefs(nmax, mmax)
        PUTS[route](c, C, nmax, mmax)
        return c
    if route == "larger":
        D, n2, m2 = junk(C, nmax, mmax, h % 1000)
        return by_columns(sp, D, n2, m2)[0:nmax, :]
    if route == "copy":
        b = by_columns(sp, C, nmax, mmax)
        c = b.copy()
        b[:, 0] = np.full(nmax + 1, 9.5 + 1j)
        return c
    if route == "vector":
        return sp.ScalarCoefs(stored(C, nmax, mmax), nmax, mmax)
    b = by_columns(sp, C, nmax, mmax)
    if route == "plus-zero":
        return b + sp.zeros_coefs(nmax, mmax)
    if route == "scaled":
        return (b * 4.0) / 4.0
    if route == "sum":
        return (b + b) * 0.5
    if route == "again":
        c = sp.ones_coefs(nmax, mmax)
        put(c, {k: 5j for k in O.modes(nmax, mmax)}, nmax, mmax)
        put(c, C, nmax, mmax)
        return c
    if route == "used":
        if len(C) > 3000:
            return None
        write_back(sp, b, C, nmax, mmax, h)
        return b
    return None


def vby_columns(sp, C1, C2, nmax, mmax):
    vc = sp.zeros_coefs(nmax, mmax, coef_type=sp.vector)
    for s, C in ((vc.scoef1, C1), (vc.scoef2, C2)):
        put(s, C, nmax, mmax, False)
    return vc


def make_vcoefs(sp, C1, C2, nmax, mmax):
    h, route = route_of(nmax, mmax, C1, C2)
    c = None
    try:
        with np.errstate(all="ignore"):
            c = _make_v(sp, C1, C2, nmax, mmax, route, h)
    except Exception:
        pass
    if c is None or not (bits(C1, nmax, mmax, False, c.scoef1)
                         and bits(C2, nmax, mmax, False, c.scoef2)):
        route, c = "columns", vby_columns(sp, C1, C2, nmax, mmax)
    tell(route)
    return c


def _make_v(sp, C1, C2, nmax, mmax, route, h):
    if route == "strided" or route == "rows":
        c = sp.zeros_coefs(nmax, mmax, coef_type=sp.vector)
        for s, C in ((c.scoef2, C2), (c.scoef1, C1)):
            PUTS[route](s, C, nmax, mmax, False)
        return c
    if route == "single":
        if len(O.modes(nmax, mmax)) > 400:
            return None
        c = sp.zeros_coefs(nmax, mmax, coef_type=sp.vector)
        for n, m in O.modes(nmax, mmax):
            if n:
                c[n, m] = (complex(C1.get((n, m), 0.0)),
                           complex(C2.get((n, m), 0.0)))
        return c
    if route == "larger":
        D1, n2, m2 = junk(C1, nmax, mmax, h % 1000)
        D2, n2, m2 = junk(C2, nmax, mmax, h % 1000)
        return vby_columns(sp, D1, D2, n2, m2)[0:nmax, :]
    if route == "copy":
        b = vby_columns(sp, C1, C2, nmax, mmax)
        c = b.copy()
        for s in (b.scoef1, b.scoef2):
            s[:, 0] = np.array([0.0] + [9.5 + 1j] * nmax)
        return c
    if route == "vector":
        return sp.VectorCoefs(stored(C1, nmax, mmax, False),
                              stored(C2, nmax, mmax, False), nmax, mmax)
    b = vby_columns(sp, C1, C2, nmax, mmax)
    if route == "plus-zero":
        return b + sp.zeros_coefs(nmax, mmax, coef_type=sp.vector)
    if route == "scaled":
        return (b * 4.0) / 4.0
    if route == "sum":
        return (b + b) * 0.5
    if route == "again":
        c = sp.ones_coefs(nmax, mmax, coef_type=sp.vector)
        for s, C in ((c.scoef1, C1), (c.scoef2, C2)):
            put(s, C, nmax, mmax, False)
        return c
    if route == "used":
        if len(C1) > 2000:
            return None
        vwrite_back(sp, b, C1, C2, nmax, mmax, h)
        return b
    return None


def drop0(C):
    C = dict(C)
    C.pop((0, 0), None)
    return C


def scoefs_dict(c):
    """Read every mode back through the public interface."""
    C = {}
    for m in range(-c.mmax, c.mmax + 1):
        col = np.asarray(c[:, m])
        if col.shape != (c.nmax - abs(m) + 1,):
            from vt.engine import Violation
            raise Violation("c[:, %d] has shape %s" % (m, col.shape))
        for i, v in enumerate(col):
            C[(abs(m) + i, m)] = complex(v)
    return C


# -------------------------------------------------------------- patterns

SAMPLE_FLAVORS = ["complex", "complex", "complex", "real", "imag", "int",
                  "holes", "special", "special", "same-rows", "same-cols",
                  "checker", "half-turn", "unit-circle"]


@st.composite
def samples(draw, nrows, ncols, scales=SCALES):
    """Description of a (nrows, ncols) array of complex samples."""
    k = draw(st.integers(0, 6))
    sc = draw(scales)
    if k <= 1:
        pts = draw(st.lists(st.tuples(st.integers(0, nrows - 1),
                                      st.integers(0, ncols - 1)),
                            min_size=0, max_size=4))
        return {"k": "points", "e": sc,
                "v": [list(p) + draw(cnum()) for p in pts]}
    if k == 2:
        return {"k": "const", "e": sc, "v": draw(cnum())}
    return {"k": "dense", "e": sc, "s": draw(SEED),
            "f": draw(st.sampled_from(SAMPLE_FLAVORS))}


def sample_array(spec, nrows, ncols):
    s = 10.0 ** spec["e"]
    if spec["k"] == "points":
        a = np.zeros((nrows, ncols), dtype=np.complex128)
        for i, j, re, im in spec["v"]:
            a[i, j] = complex(re, im)
    elif spec["k"] == "const":
        a = np.full((nrows, ncols), cplx(spec["v"]), dtype=np.complex128)
    else:
        a = fill((nrows, ncols), spec["s"], spec["f"])
    return a * s


def single_valued_poles(a, sym):
    """Give the pole rows the symmetry a field at a pole has."""
    a = a.copy()
    h = a.shape[1] // 2
    for r in (0, a.shape[0] - 1):
        if sym == 1:
            a[r, :] = a[r, 0]
        else:
            a[r, h:] = -a[r, :h]
    return a


def no_zero_partner(a, sym):
    """The continuation fills an exactly zero pole sample from its partner;
    such half-missing pole rows are kept out: give both the same value."""
    a = a.copy()
    h = a.shape[1] // 2
    for r in (0, a.shape[0] - 1):
        for k in range(h):
            x, y = a[r, k], a[r, k + h]
            if (x == 0) != (y == 0):
                if x == 0:
                    a[r, k] = sym * y
                else:
                    a[r, k + h] = sym * x
    return a


def patt_array(spec, nrows, ncols, sym, poles):
    a = sample_array(spec, nrows, ncols)
    if poles == "single":
        return single_valued_poles(a, sym)
    return no_zero_partner(a, sym)


POLES = st.sampled_from(["single", "raw"])


# ---------------------------------------------------- patterns as objects

LAYOUTS = ["plain", "plain", "fortran", "strided", "reversed", "readonly",
           "real", "int", "extended", "plus-zero", "sum", "scaled", "slice",
           "used"]


def layout_of(*A):
    h = zlib.crc32(np.array([x for a in A for x in
                             (a.shape + tuple(a.ravel()[:40]))],
                            dtype=np.complex128).tobytes())
    return LAYOUTS[h % len(LAYOUTS)]


def laid(a, how):
    """The samples a in another layout or kind of array."""
    if how == "fortran":
        return np.asfortranarray(a)
    if how == "strided":
        b = np.full((2 * a.shape[0], 3 * a.shape[1]), 1e3 + 1j)
        b[::2, 1::3] = a
        return b[::2, 1::3]
    if how == "reversed":
        return np.array(a[::-1, ::-1])[::-1, ::-1]
    if how == "slice":
        b = np.full((a.shape[0] + 2, a.shape[1] + 3), -1e3 + 1j)
        b[1:-1, 2:-1] = a
        return b[1:-1, 2:-1]
    if how == "readonly":
        b = np.array(a)
        b.flags.writeable = False
        return b
    if how == "real" and not np.any(a.imag):
        return np.array(a.real)
    if how == "int" and not np.any(a.imag) and \
            np.all(a.real == np.round(a.real)) and \
            np.all(np.abs(a.real) < 2.0 ** 31):
        return a.real.astype(np.int64)
    return a


def _make_p(sp, cls, A, sym, how):
    one = len(A) == 2 and A[0].tobytes() == A[1].tobytes()
    if how == "extended":
        D = [O.double_sphere(a, sym) for a in (A[:1] if one else A)]
        return cls(*(D + D if one else D), doublesphere=True)
    L = [laid(a, how) for a in (A[:1] if one else A)]
    p = cls(*(L + L if one else L))
    if how == "used" and A[0].size < 4000:
        ask(sp, p, PLOOKS)
    if how == "plus-zero":
        return p + 0
    if how == "sum":
        return (p + p) / 2
    if how == "scaled":
        return 0.25 * (p * 4.0)
    return p


def alike(d, want):
    d = np.asarray(d)
    return d.shape == want.shape and np.all(
        np.abs(d - want) <= 4e-16 * np.max(np.abs(want)))


def _patt(sp, cls, A, sym, parts):
    how = layout_of(*A)
    p = None
    if how != "plain":
        try:
            with np.errstate(all="ignore"):
                p = _make_p(sp, cls, A, sym, how)
                if not all(alike(d, O.double_sphere(a, sym))
                           for d, a in zip(parts(p), A)):
                    p = None
        except Exception:
            p = None
    if p is None:
        how, p = "plain", cls(*A)
    tell("pattern-" + how)
    return p


def make_spatt(sp, a):
    """A scalar pattern with these samples, made in one of the ways a caller
    has (plainly where the others do not give it)."""
    return _patt(sp, sp.ScalarPatternUniform, [a], 1,
                 lambda p: [p.doublesphere])


def make_vpatt(sp, t, f):
    return _patt(sp, sp.TransversePatternUniform, [t, f], -1,
                 lambda p: [p.theta_double, p.phi_double])
