"""Independent reference models.

Nothing here imports spherepy.  Everything is written from the mathematics that
the documentation names: orthonormal spherical harmonics with the
Condon-Shortley phase (Jackson), L = -i r x grad, spherical Bessel functions.
"""
import functools
import math
import numpy as np

EPS = np.finfo(np.float64).eps


# --------------------------------------------------------------------------
# mode bookkeeping
# --------------------------------------------------------------------------
def modes(nmax, mmax):
    """All (n, m) of a coefficient set, in no particular storage order."""
    return [(n, m) for n in range(nmax + 1)
            for m in range(-min(n, mmax), min(n, mmax) + 1)]


def n_modes(nmax, mmax):
    return sum(2 * min(n, mmax) + 1 for n in range(nmax + 1))


# --------------------------------------------------------------------------
# orthonormal associated Legendre functions  (with Condon-Shortley phase)
# --------------------------------------------------------------------------
def kept(limit):
    """A cache of arrays bounded by the bytes it holds."""
    def deco(f):
        store = {}
        held = [0]

        @functools.wraps(f)
        def g(*key):
            if key in store:
                v = store[key] = store.pop(key)
                return v
            v = f(*key)
            v.setflags(write=False)
            store[key] = v
            held[0] += v.nbytes
            while held[0] > limit and len(store) > 1:
                held[0] -= store.pop(next(iter(store))).nbytes
            return v
        return g
    return deco


def legendre_m(nmax, m, theta):
    """Cached on the sample positions; see _legendre_m."""
    long = np.asarray(theta).dtype == np.longdouble
    theta = np.ascontiguousarray(theta,
                                 dtype=np.longdouble if long else np.float64)
    return _legendre_c(nmax, m, theta.tobytes(), long)


@kept(4e8)
def _legendre_c(nmax, m, raw, long):
    if long:
        out = _legendre_long(nmax, m, np.frombuffer(raw, dtype=np.longdouble))
    else:
        out = _legendre_m(nmax, m, np.frombuffer(raw))
    return out


def _legendre_m(nmax, m, theta):
    """P[n - m, j] = Pbar_n^m(cos theta_j), n = m..nmax, m >= 0, such that
    Y_nm = Pbar * exp(i m phi) is orthonormal.  Standard stable forward
    recurrence in n."""
    theta = np.asarray(theta, dtype=np.float64)
    x = np.cos(theta)
    s = np.sin(theta)
    if nmax < m:
        return np.zeros((0, theta.size))
    out = np.zeros((nmax - m + 1, theta.size))
    # log-safe start value
    pmm = np.full(theta.size, 1.0 / math.sqrt(4.0 * math.pi))
    for k in range(1, m + 1):
        pmm = -math.sqrt((2.0 * k + 1.0) / (2.0 * k)) * s * pmm
    out[0] = pmm
    if nmax > m:
        out[1] = math.sqrt(2.0 * m + 3.0) * x * pmm
    for n in range(m + 2, nmax + 1):
        a = math.sqrt((4.0 * n * n - 1.0) / (float(n) * n - float(m) * m))
        b = math.sqrt(((n - 1.0) ** 2 - m * m) / (4.0 * (n - 1.0) ** 2 - 1.0))
        out[n - m] = a * (x * out[n - m - 1] - b * out[n - m - 2])
    return out


def _legendre_long(nmax, m, theta):
    """The same recurrence in extended precision, for high degrees: there the
    rounding of cos(theta) alone costs eps * nmax / sin(theta)."""
    x, s = np.cos(theta), np.sin(theta)
    out = np.zeros((max(0, nmax - m + 1), theta.size), dtype=np.longdouble)
    if nmax < m:
        return out.astype(np.float64)
    L = np.longdouble
    f = np.sqrt(1 / (4 * PI_LONG))
    pmm = np.full(theta.size, f)
    for k in range(1, m + 1):
        pmm = -np.sqrt(L(2 * k + 1) / L(2 * k)) * s * pmm
    out[0] = pmm
    if nmax > m:
        out[1] = np.sqrt(L(2 * m + 3)) * x * pmm
    n = np.arange(m + 2, nmax + 1, dtype=L)
    a = np.sqrt((4 * n * n - 1) / (n * n - L(m) * m))
    b = np.sqrt(((n - 1) ** 2 - L(m) * m) / (4 * (n - 1) ** 2 - 1))
    for i in range(len(n)):
        out[i + 2] = a[i] * (x * out[i + 1] - b[i] * out[i])
    return out.astype(np.float64)


PI_LONG = np.longdouble("3.14159265358979323846264338327950288")


def theta_grid_long(nrows):
    return PI_LONG * np.arange(nrows) / np.longdouble(nrows - 1)


def pbar(nmax, m, theta):
    """rows n = |m|..nmax, also for negative m:
    Pbar_n^{-m} = (-1)^m Pbar_n^m."""
    p = legendre_m(nmax, abs(m), theta)
    if m < 0 and (m % 2):
        p = -p
    return p


def dpbar(nmax, m, theta):
    """d/dtheta of Pbar_n^m(cos theta), rows n = |m|..nmax:
    dP/dtheta = 1/2 (sqrt((n+m)(n-m+1)) P^{m-1} e..) with CS phase:
    dY/dtheta ladder: 1/2[ sqrt((n-m)(n+m+1)) P^{m+1}
                          - sqrt((n+m)(n-m+1)) P^{m-1} ]  (phase e^{i m phi}
    factored out; sign fixed by the CS convention)."""
    theta = np.asarray(theta)
    am = abs(m)
    up = pbar(nmax, m + 1, theta)
    dn = pbar(nmax, m - 1, theta)
    ns = np.arange(am, nmax + 1)
    out = np.zeros((len(ns), theta.size))
    for i, n in enumerate(ns):
        v = np.zeros(theta.size)
        if abs(m + 1) <= n:
            v = v + math.sqrt((n - m) * (n + m + 1.0)) * up[n - abs(m + 1)]
        if abs(m - 1) <= n:
            v = v - math.sqrt((n + m) * (n - m + 1.0)) * dn[n - abs(m - 1)]
        out[i] = 0.5 * v
    return out


def mpbar_over_sin(nmax, m, theta):
    """m Pbar_n^m / sin(theta), rows n = |m|..nmax, finite at the poles too:
    m P_n^m / sin = -1/2 sqrt((2n+1)/(2n-1)) [ sqrt((n-m)(n-m-1)) P_{n-1}^{m+1}
                    + sqrt((n+m)(n+m-1)) P_{n-1}^{m-1} ]."""
    theta = np.asarray(theta)
    am = abs(m)
    ns = np.arange(am, nmax + 1)
    out = np.zeros((len(ns), theta.size))
    if m == 0:
        return out
    up = pbar(nmax, m + 1, theta)
    dn = pbar(nmax, m - 1, theta)
    for i, n in enumerate(ns):
        v = np.zeros(theta.size)
        if abs(m + 1) <= n - 1:
            v = v + math.sqrt((n - m) * (n - m - 1.0)) * up[n - 1 - abs(m + 1)]
        if abs(m - 1) <= n - 1:
            v = v + math.sqrt((n + m) * (n + m - 1.0)) * dn[n - 1 - abs(m - 1)]
        out[i] = -0.5 * math.sqrt((2.0 * n + 1.0) / (2.0 * n - 1.0)) * v
    return out


# --------------------------------------------------------------------------
# grids
# --------------------------------------------------------------------------
def theta_grid(nrows):
    return np.pi * np.arange(nrows) / (nrows - 1.0)


def phi_grid(ncols):
    return 2.0 * np.pi * np.arange(ncols) / float(ncols)


# --------------------------------------------------------------------------
# synthesis
# --------------------------------------------------------------------------
def _cols(C, nmax, m):
    return np.array([C.get((n, m), 0.0) for n in range(abs(m), nmax + 1)],
                    dtype=np.complex128)


def synth_scalar(C, nmax, mmax, theta, phi):
    """f(theta_j, phi_k) = sum c_nm Y_nm, C a dict (n, m) -> complex."""
    out = np.zeros((len(theta), len(phi)), dtype=np.complex128)
    phi = np.asarray(phi)
    for m in range(-mmax, mmax + 1):
        col = _cols(C, nmax, m)
        if not np.any(col):
            continue
        g = col @ pbar(nmax, m, theta)
        out += np.outer(g, np.exp(1j * m * phi))
    return out


def synth_vector(C1, C2, nmax, mmax, theta, phi):
    """F = sum a1 X1 + a2 X2 with X1 = L Y/sqrt(n(n+1)) (Jackson) and
    X2 = -grad Y / sqrt(n(n+1)) on the unit sphere; returns (F_theta, F_phi).
      L_theta = (i/sin) d/dphi ,  L_phi = -i d/dtheta."""
    ft = np.zeros((len(theta), len(phi)), dtype=np.complex128)
    fp = np.zeros_like(ft)
    phi = np.asarray(phi)
    ns_all = np.arange(0, nmax + 1)
    w = np.zeros(nmax + 1)
    w[1:] = 1.0 / np.sqrt(ns_all[1:] * (ns_all[1:] + 1.0))
    for m in range(-mmax, mmax + 1):
        a1 = _cols(C1, nmax, m) * w[abs(m):]
        a2 = _cols(C2, nmax, m) * w[abs(m):]
        if not (np.any(a1) or np.any(a2)):
            continue
        ps = mpbar_over_sin(nmax, m, theta)     # m P / sin
        dp = dpbar(nmax, m, theta)              # dP/dtheta
        e = np.exp(1j * m * phi)
        # X1: theta: i/sin * i m P = - mP/sin ;  phi: -i dP
        # X2: theta: -dP               ;  phi: -i m P/sin
        ft += np.outer(-(a1 @ ps) - (a2 @ dp), e)
        fp += np.outer(-1j * (a1 @ dp) - 1j * (a2 @ ps), e)
    return ft, fp


# --------------------------------------------------------------------------
# analysis: coefficients of the trigonometric interpolant of a sampled field
# --------------------------------------------------------------------------
def dft_theta_phi(ds):
    """Fourier coefficients F[k, m] of double-sphere data by direct DFT
    matrices (not the library's FFT path); the unpaired theta frequency
    -nrows/2 is dropped, as the documented continuation requires."""
    R, Ccols = ds.shape
    k = np.arange(-(R // 2) + (1 if R % 2 == 0 else 0), (R - 1) // 2 + 1)
    m = np.arange(-(Ccols // 2), (Ccols - 1) // 2 + 1)
    return k, m, _dft(R, k) @ ds @ _dft(Ccols, m).T


@kept(1.5e8)
def _dft_of(R, k0, k1):
    w = np.exp(-2j * np.pi * np.arange(R) / R) / R
    return w[np.outer(np.arange(k0, k1), np.arange(R)) % R]


def _dft(R, k):
    return _dft_of(R, int(k[0]), int(k[-1]) + 1)


def double_sphere(a, sym):
    """Continue single-sphere samples over the poles: row R - j of the result
    is row j shifted by half a turn times sym; the pole rows, which are their
    own partner, become the mean of both values."""
    a = np.asarray(a, dtype=np.complex128)
    nrows, ncols = a.shape
    half = ncols // 2
    R = 2 * nrows - 2
    out = np.zeros((R, ncols), dtype=np.complex128)
    sh = np.roll(a, -half, axis=1)
    for j in range(1, nrows - 1):
        out[j] = a[j]
        out[R - j] = sym * sh[j]
    for j in {0, nrows - 1}:
        out[j] = a[j] / 2 + sym * sh[j] / 2
    return out


def analyse_scalar(ds, nmax, mmax):
    """c_nm = <Y_nm, trigonometric interpolant of ds>, exact moments."""
    k, ms, F = dft_theta_phi(ds)
    lo = list(ms).index(-mmax)
    V = hankel("sin", int(k[0]), len(k), nmax) @ F[:, lo:lo + 2 * mmax + 1]
    C = {}
    for m in range(-mmax, mmax + 1):
        v = 2 * np.pi * (ynu(nmax, m) @ V[:, m + mmax])
        for n in range(abs(m), nmax + 1):
            C[(n, m)] = v[n - abs(m)]
    return C


def analyse_vector(dt, dp, nmax, mmax):
    """<X1, F>, <X2, F> for the interpolants of the double-sphere samples:
      c1 = 2 pi/sqrt(n(n+1)) int [ -m P Ft + i dP sin Fp ] dtheta
      c2 = 2 pi/sqrt(n(n+1)) int [ -dP sin Ft + i m P Fp ] dtheta."""
    k, ms, Ft = dft_theta_phi(dt)
    _, _, Fp = dft_theta_phi(dp)
    lo = list(ms).index(-mmax)
    w = slice(lo, lo + 2 * mmax + 1)
    both = np.concatenate([Ft[:, w], Fp[:, w]], axis=1)
    V1 = hankel("sin", int(k[0]), len(k), nmax) @ both      # with sin
    V0 = hankel("one", int(k[0]), len(k), nmax) @ both      # without
    inu = 1j * np.arange(-nmax, nmax + 1)
    C1, C2 = {}, {}
    for m in range(-mmax, mmax + 1):
        y = ynu(nmax, m)
        t, p = m + mmax, m + 3 * mmax + 1
        v1 = y @ (-m * V0[:, t] + 1j * inu * V1[:, p])
        v2 = y @ (-inu * V1[:, t] + 1j * m * V0[:, p])
        for n in range(abs(m), nmax + 1):
            if n == 0:
                C1[(0, 0)] = C2[(0, 0)] = 0.0
                continue
            w = 2 * np.pi / math.sqrt(n * (n + 1.0))
            C1[(n, m)] = w * v1[n - abs(m)]
            C2[(n, m)] = w * v2[n - abs(m)]
    return C1, C2


def moment0(q):
    """int_0^pi e^{i q th} dth for integer q."""
    q = np.asarray(q)
    out = np.zeros(q.shape, dtype=np.complex128)
    out[q == 0] = np.pi
    odd = (q % 2) == 1
    out[odd] = 2j / q[odd]
    return out


def moment(q):
    """int_0^pi e^{i q th} sin(th) dth for integer q."""
    q = np.asarray(q)
    out = np.zeros(q.shape, dtype=np.complex128)
    one = np.abs(q) == 1
    out[one] = 1j * np.pi / 2 * q[one]
    even = (q % 2) == 0
    out[even] = 2.0 / (1.0 - q[even].astype(float) ** 2)
    return out


@kept(3e8)
def hankel(kind, k0, length, nmax):
    """M[i, j] = moment of order (k0 + j) + (i - nmax)."""
    q = np.arange(k0 - nmax, k0 + length + nmax)
    v = moment(q) if kind == "sin" else moment0(q)
    w = np.lib.stride_tricks.sliding_window_view(v, length)
    return np.ascontiguousarray(w[:2 * nmax + 1])


@kept(1e8)
def _basis(nmax):
    R = 2 * nmax + 4
    th = 2 * np.pi * np.arange(R) / R
    return np.exp(-1j * np.outer(th, np.arange(-nmax, nmax + 1))) / R


def ynu(nmax, m):
    """theta-Fourier coefficients of Pbar_n^m on the full circle, rows
    n = |m|..nmax, columns -nmax..nmax."""
    y = _ynu(nmax, abs(m))
    return -y if m < 0 and m % 2 else y


@kept(4e8)
def _ynu(nmax, m):
    """By DFT of samples on 2*nmax+4 points (parity (-1)^m across the
    poles)."""
    R = 2 * nmax + 4
    th = 2 * np.pi * np.arange(R) / R
    front = th <= np.pi + 1e-12
    tt = np.where(front, th, 2 * np.pi - th)
    sgn = np.where(front, 1.0, (-1.0) ** (m % 2))
    P = pbar(nmax, m, tt) * sgn[None, :]
    return P @ _basis(nmax)
