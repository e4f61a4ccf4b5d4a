"""Comparison helpers shared by the properties."""
import re

import numpy as np

from vt.engine import Violation

EPS = float(np.finfo(np.float64).eps)


def need(cond, msg, *a):
    if not cond:
        raise Violation(msg % a if a else msg)


def arr(x, shape, what, dtype=None):
    """x as an ndarray of that shape, or a violation."""
    x = np.asarray(x)
    need(x.shape == tuple(shape), "%s has shape %s, expected %s",
         what, x.shape, tuple(shape))
    need(x.dtype != object, "%s is not numeric", what)
    return x


MAXRATIO = {}


def close(got, want, tol, what):
    """max |got - want| <= tol (absolute)."""
    got = np.asarray(got)
    want = np.asarray(want)
    need(got.shape == want.shape, "%s has shape %s, expected %s", what,
         got.shape, want.shape)
    if got.size == 0:
        return 0.0
    d = np.abs(got - want)
    bad = ~(d <= tol)
    if np.any(bad):
        k = np.unravel_index(int(np.argmax(np.where(np.isnan(d), np.inf, d))),
                             d.shape)
        raise Violation("%s: at %s got %r, expected %r (difference %.3g, "
                        "allowed %.3g)" % (what, tuple(int(i) for i in k),
                                           complex(got[k]), complex(want[k]),
                                           float(d[k]), float(np.max(tol))))
    t = float(np.max(tol))
    r = float(np.max(d)) / t if t > 0 else 0.0
    k = re.split(r"[:(\[]| of ", what)[0].strip()[:60]
    if len(MAXRATIO) >= 60 and k not in MAXRATIO:
        k = "other"
    if r > MAXRATIO.get(k, 0.0):
        MAXRATIO[k] = r
    return float(np.max(d))


def same(got, want, what):
    """Equal as numbers (NaN equals NaN)."""
    got, want = np.asarray(got), np.asarray(want)
    need(got.shape == want.shape, "%s has shape %s, expected %s", what,
         got.shape, want.shape)
    ok = (got == want) | ((got != got) & (want != want))
    if not np.all(ok):
        k = np.unravel_index(int(np.argmin(ok)), ok.shape) if ok.shape else ()
        raise Violation("%s: at %s got %r, expected %r" % (
            what, tuple(int(i) for i in k), got[k], want[k]))


def signs(got, want, what):
    """Where both are zero, the same zero (real and imaginary part)."""
    got = np.asarray(got, dtype=np.complex128)
    want = np.asarray(want, dtype=np.complex128)
    for g, w in ((got.real, want.real), (got.imag, want.imag)):
        bad = (g == 0) & (w == 0) & (np.signbit(g) != np.signbit(w))
        need(not np.any(bad), "%s: a zero has the wrong sign: got %r, "
             "expected %r", what, got[bad][:1] if got.ndim else got,
             want[bad][:1] if want.ndim else want)


def raises(fn, exc, what):
    """fn() must raise exc (a class or tuple)."""
    try:
        r = fn()
    except exc:
        return
    except Exception as e:
        raise Violation("%s raised %s (%s), expected %s" % (
            what, type(e).__name__, e, names(exc)))
    raise Violation("%s was accepted and returned %.200r, expected %s"
                    % (what, r, names(exc)))


def names(exc):
    return "/".join(e.__name__ for e in
                    (exc if isinstance(exc, tuple) else (exc,)))


def coefs_close(c, C, nmax, mmax, tol, what):
    """A ScalarCoefs against a dict (n, m) -> value; absolute tolerance."""
    need(c.nmax == nmax and c.mmax == mmax,
         "%s has (nmax, mmax) = (%s, %s), expected (%s, %s)", what,
         c.nmax, c.mmax, nmax, mmax)
    for m in range(-mmax, mmax + 1):
        want = np.array([C.get((n, m), 0.0)
                         for n in range(abs(m), nmax + 1)],
                        dtype=np.complex128)
        close(c[:, m], want, tol, "%s: c[:, %d]" % (what, m))
