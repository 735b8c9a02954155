"""Boring reference models: functions are their values on a fixed grid, polynomials are
numpy.polynomial coefficient arrays, trigonometric polynomials are explicit sums."""
import numpy as np
from numpy.polynomial import chebyshev as NC

EPS = np.finfo(float).eps

# reference grid on [-1, 1]: endpoints, interior points, nothing special about any of them
ZS = np.concatenate(([-1.0, 1.0, 0.0], np.cos(np.pi * (np.arange(1, 30) * 0.0337 + 0.0051)),
                     [0.3125, -0.8125, 0.9990234375]))
ZIN = ZS[2:]


def to_dom(z, dom):
    a, b = float(dom[0]), float(dom[1])
    x = 0.5 * (b * (z + 1) + a * (1 - z))
    return np.clip(x, a, b)


def cheb_eval(c, z):
    """(n, m) coefficients at z -> (len(z), m) by the explicit sum of cos(k arccos z)."""
    c = np.asarray(c)
    if c.ndim == 1:
        c = c[:, None]
    k = np.arange(c.shape[0])
    return np.cos(np.outer(np.arccos(np.clip(z, -1, 1)), k)) @ c


def trig_modes(n):
    """Wave numbers of the n stored coefficients, lowest first."""
    return np.arange(-(n // 2), n - n // 2)


def trig_eval(c, z, isreal=True):
    """Value of the trigonometric interpolant with coefficients c (lowest mode first)."""
    c = np.asarray(c)
    if c.ndim == 1:
        c = c[:, None]
    n = c.shape[0]
    k = trig_modes(n)
    E = np.exp(1j * np.pi * np.outer(z, k))
    if n % 2 == 0:
        # the unpaired mode is the cosine
        E[:, 0] = np.cos(np.pi * k[0] * z)
    v = E @ c
    return np.real(v) if isreal else v


def gen(seed, n, m):
    """Deterministic irregular numbers in [-1, 1] (n, m); no random state involved."""
    i = np.arange(1, n + 1)[:, None]
    j = np.arange(1, m + 1)[None, :]
    return np.sin(12.9898 * i * (seed + 1) + 78.233 * j + 0.37 * seed * j * i)


def cheb_coeffs(kind, n, m, seed=0):
    """Palette of coefficient arrays."""
    k = np.arange(n)[:, None]
    base = gen(seed, n, m)
    if kind == 'dense':
        c = base / (1.0 + k)**1.5
    elif kind == 'slow':
        c = base
    elif kind == 'fast':
        c = base * 0.5**k
    elif kind == 'even':
        c = base / (1.0 + k)
        c[1::2] = 0
    elif kind == 'odd':
        c = base / (1.0 + k)
        c[0::2] = 0
    elif kind == 'zero':
        c = np.zeros((n, m))
    elif kind == 'const':
        c = np.zeros((n, m))
        c[0] = 1.0 + np.arange(m)
    elif kind == 'last':
        c = np.zeros((n, m))
        c[-1] = 1.0 - 0.25 * np.arange(m)
    elif kind == 'zerocol':
        c = base / (1.0 + k)
        c[:, -1] = 0
    elif kind == 'scales':
        c = base / (1.0 + k)**1.5 * (10.0 ** (-3 * np.arange(m)))
    elif kind == 'pos':           # bounded away from zero
        c = 0.5 * base / (1.0 + k)**2 / max(1, np.sum(1 / (1.0 + k)**2))
        c[0] = 2.0 + np.arange(m)
    else:
        raise ValueError(kind)
    return np.asfortranarray(c + 0.0)


def trig_coeffs(kind, n, m, seed=0, real=True):
    """Palette of Fourier coefficient arrays, lowest mode first."""
    k = trig_modes(n)
    a = gen(seed, n, m) + 1j * gen(seed + 7, n, m)
    d = 1.0 / (1.0 + np.abs(k)[:, None])**1.5
    if kind == 'dense':
        c = a * d
    elif kind == 'slow':
        c = a
    elif kind == 'zero':
        c = 0 * a
    elif kind == 'const':
        c = 0 * a
        c[n // 2] = 1.0 + np.arange(m)
    elif kind == 'pos':
        c = 0.3 * a * d**2 / max(1, np.sum(np.abs(a * d**2)))
        c[n // 2] = 2.0 + np.arange(m)
    elif kind == 'zerocol':
        c = a * d
        c[:, -1] = 0
    elif kind == 'meanfree':
        c = a * d
        c[n // 2] = 0
    elif kind == 'last':
        c = 0 * a
        c[0] = 0.5
        c[-1] = 0.5
    else:
        raise ValueError(kind)
    if real:
        out = np.zeros_like(c)
        for i, kk in enumerate(k):
            j = np.where(k == -kk)[0]
            if len(j):
                out[i] = 0.5 * (c[i] + np.conj(c[j[0]]))
            else:                    # unpaired mode of an even length
                out[i] = np.real(c[i])
        c = out
    return np.asfortranarray(c)
