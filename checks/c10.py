"""C10: extrema, norms and inner products match their integrals and bounds."""
import itertools
import numpy as np
from mc.ref import cheb_coeffs, trig_coeffs, cheb_eval, trig_eval, to_dom

ID = 'C10'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of pairs of unit vectors (inner products are bilinear, so they settle all functions of the two lengths), and of lengths x columns x coefficient shapes x domains x norm indices, on the real code against exact quadrature and dense bounds'
RULE = ('every pair of lengths x pair of unit vectors (inner products); every length x columns x shape x domain x norm index (norms, extrema). '
        'Non-trivial: compared with quadrature or the dense grid')
ASSUMPTIONS = ['p-norms of complex functions are checked for p = 2 only', 'odd p with sign changes: 3e-3 relative because |f| is resolved adaptively',
               'extrema are compared with a grid of 4001 points up to the interpolation error of the grid']
LIMIT = 120
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25), (10.0, 10.5)]
GX, GW = np.polynomial.legendre.leggauss(240)
GRID = np.cos(np.pi * np.arange(4001) / 4000)


def cases(tier):
    N = 14 if tier == 'quick' else 30
    for n in range(1, N + 1):
        for t in ('cheb', 'trig'):
            yield dict(id='inner.%s.n%d' % (t, n), what='inner', t=t, n=n, N=N)
    L = list(range(1, 25)) if tier == 'quick' else list(range(1, 61))
    for n in L:
        for t in ('cheb', 'trig'):
            yield dict(id='norm.%s.n%d' % (t, n), what='norm', t=t, n=n)
            yield dict(id='ext.%s.n%d' % (t, n), what='ext', t=t, n=n)


def run(case, rec):
    rec.state(case['id'])
    globals()['t_' + case['what']](case, rec)


def fun(t, c, dom):
    from funpy.fun import Fun
    k = dict(type='trig') if t == 'trig' else {}
    return Fun(coeffs=np.array(c, order='F'), domain=np.array(dom), simplify=False, **k)


def ev(t, c, z, real=True):
    return cheb_eval(c, z) if t == 'cheb' else trig_eval(c, z, isreal=real)


def quad(v):
    return GW @ v


def t_inner(case, rec):
    from funpy.fun import innerw, normh
    t, n = case['t'], case['n']
    units = (1.0,) if t == 'cheb' else (1.0, 1j)
    k = np.arange(n)
    for p in range(1, case['N'] + 1):
        # all unit vectors at once as columns, scaled differently so that no column can be confused
        for u, w in itertools.product(units, repeat=2):
            dt = float if t == 'cheb' else complex
            A, B = np.eye(n, dtype=dt) * u, np.eye(p, dtype=dt) * w
            for dom in DOMS[:3]:
                h = 0.5 * (dom[1] - dom[0])
                f, g = fun(t, A, dom), fun(t, B, dom)
                va, vb = ev(t, A, GX, False), ev(t, B, GX, False)
                want = (va.T * GW) @ np.conj(vb) * h
                lab = '%s%d %s%d on [%g, %g] ' % (u, n, w, p, dom[0], dom[1])
                rec.state(t, lab)
                ok, r = rec.attempt(lab + 'inner', lambda: np.inner(f, g))
                if ok and rec.check(np.size(r) == n * p, lab + 'inner shape', got=np.shape(r)):
                    rec.close(np.reshape(r, (n, p)), want, 1e-13 * h * (n + p), lab + 'inner')
                ok, s = rec.attempt(lab + 'inner', lambda: np.inner(g, f))
                if ok and np.size(s) == n * p:
                    rec.close(np.reshape(s, (p, n)), np.conj(want).T, 1e-13 * h * (n + p), lab + 'inner is symmetric')
                if n == p:
                    ok, d = rec.attempt(lab + 'dot', lambda: np.dot(f, g))
                    if ok and t == 'cheb':
                        rec.close(np.ravel(d), [np.trace(want)], 1e-13 * h * n**2, lab + 'dot')
                # one column each
                for i in sorted({0, n // 2, n - 1}):
                    for j in sorted({0, p - 1}):
                        ok, r = rec.attempt(lab + 'inner %d %d' % (i, j), lambda: np.inner(f[i], g[j]))
                        if ok:
                            rec.close(np.ravel(r), [want[i, j]], 1e-13 * h * (n + p), lab + 'inner %d %d' % (i, j))
                        ok, r = rec.attempt(lab + 'dot %d %d' % (i, j), lambda: np.dot(f[i], g[j]))
                        if ok:
                            rec.close(np.ravel(r), [want[i, j]], 1e-13 * h * (n + p), lab + 'dot %d %d' % (i, j))
                        if t == 'cheb':
                            W = (np.pi if i == 0 else np.pi / 2) * h if i == j else 0.0
                            ok, r = rec.attempt(lab + 'innerw %d %d' % (i, j), lambda: innerw(f[i], g[j]))
                            if ok:
                                rec.close(np.ravel(r), [W], 1e-13 * h, lab + 'innerw %d %d' % (i, j))
    for m in (1, 2, 3):
        c = cheb_coeffs('dense', n, m, 1) if t == 'cheb' else trig_coeffs('dense', n, m, 1, real=False)
        for dom in DOMS:
            h = 0.5 * (dom[1] - dom[0])
            f = fun(t, c, dom)
            v = ev(t, c, GX, False)
            ok, r = rec.attempt('inner with itself', lambda: np.inner(f, f))
            if ok:
                want = (v.T * GW) @ np.conj(v) * h
                r = np.reshape(r, (m, m))
                rec.close(r, want, 1e-13 * h * n * max(1, np.sum(np.abs(c))**2), 'x%d inner with itself on [%g, %g]' % (m, dom[0], dom[1]))
                rec.check(np.all(np.real(np.diag(r)) >= 0), 'x%d inner with itself is not negative' % m)
            ok, r = rec.attempt('normh', lambda: normh(f)) if t == 'cheb' or m == 1 else (False, 0)
            if ok:
                rec.close(np.ravel(r), [np.sqrt(np.sum(quad(np.abs(v)**2)) * h)], 1e-12 * (1 + np.sum(np.abs(c))) * np.sqrt(h), 'x%d normh on [%g, %g]' % (m, dom[0], dom[1]))
            f2 = fun(t, np.array(c), DOMS[(DOMS.index(dom) + 1) % 4])
            rec.rejects('inner on different domains', lambda: np.inner(f, f2))
            rec.rejects('dot on different domains', lambda: np.dot(f, f2))


def shapes(t, n):
    for m in (1, 2, 3):
        for kind in ('dense', 'pos', 'zero', 'zerocol', 'last'):
            if (kind in ('zerocol',) and m < 2) or (kind == 'last' and (n < 2 or t == 'trig')):
                continue
            if t == 'cheb':
                yield m, kind, cheb_coeffs(kind, n, m, 1)
            else:
                yield m, kind, trig_coeffs(kind, n, m, 1)


def t_norm(case, rec):
    from funpy import fun as F
    t, n = case['t'], case['n']
    for m, kind, c in shapes(t, n):
        v = np.abs(ev(t, c, GX))
        vg = np.abs(ev(t, c, GRID))
        changes = np.any([np.min(ev(t, c, GRID)[:, j]) < -1e-14 and np.max(ev(t, c, GRID)[:, j]) > 1e-14 for j in range(m)])
        for dom in DOMS[:3]:
            h = 0.5 * (dom[1] - dom[0])
            f = fun(t, c, dom)
            lab = '%s x%d on [%g, %g] ' % (kind, m, dom[0], dom[1])
            for p in (1, 2, 3, 4, 6, np.inf):
                if p in (1, 3) and changes and (m > 1 or n % 3 != 2 or dom != DOMS[1]):
                    continue
                rec.state(t, n, lab, p)
                loose = p in (1, 3) and changes
                if p == np.inf:
                    want = np.max(vg)
                    tol = 2e-5 * max(want, 1e-300) if n > 1 else 1e-14 * want
                else:
                    if loose:
                        gr = np.linspace(-1, 1, 20001)
                        xx = 0.5 * (gr[1:] + gr[:-1])
                        want = np.sum(np.abs(ev(t, c, xx))**p) * (gr[1] - gr[0]) * h
                        want = want**(1.0 / p)
                    else:
                        want = (np.sum(quad(v**p)) * h)**(1.0 / p)
                    tol = (3e-3 if loose else 1e-9 if t == 'trig' or p % 2 else 1e-11) * max(want, 1e-300)
                ok, r = rec.attempt(lab + 'norm %s' % p, lambda: F.norm(f, p=p))
                if ok:
                    rec.check(np.ndim(r) == 0 and np.isreal(r), lab + 'norm %s is a number' % p, got=str(np.shape(r)))
                    rec.close(np.ravel(r), [want], tol, lab + 'norm %s' % p)
                ok, r2 = rec.attempt(lab + 'method norm %s' % p, lambda: f.norm(p=p))
                if ok:
                    rec.close(np.ravel(r2), [want], tol, lab + 'method norm %s' % p)
                for a in (-3.0, 0.5):
                    if loose:
                        continue
                    ok, r = rec.attempt(lab + 'scaled norm %s' % p, lambda: F.norm(a * f, p=p))
                    if ok:
                        rec.close(np.ravel(r), [abs(a) * want], abs(a) * tol, lab + 'norm %s of %g f' % (p, a))
                if p != np.inf:
                    ok, r = rec.attempt(lab + 'norm2 %s' % p, lambda: F.norm2(f, p=p))
                    if ok:
                        rec.close(np.ravel(r), [want**p], p * tol * want**(p - 1) + 1e-300, lab + 'norm2 %s' % p)
            # Sobolev norms
            d, acc, dm = c, None, 1.0
            for k in (0, 1, 2, 3):
                if k:
                    if t == 'cheb':
                        d = np.polynomial.chebyshev.chebder(d, axis=0) / h if d.shape[0] > 1 else np.zeros((1, m))
                        vv = cheb_eval(d, GX)
                    else:
                        s = np.vstack((0.5 * c[:1], c[1:], 0.5 * c[:1])) if n % 2 == 0 else c
                        K = s.shape[0] // 2
                        vv = trig_eval(s * (1j * np.pi * np.arange(-K, K + 1)[:, None] / h)**k, GX)
                else:
                    vv = ev(t, c, GX)
                acc = (acc if acc is not None else 0) + np.array([np.sum(quad(np.abs(vv)**p)) * h for p in (2, 4)])
                for i, p in enumerate((2, 4)):
                    want = acc[i]**(1.0 / p)
                    tol = (1e-8 if t == 'trig' else 1e-10) * max(want, 1e-300)
                    ok, r = rec.attempt(lab + 'W%d,%d' % (k, p), lambda: F.wkpnorm(f, p=p, k=k))
                    if ok:
                        rec.close(np.ravel(r), [want], tol, lab + 'W%d,%d' % (k, p))
                    if k in (1, 2):
                        ok, r = rec.attempt(lab + 'h%dnorm' % k, lambda: (F.h1norm if k == 1 else F.h2norm)(f, p=p))
                        if ok:
                            rec.close(np.ravel(r), [want], tol, lab + 'h%dnorm %d' % (k, p))
            if kind not in ('zero',):
                ok, u = rec.attempt(lab + 'normalize', lambda: F.normalize(f))
                if ok:
                    ok, r = rec.attempt(lab + 'norm of normalize', lambda: F.norm(u))
                    if ok:
                        rec.close(np.ravel(r), [1.0], 1e-9, lab + 'normalize')
            if m == 1 and n > 1 and kind in ('dense', 'pos'):
                dv = np.polynomial.chebyshev.chebval(-1, np.polynomial.chebyshev.chebder(c[:, 0])) if t == 'cheb' else \
                    np.real(trig_eval(s * (1j * np.pi * np.arange(-K, K + 1)[:, None] / h), np.array([-1.0])))[0, 0]
                L2 = np.sqrt(np.sum(quad(v**2)) * h)
                if abs(dv) > 1e-6:
                    ok, r = rec.attempt(lab + 'sturm_norm', lambda: F.sturm_norm(f))
                    if ok:
                        rec.close(np.ravel(r), [np.sign(dv) * L2], 1e-9 * L2, lab + 'sturm_norm')
                va = ev(t, c, np.array([-1.0]))[0, 0]
                if abs(va) > 1e-6:
                    ok, r = rec.attempt(lab + 'sturm_norm_alt', lambda: F.sturm_norm_alt(f))
                    if ok:
                        rec.close(np.ravel(r), [np.sign(va) * L2], 1e-9 * L2, lab + 'sturm_norm_alt')
            for p in (0, -1):
                rec.rejects(lab + 'norm %d' % p, lambda: F.norm(f, p=p))


def t_ext(case, rec):
    from funpy.fun import minandmax
    t, n = case['t'], case['n']
    for m, kind, c in shapes(t, n):
        for dom in DOMS:
            for sc in (1.0, 1e-6, -1e5):
                if sc != 1 and (m > 2 or dom != DOMS[1]):
                    continue
                a, b = dom
                f = fun(t, c * sc, dom)
                lab = '%s x%d scale %g on [%g, %g] ' % (kind, m, sc, a, b)
                rec.state(t, n, lab)
                g = ev(t, c * sc, GRID)
                ok, r = rec.attempt(lab + 'minandmax', lambda: minandmax(f))
                if not ok or not rec.check(len(r) == 2 and np.size(r[0]) == 2 * m and np.size(r[1]) == 2 * m, lab + 'minandmax shape', got=[np.shape(q) for q in r]):
                    continue
                vals, pos = np.reshape(r[0], (2, m)), np.reshape(r[1], (2, m))
                s = max(np.max(np.sum(np.abs(c * sc), axis=0)), 1e-300)
                mv = 1e-15 * max(abs(a), abs(b)) / (b - a) * n**2
                tol = ((1e-8 if t == 'trig' else 1e-12) + mv) * s
                rec.check(np.all(pos >= a - 1e-14 * max(1, abs(a))) and np.all(pos <= b + 1e-14 * max(1, abs(b))), lab + 'positions inside the domain')
                # between two points of the grid the function rises by at most this
                gap = 1e-12 + 0.5 * (n * np.pi / 8000 * (np.pi / 2 if t == 'trig' else 1))**2
                for j in range(m):
                    z = (2 * pos[:, j] - a - b) / (b - a)
                    rec.close(vals[:, j], ev(t, c * sc, np.clip(z, -1, 1))[:, j], tol, lab + 'column %d: the extrema are attained' % j)
                    rec.check(vals[0, j] <= np.min(g[:, j]) + tol and vals[1, j] >= np.max(g[:, j]) - tol, lab + 'column %d: the extrema are bounds' % j,
                              got=[vals[0, j], vals[1, j]], want=[np.min(g[:, j]), np.max(g[:, j])])
                    rec.check(vals[0, j] >= np.min(g[:, j]) - tol - gap * s and vals[1, j] <= np.max(g[:, j]) + tol + gap * s, lab + 'column %d: the extrema are tight' % j)
