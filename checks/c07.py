"""C07: derivatives, integrals and antiderivatives of non-periodic functions."""
import itertools
import numpy as np
from numpy.polynomial import chebyshev as NC
from mc.ref import cheb_coeffs, cheb_eval, to_dom, ZS

ID = 'C07'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of unit vectors of every length up to the bound (linear maps: unit vectors settle all coefficient arrays of a length), derivative orders, domains and columns, plus all calculus programs up to a depth, on the real code against the polynomial model'
RULE = ('every length x unit vector x derivative order x domain x columns; every program over the calculus operations up to the depth bound. '
        'Non-trivial: result compared with the polynomial model')
ASSUMPTIONS = ['tolerance: 1e-13 times the largest k-th derivative a polynomial with these coefficient sizes can have',
               'differentiation may drop coefficients below the tolerance of the function, which the stated tolerance covers']
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25), (10.0, 10.5), (-20.0, 40.0), (-0.25, 0.25)]
# largest k-th derivative of T_j on [-1, 1]
_B = {}


def dbound(n, k):
    if (n, k) not in _B:
        v = np.ones(n)
        j = np.arange(n, dtype=float)
        for i in range(k):
            v = v * np.abs(j**2 - i**2) / (2 * i + 1)
        _B[(n, k)] = float(np.sum(v))
    return _B[(n, k)]


def cases(tier):
    N = 40 if tier == 'quick' else 80
    for n in range(1, N + 1):
        yield dict(id='unit.n%d' % n, what='unit', n=n)
        yield dict(id='dense.n%d' % n, what='dense', n=n)
    for n in ((1, 2, 3, 4, 6, 9, 17, 24) if tier == 'quick' else list(range(1, 26))):
        for d in range(len(DOMS)):
            yield dict(id='prog.n%d.d%d' % (n, d), what='prog', n=n, d=d, depth=3 if tier == 'quick' else 5)
    for n in range(1, N + 1):
        yield dict(id='tech.n%d' % n, what='tech', n=n)


def run(case, rec):
    rec.state(case['id'])
    globals()['t_' + case['what']](case, rec)


def fun(c, dom):
    from funpy.fun import Fun
    return Fun(coeffs=np.asfortranarray(c, dtype=float).copy(order='F'), domain=np.array(dom), simplify=False)


def orders(n):
    return sorted(set(range(0, 7)) | {n - 2, n - 1, n, n + 1, n + 5} - {-1, -2})


def der(c, k):
    return NC.chebder(c, k, axis=0) if k < c.shape[0] else np.zeros((1, c.shape[1]))


def check_all(rec, f, c, dom, lab, ks):
    n, m = c.shape
    h = 0.5 * (dom[1] - dom[0])
    x = to_dom(ZS, dom)
    mx = max(np.max(np.abs(c)), 1e-300)
    # rounding of the coordinate map moves the evaluation point
    mv = 4e-16 * max(1, abs(dom[0]), abs(dom[1])) / h
    for k in ks:
        if k > 60:
            continue
        rec.state(lab, k)
        ok, g = rec.attempt(lab + 'diff %d' % k, lambda: np.diff(f, n=k))
        if ok:
            want = cheb_eval(der(c, k), ZS) / h**k
            rec.check(g.m == m, lab + 'diff %d keeps the columns' % k, got=g.m)
            rec.check(np.all(np.asarray(g.domain) == np.asarray(dom)), lab + 'diff %d keeps the domain' % k)
            rec.close(g(x).reshape(len(x), -1), want, mx * max(1e-13 * dbound(n, k) + mv * dbound(n, k + 1), 1e-30) / h**k, lab + 'diff %d' % k)
    ok, s = rec.attempt(lab + 'sum', lambda: np.sum(f))
    I = NC.chebint(c, lbnd=-1, axis=0)
    if ok:
        want = cheb_eval(I, np.array([1.0]))[0] * h
        rec.check(np.size(s) == m, lab + 'one integral per column', got=np.shape(s))
        rec.close(np.ravel(s), want, 1e-14 * n * mx * h, lab + 'sum')
    ok, g = rec.attempt(lab + 'cumsum', lambda: np.cumsum(f))
    if ok:
        tol = (2e-14 + mv) * n * mx * h
        rec.check(g.m == m and np.all(np.asarray(g.domain) == np.asarray(dom)), lab + 'cumsum keeps columns and domain')
        rec.close(g(x).reshape(len(x), -1), cheb_eval(I, ZS) * h, tol, lab + 'cumsum')
        rec.close(np.ravel(g(np.array([dom[0]]))), np.zeros(m), (1e-14 + mv) * n * mx * h, lab + 'cumsum starts at zero')
        ok, d = rec.attempt(lab + 'diff of cumsum', lambda: np.diff(g))
        if ok:
            rec.close(d(x).reshape(len(x), -1), cheb_eval(c, ZS), mx * (1e-13 * max(1, dbound(n + 1, 1)) + mv * dbound(n + 1, 2)), lab + 'diff of cumsum')
    rec.close(f(x).reshape(len(x), -1), cheb_eval(c, ZS), mx * (1e-14 * n + mv * dbound(n, 1)), lab + 'function left alone')


def t_unit(case, rec):
    n = case['n']
    for j in range(n):
        c = np.zeros((n, 1))
        c[j] = 1.0
        for dom in DOMS:
            f = fun(c, dom)
            check_all(rec, f, c, dom, 'T%d on [%g, %g] ' % (j, dom[0], dom[1]), (1, 2, 3, n - 1, n, n + 1) if n > 1 else (0, 1, 2))


def t_dense(case, rec):
    n = case['n']
    for m in (1, 2, 3, 4):
        for kind in ('dense', 'slow', 'zero', 'zerocol', 'last'):
            if (kind == 'last' and n < 2) or (kind == 'zerocol' and m < 2):
                continue
            for seed in (0, 1):
                for sc in (1.0, 1e-7, 1e6):
                    c = cheb_coeffs(kind, n, m, seed) * sc
                    if sc != 1.0 and (seed or m > 2):
                        continue
                    for dom in DOMS[:4] if seed == 0 else DOMS[:1]:
                        f = fun(c, dom)
                        check_all(rec, f, c, dom, '%s x%d seed %d scale %g on [%g, %g] ' % (kind, m, seed, sc, dom[0], dom[1]), orders(n))
    # shape of the integral does not depend on the length
    for m in (1, 2, 3):
        a = np.shape(np.sum(fun(cheb_coeffs('dense', n, m, 0), DOMS[0])))
        b = np.shape(np.sum(fun(cheb_coeffs('dense', 7, m, 0), DOMS[0])))
        rec.check(a == b, 'shape of the integral x%d' % m, got=[a, b])


def t_prog(case, rec):
    """Programs of calculus and arithmetic operations against coefficient arrays."""
    n, dom = case['n'], DOMS[case['d']]
    h = 0.5 * (dom[1] - dom[0])

    def pad(c, k):
        return np.vstack((c, np.zeros((k, c.shape[1]))))
    ops = {
        'D': (lambda f: np.diff(f), lambda c: der(c, 1) / h),
        'D2': (lambda f: np.diff(f, n=2), lambda c: der(c, 2) / h**2),
        'I': (lambda f: np.cumsum(f), lambda c: NC.chebint(c, lbnd=-1, axis=0) * h),
        '-2*': (lambda f: -2 * f, lambda c: -2 * c),
        '+1': (lambda f: f + 1, lambda c: c + np.eye(c.shape[0], 1)),
        'pad': (lambda f: f.prolong(f.n + 4), lambda c: pad(c, 4)),
        'f-D': (lambda f: f - np.diff(f), lambda c: c - pad(der(c, 1) / h, c.shape[0] - der(c, 1).shape[0])),
        'f+I': (lambda f: f + np.cumsum(f), lambda c: pad(c, 1) + NC.chebint(c, lbnd=-1, axis=0) * h),
        'simplify': (lambda f: f.simplify(), lambda c: c),
    }
    x = to_dom(ZS, dom)
    mv = 4e-16 * max(1, abs(dom[0]), abs(dom[1])) / h
    for m in (1, 2):
        c0 = cheb_coeffs('slow', n, m, 5)
        for prog in itertools.product(ops, repeat=case['depth']):
            f, c = fun(c0, dom), c0
            lab = 'x%d ' % m + '; '.join(prog)
            big = 1.0
            ok = True
            for i, o in enumerate(prog):
                ok, f = rec.attempt(lab, ops[o][0], f)
                if not ok:
                    break
                nn = c.shape[0]
                big *= {'D': max(1, nn**2 / h), 'f-D': max(1, nn**2 / h), 'D2': max(1, nn**4 / h**2), '-2*': 2}.get(o, max(1, h))
                c = ops[o][1](c)
                rec.state(n, m, case['d'], prog[:i + 1])
            if not ok:
                continue
            rec.check(f.m == m, lab + ' columns')
            rec.close(f(x).reshape(len(x), -1), cheb_eval(c, ZS), (1e-12 + mv * n**2) * big, lab)
            ok, s = rec.attempt(lab + ' then sum', lambda: np.sum(f))
            if ok:
                rec.close(np.ravel(s), cheb_eval(NC.chebint(c, lbnd=-1, axis=0), np.array([1.0]))[0] * h, 1e-12 * big * h, lab + ' then sum')


def t_tech(case, rec):
    """The same on the reference interval through the low level interface."""
    from funpy.cheb.chebtech import chebtech
    from funpy.cheb.diff import computeDerCoeffs
    n = case['n']
    for m in (1, 3):
        c = cheb_coeffs('dense', n, m, 2)
        f = chebtech(coeffs=np.asfortranarray(c), simplify=False)
        mx = np.max(np.abs(c))
        for k in range(1, min(n, 8) + 2):
            rec.state(n, m, k)
            ok, g = rec.attempt('diff %d' % k, lambda: np.diff(f, n=k))
            if ok:
                rec.close(g.feval(ZS).reshape(len(ZS), -1), cheb_eval(der(c, k), ZS), 1e-13 * mx * max(dbound(n, k), 1e-30), 'tech diff %d x%d' % (k, m))
                rec.check(g.m == m, 'tech diff %d x%d columns' % (k, m))
        if n > 1:
            ok, d = rec.attempt('computeDerCoeffs', lambda: computeDerCoeffs(c))
            if ok:
                rec.close(d, der(c, 1), 1e-14 * mx * n**2, 'computeDerCoeffs x%d' % m)
        ok, g = rec.attempt('cumsum', lambda: np.cumsum(f))
        if ok:
            rec.close(g.feval(ZS).reshape(len(ZS), -1), cheb_eval(NC.chebint(c, lbnd=-1, axis=0), ZS), 2e-14 * n * mx, 'tech cumsum x%d' % m)
        ok, s = rec.attempt('sum', lambda: np.sum(f))
        if ok:
            rec.close(np.ravel(s), cheb_eval(NC.chebint(c, lbnd=-1, axis=0), np.array([1.0]))[0], 1e-14 * n * mx, 'tech sum x%d' % m)
