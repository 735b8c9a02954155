"""C04: Chebyshev transforms, grids and evaluation."""
import numpy as np
from numpy.polynomial import chebyshev as NC
from mc.ref import cheb_eval, cheb_coeffs, to_dom, ZS

ID = 'C04'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of every length up to the bound and every unit vector (linear maps: unit vectors settle all arrays of a length) on the real code'
RULE = ('every length up to the bound x every unit coefficient/value vector x evaluation route (transform, Clenshaw scalar/array, interpolation matrix, Fun on a domain) '
        'x memory layout; every length x grid type x interval for points and weights x every Chebyshev polynomial of admissible degree. '
        'Non-trivial: reference comparisons executed')
ASSUMPTIONS = ['the maps are linear in the coefficients, so unit vectors decide a length up to rounding (spot columns of dense arrays are compared too)',
               'reference: explicit sum of cos(k arccos x); tolerance grows linearly with the length']

QN = list(range(1, 140)) + [255, 256, 257, 511, 512, 513, 514, 1025]
TN = list(range(1, 420)) + [511, 512, 513, 514, 515, 1023, 1024, 1025, 2049, 4001]
DOMS = [None, (-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25), (2.0, 2.03125), (-100.0, 1000.0)]


def cases(tier):
    for n in (QN if tier == 'quick' else TN):
        yield dict(id='transform.n%d' % n, what='transform', n=n)
        yield dict(id='eval.n%d' % n, what='eval', n=n)
        yield dict(id='grid.n%d' % n, what='grid', n=n)
        yield dict(id='fun.n%d' % n, what='fun', n=n)
    yield dict(id='grid.n0', what='grid0', n=0)


def tol(n):
    return 1e-13 + 6e-15 * n + 1e-17 * n * n


def nodes(n, kind):
    if kind == 2:
        return np.array([0.0]) if n == 1 else -np.cos(np.pi * np.arange(n) / (n - 1))
    return -np.cos(np.pi * (2 * np.arange(n) + 1) / (2 * n))


def vander(x, n):
    return np.cos(np.outer(np.arccos(np.clip(x, -1, 1)), np.arange(n)))


def layouts(a):
    yield 'F', np.asfortranarray(a)
    yield 'C', np.ascontiguousarray(a)
    big = np.zeros((2 * a.shape[0], a.shape[1] + 1))
    big[::2, 1:] = a
    yield 'strided', big[::2, 1:]


def run(case, rec):
    n = case['n']
    rec.state(case['id'])
    globals()['t_' + case['what']](n, rec)


def t_transform(n, rec):
    from funpy.cheb import polyfit, polyval
    V = vander(nodes(n, 2), n)
    I = np.eye(n)
    x = nodes(n, 2)
    for lay, c in layouts(I):
        rec.step(2)
        v = polyval(c)
        rec.state('unit', n, lay)
        rec.close(v, V, tol(n), 'polyval of unit coefficients (%s)' % lay)
        rec.close(c, I, 0, 'polyval changed its input (%s)' % lay)
    rec.close(polyfit(np.asfortranarray(V)), I, tol(n), 'polyfit of unit values')
    for lay, v in layouts(I):
        rec.step(2)
        c = polyfit(v)
        rec.close(polyval(np.asfortranarray(c)), I, tol(n), 'polyval(polyfit(unit value)) (%s)' % lay)
        rec.close(V @ c, I, tol(n), 'interpolant through a unit value (%s)' % lay)
        rec.close(v, I, 0, 'polyfit changed its input (%s)' % lay)
    for m in (1, 2, 3):
        for kind in ('dense', 'slow', 'zero', 'scales'):
            c = cheb_coeffs(kind, n, m, 3)
            rec.step(2)
            v = polyval(c)
            rec.check(v.shape == (n, m), 'polyval shape %d' % m)
            rec.close(v, V @ c, tol(n) * max(1, np.sum(np.abs(c))), 'polyval %s %d' % (kind, m))
            rec.close(polyfit(v), c, tol(n) * max(1, np.sum(np.abs(c))), 'polyfit %s %d' % (kind, m))


def t_eval(n, rec):
    from funpy.cheb.detail import clenshaw
    from funpy.cheb.chebtech import chebtech
    z = np.concatenate((ZS, nodes(n, 2)[:20], nodes(n, 1)[-20:]))
    V = vander(z, n)
    # the reference loses n*eps*sensitivity as well
    t = tol(n) * 3
    I = np.eye(n, order='F')
    rec.step(1)
    if n > 1:
        rec.close(clenshaw(z, I), V, t, 'array evaluation of unit coefficients')
    for k in range(n) if n <= 70 else [0, 1, 2, n // 2, n - 2, n - 1]:
        rec.step(2)
        rec.state('scalar', n, k)
        c = np.zeros((n, 1), order='F')
        c[k] = 1
        rec.close(clenshaw(z, c).ravel(), V[:, k], t, 'evaluation of T%d' % k)
        rec.close(clenshaw(z, c[:, 0].copy()).ravel(), V[:, k], t, 'evaluation of T%d from a 1-d array' % k)
    for m in (1, 2, 3):
        for kind in ('dense', 'slow', 'even', 'odd', 'last', 'zerocol'):
            c = cheb_coeffs(kind, n, m, 5)
            f = chebtech(coeffs=c.copy(order='F'), simplify=False)
            want = V @ c
            s = max(1.0, np.sum(np.abs(c)))
            rec.step(4)
            rec.close(f(z), want, t * s, '%s x%d array' % (kind, m))
            rec.close(f(z[::-1]), want[::-1], t * s, '%s x%d reversed array' % (kind, m))
            for p in (0.3125, -1.0, 1.0, np.float64(0.0)):
                w = (vander(np.array([p]), n) @ c)
                rec.close(np.atleast_1d(f(p)), np.atleast_1d(w.squeeze()), t * s, '%s x%d at a number' % (kind, m))
            rec.close(f(np.array([0.25])), (vander(np.array([0.25]), n) @ c).squeeze(), t * s, '%s x%d at one point' % (kind, m))
            rec.close(f.lval(), (vander(np.array([-1.0]), n) @ c), t * s, '%s x%d left value' % (kind, m))
            rec.close(f.rval(), (vander(np.array([1.0]), n) @ c), t * s, '%s x%d right value' % (kind, m))
            rec.close(f.values, vander(nodes(n, 2), n) @ c, t * s, '%s x%d values' % (kind, m))
            rec.close(np.max(np.atleast_1d(f.vscale)), np.max(np.abs(vander(nodes(n, 2), n) @ c)), t * s, '%s x%d vscale' % (kind, m))
            rec.close(f.eval(z) @ f.values, want, 20 * t * s, '%s x%d interpolation matrix' % (kind, m))
            rec.close(f.eval(np.asarray(f.x)) @ f.values, np.asarray(f.values), t * s, '%s x%d interpolation matrix at the nodes' % (kind, m))


def t_grid(n, rec):
    from funpy.cheb import chebpts, barymat, quadwts, bary_weights
    z = ZS
    k = np.arange(n)
    mom = np.where(k % 2 == 0, 2.0 / (1.0 - np.where(k == 1, 3.0, k)**2), 0.0)
    for kind in (2, 1):
        for dom in DOMS:
            rec.step()
            args = dict(type=kind)
            if dom is not None:
                args['interval'] = np.array(dom)
            lab = 'type %d on %s: ' % (kind, dom)
            x, w, v, th = chebpts(n, **args)
            a, b = dom or (-1.0, 1.0)
            ref = 0.5 * (b * (1 + nodes(n, kind)) + a * (1 - nodes(n, kind)))
            sc = max(abs(a), abs(b))
            rec.state('grid', n, kind, dom)
            if not rec.close(x, ref, 4e-15 * sc, lab + 'points'):
                continue
            rec.check(len(x) == len(w) == len(v) == n, lab + 'one weight per point')
            T = vander(nodes(n, kind), n)
            rec.close(w @ T, mom * 0.5 * (b - a), tol(n) * (b - a), lab + 'quadrature of every T_k below n')
            B = barymat(to_dom(z, (a, b)), x, v)
            rec.close(B @ T, vander((2 * to_dom(z, (a, b)) - a - b) / (b - a), n), max(300 * tol(n), 1e-12 * n * n * sc / (b - a)), lab + 'barycentric interpolation of every T_k below n')
            rec.close(barymat(x, x, v), np.eye(n), 1e-12, lab + 'interpolation matrix at the nodes is the identity')
            # angles belong to the points
            if dom is None:
                rec.close(np.cos(th), x, 1e-14, lab + 'angles')
            x *= 3.0
            w *= 2.0
            v *= 5.0
            x2, w2, v2, _ = chebpts(n, **args)
            rec.close(x2, ref, 4e-15 * sc, lab + 'points asked for again')
            rec.close(w2 @ T, mom * 0.5 * (b - a), tol(n) * (b - a), lab + 'weights asked for again')
    rec.close(quadwts(n) @ vander(nodes(n, 2), n), mom, tol(n), 'quadwts')
    B = barymat(ZS, nodes(n, 2), bary_weights(n))
    rec.close(B @ vander(nodes(n, 2), n), vander(ZS, n), 300 * tol(n), 'bary_weights')


def t_grid0(n, rec):
    from funpy.cheb import chebpts
    for kind in (1, 2):
        rec.step()
        x, w, v, t = chebpts(0, type=kind)
        rec.check(len(x) == len(w) == len(v) == 0, 'empty grid type %d' % kind)


def t_fun(n, rec):
    """Values in, function out, on every domain and by every constructor."""
    from funpy.fun import Fun
    for dom in ((-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25)):
        d = np.array(dom)
        x = to_dom(nodes(n, 2), dom)
        for m in (1, 2, 3):
            for kind in ('dense', 'slow', 'last'):
                c = cheb_coeffs(kind, n, m, 2)
                vals = vander(nodes(n, 2), n) @ c
                s = max(1.0, np.sum(np.abs(c)))
                want = cheb_eval(c, ZS)
                lab = '%s x%d on %s ' % (kind, m, dom)
                makers = dict(
                    coeffs=lambda: Fun(coeffs=c.copy(order='F'), domain=d, simplify=False),
                    from_coeffs=lambda: Fun.from_coeffs(c.flatten(order='F'), m, domain=d),
                    values=lambda: Fun(op=vals.copy(), domain=d, simplify=False),
                    values_simplified=lambda: Fun(op=vals.copy(), domain=d),
                    from_values=lambda: Fun.from_values(np.asfortranarray(vals), m, domain=d))
                if m == 1:
                    makers['values_1d'] = lambda: Fun(op=vals[:, 0].copy(), domain=d, simplify=False)
                for name, mk in makers.items():
                    ok, f = rec.attempt(lab + name, mk)
                    if not ok:
                        continue
                    rec.state('fun', n, m, kind, dom, name)
                    loose = max(1e-12, tol(n) * 3) if name == 'values_simplified' else tol(n) * 3
                    rec.close(f(to_dom(ZS, dom)), want, loose * s, lab + name + ' evaluated')
                    if name != 'values_simplified':
                        rec.check(f.n == n and f.m == m, lab + name + ' size', got=[f.n, f.m])
                        rec.close(f.x, x, 1e-14 * max(abs(d)), lab + name + ' sample points')
                        rec.close(f.values, vals, tol(n) * 3 * s, lab + name + ' samples')
                        rec.close(f.coeffs, c, tol(n) * 3 * s, lab + name + ' coefficients')
                        inside = f.x[(f.x >= d[0]) & (f.x <= d[1])]
                        if inside.size == n:
                            rec.close(np.reshape(f(f.x), (n, m)), vals, tol(n) * 3 * s, lab + name + ' at its own points')
