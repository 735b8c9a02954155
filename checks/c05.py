"""C05: Fourier transforms, grids and evaluation."""
import numpy as np
from mc.ref import trig_eval, trig_coeffs, trig_modes, to_dom, ZS

ID = 'C05'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of every mode count up to the bound and every unit vector, real and imaginary (linear maps), on the real code'
RULE = ('every number of modes up to the bound x every unit coefficient/value vector (1 and i) x route (transforms, Horner scalar/vector, real/complex, Fun on a domain, repeated evaluation). '
        'Non-trivial: reference comparisons executed')
ASSUMPTIONS = ['the maps are linear (real-linear for real functions), so unit vectors decide a mode count up to rounding',
               'reference: explicit sum of exp(i k pi x), the unpaired mode of an even count is the cosine']

QN = list(range(1, 120)) + [127, 128, 129, 256, 257]
TN = list(range(1, 400)) + [511, 512, 513, 1023, 1024]
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25)]


def cases(tier):
    for n in (QN if tier == 'quick' else TN):
        yield dict(id='transform.n%d' % n, what='transform', n=n)
        yield dict(id='eval.n%d' % n, what='eval', n=n)
        yield dict(id='fun.n%d' % n, what='fun', n=n)
        if n <= 65:
            yield dict(id='mixed.n%d' % n, what='mixed', n=n)


def tol(n):
    return 1e-13 + 2e-15 * n


def nodes(n):
    return -1.0 + 2.0 * np.arange(n) / n


def basis(z, n):
    """value of every unit coefficient vector"""
    return trig_eval(np.eye(n), z, isreal=False)


def run(case, rec):
    rec.state(case['id'])
    globals()['t_' + case['what']](case['n'], rec)


def layouts(a):
    yield 'F', np.asfortranarray(a)
    yield 'C', np.ascontiguousarray(a)


def t_transform(n, rec):
    from funpy.trig.transform import vals2coeffs, coeffs2vals
    from funpy.trig import trigpts, quadwts
    x, w = trigpts(n)
    rec.close(x, nodes(n), 1e-15, 'points')
    rec.check(len(x) == n == len(w), 'one weight per point')
    V = basis(nodes(n), n)
    k = trig_modes(n)
    mom = np.where(k == 0, 2.0, 0.0)
    inb = np.ones(n, bool)
    rec.close((w @ V)[inb], mom[inb], tol(n), 'quadrature of every mode')
    rec.close(quadwts(n), w, 0, 'quadwts')
    I = np.eye(n)
    for fac, nm in ((1.0, '1'), (1j, 'i'), (1 + 0j, '1+0i')):
        for lay, c in layouts(I * fac):
            rec.step(3)
            rec.state('unit', n, nm, lay)
            v = coeffs2vals(c)
            rec.close(v, V * fac, tol(n), 'values of unit coefficients %s %s' % (nm, lay))
            rec.close(c, I * fac, 0, 'coeffs2vals changed its input')
            rec.close(vals2coeffs(v), I * fac, tol(n), 'back to unit coefficients %s %s' % (nm, lay))
            u = vals2coeffs(c)
            rec.close(c, I * fac, 0, 'vals2coeffs changed its input')
            rec.close(V @ u, I * fac, tol(n), 'interpolant through unit value %s %s' % (nm, lay))
            rec.close(coeffs2vals(u), I * fac, tol(n), 'back to unit values %s %s' % (nm, lay))
    # single columns take other symmetry branches than the whole block
    for j in range(n) if n < 70 else (0, 1, n // 2, n - 1):
        for fac in (1.0, 1j):
            e = np.zeros((n, 1), complex)
            e[j] = fac
            rec.step(2)
            rec.state('column', n, j, fac)
            rec.close(coeffs2vals(e), V[:, [j]] * fac, tol(n), 'values of one unit coefficient')
            rec.close(V @ vals2coeffs(e), e, tol(n), 'interpolant through one unit value')
            p = np.zeros((n, 2), complex)
            p[:, 1:] = e
            p[:, 0] = 1.0 / (1 + np.arange(n))
            rec.close(coeffs2vals(p)[:, 1:], V[:, [j]] * fac, tol(n), 'values of one unit coefficient beside another column')
    for kind in ('dense', 'slow', 'zero', 'const'):
        for real in (True, False):
            for m in (1, 2, 3):
                c = trig_coeffs(kind, n, m, 4, real)
                v = V @ c
                s = max(1, np.sum(np.abs(c)))
                rec.step(2)
                rec.close(coeffs2vals(c), v, tol(n) * s, 'values of %s x%d' % (kind, m))
                rec.close(vals2coeffs(np.real(v) if real else v), c, tol(n) * s, 'coefficients of %s x%d' % (kind, m))


def evaluate_all(f, c, real, lab, rec, t):
    want = trig_eval(c, ZS, real)
    m = c.shape[1]
    for rep in (1, 2):
        rec.step(5)
        v = f(ZS)
        rec.close(v, want, t, lab + ' array (evaluation %d)' % rep)
        if real:
            rec.check(np.isrealobj(v), lab + ' is real-valued (evaluation %d)' % rep)
        for z in (0.3125, -1.0, 1.0, 0.0):
            p = f(z)
            rec.close(np.atleast_1d(p).reshape(-1) if m > 1 else np.atleast_1d(p), trig_eval(c, np.array([z]), real).ravel(), t, lab + ' at a number (evaluation %d)' % rep)
        rec.close(np.atleast_1d(f(np.array([0.25]))).ravel(), trig_eval(c, np.array([0.25]), real).ravel(), t, lab + ' at one point')
        rec.close(f(ZS[:2]), want[:2], t, lab + ' at two points')
        rec.close(f(ZS[::-1]), want[::-1], t, lab + ' at reversed points')
    rec.close(f.coeffs, c, t, lab + ' coefficients after evaluation')


def t_eval(n, rec):
    from funpy.trig.trigtech import trigtech
    for j in range(n) if n < 34 else (0, 1, n // 2, n // 2 + 1, n - 1):
        for fac in (1.0, 1j):
            e = np.zeros((n, 1), complex)
            e[j] = fac
            rec.state('unit', n, j, fac)
            k = trig_modes(n)[j]
            real = fac == 1.0 and (k == 0 or (n % 2 == 0 and j == 0))
            f = trigtech(coeffs=np.asfortranarray(e))
            evaluate_all(f, e, real, 'mode %d of %d times %s' % (k, n, fac), rec, tol(n) * 5)
            # the real function with this mode
            if k != 0 and not (n % 2 == 0 and j == 0):
                e2 = e.copy()
                e2[np.where(trig_modes(n) == -k)[0][0]] += np.conj(fac)
                f = trigtech(coeffs=np.asfortranarray(e2))
                evaluate_all(f, e2, True, 'real mode %d of %d' % (k, n), rec, tol(n) * 5)
    for kind in ('dense', 'slow', 'zero', 'const', 'last'):
        for real in (True, False):
            for m in (1, 2, 3):
                c = trig_coeffs(kind, n, m, 4, real)
                if kind == 'last' and n < 2:
                    continue
                rl = real or kind in ('zero', 'const') or (kind == 'last' and False)
                if kind == 'last':
                    rl = bool(np.max(np.abs(np.imag(trig_eval(c, nodes(n), False)))) < 1e-12)
                if not rl and n == 1:
                    c = c + 0.5j
                f = trigtech(coeffs=c.copy(order='F'))
                rec.state('dense', n, kind, real, m)
                evaluate_all(f, c, rl, '%s x%d real=%s' % (kind, m, real), rec, tol(n) * 5 * max(1, np.sum(np.abs(c))))


def t_mixed(n, rec):
    """real and complex columns side by side"""
    from funpy.trig.trigtech import trigtech
    if n < 2:
        return
    for pat in ('rc', 'cr', 'rcr', 'crr', 'ccr'):
        cols = [trig_coeffs('dense', n, 1, i, p == 'r') for i, p in enumerate(pat)]
        c = np.hstack(cols)
        if n == 2:
            c = c + np.array([[0.0 if p == 'r' else 0.5j for p in pat]])
        f = trigtech(coeffs=np.asfortranarray(c))
        want = np.hstack([trig_eval(x[:, None], ZS, p == 'r').astype(complex) for x, p in zip(c.T, pat)])
        rec.state('mixed', n, pat)
        for rep in (1, 2):
            rec.step()
            rec.close(f(ZS), want, tol(n) * 10, 'columns %s (evaluation %d)' % (pat, rep))
        rec.close(f.values, np.hstack([trig_eval(x[:, None], nodes(n), False) for x in c.T]), tol(n) * 10, 'values of columns ' + pat)


def t_fun(n, rec):
    from funpy.fun import Fun
    for dom in DOMS:
        d = np.array(dom)
        x = to_dom(nodes(n), dom)
        for m in (1, 2, 3):
            for kind in ('dense', 'slow'):
                for real in (True, False):
                    c = trig_coeffs(kind, n, m, 2, real)
                    if n == 1 and not real:
                        c = c + 0.5j
                    vals = trig_eval(c, nodes(n), real)
                    s = max(1.0, np.sum(np.abs(c)))
                    want = trig_eval(c, ZS, real)
                    lab = '%s x%d real=%s on %s ' % (kind, m, real, dom)
                    makers = dict(
                        coeffs=lambda: Fun(coeffs=c.copy(order='F'), domain=d, type='trig', simplify=False),
                        from_coeffs=lambda: Fun.from_coeffs(c.flatten(order='F'), m, type='trig', domain=d),
                        values=lambda: Fun(op=vals.copy(), domain=d, type='trig', simplify=False))
                    makers['from_values'] = lambda: Fun.from_values(vals.copy(order='F'), m, type='trig', domain=d)
                    if m == 1:
                        makers['values_1d'] = lambda: Fun(op=vals[:, 0].copy(), domain=d, type='trig')
                    for name, mk in makers.items():
                        ok, f = rec.attempt(lab + name, mk)
                        if not ok:
                            continue
                        rec.state('fun', n, m, kind, dom, name, real)
                        for rep in (1, 2):
                            rec.close(f(to_dom(ZS, dom)), want, tol(n) * 5 * s, lab + name + ' evaluation %d' % rep)
                        rec.check(f.n == n and f.m == m, lab + name + ' size', got=[f.n, f.m])
                        rec.close(f.x, x, 1e-14 * max(abs(d)), lab + name + ' sample points')
                        rec.close(f.values, vals, tol(n) * 3 * s, lab + name + ' samples')
                        rec.close(f.coeffs, c, tol(n) * 3 * s, lab + name + ' coefficients')
