"""C08: calculus, shifts and convolutions of periodic functions."""
import itertools
import numpy as np
from mc.ref import trig_coeffs, trig_eval, to_dom, ZS

ID = 'C08'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of unit Fourier vectors of every number of modes up to the bound (linear maps), derivative orders, shifts, domains, columns and pairs of lengths, plus all calculus programs up to a depth, on the real code against the trigonometric polynomial'
RULE = ('every number of modes x unit vector (1 and i) x operation x domain; every pair of lengths for convolutions; every program up to the depth bound. '
        'Non-trivial: result compared with the trigonometric polynomial')
ASSUMPTIONS = ['the unpaired mode of an even number of modes is the cosine', 'averaging kernels are given by their scaled Fourier coefficients, the unpaired mode of the kernel being zero',
               'tolerance 1e-12 relative to the largest possible value']
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25), (-np.pi, np.pi), (-20.0, 40.0)]


def sym(c):
    """coefficients of an odd symmetric range of modes"""
    n = c.shape[0]
    if n % 2:
        return np.array(c, complex)
    return np.vstack((0.5 * c[:1], c[1:], 0.5 * c[:1])).astype(complex)


def modes(s):
    K = s.shape[0] // 2
    return np.arange(-K, K + 1)[:, None]


def grow(s, K):
    d = K - s.shape[0] // 2
    return np.vstack((np.zeros((d, s.shape[1])), s, np.zeros((d, s.shape[1])))) if d > 0 else s


def ev(s, z=ZS):
    return trig_eval(s, z, isreal=False)


def D(s, k, h):
    return s * (1j * np.pi * modes(s) / h)**k


def I(s, h):
    k = modes(s)
    K = s.shape[0] // 2
    out = np.where(k == 0, 0, s / np.where(k == 0, 1, 1j * np.pi * k)) * h
    out[K] = -np.sum(out * (-1.0)**k, axis=0)
    return out


def S(s, a, h):
    return s * np.exp(-1j * np.pi * modes(s) * a / h)


def cases(tier):
    N = 33 if tier == 'quick' else 80
    for n in range(1, N + 1):
        yield dict(id='unit.n%d' % n, what='unit', n=n)
        yield dict(id='dense.n%d' % n, what='dense', n=n)
    C = 14 if tier == 'quick' else 30
    for n in range(1, C + 1):
        yield dict(id='conv.n%d' % n, what='conv', n=n, C=C)
    for n in ((1, 2, 3, 4, 5, 8, 9) if tier == 'quick' else list(range(1, 14))):
        for real in (True, False):
            yield dict(id='prog.n%d.%s' % (n, 'r' if real else 'c'), what='prog', n=n, real=real, depth=3 if tier == 'quick' else 5)


def run(case, rec):
    rec.state(case['id'])
    globals()['t_' + case['what']](case, rec)


def fun(c, dom):
    from funpy.fun import Fun
    return Fun(coeffs=np.array(c, order='F'), type='trig', domain=np.array(dom), simplify=False)


def cmp(rec, g, s, dom, tol, lab, real):
    x = to_dom(ZS, dom)
    v = np.asarray(g(x)).reshape(len(x), -1)
    w = ev(s)
    if not rec.check(v.shape == w.shape, lab + ' columns', got=[v.shape, w.shape]):
        return
    if real:
        rec.check(not np.iscomplexobj(v), lab + ' of a real function is real')
        w = np.real(w)
    rec.close(v, w, tol, lab)
    rec.check(np.all(np.asarray(g.domain) == np.asarray(dom)) and g.istrig, lab + ' keeps domain and kind')


def check_all(rec, c, dom, lab, real):
    n, m = c.shape
    h = 0.5 * (dom[1] - dom[0])
    s = sym(c)
    K = s.shape[0] // 2
    L = max(np.max(np.sum(np.abs(c), axis=0)), 1e-300)
    mv = 1 + max(abs(dom[0]), abs(dom[1])) / h * K
    f = fun(c, dom)
    for k in range(0, 7):
        rec.state(lab, k)
        ok, g = rec.attempt(lab + 'diff %d' % k, lambda: np.diff(f, n=k))
        if ok:
            cmp(rec, g, D(s, k, h), dom, 1e-13 * mv * L * max(1, K)**k * (np.pi / h)**k, lab + 'diff %d' % k, real)
    ok, v = rec.attempt(lab + 'sum', lambda: np.sum(f))
    if ok:
        rec.check(np.size(v) == m, lab + 'one integral per column')
        w = 2 * h * s[K]
        rec.close(np.ravel(v), np.real(w) if real else w, 1e-14 * L * h, lab + 'sum')
    c0 = np.array(c)
    c0[n // 2] = 0
    if n == 2:
        pass
    f0 = fun(c0, dom)
    ok, g = rec.attempt(lab + 'cumsum', lambda: np.cumsum(f0))
    if ok:
        cmp(rec, g, I(sym(c0), h), dom, 1e-13 * mv * L * h, lab + 'cumsum', real)
        rec.close(np.ravel(g(np.array([dom[0]]))), np.zeros(m), 1e-13 * mv * L * h, lab + 'cumsum starts at zero')
        ok, d = rec.attempt(lab + 'diff of cumsum', lambda: np.diff(g))
        if ok:
            cmp(rec, d, sym(c0), dom, 1e-12 * mv * L * max(1, K), lab + 'diff of cumsum', real)
    if np.all(np.abs(c[n // 2]) > 1e-3 * L) :
        rec.rejects(lab + 'cumsum of a function with mean', lambda: np.cumsum(f))
    for a in (0, 0.3, -1.0, 2 * h, h, -0.77 * h):
        ok, g = rec.attempt(lab + 'shift %g' % a, lambda: np.roll(f, a))
        if ok:
            cmp(rec, g, S(s, a, h), dom, 1e-13 * mv * L, lab + 'shift %g' % a, real)
    cmp(rec, f, s, dom, 1e-13 * mv * L, lab + 'function left alone', real)


def t_unit(case, rec):
    n = case['n']
    for j in range(n):
        for u, un in ((1.0, ''), (1j, 'i')):
            c = np.zeros((n, 1), complex)
            c[j] = u
            real = un == '' and (j == n // 2 or (n % 2 == 0 and j == 0))
            for dom in DOMS[:3]:
                check_all(rec, c, dom, '%se%d on [%g, %g] ' % (un, j, dom[0], dom[1]), real)


def t_dense(case, rec):
    n = case['n']
    for m in (1, 2, 3):
        for kind in ('dense', 'slow', 'zero', 'zerocol', 'meanfree'):
            if kind == 'zerocol' and m < 2:
                continue
            for real in (True, False):
                for dom in DOMS:
                    for sc in (1.0, 1e-6, 1e6):
                        if sc != 1 and (m > 2 or dom != DOMS[1]):
                            continue
                        c = trig_coeffs(kind, n, m, 1, real=real) * sc
                        check_all(rec, c, dom, '%s x%d %s scale %g on [%g, %g] ' % (kind, m, 'real' if real else 'complex', sc, dom[0], dom[1]), real or kind == 'zero')


def t_conv(case, rec):
    from funpy.fun import adhesion
    n = case['n']
    for p in range(1, case['C'] + 1):
        for rf, rg in itertools.product((True, False), repeat=2):
            for kind in ('dense', 'slow', 'zero'):
                cf = trig_coeffs(kind, n, 1, 1, real=rf)
                cg = trig_coeffs('slow', p, 1, 4, real=rg)
                sf, sg = sym(cf), sym(cg)
                K = max(sf.shape[0], sg.shape[0]) // 2
                sf, sg = grow(sf, K), grow(sg, K)
                L = np.sum(np.abs(cf)) * np.sum(np.abs(cg))
                for dom in DOMS:
                    h = 0.5 * (dom[1] - dom[0])
                    if dom != DOMS[1] and kind == 'slow':
                        continue
                    mid = 0.5 * (dom[0] + dom[1])
                    f, g = fun(cf, dom), fun(cg, dom)
                    mv = 1 + max(abs(dom[0]), abs(dom[1])) / h * K
                    lab = '%s %d%s * %d%s on [%g, %g] ' % (kind, n, 'r' if rf else 'c', p, 'r' if rg else 'c', dom[0], dom[1])
                    rec.state(lab)
                    # int f(s) g(x - s) ds, in reference coordinates measured from the centre of the domain
                    want = 2 * h * sf * sg
                    if abs(mid) < 1e-14:
                        ok, r = rec.attempt(lab + 'convolve', lambda: np.convolve(f, g))
                        if ok:
                            cmp(rec, r, want, dom, 2e-9 * L * h, lab + 'convolve', rf and rg)
                    if p % 2 == 0:
                        cg2 = cg.copy()
                        cg2[0] = 0
                        g = fun(cg2, dom)
                        want2 = sf * grow(sym(cg2), K)
                    else:
                        want2 = sf * sg
                    ok, r = rec.attempt(lab + 'average', lambda: adhesion(f, g))
                    if ok:
                        cmp(rec, r, want2, dom, 2e-9 * L, lab + 'average', rf and rg)
                    cmp(rec, f, sym(cf), dom, 1e-13 * mv * np.sum(np.abs(cf)) + 1e-300, lab + 'left operand alone', rf)
    # multi-column operands are not supported and must not be combined silently
    f, g = fun(trig_coeffs('dense', n, 2, 1), DOMS[0]), fun(trig_coeffs('dense', n, 1, 1), DOMS[0])
    f3 = fun(trig_coeffs('dense', n, 1, 1), DOMS[1])
    rec.rejects('convolve two columns', lambda: np.convolve(f, g))
    rec.rejects('convolve on different domains', lambda: np.convolve(g, f3))


def t_prog(case, rec):
    n, real = case['n'], case['real']
    for dom in DOMS[:3]:
        h = 0.5 * (dom[1] - dom[0])
        mean = lambda f: f - np.sum(f) / (2 * h)

        def smean(s):
            s = s.copy()
            s[s.shape[0] // 2] = 0
            return s

        def add1(s):
            s = s.copy()
            s[s.shape[0] // 2] += 1
            return s
        ops = {
            'D': (lambda f: np.diff(f), lambda s: D(s, 1, h)),
            'D2': (lambda f: np.diff(f, n=2), lambda s: D(s, 2, h)),
            'D3': (lambda f: np.diff(f, n=3), lambda s: D(s, 3, h)),
            'I': (lambda f: np.cumsum(mean(f)), lambda s: I(smean(s), h)),
            'shift': (lambda f: np.roll(f, 0.4), lambda s: S(s, 0.4, h)),
            'back': (lambda f: np.roll(f, -0.4), lambda s: S(s, -0.4, h)),
            '-2*': (lambda f: -2 * f, lambda s: -2 * s),
            '+1': (lambda f: f + 1, add1),
            'pad': (lambda f: f.prolong(f.n + 3), lambda s: s),
            'simplify': (lambda f: f.simplify(), lambda s: s),
        }
        for m in (1, 2):
            c = trig_coeffs('dense', n, m, 3, real=real)
            for prog in itertools.product(ops, repeat=case['depth']):
                lab = 'x%d on [%g, %g] ' % (m, dom[0], dom[1]) + '; '.join(prog)
                f, s = fun(c, dom), sym(c)
                K = s.shape[0] // 2
                big = max(1.0, np.sum(np.abs(c)))
                ok = True
                for i, o in enumerate(prog):
                    rec.state(n, real, m, dom, prog[:i + 1])
                    if o == 'I' and np.max(np.abs(smean(s))) < 1e-6 * big:
                        ok = False      # nothing but rounding left to integrate
                        break
                    ok, f = rec.attempt(lab, ops[o][0], f)
                    if not ok:
                        break
                    s = ops[o][1](s)
                    big *= {'D': max(1, K * np.pi / h), 'D2': max(1, (K * np.pi / h)**2), 'D3': max(1, (K * np.pi / h)**3), 'I': max(1, h), '-2*': 2, '+1': 2}.get(o, 1)
                if ok:
                    cmp(rec, f, s, dom, 2e-9 * big if 'simplify' in prog else 1e-11 * big, lab, real)
