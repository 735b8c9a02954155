"""C09: root finding returns exactly the real roots in the domain."""
import itertools
import numpy as np
from mc.ref import to_dom

ID = 'C09'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all subsets of a palette of root positions (inside, at the ends, outside, complex pairs) x domains x padding x scale x columns, and of every mode count of oscillating functions over the splitting thresholds, on the real code'
RULE = ('every subset of root positions up to the size bound x non-vanishing factor x domain x padding x scale; every degree of Chebyshev polynomials and trigonometric functions up to the bound. '
        'Non-trivial: the list of roots was compared with the exact list')
ASSUMPTIONS = ['functions have simple, separated roots; double roots and the zero function are outside the property',
               'a root at an end of the domain whose conditioning exceeds the end tolerance of 100 eps may be missed',
               'tolerance: 1e-12 plus 2e-14 x max|f| / |f\'(r)| in reference coordinates']
LIMIT = 120
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25), (10.0, 10.5)]
POS = [-1.0, -0.9, -0.45, -0.004849834917525, 0.0, 0.3, 0.71, 1.0, -1.3, 1.2]


def cases(tier):
    S = 4 if tier == 'quick' else 6
    for k in range(0, S + 1):
        for sub in itertools.combinations(range(len(POS)), k):
            yield dict(id='set.' + '_'.join(map(str, sub)), what='set', sub=list(sub), tier=tier)
    N = list(range(1, 131)) + [200, 256, 300, 400, 511, 512, 513, 514, 515, 600, 700]
    for n in N if tier == 'quick' else list(range(1, 560)) + [600, 700, 800, 1000, 1025]:
        yield dict(id='T%d' % n, what='T', n=n)
    for w in (list(range(1, 41)) + [60, 100, 150, 250]) if tier == 'quick' else list(range(1, 120)) + [150, 250, 300]:
        yield dict(id='sin%d' % w, what='sin', w=w)
    yield dict(id='none', what='none')
    for m in (2, 3, 4):
        yield dict(id='columns%d' % m, what='columns', m=m)
    for n in (2, 3, 4, 6, 10, 20, 49, 50, 51, 60):
        yield dict(id='hist.n%d' % n, what='hist', n=n)


def run(case, rec):
    rec.state(case['id'])
    globals()['t_' + case['what']](case, rec)


def coeffs(fz, deg):
    """Chebyshev coefficients of a polynomial of the given degree from its values"""
    n = max(deg, 1)
    th = np.pi * np.arange(n + 1) / n
    v = fz(np.cos(th))
    k = np.arange(n + 1)
    C = np.cos(np.outer(k, th))
    w = np.ones(n + 1)
    w[0] = w[-1] = 0.5
    c = (C * w) @ v * 2 / n
    c[0] *= 0.5
    c[-1] *= 0.5
    return c[:deg + 1]


def fun(c, dom, pad=0):
    from funpy.fun import Fun
    c = np.asarray(c, float)
    if c.ndim == 1:
        c = c[:, None]
    c = np.vstack((c, np.zeros((pad, c.shape[1]))))
    return Fun(coeffs=np.asfortranarray(c), domain=np.array(dom), simplify=False)


def compare(rec, got, want, tol, dom, lab, soft=False):
    """want, tol in reference coordinates"""
    h = 0.5 * (dom[1] - dom[0])
    mv = 4e-16 * max(abs(dom[0]), abs(dom[1])) / h
    got = np.asarray(got)
    if got.dtype == object:
        got = np.asarray(got[0] if got.size == 1 else got)
    if not rec.check(not np.iscomplexobj(got) or np.all(np.imag(got) == 0), lab + ' roots are real'):
        return
    z = np.sort((2 * np.real(np.ravel(got)).astype(float) - dom[0] - dom[1]) / (dom[1] - dom[0]))
    o = np.argsort(want)
    want, tol = np.asarray(want)[o], np.asarray(tol)[o] + mv
    if soft:
        # an end of the domain may lie on either side of a root that is only known up to rounding
        keep = np.ones(len(want), bool)
        for j in range(len(want)):
            if abs(want[j]) == 1 and not np.any(np.abs(z - want[j]) <= tol[j]):
                keep[j] = False
        want, tol = want[keep], tol[keep]
    if rec.check(len(z) == len(want), lab + ' number of roots', got=list(z[:8]), want=list(want[:8]), n=[len(z), len(want)]):
        if len(z):
            rec.check(np.all(np.abs(z - want) <= tol), lab + ' positions', err=float(np.max(np.abs(z - want) / tol)), got=list(z[:8]), want=list(want[:8]))
    rec.check(len(z) == 0 or (z[0] >= -1 - 1e-14 - mv and z[-1] <= 1 + 1e-14 + mv), lab + ' roots inside the domain', got=list(z[:3]) + list(z[-3:]))


def routes(f):
    from funpy.fun import roots
    return (('roots', lambda: roots(f)),)


FACTORS = [('1', lambda z: 1 + 0 * z, 0), ('z^2+0.3', lambda z: z**2 + 0.3, 2), ('exp', lambda z: np.exp(z / 2), 18), ('(z-0.5)^2+0.01', lambda z: (z - 0.5)**2 + 0.01, 2)]


def t_set(case, rec):
    rs = [POS[i] for i in case['sub']]
    for fn, fac, deg in FACTORS:
        def fz(z):
            v = fac(z)
            for r in rs:
                v = v * (z - r)
            return v
        zz = np.linspace(-1, 1, 401)
        mx = np.max(np.abs(fz(zz)))
        want = [r for r in rs if abs(r) <= 1]
        tol = []
        for r in want:
            d = fac(np.array(r))
            for q in rs:
                if q != r:
                    d = d * (r - q)
            tol.append(1e-12 + 2e-14 * mx / abs(d))
        c = coeffs(fz, len(rs) + deg)
        for dom in DOMS:
            for pad in (0, 1, 7) if dom == DOMS[0] else (0,):
                for sc in (1.0, -1e-6, 1e7) if dom == DOMS[0] else (1.0,):
                    f = fun(c * sc, dom, pad)
                    lab = 'factor %s pad %d scale %g on [%g, %g]' % (fn, pad, sc, dom[0], dom[1])
                    rec.state(case['id'], lab)
                    for rn, go in routes(f):
                        ok, r = rec.attempt(lab + ' ' + rn, go)
                        if ok:
                            compare(rec, r, want, tol, dom, lab + ' ' + rn, soft=fn != '1' or len(rs) > 2)
                    rec.check(f.n == len(c) + pad and np.array_equal(f.coeffs[:len(c), 0], c * sc), lab + ' function left alone')


def t_T(case, rec):
    n = case['n']
    c = np.zeros(n + 1)
    c[n] = 1
    want = np.cos(np.pi * (np.arange(n) + 0.5) / n)
    # |T'(r)| = n / sqrt(1 - r^2)
    tol = 1e-12 + 2e-14 * np.sqrt(1 - want**2) / n * 50
    for dom in DOMS:
        for pad in (0, 5):
            f = fun(c, dom, pad)
            rec.state(n, dom, pad)
            ok, r = rec.attempt('T%d' % n, lambda: routes(f)[0][1]())
            if ok:
                compare(rec, r, want, tol, dom, 'T%d pad %d on [%g, %g]' % (n, pad, dom[0], dom[1]))
    if n > 2:
        # T_n + 1.5 has no real roots, T_n - T_(n-2) vanishes at the ends as well
        c[0] = 1.5
        f = fun(c, DOMS[1])
        ok, r = rec.attempt('T%d+1.5' % n, lambda: routes(f)[0][1]())
        if ok:
            compare(rec, r, [], [], DOMS[1], 'T%d+1.5' % n)
        c[0] = 0
        c[n - 2] = -1.0 if n > 2 else 0
        f = fun(c, DOMS[0])
        k = np.arange(0, n)
        want = np.cos(np.pi * k / (n - 1))
        ok, r = rec.attempt('T%d-T%d' % (n, n - 2), lambda: routes(f)[0][1]())
        if ok:
            # T_n - T_(n-2) = -2 sin((n-1) t) sin(t)
            tol = 1e-12 + 2e-13 / n + 0 * want
            compare(rec, r, want, tol, DOMS[0], 'T%d-T%d' % (n, n - 2))


def t_sin(case, rec):
    from funpy.fun import Fun
    w = case['w']
    for ph in (0.3, 1.1):
        for dom in DOMS:
            a, b = dom

            def op(x): return np.sin(w * (2 * x - a - b) / (b - a) + ph)
            k = np.arange(-int(w) - 3, int(w) + 3)
            z = (k * np.pi - ph) / w
            z = z[np.abs(z) <= 1]
            ok, f = rec.attempt('construct', lambda: Fun(op=op, domain=np.array(dom)))
            if not ok or not rec.check(f.ishappy, 'resolved'):
                continue
            rec.state(w, ph, dom)
            ok, r = rec.attempt('sin%d' % w, lambda: routes(f)[0][1]())
            if ok:
                tol = 1e-12 + 1e-13 / w + 1e-14 * max(1, abs(a), abs(b)) / (b - a) * 10 + 0 * z
                compare(rec, r, z, tol, dom, 'sin(%d z + %g) on [%g, %g]' % (w, ph, a, b))


def t_none(case, rec):
    for c in ([1.0], [-2.0], [1.5, 1.0], [1.0, 0.25], [-3.0, 0, 1], [2.0, 0, 0, 1], [5.0, 1, 1, 1, 1], [1e-5], [1e6, 1e5]):
        for dom in DOMS:
            for pad in (0, 1, 4):
                f = fun(c, dom, pad)
                rec.state(c, dom, pad)
                ok, r = rec.attempt('none', lambda: routes(f)[0][1]())
                if ok:
                    compare(rec, r, [], [], dom, 'no roots %s pad %d on [%g, %g]' % (c, pad, dom[0], dom[1]))


COLS = [([-0.5, 0.25], 2), ([], 0), ([0.9], 1), ([-1.0, 0.1, 1.0], 3), ([0.33, 0.66, -0.2, -0.7], 4), ([0.5, 1.4], 2)]


def t_columns(case, rec):
    from funpy.fun import roots
    m = case['m']
    for pick in itertools.permutations(range(len(COLS)), m):
        for dom in DOMS[:3]:
            N = 8
            c = np.zeros((N, m))
            wants = []
            for j, i in enumerate(pick):
                rs, deg = COLS[i]

                def fz(z):
                    v = 1.7 + 0 * z
                    for r in rs:
                        v = v * (z - r)
                    return v
                c[:deg + 1, j] = coeffs(fz, deg) if deg else [1.7]
                wants.append([r for r in rs if abs(r) <= 1])
            f = fun(c, dom)
            rec.state(pick, dom)
            ok, r = rec.attempt('columns %s' % (pick,), lambda: roots(f))
            if ok and rec.check(len(r) == m, 'one list per column', got=len(r)):
                for j in range(m):
                    compare(rec, r[j], wants[j], [1e-11] * len(wants[j]), dom, 'columns %s on [%g, %g] column %d' % (pick, dom[0], dom[1], j))
                    ok, s = rec.attempt('single', lambda: roots(f[j]))
                    if ok:
                        compare(rec, s, wants[j], [1e-11] * len(wants[j]), dom, 'column %d selected from %s' % (j, pick))


def t_hist(case, rec):
    """Roots after arithmetic and calculus: the roots of the result, not of the operand."""
    from funpy.fun import roots
    n = case['n']
    w = 0.5 + 0.5 * n
    from funpy.fun import Fun
    for dom in DOMS[:3]:
        a, b = dom
        h = 0.5 * (b - a)
        ref = lambda x: (2 * x - a - b) / (b - a)
        f = Fun(op=lambda x: np.sin(w * ref(x) + 0.3), domain=np.array(dom))
        k = np.arange(-int(w) - 3, int(w) + 3)
        zs = lambda ph: [z for z in (k * np.pi - ph) / w if abs(z) <= 1]
        hist = {'f': (lambda: f, zs(0.3)), '-f': (lambda: -f, zs(0.3)), "f'": (lambda: np.diff(f), zs(0.3 + np.pi / 2)), "f''": (lambda: np.diff(f, n=2), zs(0.3)),
                '2f': (lambda: 2 * f, zs(0.3)), 'f+1.5': (lambda: f + 1.5, []), 'f*f+1': (lambda: f * f + 1, []), 'f*1e-8': (lambda: f * 1e-8, zs(0.3)),
                'f padded': (lambda: np.copy(f).prolong(f.n + 20), zs(0.3))}
        for nm, (go, want) in hist.items():
            ok, g = rec.attempt(nm, go)
            rec.state(n, dom, nm)
            if ok:
                ok, r = rec.attempt(nm + ' roots', lambda: roots(g))
                if ok:
                    compare(rec, r, want, [1e-10 * max(1, w)] * len(want), dom, '%s on [%g, %g]' % (nm, a, b))
