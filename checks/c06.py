"""C06: changing resolution and adaptive construction preserve the function."""
import copy
import itertools
import numpy as np
from mc.ref import cheb_coeffs, trig_coeffs, cheb_eval, trig_eval, trig_modes, to_dom, ZS

ID = 'C06'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of length pairs and of resolution-operation programs up to a depth on the real code against a coefficient/value model, and of callables x domains x kinds x columns x tolerances for adaptive construction'
RULE = ('every (length, target) pair x columns x coefficient shape x kind; every program of resolution operations up to the depth bound; every callable of the palette x domain x kind x columns x tolerance. '
        'Non-trivial: the object was compared with the model at least once')
ASSUMPTIONS = ['a periodic function shortened to an even number of modes is compared on its paired modes only',
               'callables of the palette are resolvable at the stated tolerance or must be reported unresolved',
               'adaptive tolerance: 1e-12 relative for non-periodic, 2e-9 for periodic functions, 200 eps for a custom tolerance']
LIMIT = 120


# ---------------------------------------------------------------- length pairs
def make(t, c, dom=(-1.0, 1.0), **k):
    from funpy.fun import Fun
    if t == 'cheb':
        return Fun(coeffs=c.copy(order='F'), domain=np.array(dom), simplify=False, **k)
    return Fun(coeffs=c.copy(order='F'), type='trig', domain=np.array(dom), simplify=False, **k)


def val(t, c, z=ZS):
    if t == 'cheb':
        return cheb_eval(c, z)
    return trig_eval(c, z, isreal=False)


def shorten(t, c, n):
    """leading coefficients; for the periodic kind a dict of paired modes"""
    if t == 'cheb':
        return c[:n]
    return {k: c[i] for i, k in enumerate(trig_modes(c.shape[0])) if abs(k) < n / 2.0}


def cases(tier):
    B = 26 if tier == 'quick' else 60
    for t in ('cheb', 'trig', 'trigc'):
        for n in range(1, B + 1):
            yield dict(id='len.%s.n%d' % (t, n), what='len', t=t, n=n, B=B)
        for n in range(1, (70 if tier == 'quick' else 200) + 1):
            yield dict(id='simplify.%s.n%d' % (t, n), what='simplify', t=t, n=n)
        for n in ((1, 2, 3, 4, 5, 8, 16, 17, 18) if tier == 'quick' else list(range(1, 21)) + [32, 33]):
            yield dict(id='prog.%s.n%d' % (t, n), what='prog', t=t, n=n, depth=3 if tier == 'quick' else 4)
    for i in range(len(CALLABLES)):
        for d in range(len(DOMS)):
            yield dict(id='adapt.cheb.%s.d%d' % (CALLABLES[i][0], d), what='adapt', t='cheb', i=i, d=d, tier=tier)
    for i in range(len(PERIODIC)):
        for d in range(len(DOMS)):
            yield dict(id='adapt.trig.%s.d%d' % (PERIODIC[i][0], d), what='adapt', t='trig', i=i, d=d, tier=tier)
    for i in range(len(ROUGH)):
        yield dict(id='rough.%s' % ROUGH[i][0], what='rough', i=i)
    K = 70 if tier == 'quick' else 140
    for k in range(0, K):
        yield dict(id='alias.%d' % k, what='alias', k=k)
    for i in range(len(OUTER)):
        yield dict(id='compose.%s' % OUTER[i][0], what='compose', i=i)


def run(case, rec):
    rec.state(case['id'])
    globals()['t_' + case['what']](case, rec)


def t_len(case, rec):
    import funpy.fun as F
    t, n = case['t'], case['n']
    tt = 'cheb' if t == 'cheb' else 'trig'
    for m in (1, 2, 3):
        for kind in ('dense', 'slow', 'last', 'zero'):
            if kind == 'last' and n < 2:
                continue
            c = cheb_coeffs(kind, n, m, 1) if t == 'cheb' else trig_coeffs(kind, n, m, 1, real=(t == 'trig'))
            base = val(tt, c)
            s = max(1.0, np.sum(np.abs(c)))
            tol = 1e-13 * s * 10
            for N in range(1, case['B'] + 1):
                rec.state(t, n, N, m, kind)
                lab = '%s x%d %s to %d modes: ' % (kind, m, n, N)

                def inplace(f): return f.prolong(N)
                def lib(f): return F.prolong(f, N)
                def raw(f): return make(tt, np.asarray(f.prolong_coeffs(N)))
                for name, go in (('prolong', inplace), ('prolong copy', lib), ('prolong_coeffs', raw)):
                    f = make(tt, c)
                    ok, g = rec.attempt(lab + name, go, f)
                    if not ok:
                        continue
                    if name == 'prolong':
                        rec.check(g is f, lab + name + ' works in place')
                    else:
                        rec.close(f(ZS), np.real(base) if f.onefun.istrig and np.all(f.onefun.isReal) else base, tol, lab + name + ' left the original alone')
                        rec.check(f.n == n, lab + name + ' left the length of the original alone')
                    rec.check(g.n == N and g.m == m, lab + name + ' has the requested length', got=[g.n, g.m])
                    if N >= n:
                        v = g(ZS)
                        rec.close(v, base if np.iscomplexobj(v) else np.real(base), tol, lab + name + ' keeps the values')
                    elif tt == 'cheb':
                        rec.close(g.coeffs, c[:N], 0, lab + name + ' keeps the leading coefficients')
                        rec.close(g(ZS), val(tt, c[:N]), tol, lab + name + ' is the truncated series')
                    else:
                        want = shorten(tt, c, N)
                        have = shorten(tt, np.asarray(g.coeffs), N)
                        rec.check(set(want) == set(have), lab + name + ' modes')
                        for k in want:
                            if k in have:
                                rec.close(have[k], want[k], 1e-15 * s, lab + name + ' keeps mode %d' % k)
                        if N % 2 == 1:
                            cc = np.array([want[k] for k in sorted(want)])
                            v = g(ZS)
                            w = val(tt, cc)
                            rec.close(v, w if np.iscomplexobj(v) else np.real(w), tol, lab + name + ' is the truncated series')
                    if tt == 'trig':
                        x = -1 + 2.0 * np.arange(g.n) / g.n
                        rec.close(g.values, val(tt, np.asarray(g.coeffs), x), tol, lab + name + ' stored samples match')


def decays(t, n, m):
    k = np.arange(n)[:, None] if t == 'cheb' else np.abs(trig_modes(n))[:, None]
    for q in (0.9, 0.5, 0.1, 0.01):
        yield 'q%s' % q, q**k.astype(float)
    w = np.zeros((n, 1))
    w[np.ravel(k) <= max(1, n // 3)] = 1.0
    yield 'cut', w
    for j in sorted(set((0, 1, 2, 3, int(np.max(k)) // 2, int(np.max(k))))):
        if j <= np.max(k):
            w = np.zeros((n, 1))
            w[np.ravel(k) == j] = 1.0
            yield 'mode%d' % j, w


def t_simplify(case, rec):
    t, n = case['t'], case['n']
    tt = 'cheb' if t == 'cheb' else 'trig'
    for m in (1, 2):
        for dn, w in decays(tt, n, m):
            c0 = cheb_coeffs('slow', n, m, 2) if t == 'cheb' else trig_coeffs('slow', n, m, 2, real=(t == 'trig'))
            c0 = np.where(np.abs(c0) < 0.1, 0.1, c0) if t == 'cheb' else c0
            for sc in (1.0, 1e-6, 1e8):
                for colscale in ((1.0,) if m == 1 else (1.0, 1e-4)):
                    c = c0 * w * sc
                    c[:, 1:] = c[:, 1:] * colscale
                    if m == 2 and dn.startswith('mode'):
                        c[:, 1:] = 0         # second column decides differently
                        c[0 if tt == 'cheb' else n // 2, 1:] = sc
                    c = np.asfortranarray(c)
                    base = val(tt, c)
                    for eps in (None, 1e-6):
                        lab = '%s x%d scale %g,%g eps %s ' % (dn, m, sc, colscale, eps)
                        rec.state(t, n, m, dn, sc, colscale, eps)
                        f = make(tt, c)
                        ok, g = rec.attempt(lab, (lambda: f.simplify()) if eps is None else (lambda: f.simplify(eps=eps)))
                        if not ok:
                            continue
                        tol = 1e-13 if eps is None and tt == 'cheb' else 2e-9 if eps is None else 2e-4
                        v = g(ZS).reshape(len(ZS), -1)
                        if not rec.check(v.shape == base.shape, lab + 'columns kept'):
                            continue
                        rec.check(g.n <= max(n, 1) + (1 if tt == 'trig' else 0), lab + 'does not lengthen', got=g.n)
                        for j in range(m):
                            cs = max(np.sum(np.abs(c[:, j])), 1e-300)
                            rec.close(v[:, j], base[:, j] if np.iscomplexobj(v) else np.real(base[:, j]), tol * cs, lab + 'column %d' % j)


def t_prog(case, rec):
    """Programs of resolution operations against the value model."""
    import funpy.fun as F
    t, n = case['t'], case['n']
    tt = 'cheb' if t == 'cheb' else 'trig'

    def trunc(c, N):
        if tt == 'cheb':
            out = np.zeros((N, c.shape[1]))
            k = min(N, c.shape[0])
            out[:k] = c[:k]
            return out
        # symmetric odd representation of the function
        return c

    ops = {
        '+1': lambda f: f.prolong(f.n + 1),
        '+2': lambda f: f.prolong(f.n + 2),
        'x2': lambda f: f.prolong(2 * f.n),
        'to17': lambda f: f.prolong(max(17, f.n)),
        'same': lambda f: f.prolong(f.n),
        'simplify': lambda f: f.simplify(),
        'copy+3': lambda f: F.prolong(f, f.n + 3),
        'raw': lambda f: F.Fun.from_coeffs(np.asarray(f.prolong_coeffs(f.n + 4)).flatten(order='F'), f.m, type=f.type, domain=f.domain),
        'copy': lambda f: np.copy(f),
        'deepcopy': lambda f: copy.deepcopy(f),
        '+0': lambda f: f + 0,
        'grow and back': lambda f: f.prolong(f.n + 5).prolong(f.n - 5) if tt == 'cheb' else f.prolong(f.n + 6).simplify(),
    }
    for m, kind in ((1, 'dense'), (2, 'dense'), (2, 'zerocol')):
        c = cheb_coeffs(kind, n, m, 3) if t == 'cheb' else trig_coeffs(kind, n, m, 3, real=(t == 'trig'))
        base = val(tt, c, ZS)
        s = max(1.0, np.sum(np.abs(c)))
        dom = (-1.0, 3.0)
        for prog in itertools.product(ops, repeat=case['depth']):
            if m > 1 and len(set(prog)) < 2:
                continue
            f = make(tt, c, dom)
            lab = '%s x%d: ' % (kind, m) + '; '.join(prog)
            ok = True
            for i, o in enumerate(prog):
                ok, f = rec.attempt(lab, ops[o], f)
                if not ok:
                    break
                rec.state(t, n, m, kind, prog[:i + 1])
            if not ok:
                continue
            v = f(to_dom(ZS, dom)).reshape(len(ZS), -1)
            if rec.check(v.shape == base.shape, lab + ' columns'):
                rec.close(v, base if np.iscomplexobj(v) else np.real(base), 1e-9 * s if tt == 'trig' else 1e-12 * s, lab)


# ---------------------------------------------------------------- adaptive construction
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25), (10.0, 10.5), (-20.0, 40.0)]
# in terms of z in [-1, 1]
CALLABLES = [
    ('one', lambda z: 1.0 + 0 * z), ('zero', lambda z: 0 * z), ('lin', lambda z: 2 * z - 0.5), ('cubic', lambda z: z**3 - z),
    ('exp', lambda z: np.exp(z)), ('sin20', lambda z: np.sin(20 * z)), ('cos60', lambda z: np.cos(60 * z + 0.3)),
    ('runge', lambda z: 1 / (1 + 25 * z**2)), ('tanh', lambda z: np.tanh(20 * z)), ('big', lambda z: 1e8 * np.exp(z)),
    ('tiny', lambda z: 1e-8 * np.sin(3 * z)), ('offset', lambda z: 1e4 + np.sin(5 * z)), ('peak', lambda z: np.exp(-200 * (z - 0.2)**2)),
    ('T16', lambda z: np.cos(16 * np.arccos(np.clip(z, -1, 1)))), ('T32', lambda z: np.cos(32 * np.arccos(np.clip(z, -1, 1)))),
    ('T15+T17', lambda z: np.cos(15 * np.arccos(np.clip(z, -1, 1))) + np.cos(17 * np.arccos(np.clip(z, -1, 1)))),
    ('even', lambda z: np.cosh(3 * z)), ('odd', lambda z: np.sinh(3 * z)), ('x20', lambda z: z**20), ('airy', lambda z: np.exp(z) * np.sin(40 * z**2)),
    ('1/(z-1.1)', lambda z: 1 / (z - 1.1)), ('sqrt', lambda z: np.sqrt(z + 1.3)),
]
PERIODIC = [
    ('one', lambda z: 1.0 + 0 * z), ('zero', lambda z: 0 * z), ('sin', lambda z: np.sin(np.pi * z)), ('cos5', lambda z: np.cos(5 * np.pi * z) + 0.25),
    ('expsin', lambda z: np.exp(np.sin(np.pi * z))), ('expcos3', lambda z: np.exp(np.cos(3 * np.pi * z))), ('recip', lambda z: 1 / (2 + np.cos(np.pi * z))),
    ('sharp', lambda z: 1 / (1.1 + np.sin(np.pi * z))), ('cos8', lambda z: np.cos(8 * np.pi * z)), ('sin8', lambda z: np.sin(8 * np.pi * z)),
    ('cos16', lambda z: 1 + np.cos(16 * np.pi * z)), ('sin31', lambda z: np.sin(31 * np.pi * z) + np.cos(np.pi * z)),
    ('e+', lambda z: np.exp(1j * np.pi * z)), ('e-12', lambda z: np.exp(-12j * np.pi * z)), ('e+21', lambda z: np.exp(21j * np.pi * z)),
    ('cplx', lambda z: np.exp(np.exp(1j * np.pi * z))), ('icos', lambda z: 1j * np.cos(2 * np.pi * z)), ('big', lambda z: 1e6 * np.exp(np.sin(np.pi * z))),
    ('offset', lambda z: 100 + np.sin(np.pi * z)), ('tiny', lambda z: 1e-7 * np.sin(np.pi * z)),
    ('bump', lambda z: np.exp(-40 * np.sin(np.pi * (z - 0.2) / 2)**2)),
]
ROUGH = [('abs', lambda x: np.abs(x - 0.1)), ('sign', lambda x: np.sign(x - 0.1)), ('x^1.5', lambda x: np.abs(x - 0.1)**1.5),
         ('step', lambda x: np.where(x > 0.3, 1.0, 0.0)), ('sin1e5', lambda x: np.sin(1e5 * x)), ('saw', lambda x: np.mod(5 * x, 1.0))]
OUTER = [('sin', np.sin), ('cos', np.cos), ('exp', np.exp), ('tanh', np.tanh), ('log', lambda v: np.log(v * v + 1.5)), ('sqrt', lambda v: np.sqrt(v * v + 0.5)),
         ('arctan', np.arctan), ('square', np.square), ('poly', lambda v: v**3 - v), ('sinh', np.sinh)]


def grid():
    return np.concatenate((ZS, np.linspace(-1, 1, 203)))


def t_adapt(case, rec):
    from funpy.fun import Fun
    trig = case['t'] == 'trig'
    name, fz = (PERIODIC if trig else CALLABLES)[case['i']]
    dom = DOMS[case['d']]
    a, b = dom

    def op(x): return fz((2 * np.asarray(x, float) - a - b) / (b - a))
    def op2(x): return np.cos(0 * np.asarray(x, float)) * 0.5
    z = grid()
    want = fz((2 * to_dom(z, dom) - a - b) / (b - a))
    scale = max(np.max(np.abs(want)), 1e-300)
    hs = max(1.0, abs(a), abs(b)) / (b - a)
    variants = [dict(), dict(eps=1e-6), dict(minSamples=40), dict(resample='resample')]
    if not trig:
        variants += [dict(eps=1e-10), dict(simplify=False), dict(maxLength=9000)]
    if case['tier'] != 'quick':
        variants += [dict(minSamples=s) for s in (2, 9, 17, 18, 33, 64, 65, 100)] + [dict(eps=e) for e in (1e-3, 1e-8, 1e-12)]
    for kw in variants:
        for m in (1, 2, 3):
            ops = [op] if m == 1 else [op, op2] if m == 2 else [op2, op, op]
            w = np.stack([want if o is op else 0.5 + 0 * np.real(want) for o in ops], axis=1)
            forms = [('list', ops)]
            if m == 1:
                forms.append(('callable', op))
            else:
                forms.append(('matrix callable', lambda x: np.stack([np.asarray(o(x)) for o in ops], axis=-1)))
            for form, o in forms:
                if trig and form == 'matrix callable' and case['tier'] == 'quick' and kw:
                    continue
                lab = '%s as %s x%d with %s' % (name, form, m, kw)
                rec.state(case['t'], name, dom, m, form, str(kw))
                k = dict(kw)
                if trig:
                    k['type'] = 'trig'
                ok, f = rec.attempt(lab, lambda: Fun(op=o, domain=np.array(dom), **k))
                if not ok:
                    continue
                if not f.ishappy:
                    rec.check(False, lab + ' reported unresolved')
                    continue
                eps = kw.get('eps', 1e-10 if trig else 1e-16)
                v = f(to_dom(z, dom)).reshape(len(z), -1)
                if not rec.check(v.shape == w.shape, lab + ' columns'):
                    continue
                for j in range(m):
                    s = scale if ops[j] is op else 0.5
                    tol = (max(200 * eps, 2e-9) if trig else max(200 * eps, 1e-12) + 1e-15 * hs * 100) * s
                    rec.close(v[:, j], w[:, j], tol, lab + ' column %d' % j)


def t_rough(case, rec):
    from funpy.fun import Fun
    name, op = ROUGH[case['i']]
    for kw in (dict(), dict(maxLength=129), dict(eps=1e-6), dict(type='trig')):
        for m in (1, 2):
            lab = '%s x%d with %s' % (name, m, kw)
            rec.state(name, m, str(kw))
            o = op if m == 1 else [lambda x: np.cos(np.pi * x), op]
            ok, f = rec.attempt(lab, lambda: Fun(op=o, **kw))
            if not ok:
                continue
            v = f(grid()).reshape(len(grid()), -1)[:, -1]
            err = np.max(np.abs(v - op(grid())))
            rec.check(not f.ishappy or err < max(1e-4, 20 * np.sqrt(kw.get('eps', 0))), lab + ' is inaccurate but reported resolved', err=err)


def t_alias(case, rec):
    """Pure modes of every degree, alone and on top of a smooth function."""
    from funpy.fun import Fun
    k = case['k']
    z = grid()
    T = lambda x: np.cos(k * np.arccos(np.clip(x, -1, 1)))
    for nm, op in (('T', T), ('1+T', lambda x: 1 + T(x)), ('exp+T', lambda x: np.exp(x) + T(x)), ('sin', lambda x: np.sin(k * x)), ('T T', [lambda x: np.exp(x), T])):
        rec.state(k, nm)
        ok, f = rec.attempt(nm, lambda: Fun(op=op))
        if ok:
            w = op(z) if callable(op) else np.stack([o(z) for o in op], 1)
            rec.check(f.ishappy, nm + ' resolved')
            rec.close(f(z), w, 2e-12, nm)
        for lim in (17, 18, 33, 65):       # fewer samples show no decay
            ok, f = rec.attempt(nm, lambda: Fun(op=op, maxLength=lim))
            if ok and f.ishappy:
                w = op(z) if callable(op) else np.stack([o(z) for o in op], 1)
                rec.close(f(z), w, 2e-12, nm + ' reported resolved within %d' % lim)
            if ok:
                rec.check(len(f) <= max(lim, 17), nm + ' within the limit', got=len(f))
    for nm, op in (('cos', lambda x: np.cos(k * np.pi * x)), ('sin', lambda x: np.sin(k * np.pi * x)), ('e+', lambda x: np.exp(1j * k * np.pi * x)),
                   ('e-', lambda x: np.exp(-1j * k * np.pi * x)), ('1+cos', lambda x: 1 + np.cos(k * np.pi * x)),
                   ('mix', lambda x: np.exp(np.cos(np.pi * x)) + np.sin(k * np.pi * x))):
        rec.state(k, 'trig', nm)
        ok, f = rec.attempt('trig ' + nm, lambda: Fun(op=op, type='trig'))
        if ok:
            rec.check(f.ishappy, 'trig ' + nm + ' resolved')
            rec.close(f(z), op(z), 2e-9, 'trig ' + nm)


def t_compose(case, rec):
    import funpy.fun as F
    from funpy.cheb.chebtech import compose
    from funpy.fun import Fun
    name, outer = OUTER[case['i']]
    for dom in DOMS[:3]:
        d = np.array(dom)
        x = to_dom(ZS, dom)
        for n in (1, 2, 5, 17, 30):
            for m in (1, 2):
                for t in ('cheb', 'trig'):
                    c = cheb_coeffs('dense', n, m, 1) if t == 'cheb' else trig_coeffs('dense', n, m, 1)
                    if n == 1 and t == 'trig':
                        continue
                    f = make(t, c, dom)
                    base = val(t, c)
                    base = np.real(base)
                    rec.state(name, dom, n, m, t)
                    want = outer(base)
                    s = max(1.0, np.max(np.abs(want)))
                    tol = (1e-12 if t == 'cheb' else 5e-9) * s * 5
                    lab = '%s of %s n%d x%d on %s ' % (name, t, n, m, dom)
                    routes = {'compose': lambda: F.compose(f, outer)}
                    if isinstance(outer, np.ufunc):
                        routes['ufunc'] = lambda: outer(f)
                    if t == 'cheb':
                        routes['chebtech compose'] = lambda: Fun(onefun=compose(f.onefun, outer), domain=d)
                    for rn, go in routes.items():
                        ok, g = rec.attempt(lab + rn, go)
                        if ok:
                            if not rec.check(bool(g.ishappy), lab + rn + ' resolved'):
                                continue
                            rec.close(g(x), want, tol, lab + rn)
                    g2 = make(t, (cheb_coeffs('pos', n + 2, m, 4) if t == 'cheb' else trig_coeffs('pos', n + 2, m, 4)), dom)
                    v2 = g2(x).reshape(len(ZS), -1)
                    two = lambda u, v: outer(u) * v + u
                    routes = {'compose2': lambda: F.compose(f, two, g2)}
                    if t == 'cheb':
                        routes['chebtech compose2'] = lambda: Fun(onefun=compose(f.onefun, two, g2.onefun), domain=d)
                    for rn, go in routes.items():
                        ok, g = rec.attempt(lab + rn, go)
                        if ok and rec.check(bool(g.ishappy), lab + rn + ' resolved'):
                            w = two(base, v2)
                            rec.close(g(x), w, tol * max(1, np.max(np.abs(w)) / s), lab + rn)
                    rec.close(f(x), base, 1e-12 * max(1, np.sum(np.abs(c))), lab + 'left the operand alone')
