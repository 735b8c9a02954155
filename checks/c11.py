"""C11: domains map faithfully and mismatched domains are refused."""
import itertools
import operator
import numpy as np
from mc.ref import cheb_coeffs, trig_coeffs, cheb_eval, trig_eval

ID = 'C11'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of domain pairs x kinds x columns x combining operations x operand orders on the real code, against exact coordinate maps; every pair of different domains has to be refused in both orders'
RULE = ('every interval with ends in a fixed list (map, sampling, evaluation, integral), every ordered pair of intervals x kind of function x combining operation '
        '(refusal), every function-valued operation x interval (domain kept). Non-trivial: an interval other than [-1, 1]')
ASSUMPTIONS = ['intervals with ends of magnitude 1e-3..1e6', 'domains that agree to 1e-8 may be combined']
LIMIT = 120
ENDS = [-1e6, -100.0, -7.5, -np.pi, -1.0, -0.3, -0.1, 0.0, 1e-3, 0.1, 1.0 / 3, 0.7, 1.0, np.e, 10.0, 10.5, 1000.1, 1e6]
PAIRDOMS = [(-1.0, 1.0), (0.0, 1.0), (0.0, 3.0), (-3.0, 0.0), (1.0, 3.0), (-1.0, 3.0), (-2.0, 1.0), (-7.5, -2.25), (10.0, 10.5), (-0.5, 0.5), (0.1, 0.7)]
OPS2 = {'add': operator.add, 'sub': operator.sub, 'mul': operator.mul, 'div': operator.truediv,
        'np.add': np.add, 'np.subtract': np.subtract, 'np.multiply': np.multiply, 'np.divide': np.divide}


def cases(tier):
    E = ENDS if tier == 'quick' else sorted(ENDS + [-12345.678, -33.3, -2.7, -1e-3, 0.2, 0.9, 3.3, 17.77, 99999.9, 123.456])
    for i, a in enumerate(E):
        yield dict(id='map.%d' % i, what='map', a=a, ends=[b for b in E if b > a])
    D = PAIRDOMS if tier == 'quick' else PAIRDOMS + [(-1.0, 0.0), (-1.0, 1.5), (-1.5, 1.0), (5.0, 7.0), (-100.0, 100.0), (0.3, 0.30001)]
    for i in range(len(D)):
        yield dict(id='pair.%d' % i, what='pair', i=i, doms=D)


def run(case, rec):
    rec.state(case['id'])
    globals()['t_' + case['what']](case, rec)


def fun(t, c, dom):
    from funpy.fun import Fun
    k = dict(type='trig') if t == 'trig' else {}
    return Fun(coeffs=np.array(c, order='F'), domain=dom, simplify=False, **k)


def t_map(case, rec):
    from funpy.fun import Fun
    from funpy.mapping import Mapping
    a = case['a']
    Z = np.concatenate((np.linspace(-1, 1, 41), np.cos(np.pi * np.arange(33) / 32), [-1 + 1e-15, 1 - 1e-15]))
    for b in case['ends']:
        h, s = b - a, max(abs(a), abs(b))
        eps = 4e-16 * (s + h)
        for kind, dom in (('array', np.array([a, b])), ('list', [a, b])):
            lab = '[%g, %g] (%s) ' % (a, b, kind)
            rec.state(lab)
            m = Mapping(ends=dom)
            x = m.fwd(Z)
            rec.close(x, a + (Z + 1) * h / 2, 4 * eps, lab + 'forward map')
            rec.check(np.all(x >= a - eps) and np.all(x <= b + eps), lab + 'forward map stays inside')
            rec.close(np.ravel(m.fwd(np.array([-1.0, 1.0]))), [a, b], 0, lab + 'ends map to ends')
            X = np.clip(a + np.linspace(0, 1, 47) * h, a, b)
            rec.close(m.bwd(X), 2 * (X - a) / h - 1, 10 * eps / h, lab + 'backward map')
            rec.close(m.bwd(m.fwd(Z)), Z, 10 * eps / h, lab + 'backward after forward')
            rec.close(m.fwd(m.bwd(X)), X, 10 * eps, lab + 'forward after backward')
            rec.close(np.ravel(m.der(Z)), np.full(Z.size, h / 2), eps, lab + 'derivative of the map')
            rec.close(m(Z), x, 0, lab + 'calling the map')
            ok, inv = rec.attempt(lab + 'inverse map', lambda: m.inv())
            if ok:
                rec.close(inv.fwd(X), m.bwd(X), 0, lab + 'inverse map goes backward')
                rec.close(inv.bwd(Z), m.fwd(Z), 0, lab + 'inverse map goes forward')
                rec.close(np.ravel(inv.der(X)), np.full(X.size, 2 / h), 10 * eps / h**2, lab + 'derivative of the inverse map')
            rec.check(bool(m == Mapping(ends=np.array([a, b]))), lab + 'equal maps')
            rec.check(not bool(m == Mapping(ends=np.array([a, b + h]))), lab + 'different maps')
            for t, n, mm in (('cheb', 1, 1), ('cheb', 4, 1), ('cheb', 5, 2), ('trig', 5, 1), ('trig', 4, 2)):
                c = cheb_coeffs('dense', n, mm, 1) if t == 'cheb' else trig_coeffs('dense', n, mm, 1)
                ev = (lambda z: cheb_eval(c, z)) if t == 'cheb' else (lambda z: trig_eval(c, z, isreal=True))
                L = lab + '%s%d x%d ' % (t, n, mm)
                f = fun(t, c, dom)
                tol = 1e-13 * n * (1 + n**2 * s / h * 1e-2)
                rec.close(f.hscale, s, 0, L + 'scale of the domain')
                fx = np.asarray(f.x).ravel()
                rec.check(fx.size == n and np.all(fx >= a) and np.all(fx <= b) and np.all(np.diff(fx) > 0), L + 'sampling points')
                ok, v = rec.attempt(L + 'values at its own points', lambda: f(fx))
                if ok:
                    rec.close(v, f.values, tol, L + 'values at its own points')
                # every point of the interval, the ends included, one by one and together
                ok, v = rec.attempt(L + 'evaluation inside', lambda: f(X))
                if ok:
                    rec.close(np.reshape(v, (X.size, mm)), ev(2 * (X - a) / h - 1), tol, L + 'evaluation inside')
                zs = np.clip(2 * (x - a) / h - 1, -1, 1)
                ok, v = rec.attempt(L + 'evaluation at mapped points', lambda: f(x))
                if ok:
                    rec.close(np.reshape(v, (x.size, mm)), ev(zs), tol, L + 'evaluation at mapped points')
                for q, z in ((a, -1.0), (b, 1.0), (a + h / 2, 0.0), (np.nextafter(b, a), 1.0), (np.nextafter(a, b), -1.0)):
                    ok, v = rec.attempt(L + 'evaluation at one point', lambda: f(q))
                    if ok:
                        rec.close(np.ravel(v), ev(np.array([z])).ravel(), tol, L + 'evaluation at one point')
                for q in (a - 1e-3 * h - 2 * eps, b + 1e-3 * h + 2 * eps, a - 10 * h, b + 10 * h, np.nan):
                    rec.rejects(L + 'evaluation outside', lambda: f(q))
                    rec.rejects(L + 'evaluation partly outside', lambda: f(np.array([a, 0.5 * (a + b), q])))
                I = np.array([sum(2.0 * c[k, j] / (1 - k**2) for k in range(0, n, 2)) for j in range(mm)]) if t == 'cheb' else 2 * np.real(c[n // 2, :])
                rec.close(np.ravel(np.sum(f)), I * h / 2, 1e-14 * n * h, L + 'integral')
            # sampled in the coordinates of the interval
            for t, op in (('cheb', lambda q: (q - a) / h), ('trig', lambda q: np.sin(2 * np.pi * (q - a) / h))):
                L = lab + 'sampled %s ' % t
                seen = []

                def rec_op(q):
                    seen.append(np.array(q))
                    return op(q)
                ok, f = rec.attempt(L, lambda: Fun(op=rec_op, domain=dom, **(dict(type='trig') if t == 'trig' else {})))
                if ok:
                    pts = np.concatenate([np.ravel(q) for q in seen])
                    rec.check(np.all(pts >= a) and np.all(pts <= b), L + 'sampled inside its domain', got=[pts.min() - a, pts.max() - b])
                    rec.close(np.ravel(f(X)), op(X), 1e-12 + 1e-13 * s / h, L + 'value')
                    rec.close(np.ravel(np.sum(f)), [h / 2 if t == 'cheb' else 0], 1e-13 * h + 1e-14 * s, L + 'integral')


def t_pair(case, rec):
    from funpy import fun as F
    D = case['doms']
    d1 = D[case['i']]
    h1 = d1[1] - d1[0]
    mk = {}
    for t in ('cheb', 'trig'):
        for n, m in ((4, 1), (5, 2)):
            c = cheb_coeffs('pos', n, m, 1) if t == 'cheb' else trig_coeffs('pos', n, m, 1)
            mk[t, m] = c
    for t, m in mk:
        for d2 in D:
            for kind in ('array', 'list', 'mixed'):
                a1 = np.array(d1) if kind != 'list' else list(d1)
                a2 = np.array(d2) if kind == 'array' else list(d2)
                f, g = fun(t, mk[t, m], a1), fun(t, mk[t, m][::-1].copy() if t == 'trig' else mk[t, m], a2)
                lab = '%s x%d %s %s %s ' % (t, m, d1, d2, kind)
                rec.state(lab)
                two = [(k, lambda k=k: OPS2[k](f, g)) for k in OPS2]
                two += [('inner', lambda: np.inner(f, g)), ('dot', lambda: np.dot(f, g)),
                        ('innerw', lambda: F.innerw(f, g)), ('hstack', lambda: np.hstack((f, g)))]
                if t == 'trig' and m == 1:
                    two += [('convolve', lambda: np.convolve(f, g)), ('adhesion', lambda: F.adhesion(f, g))]

                def iop(name):
                    q = F.Fun(onefun=f.onefun, domain=f.domain)
                    q = np.copy(q)
                    return getattr(operator, name)(q, g)
                two += [(k, lambda k=k: iop(k)) for k in ('iadd', 'isub', 'imul')]
                three = [('hstack3', lambda: np.hstack((f, f, g))), ('hstack3b', lambda: np.hstack((g, f, f))),
                         ('out', lambda: np.add(f, f, out=(np.copy(g),)))]
                for name, fn in two + three:
                    if t == 'trig' and name in ('innerw', 'hstack', 'hstack3', 'hstack3b') and d1 == d2:
                        continue
                    if d1 != d2:
                        rec.rejects(lab + name, fn)
                    else:
                        ok, r = rec.attempt(lab + name, fn)
                        if ok and isinstance(r, F.Fun):
                            rec.check(np.all(np.asarray(r.domain) == np.array(d1)), lab + name + ' keeps the domain', got=r.domain)
                            rec.check(np.all(np.asarray(r.mapping.ends) == np.array(d1)), lab + name + ' keeps the map')
                rec.check(bool(f == g) is False or d1 == d2, lab + 'functions on different domains are not equal')
        # operations on one function keep the domain and its coordinates
        f = fun(t, mk[t, m], np.array(d1))
        X = np.linspace(d1[0], d1[1], 23)
        v = np.reshape(f(X), (23, m))
        one = dict(neg=(lambda: -f, -v), pos=(lambda: +f, v), abs=(lambda: abs(f), np.abs(v)), real=(lambda: np.real(f), v), imag=(lambda: np.imag(f), 0 * v),
                   conj=(lambda: np.conj(f), v), copy=(lambda: np.copy(f), v), exp=(lambda: np.exp(f), np.exp(v)), sq=(lambda: f**2, v**2),
                   plus=(lambda: f + 1.5, v + 1.5), rplus=(lambda: 1.5 + f, v + 1.5), rdiv=(lambda: 1.0 / f, 1.0 / v), zeros=(lambda: np.zeros_like(f), 0 * v),
                   ones=(lambda: np.ones_like(f), 0 * v + 1), diff=(lambda: np.diff(f), None), diff2=(lambda: np.diff(f, n=2), None),
                   compose=(lambda: F.compose(f, np.cos), np.cos(v)), normalize=(lambda: F.normalize(f), None), prolong=(lambda: F.prolong(f, 21), v),
                   simplify=(lambda: np.copy(f).simplify(), v), item=(lambda: f[0], v[:, :1]), asfun=(lambda: F.asfun(f), v))
        if t == 'cheb':
            one['cumsum'] = (lambda: np.cumsum(f), None)
            one['qr'] = (lambda: F.qr(f)[0], None)
        else:
            one['roll'] = (lambda: np.roll(f, 0.25 * h1), np.reshape(f(d1[0] + np.mod(X - d1[0] - 0.25 * h1, h1)), (23, m)))
        if m == 1:
            one['asfun other'] = (lambda: F.asfun(f, type='cheb'), v)
        for k, (fn, want) in one.items():
            lab = '%s x%d %s %s ' % (t, m, d1, k)
            rec.state(lab)
            if t == 'trig' and k == 'abs':
                continue
            ok, r = rec.attempt(lab, fn)
            if ok and rec.check(isinstance(r, F.Fun), lab + 'gives a function', got=type(r).__name__):
                rec.check(np.all(np.asarray(r.domain) == np.array(d1)), lab + 'keeps the domain', got=str(r.domain))
                rec.check(np.all(np.asarray(r.mapping.ends) == np.array(d1)), lab + 'keeps the map')
                ok, w = rec.attempt(lab + 'evaluation', lambda: r(X))
                if ok and want is not None:
                    rec.close(np.reshape(w, (23, -1)), want, 1e-10 * (1 + np.max(np.abs(want))), lab + 'value')
        for k, fn in dict(zeros=lambda **q: F.zeros(m, **q), ones=lambda **q: F.ones(m, **q), random=lambda **q: F.random(4, m, **q), decay=lambda **q: F.random_decay(4, m, **q),
                          asfun=lambda **q: F.asfun(2.5, **q)).items():
            for q in (np.array(d1), list(d1)):
                lab = '%s x%d %s made by %s ' % (t, m, d1, k)
                ok, r = rec.attempt(lab, lambda: fn(domain=q, **(dict(type='trig') if t == 'trig' else {})))
                if ok:
                    rec.check(np.all(np.asarray(r.domain) == np.array(d1)), lab + 'domain')
                    ok, w = rec.attempt(lab + 'evaluation', lambda: np.reshape(r(X), (23, -1)))
                    if ok and k in ('zeros', 'ones', 'asfun'):
                        rec.close(w, np.full(w.shape, dict(zeros=0, ones=1, asfun=2.5)[k]), 1e-15, lab + 'value')
