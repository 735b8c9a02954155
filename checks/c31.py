"""C31: numpy functions applied to functions are applied point by point, wherever the result is put."""
import itertools
import warnings

import numpy as np

ID = 'C31'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of numpy functions x operand kinds (periodic, not periodic, constant, number, array) x columns x domains x destination of the result (new, another function, an operand), and all words of in-place operators and output arguments up to length 3 (4) on one function, in lock-step with values at fixed points'
RULE = ('every numpy function of the list x every combination of operands; every word over the in-place alphabet up to the bound. One state per combination / per word prefix, one transition per call. '
        'Oracle: numpy applied to the values of the operands, which are closed forms')
ASSUMPTIONS = ['values of the operands stay inside of the domain of smoothness of the numpy function', 'both functions live on the same domain', 'sums and products of periodic with non-periodic functions; quotients of them may be refused']
LIMIT = 400

U = 'exp exp2 expm1 log log2 log10 log1p sqrt cbrt square reciprocal sin cos tan arcsin arccos arctan sinh cosh tanh arcsinh arccosh arctanh degrees radians deg2rad rad2deg negative positive absolute fabs sign floor ceil trunc rint'.split()
UC = 'exp square reciprocal sin cos sinh cosh negative positive absolute sqrt tanh'.split()
B = 'add subtract multiply true_divide float_power power hypot arctan2 logaddexp logaddexp2 copysign maximum minimum fmax fmin fmod remainder floor_divide heaviside'.split()
DOMS = [(-1.0, 1.0), (0.0, 2.0), (1.0, 4.0), (-3.0, 0.5)]
Z = np.concatenate((np.linspace(-1, 1, 11), np.cos(0.7 + 1.3 * np.arange(14))))
KS = {'cheb': [0, 0.7, 3, 11, 40], 'trig': [0, 1, 3, 8, 33], 'cplx': [0, 1, -3, 8, -33]}


def fun(kind, k, m, dom, ab, j0=0):
    """ the function a + b p_j and its values at the points """
    from funpy import Fun
    a, b = ab
    mid, half = 0.5 * (dom[0] + dom[1]), 0.5 * (dom[1] - dom[0])

    def col(j):
        ph = 0.4 + j + j0
        if k == 0:
            return lambda z: (a + b * np.cos(ph)) * np.ones_like(z)
        if kind == 'cheb':
            return lambda z: a + b * np.cos((k + 0.3 * j) * z + ph)
        if kind == 'trig':
            return lambda z: a + b * np.cos(np.pi * (k + j) * z + ph)
        return lambda z: a + b * np.exp(1j * (np.pi * (k + j) * z + ph))
    cols = [col(j) for j in range(m)]
    f = Fun(op=[(lambda x, c=c: c((np.asarray(x) - mid) / half)) for c in cols], domain=np.array(dom), type='cheb' if kind == 'cheb' else 'trig')
    return f, np.stack([c(Z) for c in cols], axis=1)


def points(dom):
    return 0.5 * (dom[0] + dom[1]) + 0.5 * (dom[1] - dom[0]) * Z


TOL = [2e-8]


def lacunary(kind, *ks):
    """ functions with gaps between their wave numbers are cut at the tolerance to the power 2/3 """
    TOL[0] = 5e-6 if kind != 'cheb' and max(abs(k) for k in ks) >= 8 else 2e-8


def agree(rec, lab, r, want, dom, m):
    from funpy import Fun
    if not rec.check(isinstance(r, Fun), lab + ' is a function', got=type(r).__name__):
        return False
    if not rec.check(np.all(np.asarray(r.domain) == np.array(dom)), lab + ' domain', got=str(r.domain)):
        return False
    if not rec.check(r.shape[1] == m, lab + ' columns', got=int(r.shape[1]), want=m):
        return False
    got = np.asarray(r(points(dom))).reshape(Z.size, -1)
    return rec.close(got, np.broadcast_to(want, (Z.size, m)), TOL[0] * max(1, float(np.max(np.abs(want)))), lab)


RANGE = {'arccosh': (1.7, 0.25), 'rint': (0.2, 0.15)}


def cases(tier):
    for nm in U:
        for kind in ('cheb', 'trig'):
            yield dict(id='unary.%s.%s' % (nm, kind), what='unary', nm=nm, kind=kind)
    for nm in UC:
        yield dict(id='unary.%s.cplx' % nm, what='unary', nm=nm, kind='cplx')
    for nm in B:
        for kind in ('cheb', 'trig'):
            yield dict(id='binary.%s.%s' % (nm, kind), what='binary', nm=nm, kind=kind)
    for kind in ('cheb', 'trig', 'cplx'):
        for i in range(len(ALPHA)):
            yield dict(id='words.%s.%s' % (kind, ALPHA[i]), what='words', kind=kind, i=i, n=3 if tier == 'quick' else 4)
    for d in range(len(DOMS)):
        yield dict(id='mixed.%d' % d, what='mixed', d=d)
    yield dict(id='refused', what='refused')


def unary(case, rec):
    nm, kind = case['nm'], case['kind']
    u = getattr(np, nm)
    ab = RANGE.get(nm, (0.5, 0.25) if kind != 'cplx' else (0.6, 0.25))
    for dom in DOMS:
        for k in KS[kind]:
            for m in (1, 2, 3):
                rec.state(nm, kind, dom, k, m)
                lacunary(kind, k)
                f, v = fun(kind, k, m, dom, ab)
                want = u(v)
                lab = 'np.%s of %s k%g x%d on %s' % (nm, kind, k, m, dom)
                rec.step(3)
                ok, r = rec.attempt(lab, lambda: u(f))
                if ok:
                    agree(rec, lab, r, want, dom, m)
                    rec.check(r is not f, lab + ' is new')
                agree(rec, lab + ': operand', f, v, dom, m)
                # into another function of other size
                o = fun(kind, KS[kind][(KS[kind].index(k) + 1) % 5], 1 if m > 1 else 2, dom, (3.0, 1.0))[0]
                ok, r = rec.attempt(lab + ' out', lambda: u(f, out=o))
                if ok and rec.check(r is o, lab + ' out is returned'):
                    agree(rec, lab + ' out', o, want, dom, m)
                    agree(rec, lab + ' out: operand', f, v, dom, m)
                # the result does not share anything with the operand
                    o += 1.0
                    agree(rec, lab + ' out changed: operand', f, v, dom, m)
                # into itself
                ok, r = rec.attempt(lab + ' onto itself', lambda: u(f, out=f))
                if ok and rec.check(r is f, lab + ' onto itself is returned'):
                    agree(rec, lab + ' onto itself', f, want, dom, m)


def binary(case, rec):
    nm, kind = case['nm'], case['kind']
    u = getattr(np, nm)
    for dom in DOMS:
        for k in KS[kind]:
            for m in (1, 2):
                for k2 in KS[kind][:4]:
                    lacunary(kind, k, k2)
                    f, vf = fun(kind, k, m, dom, (2.5, 0.25))
                    g, vg = fun(kind, k2, m, dom, (1.6, 0.1), 1)
                    pairs = [('2', f, vf, 2, 2), ('1.75', f, vf, 1.75, 1.75), ('npf', f, vf, np.float64(1.75), 1.75), ('npi', f, vf, np.int64(2), 2),
                             ('2 left', 2, 2, g, vg), ('2.25 left', 2.25, 2.25, g, vg), ('npf left', np.float64(2.25), 2.25, g, vg), ('npi left', np.int64(2), 2, g, vg)] if k2 == KS[kind][1] or k == KS[kind][1] else []
                    if nm != 'power':
                        pairs += [('fg', f, vf, g, vg), ('gf', g, vg, f, vf), ('ff', f, vf, f, vf)]
                    for t, a, va, b, vb in pairs:
                        # quotients of constant integer part only
                        if nm in ('fmod', 'remainder', 'floor_divide') and t in ('gf', '2', 'npi', '2 left', 'npi left', 'ff') or nm == 'heaviside' and t == 'ff':
                            continue
                        rec.state(nm, kind, dom, k, k2, m, t)
                        with np.errstate(all='ignore'):
                            want = u(va, vb)
                        lab = 'np.%s %s %s k%g,%g x%d on %s' % (nm, t, kind, k, k2, m, dom)
                        rec.step(2)
                        ok, r = rec.attempt(lab, lambda: u(a, b))
                        if ok:
                            agree(rec, lab, r, want, dom, m)
                        o = fun(kind, KS[kind][2], 1, dom, (3.0, 1.0))[0]
                        ok, r = rec.attempt(lab + ' out', lambda: u(a, b, out=o))
                        if ok and rec.check(r is o, lab + ' out is returned'):
                            agree(rec, lab + ' out', o, want, dom, m)
                            o += 1.0
                        agree(rec, lab + ': first operand', f, vf, dom, m)
                        agree(rec, lab + ': second operand', g, vg, dom, m)
                        # onto the operands
                        if t in ('fg', '2', 'npf') or t == 'gf':
                            f2 = fun(kind, k, m, dom, (2.5, 0.25))[0]
                            g2 = fun(kind, k2, m, dom, (1.6, 0.1), 1)[0]
                            ops = {id(f): f2, id(g): g2}
                            a2, b2 = ops.get(id(a), a), ops.get(id(b), b)
                            rec.step()
                            ok, r = rec.attempt(lab + ' onto first', lambda: u(a2, b2, out=a2))
                            if ok and rec.check(r is a2, lab + ' onto first is returned'):
                                agree(rec, lab + ' onto first', a2, want, dom, m)
                                if b2 is g2:
                                    agree(rec, lab + ' onto first: second operand', g2, vg, dom, m)
                            if t in ('fg', 'gf'):
                                f2 = fun(kind, k, m, dom, (2.5, 0.25))[0]
                                g2 = fun(kind, k2, m, dom, (1.6, 0.1), 1)[0]
                                ops = {id(f): f2, id(g): g2}
                                a2, b2 = ops[id(a)], ops[id(b)]
                                ok, r = rec.attempt(lab + ' onto second', lambda: u(a2, b2, out=b2))
                                if ok and rec.check(r is b2, lab + ' onto second is returned'):
                                    agree(rec, lab + ' onto second', b2, want, dom, m)


ALPHA = ['+=g', '-=g', '*=g', '/=g', '+=2', '*=.5', '-=1', '/=4', '**=2', '**=.5', '**=1', 'tanh', 'neg', 'abs', 'swap', 'copy', 'alias', '+=f']


class Heap:
    """ f is worked on, b is the function that f once was (copy), a another name of f """
    def __init__(self, kind, dom, m):
        self.dom, self.m = dom, m
        k = KS[kind]
        self.f, self.vf = fun(kind, k[2], m, dom, (2.5, 0.25))
        self.g, self.vg = fun(kind, k[1], m, dom, (1.6, 0.1), 1)
        self.a = self.f
        self.b, self.vb = None, None
        self.cplx = kind == 'cplx'

    def run(self, a):
        f = self.f
        if a == '+=g':
            f += self.g
            self.vf = self.vf + self.vg
        elif a == '-=g':
            f -= self.g
            self.vf = self.vf - self.vg
        elif a == '*=g':
            f *= self.g
            self.vf = self.vf * self.vg
        elif a == '/=g':
            f /= self.g
            self.vf = self.vf / self.vg
        elif a == '+=f':
            f += f
            self.vf = self.vf + self.vf
        elif a == '+=2':
            f += 2
            self.vf = self.vf + 2
        elif a == '-=1':
            f -= 1.0
            self.vf = self.vf - 1
        elif a == '*=.5':
            f *= 0.5
            self.vf = self.vf * 0.5
        elif a == '/=4':
            f /= 4
            self.vf = self.vf / 4
        elif a == '**=2':
            f **= 2
            self.vf = self.vf**2
        elif a == '**=1':
            f **= 1
        elif a == '**=.5':
            f **= 0.5
            self.vf = self.vf**0.5
        elif a == 'tanh':
            np.tanh(f, out=f)
            self.vf = np.tanh(self.vf)
        elif a == 'neg':
            np.negative(f, out=f)
            self.vf = -self.vf
        elif a == 'abs':
            np.absolute(f, out=f)
            self.vf = np.abs(self.vf)
        elif a == 'swap':
            # the other function becomes the one that is worked on
            self.f, self.g, self.vf, self.vg = self.g, self.f, self.vg, self.vf
            self.a = self.f
            return self.f is self.a
        elif a == 'copy':
            self.b, self.vb = +self.f, self.vf.copy()
        elif a == 'alias':
            h = self.f
            h += 0.25
            self.vf = self.vf + 0.25
        if a not in ('copy', 'alias'):
            self.f = f
        return self.f is self.a

    def possible(self, a):
        """ inside of the domain of smoothness and of a moderate size """
        v = self.vf
        if a == '**=.5':
            return (not self.cplx and np.min(v) > 0.05) or (self.cplx and np.min(np.real(v)) > 0.05)
        if a == '/=g':
            return np.min(np.abs(self.vg)) > 0.3
        if a == 'abs':
            # differentiable on the segments between the points and no zero
            return (np.min(v) > 0.05 or np.max(v) < -0.05) if not self.cplx else np.min(np.real(v)) > 0.3
        if a == 'tanh':
            return np.max(np.abs(v)) < 4 and not (self.cplx and np.max(np.abs(np.imag(v))) > 0.6)
        return np.max(np.abs(v)) < 1e3


def words(case, rec):
    kind = case['kind']
    for dom in (DOMS[:1] if case['n'] > 3 else [DOMS[2]]):
        for m in (1, 2):
            for n in range(case['n']):
                for w in itertools.product(range(len(ALPHA)), repeat=n):
                    word = (case['i'],) + w
                    # repeated copies or aliases show nothing new
                    if any(ALPHA[p] in ('copy', 'swap') and p == q for p, q in zip(word, word[1:])):
                        continue
                    if m == 2 and n == case['n'] - 1 and sum(word) % 2:
                        continue
                    H = Heap(kind, dom, m)
                    lab = '%s x%d: %s' % (kind, m, ' '.join(ALPHA[p] for p in word))
                    good = True
                    for p in word:
                        if not H.possible(ALPHA[p]):
                            good = False
                            break
                        rec.step()
                        ok, same = rec.attempt(lab, lambda: H.run(ALPHA[p]))
                        if not ok or not rec.check(same, lab + ': in-place operators keep the object'):
                            good = False
                            break
                    if not good:
                        continue
                    rec.state(kind, m, word)
                    agree(rec, lab, H.f, H.vf, dom, m)
                    agree(rec, lab + ': other operand', H.g, H.vg, dom, m)
                    if H.b is not None:
                        agree(rec, lab + ': copy', H.b, H.vb, dom, m)


def mixed(case, rec):
    dom = DOMS[case['d']]
    from funpy import Fun
    mid, half = 0.5 * (dom[0] + dom[1]), 0.5 * (dom[1] - dom[0])
    P = [('poly', lambda z: 2 + z), ('cubic', lambda z: 1.5 + z**3 - 0.5 * z**2), ('exp', lambda z: np.exp(z)), ('even', lambda z: 2 + z * z), ('periodic', lambda z: np.exp(np.sin(np.pi * z))),
         ('high', lambda z: 2 + np.cos(20 * np.pi * z)), ('one', lambda z: 1.0 + 0 * z), ('zero', lambda z: 0.0 * z)]
    Q = [('sin', lambda z: 2 + np.sin(np.pi * z)), ('cos12', lambda z: 2 + np.cos(12 * np.pi * z)), ('three', lambda z: 3.0 + 0 * z), ('exps', lambda z: np.exp(np.cos(np.pi * z))), ('e', lambda z: 2 + np.exp(1j * np.pi * z)), ('zero', lambda z: 0.0 * z)]
    B2 = ['add', 'subtract', 'multiply', 'hypot', 'arctan2']
    x = points(dom)
    to = lambda h: (lambda y: h((np.asarray(y) - mid) / half))
    for (pn, p), (qn, q) in itertools.product(P, Q):
        for m in (1, 2):
            f = Fun(op=[to(p), to(lambda z: p(z) + 1)][:m], domain=np.array(dom))
            g = Fun(op=[to(q), to(lambda z: q(z) - 0.5)][:m], domain=np.array(dom), type='trig')
            vf = np.stack([p(Z), p(Z) + 1][:m], axis=1)
            vg = np.stack([q(Z), q(Z) - 0.5][:m], axis=1)
            for nm in B2:
                u = getattr(np, nm)
                if nm in ('hypot', 'arctan2') and (np.iscomplexobj(vg) or pn in ('zero', 'cubic', 'periodic') or qn in ('zero',) or np.min(np.abs(vg)) < 0.6 or np.min(np.abs(vf)) < 0.6):
                    continue
                for t, a, va, b, vb in (('f,t', f, vf, g, vg), ('t,f', g, vg, f, vf)):
                    if nm == 'hypot' and t == 't,f' or nm == 'arctan2' and t == 't,f':
                        continue
                    rec.state(nm, pn, qn, m, t)
                    want = u(va, vb)
                    lab = 'np.%s(%s) %s, %s x%d on %s' % (nm, t, pn, qn, m, dom)
                    # what is neither periodic nor real cannot be represented
                    smooth = pn in ('periodic', 'high', 'one', 'zero') or (nm == 'multiply' and qn == 'zero' and m == 1)
                    rec.step()
                    if np.iscomplexobj(want) and not smooth:
                        rec.rejects(lab + ': complex and not periodic', lambda: u(a, b))
                        continue
                    ok, r = rec.attempt(lab, lambda: u(a, b))
                    if ok:
                        agree(rec, lab, r, want, dom, m)
                    o = Fun(op=to(lambda z: 3 + z), domain=np.array(dom))
                    ok, r = rec.attempt(lab + ' out', lambda: u(a, b, out=o))
                    if ok and rec.check(r is o, lab + ' out is returned'):
                        agree(rec, lab + ' out', o, want, dom, m)
                    agree(rec, lab + ': operand', f, vf, dom, m)
                    agree(rec, lab + ': operand', g, vg, dom, m)


def refused(case, rec):
    for kind in ('cheb', 'trig'):
        for m in (1, 2):
            f, v = fun(kind, 3, m, DOMS[1], (2.0, 0.5))
            for nm, go in (('add.reduce', lambda: np.add.reduce(f)), ('add.accumulate', lambda: np.add.accumulate(f)), ('multiply.outer', lambda: np.multiply.outer(f, f)), ('mean', lambda: np.mean(f)), ('clip', lambda: np.clip(f, 0, 1)),
                           ('median', lambda: np.median(f)), ('cumprod', lambda: np.cumprod(f)), ('prod', lambda: np.prod(f)), ('std', lambda: np.std(f)), ('gradient', lambda: np.gradient(f)), ('fft', lambda: np.fft.fft(f)),
                           ('string', lambda: f + 'a'), ('None', lambda: f * None)):
                rec.state(kind, m, nm)
                rec.step()
                rec.rejects('%s %s x%d' % (nm, kind, m), go)
                agree(rec, '%s %s x%d: operand' % (nm, kind, m), f, v, DOMS[1], m)


def run(case, rec):
    lacunary(case.get('kind', 'cheb'), 0)
    with warnings.catch_warnings(), np.errstate(all='ignore'):
        warnings.simplefilter('ignore')
        globals()[case['what']](case, rec)
