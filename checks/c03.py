"""C03: operations never change a function other than their target."""
import copy
import itertools
import os
import tempfile
import numpy as np
from mc.ref import cheb_coeffs, trig_coeffs, to_dom, ZS

ID = 'C03'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of operation histories over a heap of live functions, every object re-read after every step'
RULE = ('every history op1; op2; then every in-place mutation of every live object, over the full operation alphabet and operand choices '
        '(op2 uses the object op1 produced); the model predicts that only the mutated object changes. Non-trivial: the history ran and objects were re-read')
ASSUMPTIONS = ['an object is observed through its values on 34 points, its length, columns, domain and kind',
               'operations that refuse their operands are required to leave them unchanged too',
               'shallow copies and identity conversions are allowed to share and are not part of the alphabet']


def snap(h):
    v = h(to_dom(ZS, [float(h.domain[0]), float(h.domain[1])]))
    return np.array(v), len(h), h.m, tuple(float(x) for x in h.domain), h.type, bool(h.ishappy)


def same(a, b):
    if not (a[1:] == b[1:] and a[0].shape == b[0].shape and a[0].dtype == b[0].dtype):
        return False
    u, v = np.isfinite(a[0]), np.isfinite(b[0])     # normalising the zero function gives no finite values
    return bool(np.all(u == v)) and \
        np.max(np.abs(a[0][u] - b[0][u]), initial=0) <= 1e-13 * max(1.0, np.max(np.abs(a[0][u]), initial=0))


# name -> fn(a, b)
def alphabet(trig):
    import funpy.fun as F
    O = {}
    O['a+b'] = lambda a, b: a + b
    O['a-b'] = lambda a, b: a - b
    O['a*b'] = lambda a, b: a * b
    O['a/b'] = lambda a, b: a / (b * b + 1.5)
    O['a+2'] = lambda a, b: a + 2
    O['2-a'] = lambda a, b: 2 - a
    O['a*2'] = lambda a, b: a * 2
    O['a*0'] = lambda a, b: a * 0
    O['a*1'] = lambda a, b: a * 1
    O['a+0'] = lambda a, b: a + 0
    O['a/2'] = lambda a, b: a / 2
    O['-a'] = lambda a, b: -a
    O['+a'] = lambda a, b: +a
    O['a**1'] = lambda a, b: a**1
    O['a**2'] = lambda a, b: a**2
    O['abs'] = lambda a, b: abs(a * a + 1)
    O['sin'] = lambda a, b: np.sin(a)
    O['eval'] = lambda a, b: a(to_dom(ZS, a.domain))
    O['eval scalar'] = lambda a, b: a(0.25 * a.domain[0] + 0.75 * a.domain[1])
    O['diff'] = lambda a, b: np.diff(a)
    O['diff0'] = lambda a, b: np.diff(a, n=0) if trig else np.diff(a, n=9)
    O['sum'] = lambda a, b: np.sum(a)
    O['cumsum'] = lambda a, b: np.cumsum(a - np.sum(a) / (a.domain[1] - a.domain[0])) if trig else np.cumsum(a)
    O['inner'] = lambda a, b: np.inner(a, b)
    O['dot'] = lambda a, b: np.dot(a, b)
    O['norm'] = lambda a, b: F.norm(a)
    O['h1norm'] = lambda a, b: F.h1norm(a)
    O['minandmax'] = lambda a, b: F.minandmax(a)
    O['roots'] = lambda a, b: F.roots(a)
    O['col0'] = lambda a, b: a[0]
    O['iter'] = lambda a, b: [c for c in a][-1]
    O['copy'] = lambda a, b: np.copy(a)
    O['deepcopy'] = lambda a, b: copy.deepcopy(a)
    O['real'] = lambda a, b: np.real(a)
    O['imag'] = lambda a, b: np.imag(a)
    O['conj'] = lambda a, b: np.conj(a)
    O['zeros_like'] = lambda a, b: np.zeros_like(a)
    O['ones_like'] = lambda a, b: np.ones_like(a)
    O['eq'] = lambda a, b: a == b
    O['str'] = lambda a, b: (str(a), repr(a)) and None
    O['flatten'] = lambda a, b: a.flatten()
    O['array'] = lambda a, b: None if trig else np.asarray(a.onefun) * 1.0
    O['x'] = lambda a, b: a.x
    O['onefun.x'] = lambda a, b: a.onefun.x
    O['values'] = lambda a, b: None if trig else a.values
    O['prolong copy'] = lambda a, b: F.prolong(a, a.n + 3)
    O['prolong copy same'] = lambda a, b: F.prolong(a, a.n)
    O['prolong copy short'] = lambda a, b: F.prolong(a, max(a.n - 1, 1))
    O['prolong_coeffs'] = lambda a, b: a.prolong_coeffs(a.n + 2)
    O['compose'] = lambda a, b: F.compose(a, lambda x: x * x)
    O['compose2'] = lambda a, b: F.compose(a, lambda x, y: x * y, b)
    O['normalize'] = lambda a, b: F.normalize(a)
    O['write'] = _write
    O['from_coeffs'] = lambda a, b: F.Fun.from_coeffs(np.array(a.coeffs), a.m, type=a.type, domain=a.domain)
    O['from own coeffs'] = lambda a, b: F.Fun.from_coeffs(a.flatten(), a.m, type=a.type, domain=a.domain)
    if trig:
        O['roll'] = lambda a, b: np.roll(a, 0.3)
        O['roll0'] = lambda a, b: np.roll(a, 0)
        O['convolve'] = lambda a, b: np.convolve(a, b)
        O['adhesion'] = lambda a, b: F.adhesion(a, b)
        O['innerw'] = lambda a, b: F.innerw(a, b)
    else:
        O['hstack'] = lambda a, b: np.hstack((a, b))
        O['hstack1'] = lambda a, b: np.hstack((a,))
        O['slice'] = lambda a, b: a[0:a.m]
        O['qr'] = lambda a, b: F.qr(a)[0]
        O['innerw'] = lambda a, b: F.innerw(a, b)
        O['vscale'] = lambda a, b: a.vscale
        O['fliplr'] = lambda a, b: F.Fun(onefun=a.fliplr(), domain=a.domain)
        O['flipud'] = lambda a, b: F.Fun(onefun=a.flipud(), domain=a.domain)
        O['restrict'] = lambda a, b: F.Fun(onefun=a.onefun.restrict([-1, 1]), domain=a.domain)
        O['lval'] = lambda a, b: a.lval()
        O['rval'] = lambda a, b: a.rval()
        O['funcompose'] = lambda a, b: _chebcompose(a, b, False)
        O['funcompose2'] = lambda a, b: _chebcompose(a, b, True)
        O['barymat'] = lambda a, b: a.onefun.eval(np.array([0.1, 0.7]))
        O['functional'] = lambda a, b: __import__('funpy.functional', fromlist=['x']).Functional(a).coeffs
    return O


def _chebcompose(a, b, two):
    from funpy.cheb.chebtech import compose
    from funpy.fun import Fun
    t = compose(a.onefun, lambda x, y: x * y + 1, b.onefun) if two else compose(a.onefun, lambda x: x * x + 1)
    return Fun(onefun=t, domain=a.domain)


def _write(a, b):
    import h5py
    with h5py.File('x.h5', 'w', driver='core', backing_store=False) as fh:
        a.writeHDF5(fh)


def mutators():
    import funpy.fun as F

    def m(f):
        def run(a, b):
            r = f(a, b)
            return r
        return run

    def iadd(a, b): a += 1.25
    def iaddf(a, b): a += b
    def isub(a, b): a -= b
    def imul(a, b): a *= 1.5
    def imulf(a, b): a *= b
    def idiv(a, b): a /= 2.0
    def prolong(a, b): a.prolong(a.n + 2)
    def simplify(a, b): a.simplify()
    def shorten(a, b): a.prolong(max(1, a.n - 1))
    return [('+=1', iadd), ('/=2', idiv), ('+=b', iaddf), ('-=b', isub), ('*=1.5', imul), ('*=b', imulf), ('prolong', prolong),
            ('simplify', simplify), ('shorten', shorten), ('+=2', iadd)]


HEAPS = {
    'cheb': [('c', 5, 1), ('c', 8, 1)],
    'chebsame': [('c', 6, 1), ('c', 6, 1)],
    'cheb2': [('c', 5, 2), ('c', 18, 2)],
    'const': [('c', 1, 1), ('c', 4, 1)],
    'trig': [('t', 5, 1), ('t', 8, 1)],
    'trigeven': [('t', 6, 1), ('t', 6, 1)],
    'trig2': [('t', 4, 2), ('t', 5, 2)],
    'trigc': [('tc', 5, 1), ('tc', 6, 1)],
    'cheb1_3': [('c', 20, 3), ('c', 1, 3)],
    'trigc2': [('tc', 4, 2), ('tc', 4, 2)],
}
QUICK = ['cheb', 'cheb2', 'trig', 'trigc2', 'trigeven']


def cases(tier):
    import funpy.fun  # noqa
    for hp in (QUICK if tier == 'quick' else HEAPS):
        trig = HEAPS[hp][0][0] != 'c'
        for op1 in alphabet(trig):
            yield dict(id='%s.%s' % (hp, op1), heap=hp, op1=op1, tier=tier)


def build(hp):
    from funpy.fun import Fun
    out = []
    for i, (k, n, m) in enumerate(HEAPS[hp]):
        dom = np.array([-1.0, 3.0])
        if k == 'c':
            out.append(Fun(coeffs=cheb_coeffs('dense', n, m, i + 1), domain=dom, simplify=False))
        else:
            out.append(Fun(coeffs=trig_coeffs('dense', n, m, i + 1, real=(k == 't')), type='trig', domain=dom, simplify=False))
    return out


def isfun(r):
    from funpy.fun import Fun
    return isinstance(r, Fun)


CONTROL = {}


def control(trig):
    """A fixed computation that must not notice anything that happened before."""
    from funpy.fun import Fun
    if trig:
        f = Fun(op=lambda x: np.cos(np.pi * x) + 0.5, type='trig')
    else:
        f = Fun(op=lambda x: np.exp(x))
    return np.concatenate((f(ZS).ravel(), np.atleast_1d(np.sum(f)).ravel(), f.x.ravel(), np.diff(f)(ZS).ravel(),
                           np.atleast_1d(np.inner(f, f)).ravel()))


def run(case, rec):
    hp = case['heap']
    trig = HEAPS[hp][0][0] != 'c'
    A = alphabet(trig)
    op1 = A[case['op1']]
    M = mutators()
    rec.state(hp, case['op1'])
    from mc.engine import CaseTimeout
    ctl = control(trig)

    def do(fn, *a):
        rec.step()
        try:
            return fn(*a)
        except CaseTimeout:
            raise
        except Exception:
            return None

    def verify(live, snaps, but, label):
        """all objects except `but` unchanged; refresh the snapshot of `but`"""
        ok = True
        for k in live:
            if k == but:
                continue
            try:
                now = snap(live[k])
            except Exception as e:
                rec.check(False, '%s: %s cannot be read any more' % (label, k), exc=repr(e))
                return False
            ok &= rec.check(same(snaps[k], now), '%s changed %s' % (label, k), before=snaps[k][1:], after=now[1:])
        if but is not None:
            try:
                snaps[but] = snap(live[but])
            except Exception:
                live.pop(but)
        return ok

    for first in ((0, 1), (0, 0)):
        f, g = build(hp)
        live = dict(f=f, g=g)
        snaps = {k: snap(v) for k, v in live.items()}
        names = 'fg'
        lab = '%s(%s,%s)' % (case['op1'], names[first[0]], names[first[1]])
        r = do(op1, [f, g][first[0]], [f, g][first[1]])
        if not verify(live, snaps, None, lab):
            continue
        if isfun(r) and r is not f and r is not g:
            pairs = [('h', 'f'), ('f', 'h')] + ([('h', 'h')] if case['tier'] == 'thorough' else [])
        elif r is f or r is g:
            rec.check(False, lab + ' returned its operand instead of a new function')
            continue
        else:
            pairs = [('f', 'g'), ('g', 'g')]
        for op2n, op2 in [(None, None)] + list(A.items()):
            for pa, pb in (pairs if op2n else [('-', '-')]):
                if first == (0, 0) and op2n:
                    continue
                f, g = build(hp)
                live = dict(f=f, g=g)
                snaps = {k: snap(v) for k, v in live.items()}
                h = do(op1, [f, g][first[0]], [f, g][first[1]])
                if isfun(h):
                    live['h'] = h
                    try:
                        snaps['h'] = snap(h)
                    except Exception:
                        live.pop('h')
                        if 'h' in (pa, pb):
                            continue
                elif isinstance(h, np.ndarray) and h.flags.writeable:
                    h[...] = 7
                elif isinstance(h, tuple) and all(isinstance(x, np.ndarray) for x in h):
                    for x in h:
                        if x.flags.writeable:
                            x[...] = 7
                l2 = lab
                if op2n:
                    l2 = '%s; %s(%s,%s)' % (lab, op2n, pa, pb)
                    k = do(op2, live[pa], live[pb])
                    if not verify(live, snaps, None, l2):
                        continue
                    if isfun(k):
                        if any(k is o for o in live.values()):
                            rec.check(False, l2 + ' returned its operand instead of a new function')
                            continue
                        live['k'] = k
                        try:
                            snaps['k'] = snap(k)
                        except Exception:
                            live.pop('k')
                rec.state(hp, l2, tuple(sorted((n, np.round(s[0], 9).tobytes()) for n, s in snaps.items())))
                muts = M if op2n is None or case['tier'] == 'thorough' else M[:2]
                bad = False
                for mn, mut in muts:
                    for who in sorted(live, reverse=True):
                        other = 'f' if who != 'f' else 'g'
                        do(mut, live[who], live[other])
                        if not verify(live, snaps, who, '%s; %s%s' % (l2, who, mn)):
                            bad = True
                            break
                        if who not in live:
                            bad = True
                            break
                        if snaps[who][1] > 300:
                            bad = True
                            break
                    if bad:
                        break
    try:
        now = control(trig)
    except Exception as e:
        rec.check(False, 'control computation broken afterwards', exc=repr(e))
        return
    rec.check(now.shape == ctl.shape and np.array_equal(now, ctl), 'control computation changed afterwards')
