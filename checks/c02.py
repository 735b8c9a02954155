"""C02: arithmetic on periodic functions is pointwise arithmetic."""
import itertools
import numpy as np
from mc.ref import trig_coeffs, trig_eval, ZS
from . import arith
from .arith import V

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('every arithmetic program of the stated depth (binary, in-place, scalar, per-column, conjugation, real/imaginary part, unary) '
        'from every pair of palette shapes (odd/even mode counts, real/complex, 1-3 columns); non-trivial: at least one comparison with the value table')
ASSUMPTIONS = ['agreement on 34 fixed points decides agreement of the (low degree) results',
               'quotients and powers are explored where the divisor stays away from zero, absolute values where no column changes sign',
               'quotients and powers of even-length operands are compared like any other function of the values']
DOMS = [(-1.0, 1.0), (0.0, 3.0)]
EPS = 1e-10


def shapes(tier):
    S = []
    for m in (1, 2, 3):
        for real in (True, False):
            for kind, n in [('dense', 5), ('dense', 6), ('pos', 1), ('pos', 4), ('pos', 5), ('zero', 3), ('dense', 2), ('dense', 17)] + \
                           ([('zerocol', 5)] if m > 1 else []):
                if not real and (kind == 'zero' or m == 3 and n > 5):
                    continue
                S.append((kind, n, m, real))
    if tier == 'thorough':
        for m in (1, 2):
            for real in (True, False):
                for kind, n in [('dense', 3), ('dense', 4), ('dense', 18), ('pos', 2), ('pos', 3), ('const', 3), ('zero', 1), ('last', 4),
                                ('last', 5), ('dense', 32), ('dense', 33), ('pos', 9)]:
                    if not real and kind in ('zero', 'last'):
                        continue
                    S.append((kind, n, m, real))
    return S


QSKIP = [('dense', 2), ('zero', 3), ('pos', 5)]


QDEEP = [('dense', 6), ('pos', 1)]


def cases(tier):
    S = shapes(tier)
    for a, b in itertools.product(S, S):
        if a[2] != b[2]:
            continue
        for d, dom in enumerate(DOMS):
            if tier == 'quick' and (d and a[2] != 2 or (b[0], b[1]) in QSKIP and a[2] != 1):
                continue
            deep = a[1] <= 6 and a[2] < 3 and (b[0], b[1]) in QDEEP and not d
            yield dict(id='%s%d%s.%s%d%s.m%d.d%d' % (a[0], a[1], 'cr'[a[3]], b[0], b[1], 'cr'[b[3]], a[2], d),
                       f=[a[0], a[1], a[3]], g=[b[0], b[1], b[3]], m=a[2], dom=dom,
                       depth=(2 if deep else 1) if tier == 'quick' else 3 if deep and a[2] == 1 else 2)


SCAL = [2, 0.5, 0, -1.0, 1.5 - 0.5j]
_TAB = {}


def tab(m, depth):
    key = (m, depth)
    if key not in _TAB:
        arr = np.array([[1.5, -2.0, 3.0, 0.5][:m]])
        T = arith.table(m, EPS, SCAL if depth == 1 else SCAL[:1], arr if depth == 1 else None)
        T.append(('conj', lambda a, b: np.conj(a), lambda a, b: V(np.conj(a.v), a.err), None, False))
        T.append(('real', lambda a, b: np.real(a), lambda a, b: V(np.real(a.v).copy(), a.err), None, False))
        T.append(('imag', lambda a, b: np.imag(a), lambda a, b: V(np.imag(a.v).copy(), a.err), None, False))
        T.append(('f*f', lambda a, b: a * a, lambda a, b: arith.prod(a, a), None, False))
        T.append(('f*conj f', lambda a, b: a * np.conj(a), lambda a, b: arith.prod(a, V(np.conj(a.v), a.err)), None, False))
        _TAB[key] = T
    return _TAB[key]


def make(kind, n, real, m, dom, seed):
    from funpy.fun import Fun
    c = trig_coeffs(kind, n, m, seed, real=real)
    return Fun(coeffs=c.copy(order='F'), type='trig', domain=np.asarray(dom, dtype=float), simplify=False), \
        V(trig_eval(c, ZS, real), 1e-14 * float(np.sum(np.abs(c))))


def run(case, rec):
    m, dom = case['m'], case['dom']
    g, gm = make(*case['g'], m, dom, 3)
    rec.state(case['g'], m, dom)

    def level(f, fm, depth, path, first):
        for name, real, model, guard, inplace in tab(m, case['depth'] - depth + 1 if not first else 1):
            if guard is not None and not guard(fm, gm):
                continue
            if name == 'f**0.5' and np.iscomplexobj(fm.v):
                continue
            mv = model(fm, gm)
            if not np.all(np.isfinite(mv.v)) or mv.err > 1e-6 * max(mv.s, 1e-3):
                continue
            lab = path + name
            ok, h = rec.attempt(lab, real, f, g)
            if not ok:
                continue
            rec.state(case['m'], dom, np.round(mv.v, 9).tobytes())
            good = arith.observe(rec, h, mv, dom, lab, 'trig')
            if good and depth > 1 and 1e-6 < mv.s < 1e4 and len(h) < 400:
                level(h, mv, depth - 1, lab + '; ', False)

    f, fm = make(*case['f'], m, dom, 1)
    level(f, fm, case['depth'], '', True)
