"""C01: arithmetic on non-periodic functions is pointwise arithmetic."""
import itertools
import numpy as np
from mc.ref import cheb_coeffs, cheb_eval, ZS, EPS
from . import arith

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('every arithmetic program of the stated depth (all binary, in-place, scalar, per-column and unary operations) '
        'from every pair of palette shapes; a case is non-trivial when it compared at least one real result with the value-table model')
ASSUMPTIONS = ['agreement on 34 fixed points decides agreement of the (low degree) results',
               'quotients and powers are explored where the divisor stays away from zero, absolute values where no column changes sign',
               'floating point tolerance is the propagated rounding budget of the model']
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-0.5, 0.25)]


def shapes(tier):
    S = []
    for m in (1, 2, 3):
        for kind, n in [('dense', 5), ('pos', 1), ('pos', 2), ('pos', 4), ('const', 1), ('zero', 1), ('zero', 3), ('even', 7),
                        ('odd', 6), ('last', 3), ('last', 18), ('dense', 2), ('dense', 17), ('dense', 40), ('pos', 18)] + \
                       ([('zerocol', 5), ('scales', 6)] if m > 1 else []):
            S.append((kind, n, m))
    if tier == 'thorough':
        for m in (1, 2, 4):
            for kind, n in [('slow', 16), ('slow', 33), ('even', 2), ('odd', 3), ('last', 2), ('const', 3), ('fast', 65),
                            ('pos', 3), ('dense', 1), ('dense', 3), ('dense', 4), ('dense', 129)]:
                S.append((kind, n, m))
    return S


# second operands left to the thorough tier
QSKIP = [('zero', 1), ('even', 7), ('last', 3), ('dense', 2), ('dense', 17), ('pos', 2), ('scales', 6)]


def cases(tier):
    S = shapes(tier)
    for (k1, n1, m1), (k2, n2, m2) in itertools.product(S, S):
        if m1 != m2:
            continue
        for d, dom in enumerate(DOMS[:2] if tier == 'quick' else DOMS):
            # the second level is explored for every pair; domains beyond the first only on the smaller shapes
            if d and max(n1, n2) > 18:
                continue
            if tier == 'quick' and (d and m1 != 3 or (k2, n2) in QSKIP or m1 == 2 and (k1, n1) in QSKIP):
                continue
            yield dict(id='%s%d.%s%d.m%d.d%d' % (k1, n1, k2, n2, m1, d), f=[k1, n1], g=[k2, n2], m=m1, dom=dom,
                       depth=2 if tier == 'quick' or d else 3)


SCAL = [2, 0.5, 0, -1.0, np.float64(3.0)]
_TAB = {}


def tab(m, depth):
    key = (m, depth)
    if key not in _TAB:
        arr = np.array([1.5, -2.0, 3.0, 0.5][:m]) if m > 1 else np.array([1.5])
        _TAB[key] = arith.table(m, EPS, SCAL if depth == 1 else SCAL[:1], arr if depth == 1 else None)
    return _TAB[key]


def make(kind, n, m, dom, seed):
    from funpy.fun import Fun
    c = cheb_coeffs(kind, n, m, seed)
    return Fun(coeffs=c.copy(order='F'), domain=np.asarray(dom, dtype=float), simplify=False), \
        arith.V(cheb_eval(c, ZS), 1e-14 * float(np.sum(np.abs(c))))


def run(case, rec):
    m, dom = case['m'], case['dom']
    mk = lambda which, s: make(case[which][0], case[which][1], m, dom, s)
    g, gm = mk('g', 3)
    rec.state(case['g'], m, dom)

    def level(f, fm, depth, path, first):
        for name, real, model, guard, inplace in tab(m, case['depth'] - depth + 1 if not first else 1):
            if guard is not None and not guard(fm, gm):
                continue
            mv = model(fm, gm)
            if not np.all(np.isfinite(mv.v)) or mv.err > 1e-6 * max(mv.s, 1e-3):
                continue
            lab = path + name
            ok, h = rec.attempt(lab, real, f, g)
            if not ok:
                continue
            rec.state(case['m'], dom, np.round(mv.v, 10).tobytes())
            good = arith.observe(rec, h, mv, dom, lab, 'cheb')
            if good and depth > 1 and 1e-6 < mv.s < 1e4 and len(h) < 400:
                level(h, mv, depth - 1, lab + '; ', False)

    f, fm = mk('f', 1)
    level(f, fm, case['depth'], '', True)
