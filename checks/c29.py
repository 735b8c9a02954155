"""C29: computed eigenvalues are the eigenvalues of the differential operator."""
import contextlib
import io
import itertools
import re
import warnings

import numpy as np
import scipy.linalg as LA
from numpy.polynomial import chebyshev as NC

ID = 'C29'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of linear(ised) operators x boundary conditions x domains x resolutions x orderings on the real code; the computed values inside a disc are compared as a multiset with closed-form spectra or with the resolved part of an independent collocation of the same eigenproblem'
RULE = 'every operator of the family with every layout of conditions, domain, resolution and ordering; one state per computation, one transition per call. Non-trivial: the disc of resolved eigenvalues contains at least two of them'
ASSUMPTIONS = ['eigenvalues outside of the disc resolved by the discretisation are not claimed',
               'well conditioned eigenvalues: those on which the independent collocations of three sizes agree',
               'only eigenvalues are returned by the code; eigenfunctions are not']
LIMIT = 300

DOMS = [(-1.0, 1.0), (0.0, np.pi), (1.0, 4.0)]
A = ['1', '-1', '2 + x/4']
B = ['0', '1', '-2', 'x']
C = ['0', '3', 'cos(x)', 'x*x']
SORTS = {'lhp': lambda l: l.real < 0, 'rhp': lambda l: l.real > 0, 'iuc': lambda l: abs(l) < 1, 'ouc': lambda l: abs(l) > 1}


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            return f()


# functionals: lists of (weight, variable, k, point) or (weight, variable, 'i')
def layouts(r, dom):
    a, b = dom
    d = lambda k, p, w=1.0, v=0: (w, v, k, p)
    if r == 1:
        return {'nonlocal2': [[d(0, a), d(0, b, -2.0)]], 'nonlocal-': [[d(0, a), d(0, b, 1.0)]], 'nonlocal.5': [[d(0, a, .5), d(0, b, -1.)]]}
    if r == 2:
        return {'DD': [[d(0, a)], [d(0, b)]], 'NN': [[d(1, a)], [d(1, b)]], 'DN': [[d(0, a)], [d(1, b)]], 'ND': [[d(1, a)], [d(0, b)]],
                'RD': [[d(0, a), d(1, a, -.5)], [d(0, b)]], 'RR': [[d(0, a), d(1, a, -.5)], [d(0, b), d(1, b, .5)]],
                'PP': [[d(0, a), d(0, b, -1.)], [d(1, a), d(1, b, -1.)]], 'DI': [[d(0, a)], [(1.0, 0, 'i', None)]],
                'BB': [[d(0, b)], [d(0, a)]]}
    if r == 4:
        return {'clamped': [[d(0, a)], [d(0, b)], [d(1, a)], [d(1, b)]], 'simple': [[d(0, a)], [d(0, b)], [d(2, a)], [d(2, b)]],
                'free': [[d(0, a)], [d(1, a)], [d(2, b)], [d(3, b)]]}


def bc_strings(bcs, names):
    out = []
    for b in bcs:
        t = []
        for w, v, k, p in b:
            nm = names[v]
            f = 'np.sum(%s)' % nm if k == 'i' else '%s(%r)' % (nm if k == 0 else 'np.diff(%s%s)' % (nm, '' if k == 1 else ', %d' % k), float(p))
            t.append('%r*%s' % (float(w), f))
        out.append(' + '.join(t))
    return out


def rows(bcs, N, m, dom):
    """ the functionals on N Chebyshev coefficients of each of m functions """
    L = dom[1] - dom[0]
    out = np.zeros((len(bcs), N * m))
    for i, b in enumerate(bcs):
        for w, v, k, p in b:
            for j in range(N):
                e = np.eye(N)[j]
                if k == 'i':
                    val = NC.chebval(1.0, NC.chebint(e, lbnd=-1)) * L / 2
                else:
                    val = NC.chebval(2 * (p - dom[0]) / L - 1, NC.chebder(e, k) if k else e) * (2 / L)**k
                out[i, v * N + j] += w * val
    return out


def ev(c, x):
    return eval(c, dict(x=x, sin=np.sin, cos=np.cos, exp=np.exp)) + 0 * x


def collocate(ops, bcs, dom, N):
    """ eigenvalues of the block operator ops[i][j] = list of coefficient strings, by collocation """
    m = len(ops)
    r = len(bcs) // m
    L = dom[1] - dom[0]
    n = N - r
    z = np.cos(np.pi * (np.arange(n) + .5) / n)
    x = dom[0] + (z + 1) * L / 2
    V = [np.array([NC.chebval(z, NC.chebder(e, k) if k else e) + 0 * z for e in np.eye(N)]).T * (2 / L)**k for k in range(5)]
    M = np.zeros((N * m, N * m))
    E = np.zeros((N * m, N * m))
    M[:len(bcs)] = rows(bcs, N, m, dom)
    for i, j in itertools.product(range(m), repeat=2):
        sl = slice(len(bcs) + i * n, len(bcs) + (i + 1) * n)
        for k, c in enumerate(ops[i][j]):
            M[sl, j * N:(j + 1) * N] += ev(c, x)[:, None] * V[k]
        if i == j:
            E[sl, j * N:(j + 1) * N] = V[0]
    w = LA.eig(M, E, right=False)
    return w[np.isfinite(w)]


def match(P, Q):
    """ largest distance of a greedy matching of the points P to the points Q (multisets of one size) """
    Q, out = list(Q), 0.0
    for p in P:
        if not Q:
            return np.inf
        k = int(np.argmin([abs(p - q) for q in Q]))
        out = max(out, abs(p - Q.pop(k)))
    return out if not Q else np.inf


def resolved(ops, bcs, dom, count):
    """ the smallest eigenvalues on which three collocations agree, and the radius that separates them """
    ref = [quiet(lambda: collocate(ops, bcs, dom, N)) for N in (44, 56, 68, 30)]
    l = ref[1][np.argsort(abs(ref[1]))]
    good = []
    for v in l:
        e = max(np.min(abs(r - v)) for r in (ref[0], ref[2], ref[3]))
        if e > 1e-8 * (1 + abs(v)):
            break
        good.append(v)
        if len(good) >= count + 6:
            break
    if len(good) < 3:
        return None, 0.0
    # a radius in the widest gap among the last ones
    mod = np.abs(good)
    lo = max(1, min(count, len(good)) - 4)
    gaps = [(mod[k] - mod[k - 1], k) for k in range(lo, min(count + 1, len(good)))]
    if not gaps or max(gaps)[0] <= 1e-6 * (1 + mod[-1]):
        return None, 0.0
    k = max(gaps)[1]
    return np.array(good[:k]), .5 * (mod[k] + mod[k - 1])


def make(names, eqn, bcs, dom, n, colloc='ultraS', **k):
    from funpy.colloc.chebOp import ChebOp
    op = ChebOp(colloc, functions=list(names), domain=list(dom), n=n, **k)
    op.eqn = list(eqn)
    op.bcs = bc_strings(bcs, names)
    return op


def decide(rec, lab, op, want, radius, tol, f=None, sorts=SORTS, count=None):
    from funpy.colloc import eigs
    eqn, bcs, n = list(op.eqn), list(op.bcs), op.n_disc
    first = None
    for s in sorts:
        rec.state(lab, s)
        rec.step()
        before = None if f is None else np.array(f.coeffs)
        ok, out = rec.attempt('%s sort=%s' % (lab, s), lambda: quiet(lambda: eigs(op, f, sort=s) if f is not None else eigs(op, sort=s)))
        if not ok:
            continue
        if f is not None:
            rec.check(np.array_equal(before, f.coeffs), '%s changed the state' % lab)
        rec.check(op.eqn == eqn and op.bcs == bcs, '%s changed the operator' % lab)
        if not rec.check(out[0] is True, '%s sort=%s failed' % (lab, s)):
            continue
        l = np.asarray(out[1])
        if count is not None:
            rec.check(len(l) == count, '%s sort=%s number of eigenvalues' % (lab, s), got=len(l), want=count)
        inside = l[abs(l) < radius]
        if not rec.check(len(inside) == len(want), '%s sort=%s number inside the disc' % (lab, s), got=inside[np.argsort(abs(inside))], want=want):
            continue
        d = match(want, inside)
        rec.check(d <= tol, '%s sort=%s eigenvalues' % (lab, s), err=d, tol=tol, got=inside[np.argsort(abs(inside))], want=want)
        # the selected ones come first
        margin = np.array([min(abs(v.real), abs(abs(v) - 1)) > 1e-6 * max(1, abs(v)) for v in l])
        g = [bool(SORTS[s](v)) for v, ok_ in zip(l, margin) if ok_]
        rec.check(g == sorted(g, reverse=True), '%s sort=%s order' % (lab, s), got=l[:6])
        if first is not None:
            rec.check(len(first) == len(l), '%s sort=%s another number of eigenvalues' % (lab, s), got=len(l), want=len(first))
        first = l


def cases(tier):
    big = tier != 'quick'
    for di in range(len(DOMS)):
        for lay in layouts(2, (0., 1.)):
            for ai in range(len(A)):
                yield dict(id='second.d%d.%s.%d' % (di, lay, ai), kind='second', di=di, lay=lay, ai=ai, big=big)
        for lay in layouts(4, (0., 1.)):
            yield dict(id='fourth.d%d.%s' % (di, lay), kind='fourth', di=di, lay=lay, big=big)
        for lay in layouts(1, (0., 1.)):
            yield dict(id='first.d%d.%s' % (di, lay), kind='first', di=di, lay=lay, big=big)
        for i in range(6):
            yield dict(id='system.d%d.%d' % (di, i), kind='system', di=di, i=i, big=big)
        for i in range(5):
            yield dict(id='linearised.d%d.%d' % (di, i), kind='linearised', di=di, i=i, big=big)
        for i in range(len(PER)):
            yield dict(id='periodic.d%d.%d' % (di, i), kind='periodic', di=di, i=i, big=big)
    yield dict(id='closed', kind='closed', big=big)
    yield dict(id='history', kind='history', big=big)


def run(case, rec):
    globals()[case['kind']](rec, case)


NS = (32, 45, 64)


def cond_tol(want, n, r):
    return 1e-7 * (1 + np.max(np.abs(want))) if r < 4 else 1e-5 * (1 + np.max(np.abs(want)))


def second(rec, case):
    dom, lay, a, big = DOMS[case['di']], case['lay'], A[case['ai']], case['big']
    bcs = layouts(2, dom)[lay]
    for k, (b, c) in enumerate(itertools.product(B, C)):
        if not big and (k + case['ai'] + case['di'] + ord(lay[0])) % 4:
            continue
        want, R = resolved([[[c, b, a]]], bcs, dom, 8)
        if want is None:
            rec.state('unresolved', dom, lay, a, b, c)
            continue
        t = ' + '.join('(%s)*%s' % (f, u) for f, u in ((a, 'diff(u, x, 2)'), (b, 'diff(u, x)'), (c, 'u')) if f != '0')
        for n in NS if big else NS[k % 3:k % 3 + 1]:
            op = make(['u'], [t], bcs, dom, n)
            decide(rec, '%s %s %s n=%d' % (t, lay, dom, n), op, want, R, cond_tol(want, n, 2), count=n - 2 if lay in ('DD', 'DN', 'ND', 'BB') else None)


def fourth(rec, case):
    dom, lay, big = DOMS[case['di']], case['lay'], case['big']
    bcs = layouts(4, dom)[lay]
    for co in (('0', '0', '0', '0', '1'), ('1', '0', '-2', '0', '-1'), ('x', '1', '0', '0', '1'), ('0', '0', 'x', '0', '2')):
        want, R = resolved([[list(co)]], bcs, dom, 4)
        if want is None:
            rec.state('unresolved', dom, lay, co)
            continue
        t = ' + '.join('(%s)*%s' % (c, 'diff(u, x, %d)' % k if k else 'u') for k, c in enumerate(co) if c != '0')
        for n in NS:
            op = make(['u'], [t], bcs, dom, n)
            decide(rec, '%s %s %s n=%d' % (t, lay, dom, n), op, want, R, cond_tol(want, n, 4))


def first(rec, case):
    dom, lay, big = DOMS[case['di']], case['lay'], case['big']
    bcs = layouts(1, dom)[lay]
    mu = -bcs[0][0][0] / bcs[0][1][0]           # u(b) = mu u(a)
    L = dom[1] - dom[0]
    ks = np.arange(-40, 41)
    for a, c in itertools.product((1.0, -1.0, 2.0), (0.0, 1.0, -3.0)):
        lam = a * (np.log(complex(mu)) + 2j * np.pi * ks) / L + c
        lam = lam[np.argsort(abs(lam))]
        # radius in a gap
        k = [k for k in (5, 6, 7) if abs(lam[k]) - abs(lam[k - 1]) > 1e-3][0]
        R = .5 * (abs(lam[k]) + abs(lam[k - 1]))
        t = '%r*diff(u, x) + %r*u' % (a, c) if c else '%r*diff(u, x)' % a
        for n in NS:
            op = make(['u'], [t], bcs, dom, n)
            decide(rec, '%s %s %s n=%d' % (t, lay, dom, n), op, lam[:k], R, 1e-8 * (1 + R))


def system(rec, case):
    dom, i, big = DOMS[case['di']], case['i'], case['big']
    a, b = dom
    D = [[(1.0, v, k, p)] for v, k, p in ((0, 0, a), (0, 0, b), (1, 0, a), (1, 0, b))]
    M = [[(1.0, 0, 0, a)], [(1.0, 0, 1, b)], [(1.0, 1, 1, a)], [(1.0, 1, 0, b)]]
    Z = ['0']
    lst = [(D, [[['0', '0', '1'], ['1']], [['-1'], ['0', '0', '1']]]),
           (D, [[['1', '0', '1'], ['2']], [['x'], ['0', '0', '2']]]),
           (M, [[['0', '0', '1'], ['0', '1']], [['0', '-1'], ['0', '0', '1']]]),
           (D, [[['0', '0', '1'], Z], [Z, ['-1', '1', '3']]]),
           (M, [[['cos(x)', '0', '2'], ['1']], [['x', '1'], ['0', '0', '1']]]),
           ([[(1.0, 0, 0, a), (-2.0, 0, 0, b)], [(1.0, 1, 0, a), (.5, 1, 0, b)]], [[['0', '1'], ['1']], [['-1'], ['0', '1']]])]
    bcs, ops = lst[i]
    want, R = resolved(ops, bcs, dom, 8)
    if want is None:
        rec.state('unresolved', dom, i)
        return
    names = ['u', 'v']
    eqn = []
    for row in ops:
        t = []
        for nm, co in zip(names, row):
            t += ['(%s)*%s' % (c, 'diff(%s, x, %d)' % (nm, k) if k else nm) for k, c in enumerate(co) if c != '0']
        eqn.append(' + '.join(t))
    for n in NS[:2]:
        op = make(names, eqn, bcs, dom, n)
        decide(rec, 'system %s %s n=%d' % (eqn, dom, n), op, want, R, cond_tol(want, n, 2))


def linearised(rec, case):
    """ about a state: the eigenvalues are those of the derivative """
    from funpy import Fun
    dom, i, big = DOMS[case['di']], case['i'], case['big']
    eqn, jac = [('diff(u, x, 2) + u**3 - u', ['3*U**2 - 1', '0', '1']),
                ('diff(u, x, 2) + u*diff(u, x)', ['U1', 'U', '1']),
                ('(1 + u**2)*diff(u, x, 2) + u', ['1 + 2*U*U2', '0', '1 + U**2']),
                ('diff(u, x, 2) + exp(u)', ['exp(U)', '0', '1']),
                ('diff(u, x, 2) + diff(u, x)**2/4 - u', ['-1', 'U1/2', '1'])][i]
    L = dom[1] - dom[0]
    for si, st in enumerate(('.5', '0*x', 'x/2', '(x - 1)**2/4 - .25', 'x - x**3/12')):
        s = '(%s)' % st
        p = np.polynomial.Polynomial.fit(np.linspace(*dom, 9), ev(st, np.linspace(*dom, 9)), 3).convert()
        poly = lambda q: '(' + ' + '.join('(%r)*x**%d' % (float(c), k) for k, c in enumerate(q.coef)) + ')'
        co = [re.sub(r'U(?!\d)', poly(p), c.replace('U1', poly(p.deriv())).replace('U2', poly(p.deriv(2)))) for c in jac]
        for lay in ('DD', 'NN', 'RD') if big else (('DD', 'NN', 'RD')[(i + si) % 3],):
            bcs = layouts(2, dom)[lay]
            want, R = resolved([[co]], bcs, dom, 6)
            if want is None:
                rec.state('unresolved', dom, i, st, lay)
                continue
            for n in NS[1:]:
                f = Fun(op=lambda x: ev(st, x), domain=list(dom)).prolong(n)
                op = make(['u'], [eqn], bcs, dom, 17)
                decide(rec, '%s about %s %s %s n=%d' % (eqn, st, lay, dom, n), op, want, R, cond_tol(want, n, 2), f=f, sorts=('lhp', 'ouc'))
            if st == '0*x':
                op = make(['u'], [eqn], bcs, dom, 40)
                decide(rec, '%s about nothing %s %s' % (eqn, lay, dom), op, want, R, cond_tol(want, 40, 2), sorts=('lhp',))


PER = [['0', '0', '1'], ['1', '2', '1'], ['0', '1'], ['-1', '0', '0', '0', '-1'], ['cos(w*x)', '0', '1'], ['2*sin(w*x)', 'cos(w*x)', '1'], ['0', '0', '2 + cos(w*x)']]


def periodic(rec, case):
    from funpy import Fun
    dom, co, big = DOMS[case['di']], PER[case['i']], case['big']
    L = dom[1] - dom[0]
    w = 2 * np.pi / L
    ws = '(%r*(x - (%r)))' % (w, dom[0])
    # Fourier-Galerkin on 81 modes
    K = 40
    k = np.arange(-K, K + 1)
    F = np.zeros((2 * K + 1, 2 * K + 1), complex)
    for q, c in enumerate(co):
        th = np.arange(256) * 2 * np.pi / 256
        ch = np.fft.fft(ev(c.replace('w*x', 'x'), th)) / 256
        F += ch[(k[:, None] - k[None, :]) % 256] * ((1j * w * k)**q)[None, :]
    lam = LA.eigvals(F)
    lam = lam[np.argsort(abs(lam))]
    gaps = [(abs(lam[j]) - abs(lam[j - 1]), j) for j in (5, 6, 7, 8)]
    j = max(gaps)[1]
    want, R = lam[:j], .5 * (abs(lam[j]) + abs(lam[j - 1]))
    t = ' + '.join('(%s)*%s' % (c.replace('w*x', ws), 'diff(u, x, %d)' % q if q else 'u') for q, c in enumerate(co) if c != '0')
    for n in (33, 41, 65):
        for form in ('none', 'zero'):
            op = make(['u'], [t], [], dom, n, colloc='trigspec')
            f = None if form == 'none' else Fun(op=lambda x: 0 * x, domain=list(dom), type='trig').prolong(n)
            decide(rec, 'periodic %s %s n=%d %s' % (t, dom, n, form), op, want, R, 1e-8 * (1 + R), f=f, count=n)


def closed(rec, case):
    """ closed forms """
    for L in (1.0, np.pi, 3.0):
        for a, c in itertools.product((1.0, .5, -2.0), (0.0, 5.0)):
            for lay, mu in (('DD', lambda k: k + 1), ('NN', lambda k: k), ('DN', lambda k: k + .5)):
                want = np.array([-a * (mu(k) * np.pi / L)**2 + c for k in range(7)])
                nxt = abs(-a * (mu(7) * np.pi / L)**2 + c)
                want = want[np.argsort(abs(want))]
                t = '%r*diff(u, x, 2)%s' % (a, ' + %r*u' % c if c else '')
                for n in NS:
                    op = make(['u'], [t], layouts(2, (0., L))[lay], (0., L), n)
                    R = .5 * (nxt + abs(want[-1]))
                    decide(rec, 'closed %s %s L=%g n=%d' % (t, lay, L, n), op, want, R, 1e-8 * (1 + R), sorts=('lhp',))
    # oscillator
    want = -(2 * np.arange(8) + 1.)
    op = make(['u'], ['diff(u, x, 2) - x**2*u'], layouts(2, (-9., 9.))['DD'], (-9., 9.), 100)
    decide(rec, 'oscillator', op, want, 16., 1e-6)


def history(rec, case):
    """ words of computations on one operator with a parameter """
    from funpy.colloc import eigs
    from funpy import Fun
    dom = (0.0, 1.0)
    letters = ['none', 'f33', 'f45', 'a=2', 'a=1', 'solve']
    mu = (np.arange(1, 6) * np.pi)**2
    for word in itertools.product(letters, repeat=3):
        op = make(['u'], ['a*diff(u, x, 2) + 3*u'], layouts(2, dom)['DD'], dom, 40, parameters=dict(a=1.0))
        rec.state('history', word)
        for k, wd in enumerate(word):
            lab = 'history %s' % ' '.join(word[:k + 1])
            if wd[0] == 'a':
                op.parameter_names['a'] = float(wd[2:])
                if op.linSys is not None:
                    op.linSys.setParameters(op.parameter_names)
                continue
            if wd == 'solve':
                rec.step()
                rec.attempt(lab, lambda: quiet(lambda: op.solve()))
                continue
            f = None if wd == 'none' else Fun(op=lambda x: np.cos(x), domain=list(dom)).prolong(int(wd[1:]))
            rec.step()
            ok, out = rec.attempt(lab, lambda: quiet(lambda: eigs(op, f) if f is not None else eigs(op)))
            if ok and rec.check(out[0] is True, lab + ' failed'):
                l = out[1]
                a = op.parameter_names['a']
                want = 3 - a * mu
                for v in want:
                    rec.check(np.min(abs(l - v)) < 1e-6 * (1 + abs(v)), lab + ' eigenvalue', want=v)
