"""C20: the compiled residual, linearisation and parameter derivatives match the equations as written."""
import contextlib
import io
import itertools
import math
import numpy as np
from mc import jet
from mc.ref import ZS, to_dom
from checks.c16 import conv_exact

ID = 'C20'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of equations built from a term grammar (all single terms, all pairs, all two-equation systems over the two-unknown terms) x domains x parameter values x states, compiled by the real code and judged against truncated-power-series evaluation of the same equation text; all short histories of states and parameter values on one compiled operator'
RULE = 'every term and every pair of terms of the grammar (orders 0..4, products, compositions, coefficients in x, parameters, constant functions, integrals, conservative forms), every pair of equations from the system grammar, every domain; per operator the state history s1, s2, s1. Non-trivial: the equation contains an unknown'
ASSUMPTIONS = ['states are polynomials of degree at most 5 resolved on the grid used; residuals are analytic functions resolved at the grid size to the stated tolerance',
               'int(f, x) denotes the definite integral over the domain, as printed by the code generator',
               'adjoint operators are not claimed: the repository documents them for self-adjoint blocks only']
LIMIT = 300
DOMS = [(-1.0, 1.0), (0.0, 2.0), (-3.0, -1.5)]
P = np.polynomial.Polynomial

SCALAR = ['u', 'diff(u, x)', 'diff(u, x, 2)', 'diff(u, x, 3)', 'diff(u, x, 4)', 'u**2', 'u**3', 'u*diff(u, x)', 'diff(u, x)**2',
          'u*diff(u, x, 2)', 'u**2*diff(u, x)', 'diff(u, x)*diff(u, x, 2)', 'exp(u)', 'sin(u)', 'cos(u)*u', 'u/(1 + u**2)', '1/(2 + u)', 'tanh(u)', 'sqrt(3 + u)', 'log(4 + u)',
          'x*u', 'x**2*diff(u, x)', 'sin(x)*u', 'exp(x)*u**2', 'a*u', 'a*b*diff(u, x)', 'a*u**2', 'u/(a*x**2 + 1)', 'b*diff(u, x, 2)', 'exp(a*u)', 'c*u', 'c*diff(u, x)', 'c*u**2',
          'int(u, x)', 'int(u**2, x)', 'u*int(u, x)', 'int(x*u, x)', 'a*int(u, x)', 'x*int(u, x)', 'int(u, x)**2', 'a*u*int(u, x)**2',
          'diff(u**2, x)', 'diff(u*diff(u, x), x)', 'diff((1 + x**2)*diff(u, x), x)', 'diff(c*u, x)', 'diff(a*u**3, x, 2)', '1', 'x', 'a', 'a*x', 'c', 'pi*u', '(u - 1)*(u + 2)', '-u', '2*u', 'u**4/4', '(a - u)*u', 'sqrt(b**2)*u', 'log(b**2)*u', 'a**b*u']
SYSTEM = ['u', 'v', 'u*v', 'u**2*v', 'diff(u, x)', 'diff(v, x)', 'diff(u, x, 2)', 'diff(v, x, 2)', 'u*diff(v, x)', 'diff(u, x)*diff(v, x)', 'v*diff(u, x, 2)', 'sin(u*v)', 'exp(u + v)', 'u/(2 + v)',
          'x*v', 'a*u*v', 'c*v', 'int(u*v, x)', 'u*int(v, x)', 'int(u, x)*int(v, x)', 'diff(u*v, x)', 'diff(u*diff(v, x), x)', '(1 - u)*v', '1']
PARS = [dict(a=1.5, b=0.75), dict(a=0.5, b=-2.0)]
U = [P([0.4, 0.3, -0.2, 0.1]), P([-0.3, 0.5, 0.25]), P([0.2, -0.1, 0.3, 0.2, -0.15])]
W = [P([0.7, -0.5, 0.2, 0.3]), P([0.1, 0.6, -0.4]), P([1.0])]


class Comp:
    """f(2(x-a)/(b-a)-1) with derivatives."""
    def __init__(self, p, dom):
        self.q = p(P([-1.0 - 2 * dom[0] / (dom[1] - dom[0]), 2.0 / (dom[1] - dom[0])]))

    def __call__(self, x):
        return self.q(x)

    def deriv(self, k):
        return self.q.deriv(k)


class CF:
    def __call__(self, x):
        return np.cos(x)

    def deriv(self, k):
        return lambda x: np.cos(x + k * math.pi / 2)


def cases(tier):
    for di, dom in enumerate(DOMS):
        for i, t in enumerate(SCALAR):
            if di and tier == 'quick' and i % 3 != di:
                continue
            yield dict(id='scalar.d%d.%02d' % (di, i), kind='scalar', i=i, dom=dom, pairs=(di == 0) if tier == 'quick' else True, tier=tier)
        for i, t in enumerate(SYSTEM):
            if di and tier == 'quick' and i % 5 != di:
                continue
            yield dict(id='system.d%d.%02d' % (di, i), kind='system', i=i, dom=dom, step=(1 if tier != 'quick' else 3), tier=tier)
    yield dict(id='three', kind='three')
    yield dict(id='conditions', kind='conditions')
    yield dict(id='constraints', kind='constraints')
    yield dict(id='real', kind='real')
    yield dict(id='refuse', kind='refuse')
    for i in range(0, len(SCALAR)):
        yield dict(id='second.%02d' % i, kind='second', i=i)
    for n in (48, 65):
        for di in range(len(TDOMS)):
            for q in range(4):
                yield dict(id='trig.n%d.d%d.%d' % (n, di, q), kind='trig', n=n, di=di, q=q, tier=tier)


def uses(eqn, name):
    import re
    return any(re.search(r'\b%s\b' % name, e) for e in eqn)


def order_of(eqn):
    """highest derivative of an unknown the equations can contain."""
    import re
    m = 0
    for e in eqn:
        for t in re.findall(r'diff\(', e):
            m = max(m, 1)
    return m


def build(fs, eqn, bcs, dom, N, cts=(), cpar=None, colloc='ultraS', par=PARS[0]):
    from funpy.colloc.chebOp import ChebOp
    kw = {}
    if uses(list(eqn) + list(cts), 'c'):
        kw['constant_functions'] = {'c': 'lambda x: np.cos(x)'}
    if cpar:
        kw['cpar'] = cpar
    op = ChebOp(colloc, functions=list(fs), domain=list(dom), parameters=dict(par), n=N, **kw)
    op.eqn = list(eqn)
    op.bcs = list(bcs)
    op.cts = list(cts)
    return op


def state(fs, fields, dom, N, par, extra=0):
    from funpy import Fun
    from funpy.vectorspaces import DeflationState
    from numpy.polynomial import chebyshev as NC
    L = 12
    z = np.cos(np.pi * (np.arange(L) + 0.5) / L)
    cols = []
    for f in fs:
        c = NC.chebfit(z, fields[f](to_dom(z, dom)), 7)
        cols.append(np.concatenate([c, np.zeros(N - c.size)]))
    u = Fun(coeffs=np.array(cols).T, domain=np.array(dom, dtype=float), simplify=False)
    return u, DeflationState(u=u, **par)


def ultra(fn, dom, r, n, K=72):
    """first n C^r coefficients of the function values fn(x) (K points)."""
    z = np.cos(np.pi * (np.arange(K) + 0.5) / K)
    v = fn(to_dom(z, dom))
    k = np.arange(K)
    c = 2.0 / K * np.cos(np.outer(k, np.pi * (np.arange(K) + 0.5) / K)) @ v
    c[0] /= 2
    if r:
        c = CONV(K, r) @ c
    return c[:n]


_conv = {}


def CONV(K, r):
    if (K, r) not in _conv:
        _conv[K, r] = np.array([[float(v) for v in row] for row in conv_exact(K, 0, r)])
    return _conv[K, r]


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


def one(rec, lab, fs, eqn, dom, N=32, bcs=None, cts=(), hist=((0, 0), (1, 1), (0, 0))):
    """compile the operator and follow the history (state index, parameter index)."""
    fs = list(fs)
    if bcs is None:
        bcs = ['%s(%g) - %g' % (f, e, 0.25 * (i + 1)) for i, (f, e) in enumerate(itertools.product(fs, dom))]
    op = build(fs, eqn, bcs, dom, N, cts)
    xs = to_dom(ZS, dom)
    consts = {'c': jet.Field(CF())}
    texts = ['(%s)%s' % (e, ' + (%s)' % c if c else '') for e, c in itertools.zip_longest(eqn, cts)]
    for si, pi in hist:
        rec.state(lab, si, pi, dom)
        par = PARS[pi]
        fields = {f: jet.Field(Comp(U[(si + j) % 3], dom), Comp(W[(si + j + 1) % 3], dom)) for j, f in enumerate(fs)}
        u, s = state(fs, {f: fields[f].parts[0, 0] for f in fs}, dom, N, par)
        w, _ = state(fs, {f: fields[f].parts[1, 0] for f in fs}, dom, N, par)
        keep = np.array(u.coeffs)
        l2 = '%s s%dp%d' % (lab, si, pi)
        ok, d = rec.attempt(l2 + ' discretise', lambda: quiet(lambda: op.discretize(s)))
        if not ok:
            return
        ref = [jet.evaluate(t, fields, xs, dom, par, consts) for t in texts]
        # residual
        ok, r = rec.attempt(l2 + ' residual', lambda: quiet(lambda: op(s)))
        if ok:
            want = np.stack([j.a[0, 0, 0] for j in ref], axis=1)
            tol = 1e-10 * (1 + np.max(np.abs(want))) * (2 / (dom[1] - dom[0]))**2
            rec.check(tuple(r.domain) == tuple(dom), l2 + ' residual domain', got=str(r.domain))
            rec.close(np.reshape(np.asarray(r(xs)), (xs.size, -1)), want, tol, l2 + ' residual')
        # matrix
        ok, MM = rec.attempt(l2 + ' matrix', lambda: quiet(lambda: d.matrix()))
        if ok:
            M, _, Pj = MM
            nb = len(bcs)
            rdim = d.getProjOrder()
            rows = sum(N - int(q) for q in rdim)
            if rec.check(M.shape == (nb + rows, len(fs) * N), l2 + ' matrix shape', got=list(M.shape), proj=str(rdim)):
                got = np.asarray(M @ np.array(w.coeffs).flatten(order='F')).ravel()
                res = quiet(lambda: d.project_vector(d.source.rhs.values.flatten(order='F'), cts=True))
                o = nb
                for i, t in enumerate(texts):
                    r_ = int(rdim[i])
                    n_ = N - r_

                    def part(x, idx):
                        return jet.evaluate(t, fields, x, dom, par, consts).a[idx]
                    want = ultra(lambda x: part(x, (0, 1, 0)), dom, r_, n_)
                    sc = 1 + np.max(np.abs(want))
                    sl = slice(o, o + n_)
                    rec.close(got[sl], want, 1e-10 * sc * N, '%s linearisation eqn%d' % (l2, i))
                    want = ultra(lambda x: part(x, (0, 0, 0)), dom, r_, n_)
                    rec.close(res[sl], want, 1e-10 * (1 + np.max(np.abs(want))) * N, '%s projected residual eqn%d' % (l2, i))
                    o += n_
                for k, b in enumerate(bcs):
                    bv, bd = bceval(b, fields, fs, dom, par)
                    tol = 1e-10 * (1 + abs(bv) + abs(bd)) * N
                    rec.close(got[k], bd, tol, '%s condition %d' % (l2, k), bc=str(b))
                    rec.close(res[k], bv, tol, '%s condition residual %d' % (l2, k), bc=str(b))
        rec.check(np.array_equal(np.array(u.coeffs), keep) and u.coeffs.shape == keep.shape, l2 + ' state untouched')
    return op


def bceval(b, fields, fs, dom, par):
    """value and directional derivative of a (linear affine) condition given as text."""
    class Q:
        def __init__(self, parts):
            self.parts = parts

        def __call__(self, y):
            return np.array([p(y) for p in self.parts])

    class NP:
        @staticmethod
        def diff(f, n=1):
            return Q([p.deriv(n) for p in f.parts])

        @staticmethod
        def sum(f):
            return np.array([p.integ()(dom[1]) - p.integ()(dom[0]) for p in f.parts])
    ns = {f: Q([fields[f].parts[0, 0].q, fields[f].parts[1, 0].q]) for f in fs}
    z = {f: Q([P([0.0]), P([0.0])]) for f in fs}
    ns2 = dict(z)
    for n in (ns, ns2):
        n.update(par)
        n['np'] = NP
    v = np.atleast_1d(eval(b, ns))
    v0 = np.atleast_1d(eval(b, ns2))
    return float(v[0]), float((v - v0)[1])


def scalar(rec, case):
    t, dom = SCALAR[case['i']], case['dom']
    one(rec, t, ['u'], [t], dom)
    if case['pairs']:
        rest = SCALAR[case['i'] + 1:]
        for t2 in rest:
            one(rec, t + ' + ' + t2, ['u'], [t + ' + ' + t2], dom, hist=((0, 0),) if case['tier'] == 'quick' else ((0, 0), (1, 1)))
        rec.state('pairs', case['i'], dom, len(rest))


def system(rec, case):
    t, dom = SYSTEM[case['i']], case['dom']
    for j, t2 in enumerate(SYSTEM):
        if (j + case['i']) % case['step']:
            continue
        for k in ((j, (j + 7) % len(SYSTEM)) if case['tier'] != 'quick' else (j,)):
            eqn = [t, SYSTEM[j] + ' - ' + SYSTEM[k] if k != j else SYSTEM[j]]
            one(rec, '; '.join(eqn), ['u', 'v'], eqn, dom, hist=((0, 0), (1, 1)) if case['tier'] != 'quick' else ((0, 0),))


def three(rec, case):
    fs = ['u', 'v', 'w']
    L = ['diff(u, x, 2) + v*w', 'diff(v, x, 2) - u', 'diff(w, x, 2) + a*u*v*w', 'diff(w, x) + u**2', 'diff(u, x) - v', 'diff(v, x)*w + x']
    for eqn in itertools.permutations(L, 3):
        one(rec, '; '.join(eqn), fs, eqn, DOMS[1], N=24, hist=((0, 0), (1, 1)))


CONDS = ['u({a})', 'u({b}) - 1', 'np.diff(u)({a}) + 2', 'np.diff(u, 2)({b})', 'u({a}) - u({b})', 'np.diff(u)({a}) - np.diff(u)({b})', '2*u({m}) + np.diff(u)({m}) - 3', 'np.sum(u) - 1', 'u({a}) + np.sum(u)',
         'u({a}) - a', 'a*u({b}) - b', 'np.sum(np.diff(u)) + u({m})']
CONDS2 = ['u({a}) - v({b})', 'v({a}) - 1', 'np.diff(v)({b}) + u({a})', 'np.sum(v) - np.sum(u)', 'u({a}) + 1', 'np.diff(u)({b}) - a*v({b})']


def conditions(rec, case):
    for dom in DOMS:
        m = dict(a=repr(dom[0]), b=repr(dom[1]), m=repr(0.75 * dom[0] + 0.25 * dom[1]))
        C = [c.format(**m) for c in CONDS]
        for N in (16, 17, 24):
            for c1, c2 in itertools.permutations(C, 2) if N == 16 else [(C[0], C[1])] + [(c, C[0]) for c in C[1:]]:
                one(rec, 'bc %s; %s' % (c1, c2), ['u'], ['diff(u, x, 2) + u**2'], dom, N=N, bcs=[c1, c2], hist=((0, 0), (1, 1)))
        C = [c.format(**m) for c in CONDS2]
        for cs in itertools.permutations(C, 2):
            one(rec, 'bc2 %s; %s' % cs, ['u', 'v'], ['diff(u, x) + v', 'diff(v, x) - u*v'], dom, N=16, bcs=list(cs), hist=((0, 0), (1, 1)))
        # the same conditions as python callables
        for c1, c2 in itertools.combinations([c for c in (q.format(**m) for q in CONDS) if ' a' not in c and 'a*' not in c], 2):
            callables(rec, 'bc callable %s; %s' % (c1, c2), ['u'], ['diff(u, x, 2) + u**2'], dom, [c1, c2])
        for c1, c2 in itertools.combinations([c for c in C if 'a*' not in c], 2):
            callables(rec, 'bc callable2 %s; %s' % (c1, c2), ['u', 'v'], ['diff(u, x) + v', 'diff(v, x) - u*v'], dom, [c1, c2])
        # zero, one, three conditions
        one(rec, 'no bc', ['u'], ['u**2 - x'], dom, bcs=[])
        one(rec, 'one bc', ['u'], ['diff(u, x) + u'], dom, bcs=['u(%r) - 1' % dom[0]])
        one(rec, 'three bc', ['u'], ['diff(u, x, 3) + u'], dom, bcs=['u(%r) - 1' % dom[0], 'u(%r)' % dom[1], 'np.diff(u)(%r)' % dom[0]])


def callables(rec, lab, fs, eqn, dom, texts):
    N = 16
    op = build(fs, eqn, [eval('lambda %s: %s' % (', '.join(fs), t), {'np': np}) for t in texts], dom, N)
    fields = {f: jet.Field(Comp(U[j], dom), Comp(W[j], dom)) for j, f in enumerate(fs)}
    u, s = state(fs, {f: fields[f].parts[0, 0] for f in fs}, dom, N, PARS[0])
    w, _ = state(fs, {f: fields[f].parts[1, 0] for f in fs}, dom, N, PARS[0])
    rec.state(lab, dom)
    ok, r = rec.attempt(lab, lambda: quiet(lambda: (lambda d: (d.matrix()[0], d.project_vector(d.source.rhs.values.flatten(order='F'), cts=True)))(op.discretize(s))))
    if ok:
        got = np.asarray(r[0] @ np.array(w.coeffs).flatten(order='F')).ravel()
        for k, b in enumerate(texts):
            bv, bd = bceval(b, fields, fs, dom, {})
            rec.close(got[k], bd, 1e-10 * (1 + abs(bd) + abs(bv)) * N, lab + ' row')
            rec.close(r[1][k], bv, 1e-10 * (1 + abs(bv)) * N, lab + ' residual')


def constraints(rec, case):
    E = ['diff(u, x, 2)', 'diff(u, x, 2) + u**2', 'u*diff(u, x)', 'diff(u, x, 2) + int(u, x)']
    C = ['int(u, x) - 1', 'int(u**2, x) - a', 'u', 'x*int(u, x)', 'int(x*u, x) - b*x', '1', 'u**2 - x']
    for dom in DOMS[:2]:
        for e, c in itertools.product(E, C):
            one(rec, '%s | %s' % (e, c), ['u'], [e], dom, cts=[c])
        for c1, c2 in itertools.product(['int(u, x) - 1', 'v', '', 'u*v', 'int(v, x)'], repeat=2):
            if c1 or c2:
                one(rec, 'sys | %s | %s' % (c1, c2), ['u', 'v'], ['diff(u, x, 2) + v', 'diff(v, x, 2) - u*v'], dom, cts=[c1, c2], hist=((0, 0), (1, 1)))


def real(rec, case):
    """one coefficient: functions are numbers."""
    from funpy import Fun
    from funpy.vectorspaces import DeflationState
    T = ['u', 'u**2', 'a*u - u**3', 'exp(u)', 'u/(1 + u**2)', '(u - a)*(u + b)', 'sin(u)']
    S2 = [('u*v - 1', 'u**2 - v'), ('a*u + v', 'u - b*v**2'), ('exp(u*v)', 'sin(v) - u'), ('v', 'u')]
    for eqn in [(t,) for t in T] + S2:
        fs = ['u', 'v'][:len(eqn)]
        for pi, vals in itertools.product((0, 1), ((0.5, -0.75), (1.25, 0.3))):
            lab = 'real %s p%d %g' % ('; '.join(eqn), pi, vals[0])
            rec.state(lab)
            op = build(fs, eqn, [], (-1.0, 1.0), 1, par=PARS[pi])
            u = Fun(coeffs=np.array([vals[:len(fs)]]), domain=[-1, 1], simplify=False)
            s = DeflationState(u=u, **PARS[pi])
            ok, r = rec.attempt(lab, lambda: quiet(lambda: (lambda d: (d.matrix()[0], np.array(d.source.rhs.values)))(op.discretize(s))))
            if not ok:
                continue
            x = np.zeros(1)
            for i, t in enumerate(eqn):
                for j, f in enumerate(fs):
                    fl = {g: jet.Field(P([vals[q]]), P([1.0]) if q == j else None) for q, g in enumerate(fs)}
                    J = jet.evaluate(t, fl, x, (-1.0, 1.0), PARS[pi])
                    rec.close(np.asarray(r[0].todense())[i, j], J.a[0, 1, 0, 0], 1e-12 * (1 + abs(J.a[0, 1, 0, 0])), lab + ' jacobian %d%d' % (i, j))
                rec.close(r[1][0, i], J.a[0, 0, 0, 0], 1e-12 * (1 + abs(J.a[0, 0, 0, 0])), lab + ' residual %d' % i)


def refuse(rec, case):
    """a state on another domain is refused."""
    for dom, other in itertools.permutations(DOMS, 2):
        op = build(['u'], ['diff(u, x, 2) + u'], ['u(%r)' % dom[0], 'u(%r)' % dom[1]], dom, 16)
        u, s = state(['u'], {'u': P([1.0, 2.0])}, other, 16, PARS[0])
        rec.state('refuse', dom, other)
        rec.rejects('state on another domain', lambda: quiet(lambda: op.discretize(s)), dom=dom, other=other)


def second(rec, case):
    """parameter derivative, action, second derivative and mixed derivative used by continuation."""
    t = SCALAR[case['i']]
    dom = DOMS[1]
    xs = to_dom(ZS, dom)
    consts = {'c': jet.Field(CF())}
    N = 32
    sys2 = [t, SYSTEM[case['i'] % len(SYSTEM)]]
    for fs, eqn, cts in ((['u'], [t], ()), (['u'], [t + ' + a*u'], ()), (['u', 'v'], sys2, ()), (['u', 'v'], ['a*v + ' + sys2[0], 'b*u**2*v + ' + sys2[1]], ()),
                         (['u'], ['diff(u, x, 2) + a*u'], [t + ' + a*b*u**2']), (['u', 'v'], ['diff(u, x, 2) + a*v', 'diff(v, x, 2) - b*u'], ['a*b**2 + ' + sys2[1], ''])):
        full = ['(%s)%s' % (e, ' + (%s)' % c if c else '') for e, c in itertools.zip_longest(eqn, cts)]
        for fold in (False, True):
            if fold and 'int(' in ' '.join(full):
                continue
            for cp in ('a', 'b'):
                lab = 'par %s d%s%s' % ('; '.join(full), cp, ' fold' if fold else '')
                bcs = ['%s(%g)' % (f, e) for f, e in itertools.product(fs, dom)]
                op = build(fs, eqn, bcs, dom, N, cts, cpar=[cp])
                ok, _ = rec.attempt(lab + ' compile', lambda: quiet(lambda: op.compile(par=True, fold=fold)))
                if not ok:
                    continue
                for si, pi in ((0, 0), (1, 1)):
                    par = PARS[pi]
                    rec.state(lab, si)
                    F = {f: (Comp(U[(si + j) % 3], dom), Comp(W[(si + j) % 3], dom), Comp(W[(si + j + 1) % 3], dom)) for j, f in enumerate(fs)}
                    u, s = state(fs, {f: F[f][0] for f in fs}, dom, N, par)
                    w, _ = state(fs, {f: F[f][1] for f in fs}, dom, N, par)
                    q, _ = state(fs, {f: F[f][2] for f in fs}, dom, N, par)
                    ok, d = rec.attempt(lab + ' discretise', lambda: quiet(lambda: op.discretize(s)))
                    if not ok:
                        break
                    L = op.linSys
                    f0 = {f: jet.Field(F[f][0]) for f in fs}
                    dp = dict(par)
                    dp[cp] = (par[cp], (1, 0))
                    want = np.stack([jet.evaluate(e, f0, xs, dom, dp, consts).a[0, 1, 0] for e in full], axis=1)
                    val(rec, lab + ' dF/dp', lambda: L.pDer(u, cp), xs, want)
                    if not fold:
                        continue
                    f2 = {f: jet.Field(F[f][0], F[f][1], F[f][2]) for f in fs}
                    R = [jet.evaluate(e, f2, xs, dom, par, consts) for e in full]
                    val(rec, lab + ' action', lambda: L.df(u, w), xs, np.stack([r.a[0, 1, 0] for r in R], axis=1))
                    val(rec, lab + ' second derivative', lambda: L.ddx(u, w, q), xs, np.stack([r.a[0, 1, 1] for r in R], axis=1))
                    f1 = {f: jet.Field(F[f][0], F[f][1]) for f in fs}
                    dp[cp] = (par[cp], (0, 1))
                    want = np.stack([jet.evaluate(e, f1, xs, dom, dp, consts).a[0, 1, 1] for e in full], axis=1)
                    val(rec, lab + ' mixed derivative', lambda: L.dxdp(u, w, cp), xs, want)


def val(rec, lab, fn, xs, want):
    ok, r = rec.attempt(lab, lambda: quiet(fn))
    if ok:
        ok, v = rec.attempt(lab + ' values', lambda: np.reshape(np.asarray(r(xs)), (xs.size, -1)))
        if ok:
            rec.close(v, want, 1e-9 * (1 + np.max(np.abs(want))), lab)


class TC:
    """sum of a_k cos(k w (x - s)) + b_k sin(k w (x - s)), w = 2 pi / length, s = left end."""
    def __init__(self, a, b, dom):
        self.a, self.b, self.s, self.w = a, b, dom[0], 2 * math.pi / (dom[1] - dom[0])

    def __call__(self, x):
        return self.deriv(0)(x)

    def deriv(self, m):
        def f(x):
            t = self.w * (np.asarray(x) - self.s)
            q = m * math.pi / 2
            return sum(c * (k * self.w)**m * np.cos(k * t + q) for k, c in enumerate(self.a)) + sum(c * (k * self.w)**m * np.sin(k * t + q) for k, c in enumerate(self.b))
        return f


TDOMS = [(0.0, 2 * math.pi), (-1.0, 1.0), (1.0, 4.0)]
TU = [([0.3, 0.2, 0.1], [0, -0.3]), ([-0.2, 0.25], [0, 0.1, 0.2]), ([0.1, 0.0, 0.2], [0, 0.3])]
TW = [([0.5, -0.4], [0, 0.3, 0.2]), ([0.2, 0.1, 0.3], [0, 0.7]), ([1.0], [0])]
NOPER = ('x*u', 'x**2', 'sin(x)', 'exp(x)', 'a*x', 'int(x*', 'x*int', 'diff((1 + x', 'x*v')


def periodic(t):
    return t != 'x' and not any(q in t for q in NOPER)


def fcoef(f, dom, N, K=128):
    x = dom[0] + (dom[1] - dom[0]) * np.arange(K) / K
    k = np.arange(N) - N // 2
    # the Fourier variable is centred: exp(i k pi z), z in [-1, 1]
    return np.exp(-1j * np.pi * np.outer(k, 2 * np.arange(K) / K - 1)) @ f(x) / K


def tone(rec, lab, fs, eqn, dom, N, hist=((0, 0), (1, 1), (0, 0))):
    from funpy import Fun
    from funpy.vectorspaces import DeflationState
    from funpy.colloc.chebOp import ChebOp
    L = dom[1] - dom[0]
    kw = {}
    if uses(eqn, 'c'):
        kw['constant_functions'] = {'c': 'lambda x: np.cos(2*np.pi*(x - %r)/%r)' % (dom[0], L)}
    op = ChebOp('trigspec', functions=list(fs), domain=list(dom), parameters=dict(PARS[0]), n=N, **kw)
    op.eqn, op.bcs, op.cts = list(eqn), [], []
    consts = {'c': jet.Field(TC([0, 1.0], [0], dom))}
    xs = dom[0] + L * np.array([0.0, 0.13, 0.37, 0.5, 0.71, 0.93])
    for si, pi in hist:
        rec.state(lab, si, pi, dom, N)
        par = PARS[pi]
        fields = {f: jet.Field(TC(*TU[(si + j) % 3], dom), TC(*TW[(si + j + 1) % 3], dom)) for j, f in enumerate(fs)}

        def fun(e):
            return Fun(coeffs=np.stack([fcoef(fields[f].parts[e, 0], dom, N) for f in fs], axis=1), domain=np.array(dom, dtype=float), type='trig', simplify=False)
        u, w = fun(0), fun(1)
        keep = np.array(u.coeffs)
        s = DeflationState(u=u, **par)
        l2 = '%s trig N%d s%dp%d' % (lab, N, si, pi)
        ok, d = rec.attempt(l2 + ' discretise', lambda: quiet(lambda: op.discretize(s)))
        if not ok:
            return
        ok, r = rec.attempt(l2 + ' residual', lambda: quiet(lambda: op(s)))
        if ok:
            want = np.stack([jet.evaluate(t, fields, xs, dom, par, consts).a[0, 0, 0] for t in eqn], axis=1)
            rec.close(np.reshape(np.asarray(r(xs)), (xs.size, -1)), want, (3e-9 if 'x, 4' in lab else 1e-10) * (1 + np.max(np.abs(want))) * max(1, (6.3 / L))**2, l2 + ' residual')
            rec.check(bool(r.istrig), l2 + ' residual is periodic')
        ok, MM = rec.attempt(l2 + ' matrix', lambda: quiet(lambda: d.matrix()))
        if ok:
            M, n = MM[0], len(fs) * N
            if rec.check(M.shape == (n, n), l2 + ' matrix shape', got=list(M.shape)):
                got = np.asarray(M @ np.array(w.coeffs).flatten(order='F')).ravel()
                ok, res = rec.attempt(l2 + ' rhs', lambda: quiet(lambda: d.project_vector(d.source.rhs.values.flatten(order='F'), cts=True)))
                for i, t in enumerate(eqn):
                    want = fcoef(lambda x: jet.evaluate(t, fields, x, dom, par, consts).a[0, 1, 0], dom, N)
                    sc = (1e-8 if 'x, 4' in lab else 1e-10) * (1 + np.max(np.abs(want))) * N
                    rec.close(got[i * N:(i + 1) * N], want, sc, '%s linearisation eqn%d' % (l2, i))
        rec.check(np.array_equal(np.array(u.coeffs), keep), l2 + ' state untouched')


def trig(rec, case):
    N, tier = case['n'], case['tier']
    T = [t for t in SCALAR if periodic(t)]
    for di, dom in [(case['di'], TDOMS[case['di']])]:
        for i, t in enumerate(T):
            if i % 4 != case['q'] or tier == 'quick' and (i // 4 + di) % 3 and N != 65:
                continue
            tone(rec, t, ['u'], [t], dom, N)
            for j in range(i + 1, len(T)):
                if (i + j + di) % (43 if tier == 'quick' else 3) == 0:
                    tone(rec, t + ' + ' + T[j], ['u'], [t + ' + ' + T[j]], dom, N, hist=((0, 0),))
        S = [t for t in SYSTEM if periodic(t)]
        for i, t in enumerate(S):
            for j, t2 in enumerate(S):
                if i % 4 == case['q'] and (i + j + di) % (17 if tier == 'quick' else 2) == 0:
                    tone(rec, t + '; ' + t2, ['u', 'v'], [t, t2], dom, N, hist=((0, 0), (1, 1)))


def run(case, rec):
    {'scalar': scalar, 'system': system, 'three': three, 'conditions': conditions, 'constraints': constraints, 'real': real, 'refuse': refuse, 'second': second, 'trig': trig}[case['kind']](rec, case)
