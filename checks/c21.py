"""C21: solved boundary-value problems satisfy equation and conditions."""
import contextlib
import io
import itertools
import re
import warnings

import numpy as np
import sympy
from numpy.polynomial import chebyshev as NC

ID = 'C21'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of a family of boundary-value problems (order x coefficients x exact solution x condition layout x domain) x solver variants x guesses x resolutions, and of all words of solver calls up to length 3, on the real code; the oracle is the manufactured solution and the pointwise residual of the equation'
RULE = 'every problem of the family whose conditions determine the solution (condition number of the conditions on the fundamental solutions below 1e3, computed independently), with every listed variant; one state per solve, one transition per call. Non-trivial: the solve reported success'
ASSUMPTIONS = ['smooth coefficients without zeros of the leading coefficient', 'for a nonlinear problem the solution found is not predicted, only that a success satisfies the equation',
               'whether a nonlinear solve from a far start succeeds is not claimed',
               'op.n_disc records the last resolution used and is not part of the operator that must not change']
LIMIT = 300

X = sympy.Symbol('x')
DOMS = [(-1.0, 1.0), (0.0, 2.0), (1.0, 4.0)]
EX = ['x**3 - x/2', 'exp(-x)', 'sin(3*x)', '1/(x + 3)']
COEF = ['0', '1', '-1', 'x', 'cos(x)', '1/(x + 4)']
LEAD = ['1', '2 + sin(x)', '-3']
LAYOUT = ['left', 'right', 'both', 'neumann', 'robin', 'integral', 'middle']
METHODS = ['giant', 'nleq', 'qnerr', 'lu', 'qr']


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            return f()


# ---------------------------------------------------------------- problems
class Problem:
    """ templates over D(u, k), exact solutions as strings, functionals as (kind, variable, ...) """

    def __init__(self, names, eqn, bcs, exact, dom, forced=True, pars=None):
        self.names, self.dom, self.pars = names, dom, dict(pars or {})
        self.exact = [sympy.sympify(e) for e in exact]
        env = dict(zip(names, self.exact))
        env.update({k: sympy.Float(v) for k, v in self.pars.items()})
        env.update(x=X, D=lambda e, k: sympy.diff(e, X, k), sin=sympy.sin, cos=sympy.cos, exp=sympy.exp, pi=sympy.pi)
        self.template = []
        for t in eqn:
            if forced:
                rhs = sympy.expand(eval(t, dict(env)))
                t = '%s - (%s)' % (t, sympy.sstr(rhs)) if rhs != 0 else t
            self.template.append(t)
        self.eqn = [re.sub(r'D\((\w+), (\d)\)', r'diff(\1, x, \2)', t) for t in self.template]
        self.bcs_def = bcs
        self.bcs = [self.bc_string(b) for b in bcs]
        self.funcs = [sympy.lambdify(X, e, 'numpy') for e in self.exact]
        self.bcval = [self.bc_value(b) for b in bcs]

    def bc_value(self, b):
        """ the exact value of a functional of the exact solution """
        val = sympy.Float(0)
        for w, kind, nm, arg in b:
            e = self.exact[self.names.index(nm)]
            if kind == 'd':
                val += w * sympy.diff(e, X, arg[0]).subs(X, sympy.Float(arg[1], 30)).evalf(30)
            else:
                val += w * sympy.Integral(e, (X, *self.dom)).evalf(30)
        return float(val)

    def bc_string(self, b):
        """ b = list of (weight, kind, name, arg) """
        terms = []
        for w, kind, nm, arg in b:
            if kind == 'd':
                k, p = arg
                terms.append('%r*%s(%r)' % (w, nm if k == 0 else 'np.diff(%s%s)' % (nm, '' if k == 1 else ', %d' % k), p))
            else:
                terms.append('%r*np.sum(%s)' % (w, nm))
        val = self.bc_value(b)
        return ' + '.join(terms) + (' - (%r)' % val if val != 0 else '')

    def apply_bc(self, b, C):
        a, L = self.dom[0], self.dom[1] - self.dom[0]
        out = 0.0
        for w, kind, nm, arg in b:
            c = C[self.names.index(nm)]
            if kind == 'd':
                k, p = arg
                out += w * NC.chebval(2 * (p - a) / L - 1, NC.chebder(c, k) if k else c) * (2 / L)**k
            else:
                I = NC.chebint(c, lbnd=-1)
                out += w * NC.chebval(1.0, I) * L / 2
        return out

    def residuals(self, C, zs):
        """ pointwise residual of the equations for coefficients C """
        a, L = self.dom[0], self.dom[1] - self.dom[0]
        xs = a + (zs + 1) * L / 2

        class V(np.ndarray):
            pass

        env = dict(x=xs, sin=np.sin, cos=np.cos, exp=np.exp, pi=np.pi)
        vals = {}
        for nm, c in zip(self.names, C):
            for k in range(5):
                vals[nm, k] = NC.chebval(zs, NC.chebder(c, k) if k else c) * (2 / L)**k
        env.update(self.pars)
        out = []
        for t in self.template:
            s = re.sub(r'D\((\w+), (\d)\)', lambda m: '_d_%s_%s' % m.groups(), t)
            e = dict(env)
            e.update({'_d_%s_%d' % k: v for k, v in vals.items()})
            e.update({nm: vals[nm, 0] for nm in self.names})
            out.append(eval(s, {}, e) + 0 * zs)
        return out

    def op(self, n=33, colloc='ultraS', **k):
        from funpy.colloc.chebOp import ChebOp
        if self.pars:
            k['parameters'] = dict(self.pars)
        op = ChebOp(colloc, functions=list(self.names), domain=list(self.dom), n=n, **k)
        op.eqn = list(self.eqn)
        op.bcs = list(self.bcs)
        return op


def layout(kind, r, dom, nm='u'):
    a, b = dom
    d = lambda k, p: (1.0, 'd', nm, (k, p))
    left = [[d(k, a)] for k in range(r)]
    if kind == 'left':
        return left
    if kind == 'right':
        return [[d(k, b)] for k in range(r)]
    if kind == 'both':
        return [[d(k // 2, (a, b)[k % 2])] for k in range(r)]
    if kind == 'neumann':
        return [[d(1 + k // 2, (a, b)[k % 2])] for k in range(r)] if r > 1 else None
    if kind == 'robin':
        return [[d(k // 2, (a, b)[k % 2]), (.5 if k % 2 else -2., 'd', nm, (1 + k // 2, (a, b)[k % 2]))] for k in range(r)] if r > 1 else None
    if kind == 'integral':
        return left[:-1] + [[(1.0, 'i', nm, None)]]
    if kind == 'middle':
        return left[:-1] + [[d(0, a + .375 * (b - a))]]


def well_posed(P, coefs, r):
    """ condition number of the conditions on the fundamental solutions (collocation, N = 40) """
    a, L = P.dom[0], P.dom[1] - P.dom[0]
    N = 40
    z = np.cos(np.pi * (np.arange(N - r) + .5) / (N - r))
    xs = a + (z + 1) * L / 2
    A = np.zeros((N, N))
    for k, c in enumerate(coefs):
        cv = sympy.lambdify(X, sympy.sympify(c), 'numpy')(xs) + 0 * xs
        V = np.array([NC.chebval(z, NC.chebder(np.eye(N)[j], k) if k else np.eye(N)[j]) + 0 * z for j in range(N)]).T * (2 / L)**k
        A[:N - r] += cv[:, None] * V
    for k in range(r):
        A[N - r + k] = [NC.chebval(-1.0, NC.chebder(np.eye(N)[j], k) if k else np.eye(N)[j]) * (2 / L)**k for j in range(N)]
    F = np.linalg.solve(A, np.vstack([np.zeros((N - r, r)), np.eye(r)]))
    M = np.array([[P.apply_bc(b, [F[:, j]]) for j in range(r)] for b in P.bcs_def])
    return np.linalg.cond(M)


def linear(r, lead, low, ex, lay, dom):
    """ lead*D^r u + sum low_k D^k u """
    b = layout(lay, r, dom)
    if b is None:
        return None
    t = ' + '.join(['(%s)*D(u, %d)' % (lead, r)] + ['(%s)*%s' % (c, 'D(u, %d)' % k if k else 'u')
                                                    for k, c in enumerate(low) if c != '0'])
    P = Problem(['u'], [t], b, [ex], dom)
    P.cond = well_posed(P, list(low) + ['0'] * (r - len(low)) + [lead], r)
    return P


def systems(dom):
    a, b = dom
    d = lambda nm, k, p: [(1.0, 'd', nm, (k, p))]
    yield 'rot', Problem(['u', 'v'], ['D(u, 1) + v', 'D(v, 1) - u'], [d('u', 0, a), d('v', 0, a)], ['cos(x)', 'sin(x)'], dom)
    yield 'rotB', Problem(['u', 'v'], ['D(u, 1) + v', 'D(v, 1) + x*v'], [d('u', 0, a), d('v', 0, b)], ['cos(x)', 'exp(-x)'], dom)
    yield 'cross', Problem(['u', 'v'], ['D(v, 1) + u', 'D(u, 1) + x*v'], [d('u', 0, b), d('v', 0, a)], ['sin(2*x)', 'x**2'], dom)
    yield 'coupled', Problem(['u', 'v'], ['D(u, 2) - u + D(v, 1)', 'D(v, 2) + 2*D(u, 1) - v'], [d('u', 0, a), d('u', 0, b), d('v', 0, a), d('v', 0, b)], ['sin(2*x)', 'x**2'], dom)
    yield 'mixed', Problem(['u', 'v'], ['D(u, 2) - u + v', 'D(v, 1) + 2*u'], [d('u', 0, a), d('u', 0, b), d('v', 0, a)], ['sin(2*x)', 'x**2'], dom)
    yield 'algebraic', Problem(['u', 'v'], ['D(u, 1) + v', 'v - 2*u'], [d('u', 0, a)], ['exp(-x)', 'x**2 - 1'], dom)
    yield 'second', Problem(['u', 'v'], ['D(u, 2) + v', 'D(v, 2) + u + v'], [d('u', 1, a), d('u', 0, b), d('v', 0, a), d('v', 1, b)], ['exp(-x)', 'cos(x)'], dom)
    yield 'three', Problem(['u', 'v', 'w'], ['D(u, 1) - v', 'D(v, 1) - w', 'D(w, 1) + u'], [d('u', 0, a), d('v', 0, a), d('w', 0, a)], ['sin(x)', 'x**2', 'exp(-x)'], dom)
    yield 'joint', Problem(['u', 'v'], ['D(u, 1) + v', 'D(v, 1) - u'], [[(1.0, 'd', 'u', (0, a)), (1.0, 'd', 'v', (0, b))], [(1.0, 'i', 'u', None)]], ['x**2', 'exp(-x)'], dom)


NL = ['D(u, 1) + u**2', 'D(u, 1) + sin(u)', 'D(u, 2) + u**3', 'D(u, 2) - exp(u)', 'D(u, 2) + u*D(u, 1)',
      'D(u, 2) + D(u, 1)**2', '(1 + u**2)*D(u, 2) + u', 'D(u, 1)*u + u - x*u', 'D(u, 2) - u/(2 + u**2)']


def nonlinear(t, ex, lay, dom):
    r = 2 if 'D(u, 2)' in t else 1
    b = layout(lay, r, dom)
    return None if b is None else Problem(['u'], [t], b, [ex], dom)


# ---------------------------------------------------------------- deciding one solve
def coeffs(soln, m):
    from funpy import Fun
    return [np.asarray(soln[i].coeffs, float).reshape(soln[i].shape[0], -1)[:, 0] for i in range(m)]


ZS = np.cos(np.pi * (np.arange(41) + .3) / 41.2)


def judge(rec, P, lab, out, eps=None, linear=True, must=True, limit=1.0, resolved=True):
    """ a success satisfies conditions and equations; a linear problem is solved """
    soln, ok, res = out
    rec.check(ok in (True, False), lab + ' verdict is no truth value', got=repr(ok))
    if must:
        rec.check(bool(ok), lab + ' not solved', res=float(res))
    if not ok:
        return False
    eps = eps or 4.4e-13
    tol = limit * max(200 * eps, 2e-10)
    m = len(P.names)
    if not rec.check(soln.shape[1] == m and np.allclose(soln.domain, P.dom), lab + ' shape or domain'):
        return False
    C = coeffs(soln, m)
    S = max(1.0, max(np.abs(f).max() for f in [NC.chebval(ZS, c) for c in C]))
    for b, s, w in zip(P.bcs_def, P.bcs, P.bcval):
        k = max([t[3][0] for t in b if t[1] == 'd'] + [0])
        rec.close(P.apply_bc(b, C), w, 20 * tol * S * 10**k, lab + ' condition %s' % s)
    # the value
    if linear:
        for i, f in enumerate(P.funcs):
            a, L = P.dom[0], P.dom[1] - P.dom[0]
            rec.close(NC.chebval(ZS, C[i]), f(a + (ZS + 1) * L / 2) + 0 * ZS, 10 * tol * S * getattr(P, 'cond', 10), lab + ' solution %s' % P.names[i])
    n = max(len(c) for c in C)
    order = max([int(k) for t in P.template for k in re.findall(r'D\(\w+, (\d)\)', t)] + [0])
    amp = (2 / (P.dom[1] - P.dom[0]))**order * n**max(0, 2 * order - 1)
    if not resolved and max(np.abs(c[3 * len(c) // 4:]).max() for c in C) > 1e-9 * S:
        # at a fixed resolution the discrete equations hold, this function needs more of them
        return True
    for i, r in enumerate(P.residuals(C, ZS)):
        rec.close(r, 0 * r, 50 * tol * S * getattr(P, 'cond', 10) * max(1.0, amp / 100), lab + ' equation %d' % i)
    return True


def snapshot(f):
    return None if f is None else np.array(f.coeffs, copy=True)


class Singular(Exception):
    pass


def solve(rec, P, lab, op, guess=None, singular=False, **k):
    rec.step()
    before = snapshot(guess)

    def call():
        try:
            return quiet(lambda: op.solve(guess, **k))
        except (RuntimeError, np.linalg.LinAlgError) as e:
            if singular and 'singular' in str(e):
                return None
            raise

    ok, out = rec.attempt(lab, call)
    if ok and out is None:
        raise Singular()
    if before is not None:
        a = np.asarray(guess.coeffs)
        rec.check(a.shape == before.shape and np.array_equal(a, before), lab + ' changed the guess')
    rec.check(op.eqn == P.eqn and op.bcs == P.bcs and list(op.domain) == list(P.dom)
              and op.parameter_names == P.pars, lab + ' changed the operator')
    return out if ok else None


# ---------------------------------------------------------------- cases
def cases(tier):
    big = tier != 'quick'
    for di in range(len(DOMS)):
        for r in (1, 2, 3, 4):
            for li in range(len(LEAD)):
                for lay in LAYOUT:
                    yield dict(id='linear.d%d.r%d.l%d.%s' % (di, r, li, lay), kind='lin', di=di, r=r, li=li, lay=lay, big=big)
        for lay in ('left', 'both', 'robin', 'integral'):
            for i in range(len(NL)):
                yield dict(id='nonlinear.d%d.%d.%s' % (di, i, lay), kind='nl', di=di, i=i, lay=lay, big=big)
        for i in range(9):
            yield dict(id='system.d%d.%d' % (di, i), kind='system', di=di, i=i, big=big)
    for i in range(len(PERIODIC)):
        for di in range(len(TDOMS)):
            yield dict(id='periodic.%d.d%d' % (i, di), kind='periodic', i=i, di=di, big=big)
    for fam in range(4):
        for up in (1, 2, 3, 4, 6):
            yield dict(id='levels.%d.up%d' % (fam, up), kind='levels', fam=fam, up=up, big=big)
    for i in range(len(HIST)):
        for first in range(len(OPS) if big else 7):
            yield dict(id='history.%d.%d' % (i, first), kind='history', i=i, first=first, big=big)
    for i in range(5):
        yield dict(id='guess.%d' % i, kind='guess', i=i, big=big)
    for i in range(3):
        yield dict(id='residual.%d' % i, kind='residual', i=i, big=big)


def run(case, rec):
    globals()[case['kind']](rec, case)


def lin(rec, case):
    """ linear scalar problems """
    dom, r, lead, lay, big = DOMS[case['di']], case['r'], LEAD[case['li']], case['lay'], case['big']
    lows = [c for c in itertools.product(COEF, repeat=min(r, 2))]
    k0 = (case['di'] * 7 + case['li'] * 3 + LAYOUT.index(lay) + r)
    step = 1 if (big and r == 1) else 5 if big or r == 1 else 17
    for j in range(k0 % step, len(lows), step):
        ex = EX[(j + k0) % len(EX)]
        P = linear(r, lead, lows[j], ex, lay, dom)
        if P is None or P.cond > 1e3:
            rec.state('skipped', dom, r, lead, lows[j], lay)
            continue
        nm = 'r%d lead=%s low=%s %s %s u=%s' % (r, lead, lows[j], lay, dom, ex)
        variants = [(True, METHODS[(j + k0) % 5], None), (False, METHODS[(j + k0 + 2) % 5], None)]
        if big:
            variants += [(True, METHODS[(j + k0 + 1) % 5], 1e-8), (False, METHODS[(j + k0 + 3) % 5], None)]
        op = P.op(n=33)
        for ad, meth, eps in variants:
            rec.state('linear', dom, r, lead, lows[j], ex, lay, ad, meth, eps)
            lab = '%s %s %s%s' % (nm, 'adaptive' if ad else 'fixed', meth, '' if eps is None else ' eps=%g' % eps)
            kw = {} if eps is None else dict(eps=eps)
            if not ad:
                op.setDisc(33)
            out = solve(rec, P, lab, op, adaptive=ad, method=meth, **kw)
            if out is not None:
                judge(rec, P, lab, out, eps=eps)


def system(rec, case):
    dom, big = DOMS[case['di']], case['big']
    nm, P = list(systems(dom))[case['i']]
    P.cond = 20
    for k, meth in enumerate(METHODS):
        for ad in (True, False):
            for n in (33, 40) if not ad else (15,):
                rec.state('system', nm, dom, meth, ad, n)
                lab = 'system %s %s %s %s n=%d' % (nm, dom, 'adaptive' if ad else 'fixed', meth, n)
                op = P.op(n=n)
                if nm in ('mixed', 'algebraic'):
                    # equations of different order are not supported: rejected, never solved wrongly
                    rec.step()
                    try:
                        out = quiet(lambda: op.solve(adaptive=ad, method=meth))
                    except ValueError:
                        continue
                    judge(rec, P, lab, out, must=False)
                    continue
                out = solve(rec, P, lab, op, adaptive=ad, method=meth)
                if out is not None:
                    judge(rec, P, lab, out)


def nl(rec, case):
    """ nonlinear problems: a success satisfies everything; starting from the solution it succeeds """
    from funpy import Fun
    dom, t, lay, big = DOMS[case['di']], NL[case['i']], case['lay'], case['big']
    for ei, ex in enumerate(EX):
        if not big and (ei + case['i'] + case['di']) % 2:
            continue
        P = nonlinear(t, ex, lay, dom)
        if P is None:
            return
        P.cond = 50
        f = P.funcs[0]
        op = P.op(n=33)
        for k, meth in enumerate(METHODS):
            if not big and (k + ei + case['i'] + case['di']) % 5 not in (0, 2):
                continue
            for ad in (True, False):
                for start in ('near', 'zero'):
                    if not ad:
                        op.setDisc(33)
                    rec.state('nonlinear', t, ex, lay, dom, meth, ad, start)
                    lab = '%s u=%s %s %s %s %s from %s' % (t, ex, lay, dom, 'adaptive' if ad else 'fixed', meth, start)
                    g = Fun(op=lambda x: f(x) * 1.001 + 0 * x, domain=list(dom)) if start == 'near' else None
                    try:
                        out = solve(rec, P, lab, op, g, adaptive=ad, method=meth, singular=True, up_steps=5 if big else 4)
                    except Singular:
                        continue            # diverged into an exactly singular matrix: failure is reported
                    if out is not None:
                        judge(rec, P, lab, out, linear=False, must=False, resolved=ad)


TDOMS = [(0.0, 2 * np.pi), (-1.0, 1.0), (1.0, 4.0)]
PERIODIC = [('D(u, 2) - u', 'cos(w*x)'), ('D(u, 1) + u', 'cos(w*x) + sin(2*w*x)'), ('D(u, 2) - 2*u', 'exp(cos(w*x))'),
            ('D(u, 2) - (2 + cos(w*x))*u', 'sin(w*x)'), ('D(u, 2) - u - u**3', 'cos(w*x)'),
            ('D(u, 4) + D(u, 1) + u', 'cos(3*w*x)')]


def periodic(rec, case):
    from funpy import Fun
    dom = TDOMS[case['di']]
    w = 2 * np.pi / (dom[1] - dom[0])
    t, ex = PERIODIC[case['i']]
    ws = '%r' % w
    P = Problem(['u'], [t.replace('w*x', ws + '*x')], [], [ex.replace('w*x', ws + '*x')], dom)
    nonl = '**3' in t
    f = P.funcs[0]
    zs = np.linspace(-1, 1, 41)
    xs = dom[0] + (zs + 1) * (dom[1] - dom[0]) / 2
    for meth in METHODS:
        for ad in (True, False):
            for n in (33, 65) if not ad and 'D(u, 4)' not in t else (33,):
                for start in ('near', 'other', 'none'):
                    rec.state('periodic', t, dom, meth, ad, n, start)
                    lab = 'periodic %s %s %s %s n=%d from %s' % (t, dom, 'adaptive' if ad else 'fixed', meth, n, start)
                    g = Fun(op=(lambda x: .9 * f(x) + 0 * x) if start == 'near' else (lambda x: .1 * np.cos(w * x) + .2), domain=list(dom), type='trig')
                    op = P.op(n=n, colloc='trigspec')
                    out = solve(rec, P, lab, op, None if start == 'none' else g, adaptive=ad, method=meth)
                    if out is None:
                        continue
                    soln, ok, res = out
                    if not nonl:
                        rec.check(bool(ok), lab + ' not solved', res=float(res))
                    if ok:
                        rec.check(soln.istrig, lab + ' not periodic')
                        if not nonl or start == 'near':
                            rec.close(np.reshape(soln(xs), -1), f(xs), 1e-8, lab + ' solution')


def levels(rec, case):
    """ forcings of every frequency against every number of levels: success only if resolved """
    fam, up, big = case['fam'], case['up'], case['big']
    for k in range(1, 66 if big else 50, 1 if big else 2):
        if fam == 0:
            P = Problem(['u'], ['D(u, 1)'], layout('left', 1, (-1., 1.)), ['sin(%d*x)' % k], (-1., 1.))
        elif fam == 1:
            P = Problem(['u'], ['D(u, 2) + u'], layout('both', 2, (-1., 1.)), ['cos(%d*x)/10' % k], (-1., 1.))
        elif fam == 2:
            P = Problem(['u'], ['D(u, 1) + u'], layout('right', 1, (0., 1.)), ['1/(1 + %d*(2*x - 1)**2)' % k], (0., 1.))
        else:
            P = Problem(['u'], ['D(u, 1) + cos(%d*x)*u' % k], layout('left', 1, (-1., 1.)), ['exp(-sin(%d*x)/%d)' % (k, k)], (-1., 1.))
        P.cond = 50 * k
        op = P.op(n=33)
        rec.state('levels', fam, up, k)
        lab = 'levels %s up_steps=%d' % (P.exact[0], up)
        out = solve(rec, P, lab, op, up_steps=up)
        if out is None:
            continue
        if up == 1:
            # a single level claims no more than its own equations
            rec.check(out[1] in (True, False), lab + ' verdict')
            continue
        judge(rec, P, lab, out, must=(up == 6))


# histories: words over the calls of one operator
HIST = [('D(u, 1) + a*u', 1, 'left'), ('D(u, 2) - a*u', 2, 'both'), ('D(u, 2) + a*u**2', 2, 'both')]
OPS = ['adaptive', 'fixed', 'coarse', 'guess', 'a=2', 'a=1', 'call', 'giant', 'qr']


def hist_problem(i, a):
    t, r, lay = HIST[i]
    dom = (0.0, 1.0)
    ex = 'exp(-x)'
    # the forcing belongs to a = 1, thus only a = 1 has this solution
    return Problem(['u'], [t], layout(lay, r, dom), [ex], dom, pars=dict(a=a))


def history(rec, case):
    from funpy import Fun
    i, big = case['i'], case['big']
    P1 = hist_problem(i, 1.0)
    # for a = 2 the same equation string: the reference comes from a fresh operator of its own
    P2 = hist_problem(i, 1.0)
    P2.pars = dict(a=2.0)
    ref = {}
    for a, P in ((1.0, P1), (2.0, P2)):
        op = P.op(n=33)
        out = solve(rec, P, 'history.%d fresh a=%g' % (i, a), op, adaptive=True)
        if out is None or not rec.check(bool(out[1]), 'history.%d fresh a=%g failed' % (i, a)):
            return
        C = coeffs(out[0], 1)
        res = P.residuals(C, ZS)[0]
        rec.close(res, 0 * res, 1e-7, 'history.%d fresh a=%g residual' % (i, a))
        for b, w in zip(P.bcs_def, P.bcval):
            rec.close(P.apply_bc(b, C), w, 1e-9, 'history.%d fresh a=%g condition' % (i, a))
        ref[a] = NC.chebval(ZS, C[0])
    depth = 3
    for word in itertools.product(range(len(OPS) if big else 7), repeat=depth - 1):
        word = (case['first'],) + word
        rec.state('history', i, word)
        P, op, a = P1, P1.op(n=33), 1.0
        g = Fun(op=lambda x: np.cos(x), domain=[0., 1.])
        for k, w in enumerate(word):
            nm = OPS[w]
            lab = 'history.%d %s' % (i, ' '.join(OPS[v] for v in word[:k + 1]))
            if nm in ('a=1', 'a=2'):
                a = float(nm[2:])
                op.parameter_names['a'] = a
                P = {1.0: P1, 2.0: P2}[a]
                kw = dict(adaptive=True)
            elif nm == 'coarse':
                op.setDisc(17)
                kw = dict(adaptive=False)
            elif nm == 'fixed':
                op.setDisc(33)
                kw = dict(adaptive=False)
            elif nm == 'call':
                if op.linSys is not None:
                    rec.step()
                    arg = Fun(op=lambda x: np.cos(x), domain=[0., 1.]).prolong(24)
                    before = snapshot(arg)
                    ok, v = rec.attempt(lab, lambda: quiet(lambda: op(arg)))
                    rec.check(np.array_equal(before, arg.coeffs), lab + ' changed its argument')
                continue
            else:
                kw = dict(adaptive=True, method={'qr': 'qr', 'giant': 'giant'}.get(nm, 'nleq'))
            out = solve(rec, P, lab, op, g if nm == 'guess' else None, **kw)
            if out is None:
                break
            if rec.check(bool(out[1]), lab + ' not solved'):
                rec.close(NC.chebval(ZS, coeffs(out[0], 1)[0]), ref[a], 1e-8, lab + ' gives another solution')


def guess(rec, case):
    """ kinds of guesses and returned states """
    from funpy import Fun
    from funpy.vectorspaces import DeflationState
    i, big = case['i'], case['big']
    dom = (0.0, 2.0)
    a, b = dom
    if i == 4:
        P = list(systems(dom))[0][1]
    else:
        P = linear(2, '1', ('1', 'x'), EX[i], 'both', dom)
    P.cond = 20
    m = len(P.names)
    for n0 in (1, 2, 5, 16, 17, 20, 33, 40, 65):
        for form in ('fun', 'state'):
            for ad in (True, False):
                for meth in METHODS:
                    for st in (False, True):
                        rec.state('guess', i, n0, form, ad, meth, st)
                        lab = 'guess.%d %s of %d %s %s state=%s' % (i, form, n0, 'adaptive' if ad else 'fixed', meth, st)
                        c = np.asfortranarray(np.array([[1. / (1 + k + j)**3 for j in range(m)] for k in range(n0)]))
                        f = Fun(coeffs=c, domain=list(dom), simplify=False)
                        g = f if form == 'fun' else DeflationState(u=f)
                        op = P.op(n=33)
                        rec.step()
                        ok, out = rec.attempt(lab, lambda: quiet(lambda: op.solve(g, adaptive=ad, method=meth, state=st)))
                        rec.check(f.coeffs.shape == c.shape and np.array_equal(f.coeffs, np.array([[1. / (1 + k + j)**3 for j in range(m)] for k in range(n0)])), lab + ' changed the guess')
                        if form == 'state':
                            v = np.asarray(g.u.coeffs)
                            rec.check(v.shape == c.shape and np.array_equal(v, f.coeffs), lab + ' changed the state')
                        if not ok:
                            continue
                        if st:
                            rec.check(isinstance(out[0], DeflationState), lab + ' returns no state', got=type(out[0]).__name__)
                            out = (getattr(out[0], 'u', out[0]),) + tuple(out[1:])
                        judge(rec, P, lab, out)


def residual(rec, case):
    """ the reported residual is the norm of the whole residual plus the norm of the conditions """
    from funpy import Fun
    dom = DOMS[case['i']]
    big = case['big']
    for r, low, t in [(1, ('1',), None), (2, ('x', '1'), None), (2, None, 'D(u, 2) + u**3'), (1, None, 'D(u, 1) + u**2')]:
        P = linear(r, '1', low, EX[1], 'left', dom) if t is None else nonlinear(t, EX[1], 'left', dom)
        op = P.op(n=33)
        out = solve(rec, P, 'residual prepares', op, adaptive=False)
        if out is None:
            return
        for k, nd in itertools.product(range(1, 21), (17, 33, 12)):
            c = np.zeros((k, 1), order='F')
            c[-1] = 1.0
            c[0] += .25
            u = Fun(coeffs=c.copy(order='F'), domain=list(dom), simplify=False)
            op.setDisc(nd)
            rec.state('residual', dom, r, t, k, nd)
            rec.step()
            lab = 'residual %s %s of T%d at %d' % (P.eqn[0], dom, k - 1, nd)
            ok, got = rec.attempt(lab, lambda: quiet(lambda: op.residual(u)))
            if not ok:
                continue
            # exact: the L2 norm by Gauss-Legendre
            z, wq = np.polynomial.legendre.leggauss(150)
            rv = P.residuals([c[:, 0]], z)[0]
            want = np.sqrt(np.sum(wq * rv**2) * (dom[1] - dom[0]) / 2)
            cts = np.array([P.apply_bc(b, [c[:, 0]]) - w for b, w in zip(P.bcs_def, P.bcval)])
            rec.close(got, want + np.linalg.norm(cts), 1e-9 * (1 + want + np.linalg.norm(cts)), lab)
