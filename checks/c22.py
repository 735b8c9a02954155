"""C22: Newton drivers report convergence truthfully under every callback outcome."""
import contextlib
import io
import itertools
import math
import warnings

import numpy as np
import scipy.sparse as sps

ID = 'C22'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive exploration of the drivers against a scripted environment (every sequence of linear-solver answers and callback verdicts up to the depth bound), monitored step by step against the transition rules of the algorithms, and every start of a grid for algebraic systems with known roots'
RULE = 'every word over the alphabet of solver answers (zero, below tolerance, contracting, rotated, marginal, stagnating, expanding, reversed, NaN, infinite, failed) up to length 4 (quick) / 5 (thorough), continued by a contracting or an expanding tail, x driver x damping class x iteration limit x callback verdicts; one state per word prefix and driver, one transition per solver call'
ASSUMPTIONS = ['the environment answers NaN at points that are not finite',
               'for damped Newton the values of the damping factors are not predicted, only their admissibility (monotonicity test, halving on rejection, bounds)',
               'iteration limits are respected up to the two extra steps of the quasi-Newton phase']
LIMIT = 300

TOL = 1e-8
ROT = np.array([[0., -1.], [1., 0.]])
LETTERS = 'ztchs1b-niF'
FACTOR = {'c': 0.2, 's': 0.7, '1': 1.0, 'b': 3.0, '-': -0.6}
X0 = (1.0, -2.0)
D0 = np.array([0.75, 0.5])


class Env:
    """ A nonlinear system whose corrections are dictated by a word; records what the driver does """
    def __init__(self, word, tail, cb=None, budget=600):
        self.word, self.tail, self.pos = word, tail, 0
        self.log = []
        self.tokens = 0
        self.last = D0.copy()
        self.cb, self.ncb = cb, 0
        self.poison = False
        self.budget = budget
        self.token_of = None
        self.point = None

    def __call__(self, x, exact=None, **kw):
        self.log.append(('N', np.array(x)))
        return Sys(self)

    def rhs(self, x):
        x = np.array(x)
        self.tokens += 1
        self.log.append(('R', x))
        self.point = x
        self.token_of = np.array([float(self.tokens), 1e3 + self.tokens])
        if not np.all(np.isfinite(x)):
            self.poison = True
        return self.token_of.copy()

    def answer(self):
        c = self.word[self.pos] if self.pos < len(self.word) else self.tail
        self.pos += 1
        if self.pos > self.budget:
            raise RuntimeError('the driver does not stop')
        if self.poison or c == 'n':
            return np.array([np.nan, np.nan]), True
        if c == 'i':
            return np.array([np.inf, 1.0]), True
        if c == 'F':
            return self.last * 1e-3, False
        if c == 'z':
            return np.zeros(2), True
        if c == 't':
            return np.array([0.5 * TOL, 0.0]), True
        if c == 'h':
            self.last = 0.45 * (ROT @ self.last)
        else:
            self.last = FACTOR[c] * self.last
        return self.last.copy(), True

    def solve(self, b):
        a, ok = self.answer()
        match = self.token_of is not None and np.array_equal(np.asarray(b), -self.token_of)
        self.log.append(('S', a.copy(), ok, match))
        return a, ok

    def callback(self, *args):
        self.ncb += 1
        verdict = self.cb is None or self.ncb != self.cb
        self.log.append(('C', verdict))
        return verdict


class Sys:
    size = 2

    def __init__(self, env):
        self.env = env

    def rhs(self, x):
        return self.env.rhs(x)

    def solve(self, b):
        return self.env.solve(b)


def norm(v):
    return float(np.sqrt(np.dot(v, v)))


def quiet(fn):
    with warnings.catch_warnings(), np.errstate(all='ignore'), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter('ignore')
        return fn()


def near(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-12, atol=1e-13, equal_nan=True)


def close(a, b):
    return a.shape == b.shape and np.allclose(a, b, rtol=1e-7, atol=1e-9)


# ------------------------------------------------------------------ scripted runs
def drive(rec, lab, driver, env, **kw):
    """ Runs a driver, checks what holds for all of them """
    x0 = np.array(X0)
    ok, res = rec.attempt(lab, lambda: quiet(lambda: driver(env, x0, tol=TOL, callback=env.callback, **kw)))
    rec.check(np.array_equal(x0, np.array(X0)), lab + ': start point changed', x0=x0)
    if not ok:
        return None
    if not rec.check(isinstance(res, tuple) and len(res) == 6, lab + ': six results'):
        return None
    x, success, k, ndx, neval, nsys = res
    log = env.log
    solves = [e for e in log if e[0] == 'S']
    rec.step(len(solves))
    rec.check(all(e[3] for e in solves), lab + ': right-hand side is minus the residual at the latest point')
    rec.check(neval == sum(1 for e in log if e[0] == 'N'), lab + ': counts its linearisations', neval=neval)
    rec.check(not solves or all(e[2] for e in solves[:-1]) or driver.__name__ == 'nleq_err',
              lab + ': goes on after a failed linear solve')
    if any(e == ('C', False) for e in log):
        i = log.index(('C', False))
        if driver.__name__ != 'nleq_err' or not kw.get('use_qnerr', True):
            rec.check(not success, lab + ': success after the callback said stop')
            rec.check(not any(e[0] == 'S' for e in log[i:]), lab + ': solves after the callback said stop')
    if success:
        a, aok = solves[-1][1], solves[-1][2]
        rec.check(aok, lab + ': success on a failed linear solve')
        rec.check(np.all(np.isfinite(x)), lab + ': success at a point that is not finite', x=np.asarray(x))
    return x, success, k, ndx


def spec_standard(env_word, tail, miter, cb):
    """ What plain Newton does with this word: (x, success, k) """
    e = Env(env_word, tail)
    x, k, pts = np.array(X0), 0, []
    while k < miter:
        pts.append(x.copy())
        e.poison = e.poison or not np.all(np.isfinite(x))
        with np.errstate(all='ignore'):
            a, ok = e.answer()
            if not ok:
                return x, False, k, pts
            x = x + a
        k += 1
        if norm(a) <= TOL:
            return x, True, k, pts
        if cb == k:
            return x, False, k, pts
    return x, False, k, pts


def outcomes_qnerr(*args):
    """ What quasi-Newton may do: a contraction factor equal to its limit but for rounding may be judged either way """
    ties = []
    out = [spec_qnerr(*args, ties=ties)]
    return out + [spec_qnerr(*args, ties=[], stop_at=i) for i in range(len(ties))]


def spec_qnerr(word, tail, miter, cb, theta_max=0.5, ties=None, stop_at=None):
    """ Quasi-Newton with explicit good Broyden matrices: J0 = 1, F = -answer """
    e = Env(word, tail)
    with np.errstate(all='ignore'):
        x, pts, calls = np.array(X0), [np.array(X0)], 0
        a, ok = e.answer()
        if not ok:
            return x, False, pts
        J, dx = np.eye(2), a
        calls += 1
        if cb == calls:
            return x, False, pts
        k = 0
        while k <= miter:
            x = x + dx
            if norm(dx) <= TOL:
                return x, True, pts
            pts.append(x.copy())
            e.poison = e.poison or not np.all(np.isfinite(x))
            v, ok = e.answer()
            if not ok:
                return x, False, pts
            k += 1
            calls += 1
            if not np.all(np.isfinite(v)):
                return None, False, None        # never a success from here on
            theta = norm(np.linalg.solve(J, v)) / norm(dx)
            tie = abs(theta - theta_max) <= 1e-9
            if tie:
                ties.append(theta)
            if (theta > theta_max and not tie) or (tie and stop_at == len(ties) - 1) or cb == calls:
                return x, False, pts
            J = J - np.outer(v, dx) / np.dot(dx, dx)
            dx = np.linalg.solve(J, v)
        return x, False, pts


def scripted(rec, driver, words, tail, cbs, miters, variants):
    from funpy.newton.newton_standard import newton_standard
    from funpy.newton.qnerr import qnerr
    from funpy.newton.nleq_err import nleq_err
    fn = {'standard': newton_standard, 'qnerr': qnerr, 'nleq': nleq_err}[driver]
    for word in words:
        for miter in miters:
            for cb in cbs:
                for vn, kw in variants:
                    lab = '%s %s%s miter=%s cb=%s %s' % (driver, word, tail, miter, cb, vn)
                    env = Env(word, tail, cb)
                    rec.state(driver, word, tail, miter, cb, vn)
                    r = drive(rec, lab, fn, env, miter=miter, **kw)
                    if r is None:
                        continue
                    x, success, k, ndx = r
                    x = np.asarray(x, float)
                    pts = [e[1] for e in env.log if e[0] == 'R']
                    if driver == 'standard':
                        wx, ws, wk, wp = spec_standard(word, tail, miter, cb)
                        rec.check(bool(success) == ws, lab + ': verdict', got=success, want=ws)
                        rec.check(k == wk, lab + ': steps', got=k, want=wk)
                        rec.check(near(x, wx), lab + ': returned point', got=x, want=wx)
                        rec.check(len(pts) == len(wp) and all(near(p, q) for p, q in zip(pts, wp)), lab + ': iterates')
                    elif driver == 'qnerr':
                        outs = outcomes_qnerr(word, tail, miter, cb)
                        agree = [o for o in outs if o[1] == bool(success) and o[0] is not None and close(x, o[0]) and len(o[2]) == len(pts)]
                        wx, ws, wp = (agree or outs)[0]
                        rec.check(bool(success) == ws, lab + ': verdict', got=success, want=ws)
                        if wx is not None:
                            rec.check(close(x, wx), lab + ': returned point', got=x, want=wx)
                            rec.check(len(pts) == len(wp) and all(close(p, q) for p, q in zip(pts, wp)), lab + ': iterates',
                                      got=pts, want=wp)
                        rec.check(k <= miter + 2, lab + ': iteration limit', k=k)
                    else:
                        monitor_nleq(rec, lab, env, x, success, k, miter, kw)


def edge(th, lam, restricted):
    """ the monotonicity test may go either way on its boundary """
    return abs(th - (1.0 - lam / 4.0 if restricted else 1.0)) <= 1e-9


def monitor_nleq(rec, lab, env, xret, success, k, miter, kw):
    """ Parses the record of a damped Newton run """
    log = env.log
    rec.check(k <= miter + 2, lab + ': iteration limit', k=k)
    nn = sum(1 for e in log if e[0] == 'N')
    rec.check(nn <= max(miter, 1), lab + ': linearisation limit', n=nn)
    solves = [e for e in log if e[0] == 'S']
    if success:
        a = solves[-1][1]
        rec.check(norm(a) <= TOL, lab + ': success although the last correction is not small', last=a)
        rec.check(near(xret, env.point + a), lab + ': returned point is not the corrected one', got=xret, want=env.point + a)
    if kw.get('use_qnerr', True):
        # quasi-Newton phases only add steps; admissibility is checked without them
        return
    restricted = kw.get('restricted', True)
    lmin = {'mildly': 1e-4, 'highly': 1e-4, 'extremely': 1e-12}[kw.get('nonlin', 'mildly')]
    lam0 = {'mildly': 1.0, 'highly': 1e-2, 'extremely': 1e-4}[kw.get('nonlin', 'mildly')]
    x = dx = None
    trial = None          # (lam, point, theta)
    first, reduced, kk = True, False, 0
    want_dx = False
    for i, e in enumerate(log):
        if e[0] == 'N':
            p = e[1]
            if x is None:
                rec.check(near(p, np.array(X0)), lab + ': starts elsewhere')
            else:
                if trial is None:
                    rec.fail(lab + ': new linearisation without a step')
                    return
                lam, pt, th = trial
                rec.check(near(p, pt), lab + ': accepted point is not the last trial')
                bad = th > 1.0 - lam / 4.0 if restricted else th >= 1.0
                rec.check(not bad or edge(th, lam, restricted), lab + ': accepted step violates the monotonicity test', lam=lam, theta=th)
                kk += 1
            x, trial, want_dx, reduced = p, None, True, False
        elif e[0] == 'R':
            p = e[1]
            if want_dx:
                rec.check(near(p, x), lab + ': residual for the Newton step taken elsewhere')
                continue
            if not np.all(np.isfinite(dx)) or not np.all(np.isfinite(p)):
                trial = None
                return
            lam = float(np.dot(p - x, dx) / np.dot(dx, dx))
            size = max(1.0, norm(x)) / norm(dx)
            rec.check(norm(p - x - lam * dx) <= 1e-13 * (1 + norm(x) + norm(dx)), lab + ': trial off the Newton direction')
            rec.check(lmin * (1 - 1e-9) - 1e-13 * size <= lam <= 1 + 1e-13 * size, lab + ': damping factor out of range', lam=lam)
            if trial is None:
                if first:
                    rec.check(abs(lam - lam0) <= 1e-13 * size, lab + ': first damping factor', lam=lam)
                first = False
            else:
                ol, _, th = trial
                bad = th > 1.0 - ol / 4.0 if restricted else th >= 1.0
                if edge(th, ol, restricted):
                    reduced = reduced or lam < ol
                elif bad:
                    rec.check(lam <= 0.5 * ol + 1e-13 * size or abs(lam - lmin) <= 1e-13 * size,
                              lab + ': a rejected step is not at least halved', old=ol, new=lam)
                    reduced = True
                else:
                    rec.check(lam >= 4 * ol - 1e-12 * size and not reduced, lab + ': an accepted step is repeated', old=ol, new=lam)
            trial = (lam, p, None)
        elif e[0] == 'S':
            if not e[2]:
                rec.check(not success, lab + ': success after a failed solve')
                rec.check(i >= len(log) - 1 or all(f[0] == 'C' for f in log[i + 1:]), lab + ': goes on after a failed solve')
                return
            if want_dx:
                dx, want_dx = e[1], False
                if norm(dx) <= TOL:
                    rec.check(bool(success), lab + ': a small Newton correction is not recognised')
            else:
                if trial is None:
                    rec.fail(lab + ': solve without a trial point')
                    return
                with np.errstate(all='ignore'):
                    trial = (trial[0], trial[1], norm(e[1]) / norm(dx) if norm(dx) else np.nan)


# ------------------------------------------------------------------ GIANT with scripted residuals
class GEnv:
    """ residuals from a word, linear operator a * 1 from a second word """
    def __init__(self, word, tail, mats):
        self.e = Env(word, tail)
        self.mats, self.nm = mats, 0
        self.x = None
        self.last = None
        self.hist = []
        self.point = None
        self.dirty = False

    def __call__(self, x):
        self.nm += 1
        self.a = self.mats[min(self.nm, len(self.mats)) - 1]
        return GSys(self)

    def rhs(self, x):
        x = np.array(x)
        if self.point is not None and np.array_equal(self.point, x):
            return -self.last
        if not np.all(np.isfinite(x)):
            self.e.poison = True
        self.point = x
        self.last, ok = self.e.answer()
        self.hist.append((x, self.last))
        return -self.last


class GSys:
    def __init__(self, env):
        self.env = env

    def matrix(self, precond=False):
        return sps.csr_matrix(self.env.a * np.eye(2)), sps.csr_matrix(np.eye(2)), None

    def to_vspace(self, v):
        return np.array(v)

    def rhs(self, x):
        return self.env.rhs(x)


def giant(rec, words, tail, mats, variants):
    from funpy.newton.giant import giant_gbit
    for word in words:
        for m in mats:
            for vn, kw in variants:
                lab = 'giant %s%s A=%s %s' % (word, tail, m, vn)
                env = GEnv(word, tail, m)
                rec.state('giant', word, tail, m, vn)
                x0 = np.array(X0)
                ok, res = rec.attempt(lab, lambda: quiet(lambda: giant_gbit(env, x0, tol=TOL, inner=np.dot, **kw)))
                rec.check(np.array_equal(x0, np.array(X0)), lab + ': start point changed', x0=x0)
                if not ok:
                    continue
                x, success, k, njac, _ = res
                rec.step(len(env.hist))
                rec.check(njac == env.nm, lab + ': counts its linearisations', got=njac, want=env.nm)
                lim = kw.get('max_iter', 50)
                rec.check(k <= lim + 1 and njac <= lim + 1, lab + ': iteration limit', k=k, njac=njac)
                if success:
                    rec.check(np.all(np.isfinite(x)), lab + ': success at a point that is not finite', x=x)
                    # the correction that was found small belongs to the last residual
                    corr = env.last / env.a if np.any(env.last) else env.last
                    rec.check(norm(corr) <= TOL * (1 + 1e-3), lab + ': success although the last correction is not small', corr=corr)
                    rec.check(norm(x - env.point - corr) <= 1.5 * TOL, lab + ': returned point is not the corrected one',
                              got=x, want=env.point + corr)


# ------------------------------------------------------------------ algebraic systems
def sq(c):
    return (lambda x: np.array([x[0]**2 - c]), lambda x: np.array([[2 * x[0]]]),
            [np.array([math.sqrt(c)]), np.array([-math.sqrt(c)])])


def systems():
    yield 'affine1', (lambda x: 3 * x - 6, lambda x: np.array([[3.]]), [np.array([2.])]), True
    yield 'affine2', (lambda x: np.array([2 * x[0] + x[1] - 1, x[0] - x[1] - 2]), lambda x: np.array([[2., 1.], [1., -1.]]),
                      [np.array([1., -1.])]), True
    yield 'square', sq(2.0), False
    yield 'atan', (lambda x: np.arctan(x), lambda x: np.array([[1 / (1 + x[0]**2)]]), [np.array([0.])]), True
    yield 'exp', (lambda x: np.exp(x) - 2, lambda x: np.array([[math.exp(min(x[0], 500))]]), [np.array([math.log(2)])]), False
    yield 'cubic+', (lambda x: x**3 + x - 2, lambda x: np.array([[3 * x[0]**2 + 1]]), [np.array([1.])]), False
    yield 'circle-line', (lambda x: np.array([x[0]**2 + x[1]**2 - 2, x[0] - x[1]]),
                          lambda x: np.array([[2 * x[0], 2 * x[1]], [1., -1.]]), [np.array([1., 1.]), np.array([-1., -1.])]), False
    yield 'product', (lambda x: np.array([x[0] * x[1] - 2, x[0] + x[1] - 3]), lambda x: np.array([[x[1], x[0]], [1., 1.]]),
                      [np.array([1., 2.]), np.array([2., 1.])]), False
    yield 'no root', (lambda x: x**2 + 1, lambda x: np.array([[2 * x[0]]]), []), None
    yield 'flat', (lambda x: 0 * x + 1, lambda x: np.array([[0.]]), []), None


class Alg:
    def __init__(self, f, J):
        self.f, self.J = f, J

    def __call__(self, x, exact=None, **kw):
        return AlgSys(self, np.array(x))


class AlgSys:
    def __init__(self, alg, x):
        self.alg, self.Jx = alg, np.array(alg.J(x), float)
        self.size = len(x)

    def rhs(self, x):
        return np.asarray(self.alg.f(np.array(x)), float)

    def solve(self, b):
        if not np.all(np.isfinite(self.Jx)) or not np.all(np.isfinite(b)):
            return b * np.nan, True
        if abs(np.linalg.det(self.Jx)) < 1e-280:
            return b * 0, False
        return np.linalg.solve(self.Jx, b), True

    def matrix(self, precond=False):
        J = self.Jx
        P = np.linalg.inv(J) if np.all(np.isfinite(J)) and abs(np.linalg.det(J)) > 1e-280 else np.eye(len(J))
        return sps.csr_matrix(J), sps.csr_matrix(P), None

    def to_vspace(self, v):
        return np.array(v)


def kantorovich(f, J, x0):
    """ True when x0 is well inside the Newton-Kantorovich ball (estimated with the exact second differences of the systems used) """
    try:
        d1 = -np.linalg.solve(J(x0), f(x0))
        x1 = x0 + d1
        d2 = -np.linalg.solve(J(x0), f(x1))
    except Exception:
        return False
    if not (np.all(np.isfinite(d1)) and np.all(np.isfinite(d2))):
        return False
    return norm(d2) <= 0.1 * norm(d1) and norm(d1) < 1.0


GRID1 = [-8., -3., -2., -1., -.5, -.25, 0., .25, .5, 1., 1.5, 2., 3., 5., 8.]


def algebraic(rec, which):
    from funpy.newton.newton_standard import newton_standard
    from funpy.newton.qnerr import qnerr
    from funpy.newton.nleq_err import nleq_err
    from funpy.newton.giant import giant_gbit
    runs = [('standard', newton_standard, {}), ('qnerr', qnerr, {}), ('nleq', nleq_err, {}),
            ('nleq noq', nleq_err, {'use_qnerr': False}), ('nleq highly', nleq_err, {'nonlin': 'highly'}),
            ('nleq extremely', nleq_err, {'nonlin': 'extremely'}), ('nleq unrestricted', nleq_err, {'restricted': False}),
            ('giant', giant_gbit, {}), ('giant highly', giant_gbit, {'nonlin': 'highly'}),
            ('giant extremely', giant_gbit, {'nonlin': 'extremely'})]
    for name, (f, J, roots), glob in systems():
        if name != which:
            continue
        dim = 2 if roots and len(roots[0]) == 2 else 1
        for st in itertools.product(GRID1 if dim == 1 else GRID1[1::2], repeat=dim):
            for tol in (1e-6, 1e-10):
                for rn, fn, kw in runs:
                    lab = '%s from %s tol=%g %s' % (name, list(st), tol, rn)
                    rec.state(lab)
                    x0 = np.array(st)
                    kn = kantorovich(f, J, x0.copy()) if roots else False
                    # the documented iteration limits are enough for every claimed start
                    ok, r = rec.attempt(lab, lambda: quiet(lambda: fn(Alg(f, J), x0, tol=tol, inner=np.dot, **kw)))
                    rec.check(np.array_equal(x0, np.array(st)), lab + ': start point changed')
                    if not ok:
                        continue
                    x, success, k = r[:3]
                    rec.step(max(1, k))
                    if success:
                        if not rec.check(np.all(np.isfinite(x)), lab + ': success at a point that is not finite'):
                            continue
                        if not rec.check(bool(roots), lab + ': success without a solution', x=x):
                            continue
                        e = min(norm(x - q) for q in roots)
                        rec.check(e <= 2 * tol, lab + ': success away from every solution', x=x, err=e)
                    if roots and kn and not rn.startswith('qnerr'):
                        rec.check(bool(success), lab + ': does not converge from a good start', x=x)
                    elif kn and norm(x0 - roots[0]) < 0.3:
                        rec.check(bool(success), lab + ': does not converge from a very good start', x=x)
                    if name.startswith('affine'):
                        rec.check(bool(success), lab + ': does not converge on an affine system', x=x)
                    if glob and rn in ('nleq', 'nleq noq', 'nleq highly', 'nleq extremely'):
                        rec.check(bool(success), lab + ': damping does not converge', x=x, k=k)


# ------------------------------------------------------------------ Newton front end
class State(np.ndarray):
    istrig = False

    def __new__(cls, v):
        return np.array(v, float).view(cls)


def front(rec):
    from funpy.newton.newton import Newton, NewtonErrors
    for name, (f, J, roots), glob in systems():
        dim = 2 if name in ('affine2', 'circle-line', 'product') else 1
        for st in itertools.product(GRID1[::3] if dim == 1 else (-1., .5, 2.), repeat=dim):
            for method in ('giant', 'giant-gbit', 'GIANT', 'nleq', 'nleq-err', 'qnerr', 'qn-err', 'lu', 'qr'):
                lab = 'front %s from %s %s' % (name, list(st), method)
                rec.state(lab)
                seen = []

                def linop(u, system, ks=None, dtype=None, exact=None, **kw):
                    seen.append((system, ks, dtype, exact))
                    return Alg(f, J)(u)
                sysm = object()
                N = Newton(sysm, sys=linop)
                rec.check(N.status == NewtonErrors.Undefined, lab + ': status before')
                x0 = State(st)
                ok, r = rec.attempt(lab, lambda: quiet(lambda: N.solve(x0, method=method, tol=1e-9)))
                rec.check(np.array_equal(np.asarray(x0), np.array(st)), lab + ': start point changed')
                if not ok:
                    continue
                if not rec.check(len(r) == 3, lab + ': three results'):
                    continue
                x, success, k = r
                rec.check((N.status == NewtonErrors.Success) == bool(success), lab + ': status', status=str(N.status), success=success)
                rec.check(success or N.status == NewtonErrors.NonlinSolFail, lab + ': failure status')
                rec.check(all(s[0] is sysm and s[1] is N.known_solutions and s[2] == np.float64 for s in seen), lab + ': linearisation arguments')
                rec.check(N.neval == len(seen), lab + ': linearisation count', got=N.neval, want=len(seen))
                if success:
                    rec.check(bool(roots) and min(norm(np.asarray(x) - q) for q in roots) <= 1e-8, lab + ': success away from every solution')


def words(depth, first):
    """ all words over the alphabet of length <= depth that start with the letter; nothing follows a failed solve """
    out = []
    for d in range(1, depth + 1):
        for w in itertools.product(LETTERS, repeat=d - 1):
            s = first + ''.join(w)
            if 'F' in s[:-1]:
                continue
            out.append(s)
    return out


def cases(tier):
    T = tier == 'thorough'
    out = []
    nl = [('mildly', {}), ('noq', {'use_qnerr': False}), ('noq highly', {'use_qnerr': False, 'nonlin': 'highly'}),
          ('noq extremely', {'use_qnerr': False, 'nonlin': 'extremely'}),
          ('noq unrestricted', {'use_qnerr': False, 'restricted': False})]
    for l in LETTERS:
        for tail in 'cb1':
            out.append(dict(id='standard %s tail %s' % (l, tail), k='s', driver='standard', l=l, depth=4 if T else 3, tail=tail,
                            cbs=[None, 1, 2, 3], miters=[1, 3, 40], v=[('', {})]))
            out.append(dict(id='qnerr %s tail %s' % (l, tail), k='s', driver='qnerr', l=l, depth=4 if T else 3, tail=tail,
                            cbs=[None, 1, 2, 3], miters=[1, 3, 40], v=[('', {})]))
            for m in (1, 2, 6, 40):
                out.append(dict(id='nleq %s tail %s miter %d' % (l, tail, m), k='s', driver='nleq', l=l, depth=4 if T else 3,
                                tail=tail, cbs=[None, 1, 2], miters=[m], v=nl))
        for l2 in LETTERS if l != 'F' else ():
            out.append(dict(id='nleq deep %s%s' % (l, l2), k='s', driver='nleq', l=l + l2, depth=4 if T else 3, tail='c', cbs=[None], miters=[40], v=nl))
        if l not in 'F':
            out.append(dict(id='giant %s' % l, k='g', l=l, depth=3, tails='cb', nmat=4))
            for l2 in LETTERS if T else ():
                out.append(dict(id='giant deep %s%s' % (l, l2), k='g', l=l + l2, depth=3, tails='c', nmat=2))
    for name, _, _ in systems():
        out.append(dict(id='algebraic ' + name, k='a', which=name))
    out.append(dict(id='front', k='f'))
    return out


def run(case, rec):
    if case['k'] == 's':
        ws = words(case['depth'], case['l'])
        scripted(rec, case['driver'], ws, case['tail'], case['cbs'], case['miters'], case['v'])
    elif case['k'] == 'g':
        ws = [w for w in words(case['depth'], case['l']) if 'F' not in w]
        for tail in case['tails']:
            giant(rec, ws, tail, ((1.0,), (1.0, -1.0, 4.0), (2.0, 0.5), (1.0, 0.0))[:case['nmat']],
                  [('mildly', {}), ('highly', {'nonlin': 'highly'}), ('extremely', {'nonlin': 'extremely', 'max_iter': 7}),
                   ('short', {'max_iter': 2})])
    elif case['k'] == 'a':
        algebraic(rec, case['which'])
    else:
        front(rec)
