"""C30: an operator handle denotes its equations after every history, and copies of it are independent."""
import contextlib
import io
import itertools
import warnings
from copy import deepcopy

import numpy as np

ID = 'C30'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit exploration of the life of an operator object: all words up to length 2 from the freshly built operator and all words of length 2 (quick) or 3 (thorough) one after another on a used operator, over an alphabet of copies, parameter changes, resolutions, discretisations, residuals, solves, eigenvalues and refused calls; after every letter the operator is observed and compared with a freshly built one'
RULE = ('every word of the alphabet up to the bound, for every operator of the family; one state per (operator, last letters), one transition per letter. '
        'Observation: matrix, residual, condition residuals, parameter derivatives at two states carrying their parameters, and a solve')
ASSUMPTIONS = ['equations, conditions and constraints are fixed before the operator is first used (an operator already compiled is not recompiled)', 'the observed state carries the values of all parameters']
LIMIT = 600

LET = ['disc9', 'disc21', 'D0', 'D1', 'R', 'C', 'solve', 'adapt', 'par', 'fork', 'copy', 'bad', 'eig']


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with np.errstate(all='ignore'):
            return f()


SPECS = {
    'scalar': dict(functions=['u'], domain=[0.0, 2.0], parameters=dict(a=1.5, b=0.5), eqn=['a*diff(u, x, 2) - u - b*x'], bcs=['u(0) - a', 'u(2) - b'], cpar=[]),
    'quad': dict(functions=['u'], domain=[-1.0, 1.0], parameters=dict(a=1.25, b=0.25), eqn=['diff(u, x, 2) - a*u - b*u**2 + x*diff(u, x)'], bcs=['a*np.diff(u)(-1) - 1', 'u(1) + np.sum(u)'], cpar=['a'], fold=True),
    'system': dict(functions=['u', 'v'], domain=[1.0, 4.0], parameters=dict(a=0.75, b=0.5), eqn=['diff(u, x) + a*v', 'diff(v, x) - b*u - x'], bcs=['u(1) - 1', 'v(4) - a'], cpar=['b']),
    'nonlocal': dict(functions=['u'], domain=[0.0, 2.0], parameters=dict(a=1.5, b=0.5), eqn=['diff(u, x, 2) - a*u'], bcs=['np.diff(u)(0)', 'np.diff(u)(2)'], cts=['-int(u, x) - b'], cpar=['a']),
    'const': dict(functions=['u'], domain=[0.0, 2.0], parameters=dict(a=1.5, b=0.5), eqn=['diff(u, x, 2) - a*c*u - b'], bcs=['u(0)', 'u(2) - c(1)'], consts={'c': 'lambda x: 2 + np.cos(x)'}, cpar=[]),
    'trig': dict(functions=['u'], domain=[-1.0, 1.0], parameters=dict(a=1.5, b=0.5), eqn=['diff(u, x, 2) - a*u - b*u**2 - cos(pi*x)'], bcs=[], colloc='trigspec', cpar=[]),
}


def fresh(sp, n=17):
    from funpy.colloc.chebOp import ChebOp
    kw = {}
    if sp.get('consts'):
        kw['constant_functions'] = dict(sp['consts'])
    op = ChebOp(sp.get('colloc', 'ultraS'), functions=list(sp['functions']), domain=list(sp['domain']), parameters=dict(sp['parameters']), n=n, cpar=list(sp['cpar']), linear=sp.get('linear', False), **kw)
    op.eqn = list(sp['eqn'])
    op.bcs = list(sp['bcs'])
    op.cts = list(sp.get('cts', []))
    if sp.get('fold'):
        quiet(lambda: op.compile(par=True, fold=True))
    return op


PV = [dict(a=1.25, b=0.25), dict(a=0.5, b=0.75)]


def state(sp, k, dom=None):
    from funpy import Fun
    from funpy.vectorspaces import DeflationState
    trig = sp.get('colloc') == 'trigspec'
    m = len(sp['functions'])
    C = np.zeros((5, m), dtype=complex if trig else float)
    for j in range(m):
        C[:, j] = [[0.05, 0.1, 0.3, 0.1, 0.05], [0.0, 0.2, -0.1, 0.2, 0.0]][(k + j) % 2] if trig else [[0.3, -0.2, 0.1, 0.05, 0.02], [0.1, 0.4, -0.15, 0.0, 0.03]][(k + j) % 2]
    dom = dom or sp['domain']
    u = Fun(coeffs=np.asfortranarray(C), domain=np.array(dom, dtype=float), simplify=False, type='trig' if trig else 'cheb')
    return DeflationState(u=u, **PV[k])


def settings(op):
    """ what the user gave """
    return dict(eqn=list(op.eqn), bcs=list(op.bcs), cts=list(op.cts), functions=list(op.function_names), operators=list(op.operator_names), kernels=list(op.kernels),
                consts=dict(op.constant_function_names), pars={k: float(v) for k, v in op.parameter_names.items()}, domain=[float(x) for x in op.domain],
                ftype=op.ftype, cpar=list(op.cpar), eps=float(op.eps), tol=float(op.lin_tol), colloc=op.colloc, linear=bool(op.linear), n_min=int(op.n_min))


def observe(used, sp):
    """ all observables as arrays; without an operator: of operators that are built for each resolution and state """
    out = []
    for k in (0, 1):
        for n in (17, 11 if sp.get('colloc') == 'trigspec' else 12):
            s = state(sp, k)
            op = used
            if used is None:
                op = fresh(sp, n)
            else:
                op.setDisc(n)
            d = op.discretize(s)
            M = d.matrix()[0]
            tag = 'p%d n%d ' % (k, n)
            out.append((tag + 'matrix', np.asarray(M.todense() if hasattr(M, 'todense') else M)))
            out.append((tag + 'residual', np.array(op.linSys.rhs.values)))
            out.append((tag + 'conditions', np.array(op.linSys.cts_res)))
            out.append((tag + 'call', np.array(op(s).coeffs)))
            out.append((tag + 'norm', np.atleast_1d(float(np.real(op.residual(s.u))))))
            for p in sp['cpar']:
                out.append((tag + 'dp', np.array(op.linSys.pDer(s.u, p).coeffs)))
                if sp.get('fold'):
                    w = state(sp, 1 - k).u
                    out.append((tag + 'df', np.array(op.linSys.df(s.u, w).coeffs)))
                    out.append((tag + 'ddx', np.array(op.linSys.ddx(s.u, w, s.u).coeffs)))
                    out.append((tag + 'dxdp', np.array(op.linSys.dxdp(s.u, w, p).coeffs)))
    return out


def look_solve(op, sp):
    op.setDisc(17)
    f, ok, r = op.solve(state(sp, 0), adaptive=False)
    return [('solve ok', np.array([float(bool(ok))])), ('solve', np.array(f.prolong(40).coeffs) if f is not None else np.zeros(1))]


def same(rec, lab, got, want):
    for (t, a), (_, b) in zip(got, want):
        if not rec.check(a.shape == b.shape, '%s: %s shape' % (lab, t), got=str(a.shape), want=str(b.shape)):
            return False
        sc = 1 + np.max(np.abs(b)) if b.size else 1
        if not rec.close(a, b, (1e-8 if t == 'solve' else 1e-11) * sc, '%s: %s' % (lab, t)):
            return False
    return True


class Life:
    def __init__(self, rec, name):
        self.rec, self.name, self.sp = rec, name, SPECS[name]
        self.ref = quiet(lambda: observe(None, self.sp))
        self.refsolve = quiet(lambda: look_solve(fresh(self.sp), self.sp))
        self.start()

    def start(self):
        self.op = fresh(self.sp)
        self.pars = dict(self.sp['parameters'])
        self.want = settings(self.op)
        self.word = []

    def lab(self):
        return '%s after %s' % (self.name, '.'.join(self.word[-4:]) or 'nothing')

    def letter(self, a):
        rec, sp = self.rec, self.sp
        self.word.append(a)
        rec.step()
        ok, _ = rec.attempt(self.lab(), lambda: quiet(lambda: self.do(a)))
        return ok

    def do(self, a):
        op, sp, rec = self.op, self.sp, self.rec
        if a == 'disc9':
            op.setDisc(9)
        elif a == 'disc21':
            op.setDisc(21)
        elif a in ('D0', 'D1'):
            op.discretize(state(sp, int(a[1]))).matrix()
        elif a == 'R':
            if op.linSys is not None:
                op.residual(state(sp, 1).u)
        elif a == 'C':
            if op.linSys is not None:
                op(state(sp, 1))
        elif a == 'solve':
            op.solve(state(sp, 1), adaptive=False)
        elif a == 'adapt':
            # the guess carries the operator's own parameters
            op.solve(state(sp, 1).u, adaptive=True, up_steps=3)
        elif a == 'par':
            self.pars = dict(self.pars, a=self.pars['a'] + 0.25)
            if self.pars['a'] > 2:
                self.pars['a'] = sp['parameters']['a']
            op.parameter_names['a'] = self.pars['a']
            self.want['pars'] = dict(self.pars)
        elif a == 'fork':
            # a copy is changed and used, the original goes on
            o = deepcopy(op)
            o.parameter_names['a'] = 17.0
            o.parameter_names['z'] = 1.0
            o.domain[1] = o.domain[0] + 9.0
            for L, v in ((o.eqn, 'u'), (o.bcs, 'u(0)'), (o.cts, 'u'), (o.cpar, 'q'), (o.function_names, 'y'), (o.operator_names, 'y'), (o.kernels, 'y')):
                L.append(v)
            o.constant_function_names['y'] = 'lambda x: x'
            o.setDisc(7)
            o = deepcopy(op)
            o.setDisc(11)
            o.discretize(state(sp, 1)).matrix()
        elif a == 'copy':
            # the copy goes on, the original is changed
            o = op
            self.op = deepcopy(op)
            n = op.n_disc
            rec.check(self.op.n_disc == n, self.lab() + ': resolution of the copy', got=int(self.op.n_disc), want=int(n))
            if sp.get('fold'):
                self.op.compile(par=True, fold=True)
            o.parameter_names['a'] = 23.0
            o.domain[0] = o.domain[0] - 1.0
            for L in (o.eqn, o.bcs, o.cts, o.cpar, o.function_names):
                L.append('v')
            o.setDisc(13)
        elif a == 'bad':
            dom = [sp['domain'][0], sp['domain'][1] + 1.0]
            rec.rejects(self.lab() + ': state on another domain', lambda: op.discretize(state(sp, 0, dom)))
        elif a == 'eig':
            from funpy.colloc.eig import eigs
            if sp.get('cts') or len(sp['functions']) > 1:
                return
            op.setDisc(17)
            if op.linSys is not None:
                eigs(op, state(sp, 0))

    def observe(self, solve=False):
        rec = self.rec
        rec.state(self.name, tuple(self.word[-4:]))
        got = settings(self.op)
        for k in got:
            rec.check(got[k] == self.want[k], '%s: setting %s' % (self.lab(), k), got=str(got[k]), want=str(self.want[k]))
        ok, o = rec.attempt(self.lab() + ' observed', lambda: quiet(lambda: observe(self.op, self.sp)))
        if not ok or not same(rec, self.lab(), o, self.ref):
            return False
        if solve:
            ok, o = rec.attempt(self.lab() + ' solved', lambda: quiet(lambda: look_solve(self.op, self.sp)))
            return ok and same(rec, self.lab(), o, self.refsolve)
        return True


def cases(tier):
    for name in SPECS:
        for i in range(len(LET)):
            yield dict(id='word.%s.%s' % (name, LET[i]), kind='words', name=name, i=i)
        n = 2 if tier == 'quick' else 3
        parts = 4 if tier == 'quick' else 64
        for q in range(parts):
            yield dict(id='long%d.%s.%d' % (n, name, q), kind='long', name=name, n=n, q=q, parts=parts)


def words(case, rec):
    """ from the fresh operator: all words of length 1 and 2 starting with a letter, observed at the end """
    L = Life(rec, case['name'])
    L.observe(True)
    for b in [None] + LET:
        L.start()
        ok = L.letter(LET[case['i']])
        if ok and b is not None:
            ok = L.letter(b)
        if ok:
            L.observe(b is None or (LET.index(b) + case['i']) % 3 == 0)


def long(case, rec):
    """ one long history made of all words of length n, each executed undisturbed on the used operator and then observed """
    L = Life(rec, case['name'])
    L.observe(True)
    W = list(itertools.product(range(len(LET)), repeat=case['n']))
    for j, w in enumerate(W[case['q']::case['parts']]):
        for a in w:
            if not L.letter(LET[a]):
                return
        if not L.observe(j % 7 == 0):
            return
    L.observe(True)


def run(case, rec):
    globals()[case['kind']](case, rec)
