"""C26: deflation multiplies the residual and differentiates it exactly."""
import contextlib
import io
import itertools
import warnings

import numpy as np
import scipy.sparse as sps
import scipy.sparse.linalg as LAS

from .c27 import sobolev, fun, unit

ID = 'C26'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sets of known solutions x powers x shifts x states x directions on the real code against the closed form over exact Sobolev products, of all small integer operators for the rank-one update and its inverse, and of all words of starts of the seeker'
RULE = 'every ordered selection of up to 3 known solutions of the palette, every power and shift, every function of the palette, every unit direction; every integer matrix and residual of the bound; one state per combination, one transition per call of the code. Non-trivial: at least one known solution'
ASSUMPTIONS = ['Chebyshev functions (the functional of a periodic function is not implemented)',
               'the inverse of the deflated operator is claimed where the deflated operator is regular',
               'that a solve from a given start finds a further solution is not claimed']
LIMIT = 300

DOMS = [(-1.0, 1.0), (0.0, 3.0)]
PAL = {1: [[[1.], [2.], [.5]], [[0.], [1.], [0.], [.3]], [[1.]], [[-1.], [.5]], [[.5], [0.], [0.], [0.], [.25], [1.]]],
       2: [[[1., 0.], [2., 1.]], [[0., 1.], [1., 0.], [.5, -.5]], [[1., 1.]], [[-1., 2.], [.5, 0.], [0., 0.], [1., 1.]]]}
POWERS = [2.0, 1.0, 3.0, 2, 0.5]
SHIFTS = [1.0, 0.0, 0.5, 2]


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def h1(C, dom):
    G = sobolev(len(C), 1, dom)
    return float(np.sqrt(sum(C[:, j] @ G @ C[:, j] for j in range(C.shape[1]))))


def diff(U, K):
    n = max(len(U), len(K))
    D = np.zeros((n, U.shape[1]))
    D[:len(U)] += U
    D[:len(K)] -= K
    return D


def eta_ref(U, ks, dom, shift, power):
    out = 1.0
    for K in ks:
        out *= shift + 1.0 / h1(diff(U, K), dom)**power
    return out


def deta_ref(U, ks, dom, shift, power, n):
    """ the derivative on the n coefficients of every column """
    eta, out = eta_ref(U, ks, dom, shift, power), 0.0
    for K in ks:
        D = diff(U, K)
        N = max(n, len(D))
        G = sobolev(N, 1, dom)
        r = h1(D, dom)
        E = np.zeros((N, D.shape[1]))
        E[:len(D)] = D
        out = out - power * eta / ((shift + r**-power) * r**(power + 2)) * (G @ E)[:n]
    return out.flatten(order='F')


def cases(tier):
    big = tier != 'quick'
    for di in range(len(DOMS)):
        for m in (1, 2):
            for i in range(len(PAL[m])):
                yield dict(id='factor.d%d.m%d.%d' % (di, m, i), kind='factor', di=di, m=m, i=i, big=big)
    for i in range(4):
        yield dict(id='rank1.%d' % i, kind='rank1', i=i, big=big)
    yield dict(id='rank1.large', kind='rank1large', big=big)
    for i in range(len(EQN)):
        for di in range(len(DOMS)):
            yield dict(id='system.%d.d%d' % (i, di), kind='system', i=i, di=di, big=big)
    for i in range(len(SEEK)):
        for meth in ('nleq', 'nleq-err', 'giant'):
            yield dict(id='seeker.%d.%s' % (i, meth), kind='seeker', i=i, meth=meth, big=big)


def run(case, rec):
    globals()[case['kind']](rec, case)


def factor(rec, case):
    """ the deflation factor and its derivative """
    from funpy.newton import deflation, deflation_linearization
    dom, m, big = DOMS[case['di']], case['m'], case['big']
    pal = [np.array(c, float) for c in PAL[m]]
    U = pal[case['i']]
    others = [k for j, k in enumerate(pal) if j != case['i']]
    rec.close(quiet(lambda: deflation(fun(U, dom), [])), 1.0, 0.0, 'no known solutions')
    rec.check(quiet(lambda: deflation_linearization(fun(U, dom), [])) == (1.0, None), 'no known solutions derivative')
    for q in (1, 2, 3):
        for ks in itertools.permutations(range(len(others)), q):
            if q == 3 and not big and ks[0] > ks[2]:
                continue
            Ks = [others[k] for k in ks]
            for shift, power in itertools.product(SHIFTS, POWERS):
                if q == 3 and not big and shift == 2:
                    continue
                rec.state('factor', dom, m, case['i'], ks, shift, power)
                lab = 'u%d ks=%s shift=%g power=%g' % (case['i'], ks, shift, power)
                u, kf = fun(U, dom), [fun(K, dom) for K in Ks]
                kw = dict(known_solutions=kf, shift=shift, power=power)
                want = eta_ref(U, Ks, dom, shift, power)
                rec.step()
                ok, e = rec.attempt(lab, lambda: quiet(lambda: deflation(u, **kw)))
                if ok:
                    rec.close(e, want, 1e-12 * want, lab + ' factor')
                n0 = len(U)
                for n in (None, n0 + 3, 2, 9) if q < 3 else (None,):
                    if n is not None and n < n0:
                        continue
                    rec.step()
                    kn = {} if n is None else dict(n=n)
                    ok, r = rec.attempt(lab, lambda: quiet(lambda: deflation_linearization(u, **kw, **kn)))
                    if not ok:
                        continue
                    e, d = r
                    nn = n or n0
                    rec.close(e, want, 1e-12 * want, lab + ' factor of the linearisation')
                    ref = deta_ref(U, Ks, dom, shift, power, nn)
                    tol = 1e-11 * (1 + np.max(np.abs(ref)))
                    for j in range(nn * m):
                        rec.close(d(unit(nn * m, j)), ref[j], tol, lab + ' derivative in direction %d/%d' % (j, nn))
                    V = np.array([[(3 * i + 2 * j) % 5 - 2.0 for j in range(m)] for i in range(nn)])
                    rec.close(d(fun(V, dom)), ref @ V.flatten(order='F'), tol * nn * 4, lab + ' derivative on a function')
                    # binds the closed form to the code: central difference of the factor itself
                    if q == 1 and n is None:
                        h = 1e-4
                        W = V[:n0] / np.max(np.abs(V[:n0]))
                        fd = quiet(lambda: (deflation(fun(U + h * W, dom), **kw) - deflation(fun(U - h * W, dom), **kw)) / (2 * h))
                        rec.close(fd, ref @ W.flatten(order='F'), 1e-5 * (1 + abs(fd)) * 10, lab + ' derivative against differences of the factor')
                same = np.array_equal(u.coeffs, U) and all(np.array_equal(f.coeffs, K) for f, K in zip(kf, Ks))
                rec.check(same, lab + ' arguments intact')
    # blows up at a known solution, and only there
    for q in (0, 1, 2):
        for ks in itertools.permutations(range(len(others)), q):
            for pos in range(q + 1):
                Ks = [others[k] for k in ks]
                Ks.insert(pos, U)
                u, kf = fun(U, dom), [fun(K, dom) for K in Ks]
                for eps in (0.0, 1e-3, 1e-6, 1e-9):
                    V = U.copy()
                    V[0, 0] += eps
                    rec.state('blowup', dom, case['i'], ks, pos, eps)
                    rec.step()
                    ok, e = rec.attempt('at a known solution', lambda: quiet(lambda: deflation(fun(V, dom), kf)))
                    if not ok:
                        continue
                    if eps == 0.0:
                        rec.check(np.isposinf(e), 'factor at a known solution', got=float(e))
                    else:
                        want = eta_ref(V, Ks, dom, 1.0, 2.0)
                        rec.close(e / want, 1.0, 1e-4 if eps < 1e-8 else 1e-8, 'factor close to a known solution eps=%g' % eps)


class Row:
    """ a functional given by its coefficients """
    def __init__(self, c):
        self.c = np.array(c, float)

    def __call__(self, x):
        return float(self.c @ x)


def apply_all(rec, lab, op, A, extra=True):
    """ every way to apply an operator agrees with the matrix """
    n = len(A)
    tol = 1e-12 * (1 + np.max(np.abs(A)))
    rec.check(op.shape == (n, n), lab + ' shape')
    for j in range(n):
        rec.step()
        ok, y = rec.attempt(lab, lambda: op @ unit(n, j))
        if ok:
            rec.close(y, A[:, j], tol, lab + ' column %d' % j)
    x = np.arange(1.0, n + 1)
    kx = x.copy()
    rec.close(op.matvec(x), A @ x, tol * n * n, lab + ' matvec')
    rec.check(np.array_equal(x, kx), lab + ' argument intact')
    if extra:
        ok, M = rec.attempt(lab + ' to_matrix', op.to_matrix)
        if ok:
            M = M.toarray() if hasattr(M, 'toarray') else np.asarray(M)
            rec.close(M, A, tol, lab + ' to_matrix')


def rank1(rec, case):
    """ every integer operator: eta A + b deta and its inverse from the one of A """
    from funpy.newton import FrechetDeflated, FrechetDeflatedPrecond
    al = (-1, 0, 1, 2) if case['big'] else (-1, 0, 2)
    mats = [np.array(v, float).reshape(2, 2) for v in itertools.product(al, repeat=4)]
    for A in mats[case['i']::4]:
        det = A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
        S = sps.csc_matrix(A)
        apply_all(rec, 'plain %s' % A.tolist(), FrechetDeflated(S, eta=None, b=None, deta=None), A)
        for b in itertools.product((-1, 0, 1, 3), repeat=2):
            b = np.array(b, float)
            for c in itertools.product((-1.0, 0.0, 0.5), repeat=2):
                for eta in (1.0, 2.0, 0.25):
                    rec.state('rank1', A.tolist(), b.tolist(), c, eta)
                    d = Row(c)
                    B = eta * A + np.outer(b, c)
                    lab = 'A=%s b=%s c=%s eta=%g' % (A.tolist(), b.tolist(), c, eta)
                    kb, kA = b.copy(), S.toarray()
                    apply_all(rec, lab, FrechetDeflated(S, eta=eta, b=b, deta=d), B, extra=eta == 2.0 and np.any(B))
                    if det:
                        P = LAS.splu(S)
                        detB = B[0, 0] * B[1, 1] - B[0, 1] * B[1, 0]
                        if detB:
                            Q = FrechetDeflatedPrecond(P, b, ks=1, functional=d, eta=eta)
                            for j in range(2):
                                rec.step()
                                ok, y = rec.attempt(lab + ' inverse', lambda: Q @ unit(2, j))
                                if ok:
                                    rec.close(B @ y, unit(2, j), 1e-10, lab + ' inverse column %d' % j)
                    rec.check(np.array_equal(b, kb) and np.array_equal(S.toarray(), kA), lab + ' operands intact')
        if det:
            Q = FrechetDeflatedPrecond(LAS.splu(S), None, ks=0, functional=None, eta=None)
            for j in range(2):
                rec.close(A @ (Q @ unit(2, j)), unit(2, j), 1e-12, 'plain inverse')


def rank1large(rec, case):
    """ the same with the functionals of deflation, n coefficients of m columns """
    from funpy.newton import FrechetDeflated, FrechetDeflatedPrecond, deflation_linearization
    for dom in DOMS:
        for m in (1, 2):
            pal = [np.array(c, float) for c in PAL[m]]
            for i, n in itertools.product(range(len(pal)), (3, 4, 6, 9)):
                U = pal[i]
                if len(U) > n:
                    continue
                N = n * m
                for ks in itertools.permutations([k for k in range(len(pal)) if k != i], 2):
                    eta, d = quiet(lambda: deflation_linearization(fun(U, dom), [fun(pal[k], dom) for k in ks], n=n))
                    c = deta_ref(U, [pal[k] for k in ks], dom, 1.0, 2.0, n)
                    e = eta_ref(U, [pal[k] for k in ks], dom, 1.0, 2.0)
                    A = np.diag(np.arange(1.0, N + 1)) + np.diag(np.ones(N - 1), 1) - 0.5 * np.diag(np.ones(N - 1), -1)
                    b = np.array([(3 * j) % 5 - 2.0 for j in range(N)])
                    B = e * A + np.outer(b, c)
                    rec.state('large', dom, m, i, n, ks)
                    lab = 'd=%s m=%d u%d n=%d ks=%s' % (dom, m, i, n, ks)
                    S = sps.csc_matrix(A)
                    apply_all(rec, lab, FrechetDeflated(S, eta=eta, b=b, deta=d), B)
                    if np.linalg.cond(B) < 1e8:
                        Q = FrechetDeflatedPrecond(LAS.splu(S), b, ks=2, functional=d, eta=eta)
                        for j in range(N):
                            y = Q @ unit(N, j)
                            rec.close(B @ y, unit(N, j), 1e-14 * np.linalg.cond(B) * 100, lab + ' inverse %d' % j)


EQN = [(['u'], ['0.1*diff(u, x, 2) + a*u - u**3'], ['u({a})', 'u({b}) - 1']),
       (['u'], ['diff(u, x, 2) + u**2 - a'], ['np.diff(u)({a})', 'u({b})']),
       (['u'], ['diff(u, x) + a*u**2'], ['u({a}) - 0.5']),
       (['u', 'v'], ['diff(u, x, 2) + v*u', 'diff(v, x, 2) - a*u**2'], ['u({a})', 'u({b}) - 1', 'v({a})', 'np.diff(v)({b})']),
       (['u'], ['u**2 - a - x'], [])]


def operator(i, dom, n):
    from funpy.colloc.chebOp import ChebOp
    fs, eqn, bcs = EQN[i]
    op = ChebOp('ultraS', functions=list(fs), domain=list(dom), parameters={'a': 1.0}, n=n)
    op.eqn = list(eqn)
    op.bcs = [b.format(a=repr(dom[0]), b=repr(dom[1])) for b in bcs]
    op.cts = []
    return op


def system(rec, case):
    """ the linear system of Newton's method: right hand side, operator, inverse """
    from funpy.newton.NewtonSystem import NewtonSystem
    from funpy.vectorspaces import DeflationState
    i, dom = case['i'], DOMS[case['di']]
    m = len(EQN[i][0])
    pal = [np.array(c, float) for c in PAL[m]]
    for n in (8, 13):
        op = quiet(lambda: operator(i, dom, n))
        for si, pad in itertools.product(range(len(pal)), (n, None, n + 4)):
            U = pal[si]
            C = np.zeros((pad or len(U), m))
            C[:len(U)] = U
            for q in (0, 1, 2):
                for ks in itertools.permutations([k for k in range(len(pal)) if k != si], q):
                    if pad != n and q == 2 and ks[0] > ks[1]:
                        continue
                    rec.state('system', i, dom, n, si, pad, ks)
                    lab = 'eqn%d n=%d u%d/%d ks=%s' % (i, n, si, len(C), ks)
                    Ks = [pal[k] for k in ks]
                    s = DeflationState(u=fun(C, dom), a=1.5)
                    kf = [fun(K, dom) for K in Ks]
                    ok, r = rec.attempt(lab, lambda: quiet(lambda: (lambda y, z: (y, y.matrix(), z.matrix(), y.rhs(s), z.rhs(s), z))(NewtonSystem(s, op, ks=kf), NewtonSystem(s, op))))
                    if not ok:
                        continue
                    ns, (L, pre, pr), (L0, _, _), b, b0, n0 = r
                    N = n * m
                    A = np.stack([L0 @ unit(N, j) for j in range(N)], 1)
                    e = eta_ref(U, Ks, dom, 1.0, 2.0)
                    c = deta_ref(U, Ks, dom, 1.0, 2.0, n) if q else np.zeros(N)
                    rec.close(b, e * b0, 1e-11 * (1 + np.max(np.abs(e * b0))), lab + ' right hand side')
                    B = e * A + np.outer(b0, c)
                    rec.step(N)
                    got = np.stack([L @ unit(N, j) for j in range(N)], 1)
                    rec.close(got, B, 1e-11 * (1 + np.max(np.abs(B))), lab + ' operator')
                    rec.check(pre is None, lab + ' no preconditioner requested')
                    # the right hand side at another state
                    V = C.copy()
                    V[0] += 0.25
                    s2 = DeflationState(u=fun(V, dom), a=1.5)
                    b2, b20 = quiet(lambda: (ns.rhs(s2), n0.rhs(s2)))
                    e2 = eta_ref(V, Ks, dom, 1.0, 2.0)
                    rec.close(b2, e2 * b20, 1e-11 * (1 + np.max(np.abs(e2 * b20))), lab + ' right hand side at another state')
                    # inverse
                    cond = max(np.linalg.cond(B), np.linalg.cond(A))
                    if cond < 1e9:
                        ok, r = rec.attempt(lab + ' preconditioned', lambda: quiet(lambda: NewtonSystem(s, op, ks=kf).matrix(precond=True)))
                        if ok:
                            L2, Q, _ = r
                            x = np.array([(3 * j) % 7 - 3.0 for j in range(N)])
                            rec.close(B @ (Q @ x), x, 1e-13 * cond * 50, lab + ' preconditioner inverts the operator')
                            rec.close(L2 @ x, B @ x, 1e-10 * (1 + np.max(np.abs(B))) * 10, lab + ' operator with preconditioner')
                        ok, r = rec.attempt(lab + ' direct', lambda: quiet(lambda: NewtonSystem(s, op, exact='lu', ks=kf)))
                        if ok:
                            x = np.array([(3 * j) % 7 - 3.0 for j in range(N)])
                            d, good = r.solve(x)
                            W = np.zeros((n, m))
                            W[:d.u.coeffs.shape[0]] = d.u.coeffs
                            rec.check(good and tuple(d.u.domain) == tuple(dom), lab + ' direct solve status')
                            rec.close(B @ W.flatten(order='F'), x, 1e-13 * cond * 50, lab + ' direct solve')
                    same = np.array_equal(s.u.coeffs, C) and all(np.array_equal(f.coeffs, K) for f, K in zip(kf, Ks))
                    rec.check(same, lab + ' arguments intact')


# equation, conditions, number of solutions is at least two
SEEK = [(['0.1*diff(u, x, 2) + a*u - u**3'], ['u(-1.0)', 'u(1.0)']),
        (['0.25*diff(u, x, 2) + u**2 - a'], ['u(-1.0) - 0.25', 'u(1.0) - 0.25']),
        (['u**2 - a'], [])]
STARTS = [[.6, 0, -.6], [-.6, 0, .6], [0., .5, 0, -.5], [1.5], [-2.0, 0.3]]


def seeker(rec, case):
    """ words of starts: whatever is reported found is a new solution """
    from funpy.newton import NewtonSeeker
    from funpy.colloc.chebOp import ChebOp
    from funpy.vectorspaces import DeflationState
    from numpy.polynomial import chebyshev as NC
    eqn, bcs = SEEK[case['i']]
    n = 32
    xs = np.linspace(-1, 1, 41)
    for word in itertools.product(range(len(STARTS)), repeat=2 if not case['big'] else 3):
        op = ChebOp('ultraS', functions=['u'], domain=[-1.0, 1.0], parameters={'a': 1.0}, n=n)
        op.eqn, op.bcs, op.cts = list(eqn), list(bcs), []
        S = quiet(lambda: NewtonSeeker(op))
        found = 0
        for w in word:
            rec.state('seeker', case['i'], case['meth'], word, w)
            rec.step()
            C = np.pad(np.array(STARTS[w], float), (0, n - len(STARTS[w])))[:, None]
            s = DeflationState(u=fun(C, (-1.0, 1.0)), a=1.0)
            ok, r = rec.attempt('%s %s' % (case['meth'], word), lambda: quiet(lambda: S.solve(s, method=case['meth'])))
            rec.check(np.array_equal(s.u.coeffs, C), '%s start intact' % (word,))
            if not ok:
                break
            x, good, it = r
            if good:
                c = np.asarray(x.u.coeffs)[:, 0]
                c2 = NC.chebder(c, 2)
                u, u2 = NC.chebval(xs, c), NC.chebval(xs, c2)
                res = [0.1 * u2 + u - u**3, 0.25 * u2 + u**2 - 1.0, u**2 - 1.0][case['i']]
                # the iteration stops at 1e6 eps in u; n = 32 resolves the solutions of these equations
                if case['i'] == 2:  # no equation limits the resolution: the first n coefficients vanish
                    res = NC.chebval(xs, NC.chebsub(NC.chebmul(c, c), [1.0])[:n])
                rec.check(np.max(np.abs(res)) <= 2e-6, '%s residual of the solution found' % (word,), got=float(np.max(np.abs(res))))
                bc = [0.0, 0.25][case['i']] if bcs else None
                if bc is not None:
                    rec.close(u[[0, -1]], [bc, bc], 1e-6, '%s conditions of the solution found' % (word,))
                for k, other in enumerate(S.known_solutions[:found]):
                    o = np.asarray(other.coeffs)[:, 0]
                    D = np.zeros(max(len(o), len(c)))
                    D[:len(c)] += c
                    D[:len(o)] -= o
                    rec.check(np.max(np.abs(NC.chebval(xs, D))) > 1e-4, '%s solution %d found twice' % (word, k))
                found += 1
            rec.check(len(S.known_solutions) == found, '%s list of known solutions' % (word,), got=len(S.known_solutions), want=found)
        # a solution found, offered again, is known
    S = NewtonSeeker(op)
    st = DeflationState(u=fun([[1.0]], (-1.0, 1.0)), a=1.0)
    S.append(st)
    S.append([fun([[2.0]], (-1.0, 1.0))])
    rec.check(len(S.known_solutions) == 2, 'append')
