"""C23: bordered and factorised linear solvers solve the system they are given."""
import contextlib
import io
import itertools
import types
import warnings
import numpy as np
import scipy.sparse as sps
from scipy.sparse.linalg import LinearOperator
from checks.c24 import det, mats, rank, family4

ID = 'C23'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of inner matrices, borders, right-hand sides and solver configurations over small integer alphabets, and of all update histories of bordered solvers up to the depth bound, on the real code against exact rational solutions'
RULE = 'every regular inner matrix and every rank-one-deficient inner matrix of the bounds x every border over {-1,0,2} x corner {0,3} whose bordered matrix is regular x unit and dense right-hand sides x every entry point of every solver; every history of row/column updates up to length 3; every shape up to 4x3 and every rank for the pseudo-inverse. Non-trivial: size at least 2'
ASSUMPTIONS = ['widely bordered systems have regular inner matrices and regular leading bordered blocks (the block elimination divides by those pivots)',
               'the singular inner matrix is recognised with the tolerance passed by the caller',
               'BEM.mat is not claimed: the factorised solver keeps no copy of the matrix (marked as temporary in the source)']
LIMIT = 300
PALETTE = (-1, 0, 2)


def xsolve(M, b):
    from fractions import Fraction as Fr
    n = len(M)
    A = [[Fr(v) for v in r] + [Fr(x)] for r, x in zip(M, b)]
    for k in range(n):
        p = next(i for i in range(k, n) if A[i][k])
        A[p], A[k] = A[k], A[p]
        A[k] = [v / A[k][k] for v in A[k]]
        for i in range(n):
            if i != k and A[i][k]:
                f = A[i][k]
                A[i] = [v - f * w for v, w in zip(A[i], A[k])]
    return np.array([float(r[n]) for r in A])


def T(M):
    return tuple(zip(*M))


def rhss(n):
    for k in range(n):
        yield tuple(int(i == k) for i in range(n))
    yield tuple((2 * i * i - 3 * i + 1) % 5 - 2 for i in range(n)) if n > 1 else (3,)


def inners(n, kind, tier):
    """matrices of size n: kind 'reg' regular, 'sing' rank n-1."""
    step = 1
    if n == 1:
        it = [((v,),) for v in (-2, -1, 1, 3)] if kind == 'reg' else []
    elif n == 2:
        it = mats(2, 2, (-1, 0, 1, 2))
    elif n == 3:
        it = mats(3, 3, (-1, 0, 1))
        step = (61 if kind == 'reg' else 47) if tier == 'quick' else 5
    else:
        it = family4()
        step = 59 if tier == 'quick' else 7
        if kind == 'sing':
            it = (tuple(tuple(r) for r in M[:3]) + (tuple(a + b for a, b in zip(M[0], M[2])),) for M in it)
    k = 0
    for M in it:
        d = det(M)
        if (d != 0) if kind == 'reg' else (d == 0 and rank(M) == n - 1):
            if k % step == 0:
                yield M
            k += 1


def full(M, b, c, d):
    return tuple(tuple(r) + (v,) for r, v in zip(M, c)) + (tuple(b) + (d,),)


def vecs(n):
    v = list(itertools.product(PALETTE, repeat=n))
    return v if n < 3 else v[::2] if n == 3 else v[::9]


def cases(tier):
    P = 8
    for kind in ('reg', 'sing'):
        for n in (1, 2, 3, 4):
            for p in range(P if n > 1 else 1):
                yield dict(id='bem.%s.%d.%d' % (kind, n, p), kind='bem', sing=kind, n=n, part=p, parts=P if n > 1 else 1, tier=tier)
                yield dict(id='bmat.%s.%d.%d' % (kind, n, p), kind='bmat', sing=kind, n=n, part=p, parts=P if n > 1 else 1, tier=tier)
    for n in (1, 2, 3, 4):
        for p in range(P):
            yield dict(id='bemw.%d.%d' % (n, p), kind='bemw', n=n, part=p, parts=P, tier=tier)
            yield dict(id='exact.%d.%d' % (n, p), kind='exact', n=n, part=p, parts=P, tier=tier)
            yield dict(id='updates.%d.%d' % (n, p), kind='updates', n=n, part=p, parts=P, tier=tier)
            yield dict(id='brd.%d.%d' % (n, p), kind='brd', n=n, part=p, parts=P, tier=tier)
            if n > 1:
                yield dict(id='fold.%d.%d' % (n, p), kind='fold', n=n, part=p, parts=P, tier=tier)
            yield dict(id='schur.%d.%d' % (n, p), kind='schur', n=n, part=p, parts=P, tier=tier)
    for n, m in [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3), (2, 4), (4, 2), (1, 4), (4, 1)]:
        Q = 8 if n * m > 4 else 1
        for p in range(Q):
            yield dict(id='pinv.%dx%d.%d' % (n, m, p), kind='pinv', n=n, m=m, part=p, parts=Q, tier=tier)


def part(it, case):
    for i, x in enumerate(it):
        if i % case['parts'] == case['part']:
            yield x


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        return f()


def go(rec, lab, fn, want, keep=(), tol=1e-9, **info):
    """fn() must return want; the (array, copy) pairs in keep must not change."""
    rec.step()
    ok, r = rec.attempt(lab, lambda: quiet(fn))
    if ok:
        r = np.asarray(r, dtype=float).ravel()
        if r.shape != want.shape or not np.max(np.abs(r - want), initial=0.0) <= tol * (1 + np.max(np.abs(want), initial=0.0)):
            rec.evals += 1
            rec.fail(lab, got=r, want=want, **info)
        else:
            rec.evals += 1
    for a, b in keep:
        rec.check(np.array_equal(a, b), lab + ' modifies its input', **info)
    return ok


def bem(rec, case):
    from funpy.linalg import QR, BEM
    n, sing = case['n'], case['sing'] == 'sing'
    for M in part(inners(n, case['sing'], case['tier']), case):
        A = np.array(M, dtype=float)
        for form in ('dense', 'csr') if n == 2 else ('dense',):
            A0 = A.copy()
            ok, S = rec.attempt('QR', lambda: QR(A if form == 'dense' else sps.csr_matrix(A), tol=1e-11))
            if not ok:
                continue
            rec.check(bool(S.is_singular) == sing, 'QR recognises singularity', mat=str(M))
            info = dict(mat=str(M), form=form)
            if not sing:
                for f in rhss(n):
                    b = np.array(f, float)
                    go(rec, 'QR.solve', lambda: S.solve(b), xsolve(M, f), [(b, np.array(f, float)), (A, A0)], **info)
                    go(rec, 'QR.solve_adj', lambda: S.solve_adj(b), xsolve(T(M), f), [(b, np.array(f, float)), (A, A0)], **info)
            else:
                ok, r = rec.attempt('QR.null', S.null)
                if ok:
                    for v, B, w in ((r[0], A, 'right'), (r[1], A.T, 'left')):
                        v = np.asarray(v)
                        rec.check(v.shape == (n,) and np.linalg.norm(v) > 0.5 and np.max(np.abs(B @ v)) < 1e-11 * (1 + np.linalg.norm(v)), 'QR.null ' + w, got=v, **info)
                for f in rhss(n):
                    x0 = np.array(f, float)
                    for nm, B, fn in (('particular', A, S.particular), ('particular_adj', A.T, S.particular_adj)):
                        b = B @ x0
                        b0 = b.copy()
                        rec.step()
                        ok, r = rec.attempt('QR.' + nm, lambda: quiet(lambda: fn(b)))
                        if ok:
                            rec.check(np.max(np.abs(B @ np.ravel(r) - b)) < 1e-10, 'QR.' + nm, got=r, rhs=b, **info)
                        rec.check(np.array_equal(b, b0), 'QR.%s modifies its input' % nm)
            for b in vecs(n):
                for c in vecs(n):
                    for d in (0, 3):
                        F = full(M, b, c, d)
                        if not det(F):
                            continue
                        rec.state('bem', M, b, c, d, form)
                        bb, cc = np.array(b, float), np.array(c, float)
                        ok, B = rec.attempt('BEM', BEM, S, bb, cc, float(d))
                        if not ok:
                            continue
                        everything(rec, B, 'BEM' + (' singular' if sing else ''), F, n, sing, [(bb, bb.copy()), (cc, cc.copy())])


def everything(rec, B, lab, F, n, sing=False, keep=(), wide=False):
    m = len(F)
    info = dict(full=str(F))
    rec.check(tuple(B.shape) == (m, m), lab + ' shape', got=str(B.shape))
    R = list(rhss(m))
    for f in R[-2:] if n > 1 else R:
        r = np.array(f, float)
        kp = list(keep) + [(r, r.copy())]
        go(rec, lab + '.solve', lambda: B.solve(r), xsolve(F, f), kp, **info)
        go(rec, lab + '.solve_adj', lambda: B.solve_adj(r), xsolve(T(F), f), kp, **info)
        f0 = f[:-1]
        g = np.array(f0, float)
        kp = list(keep) + [(g, g.copy())]
        want = xsolve(F, f0 + (0,))
        go(rec, lab + '.solve_zero', lambda: B.solve_zero(g), want, kp, **info)
        t = xsolve(F, (0,) * (m - 1) + (1,))
        go(rec, lab + '.min_norm', lambda: B.min_norm(g), want - t * (want @ t) / (t @ t), kp, **info)
        if wide:
            go(rec, lab + '.solve_zero_adj', lambda: B.solve_zero_adj(g), xsolve(T(F), f0 + (0,)), kp, **info)
    e = (0,) * (m - 1) + (1,)
    go(rec, lab + '.solve_null', lambda: B.solve_null(), xsolve(F, e), keep, **info)
    go(rec, lab + '.solve_null_adj', lambda: B.solve_null_adj(), xsolve(T(F), e), keep, **info)
    if not sing and not wide:
        go(rec, lab + '.nullspace', lambda: B.nullspace(), xsolve(F, e), keep, **info)
        go(rec, lab + '.nullspace_adj', lambda: B.nullspace_adj(), xsolve(T(F), e), keep, **info)


def updates(rec, case):
    """every history of row and column replacements up to length 3 on one bordered solver."""
    from funpy.linalg import QR, BEM, BEMW
    n = case['n']
    moves = [('row', (1,) * n, 2), ('row', tuple((-1)**i for i in range(n)), 0), ('col', tuple(2 - i for i in range(n)), -1), ('col', (1,) + (0,) * (n - 1), 5)]
    for q, M in enumerate(part(itertools.chain(inners(n, 'reg', 'quick'), inners(n, 'sing', 'quick')), case)):
        if case['tier'] == 'quick' and q % 3:
            continue
        A = np.array(M, dtype=float)
        sing = det(M) == 0
        for hist in itertools.product(range(4), repeat=3):
            b, c, d = (1,) + (0,) * (n - 2) + (-1,) * (n > 1), (2,) + (1,) * (n - 1), 1
            ok, S = rec.attempt('QR', QR, A, tol=1e-11)
            if not ok or not det(full(M, b, c, d)):
                break
            B = BEM(S, np.array(b, float), np.array(c, float), float(d))
            lists = ([np.array(b, float)], [np.array(c, float)], [float(d)])
            W = None if sing else BEMW(S, *lists)
            for h in hist:
                w, v, d = moves[h]
                if w == 'row':
                    b = v
                else:
                    c = v
                F = full(M, b, c, d)
                rec.state('upd', M, b, c, d)
                x = np.array(v, float)
                ok = rec.attempt('BEM.update_' + w, lambda: getattr(B, 'update_' + w)(x, float(d)))[0]
                if not ok or not det(F):
                    break
                f = list(rhss(n + 1))[-1]
                go(rec, 'BEM.solve after updates', lambda: B.solve(np.array(f, float)), xsolve(F, f), [(x, np.array(v, float))], full=str(F), hist=str(hist))
                go(rec, 'BEM.solve_adj after updates', lambda: B.solve_adj(np.array(f, float)), xsolve(T(F), f), full=str(F), hist=str(hist))
                go(rec, 'BEM.solve_null after updates', lambda: B.solve_null(), xsolve(F, (0,) * n + (1,)), full=str(F), hist=str(hist))
                if W is not None:
                    ok = rec.attempt('BEMW.update_' + w, lambda: getattr(W, 'update_' + w)(0, x, float(d)))[0]
                    if ok:
                        go(rec, 'BEMW.solve after updates', lambda: W.solve(np.array(f, float)), xsolve(F, f), full=str(F), hist=str(hist))
            if W is not None:
                rec.check(np.array_equal(lists[0][0], np.array((1,) + (0,) * (n - 2) + (-1,) * (n > 1), float)) and lists[2] == [1.0], 'BEMW update modifies the caller\'s border')


def bemw(rec, case):
    from funpy.linalg import QR, BEMW
    n = case['n']
    for q, M in enumerate(part(inners(n, 'reg', case['tier']), case)):
        A = np.array(M, dtype=float)
        ok, S = rec.attempt('QR', QR, A, tol=1e-11)
        if not ok:
            continue
        V = vecs(n)
        V = V if n < 2 else V[q % 3::3] if n == 2 else V[q % 7::7]
        if case['tier'] == 'quick' and q % 2:
            continue
        for b, c, d in itertools.product(V, V, (0, 3)):
            F = full(M, b, c, d)
            if not det(F):
                continue
            rec.state('bemw', F)
            ok, B = rec.attempt('BEMW', BEMW, S, [np.array(b, float)], [np.array(c, float)], [float(d)])
            if ok:
                everything(rec, B, 'BEMW width 1', F, n, wide=True)
            for b2, c2, d2 in ((b + (1,), c + (-1,), 2), (c + (0,), b + (2,), 0), ((1,) * n + (0,), (1,) * n + (1,), 1)):
                F2 = full(F, b2, c2, d2)
                if not det(F2):
                    continue
                rec.state('bemw2', F2)
                ls = [np.array(b, float), np.array(b2, float)], [np.array(c, float), np.array(c2, float)], [float(d), float(d2)]
                kp = [(x, x.copy()) for l in ls[:2] for x in l]
                ok, B = rec.attempt('BEMW2', BEMW, S, *ls)
                if not ok:
                    continue
                everything(rec, B, 'BEMW width 2', F2, n, wide=True, keep=kp)
                b3, c3, d3 = (1,) + b2, (0,) + c2, 1
                F3 = full(F2, b3, c3, d3)
                if not det(F3) or (hash(F3) & 1 if n > 2 and False else False):
                    continue
                ok, B = rec.attempt('BEMW3', BEMW, S, ls[0] + [np.array(b3, float)], ls[1] + [np.array(c3, float)], ls[2] + [float(d3)])
                if ok:
                    rec.state('bemw3', F3)
                    everything(rec, B, 'BEMW width 3', F3, n, wide=True, keep=kp)
                    # replace one border of the widest system
                    for j, (bn, cn) in enumerate(((c, b), (c2, b2))):
                        Fn = [list(r) for r in F3]
                        k = n + j
                        Fn[k][:k] = list(bn)
                        Fn[k][k] = 4
                        Fs = [tuple(tuple(r[:n + i + 1]) for r in Fn[:n + i + 1]) for i in range(3)]
                        if not all(det(x) for x in Fs):
                            continue
                        ok, _ = rec.attempt('BEMW update', lambda: B.update_row(j, np.array(bn, float), 4.0))
                        if ok:
                            f = list(rhss(n + 3))[-1]
                            go(rec, 'BEMW width 3 after update', lambda: B.solve(np.array(f, float)), xsolve(Fs[2], f), full=str(Fs[2]))
                            F3 = Fs[2]


def bmat(rec, case):
    from funpy.linalg import BMatrix
    n, sing = case['n'], case['sing'] == 'sing'
    for M in part(inners(n, case['sing'], case['tier']), case):
        A = np.array(M, dtype=float)
        A0 = A.copy()
        V = vecs(n)
        V = V if n < 3 else V[::2]
        for b, c, d in itertools.product(V, V, (0, 3)):
            F = full(M, b, c, d)
            if not det(F):
                continue
            rec.state('bmat', F)
            bb, cc = np.array(b, float), np.array(c, float)
            kp = [(A, A0), (bb, bb.copy()), (cc, cc.copy())]
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                ok, B = rec.attempt('BMatrix', BMatrix, A, bb, cc, float(d))
            if not ok:
                continue
            lab = 'BMatrix' + (' singular' if sing else '')
            f = list(rhss(n + 1))[-1]
            r = np.array(f, float)
            go(rec, lab + '.solve', lambda: B.solve(r), xsolve(F, f), kp + [(r, r.copy())], full=str(F))
            go(rec, lab + '.solve_null', lambda: B.solve_null(), xsolve(F, (0,) * n + (1,)), kp, full=str(F))
            go(rec, lab + '._matvec', lambda: B._matvec(r), np.array(F, float) @ r, kp, full=str(F))
            rec.check(np.array_equal(B.mat, np.array(F, float)) and tuple(B.shape) == (n + 1, n + 1), lab + '.mat', full=str(F))


def exact(rec, case):
    from funpy.linalg import ExactLinearSolver, QRCholesky
    from funpy.linalg.lu_solve import DenseLUSolver

    class Op(LinearOperator):
        def __init__(self, A):
            self.A = A
            super().__init__(dtype=float, shape=A.shape)

        def to_matrix(self):
            return self.A

        def _matvec(self, x):
            return self.A @ x
    for M in part(inners(case['n'], 'reg', 'thorough' if case['n'] < 3 else case['tier']), case):
        A = np.array(M, dtype=float)
        n = len(M)
        rec.state('exact', M)
        for sc in (1.0, 2.0**20, 2.0**-20):
            forms = [('dense', A * sc, ('lu', 'qr', 'LU', 'QR')), ('csr', sps.csr_matrix(A * sc), ('lu', 'qr')), ('csc', sps.csc_matrix(A * sc), ('lu', 'LU', 'qr')), ('coo', sps.coo_matrix(A * sc), ('lu', 'QR')),
                     ('operator', Op(A * sc), ('lu', 'qr')), ('sparse operator', Op(sps.csr_matrix(A * sc)), ('lu', 'qr'))]
            for nm, X, methods in forms:
                keep = A * sc
                for meth in methods:
                    for kw in ({}, dict(method=meth)):
                        if not kw and meth != 'lu':
                            continue
                        ok, S = rec.attempt('ExactLinearSolver ' + meth, lambda: ExactLinearSolver(X, proj=lambda x: 2 * x, to_fun=lambda x: x + 1, **kw))
                        if not ok:
                            continue
                        for f in list(rhss(n))[-2:]:
                            b = np.array(f, float)
                            lab = 'ExactLinearSolver %s %s' % (meth, nm)
                            rec.step()
                            ok, r = rec.attempt(lab, S.solve, b)
                            if ok:
                                want = 2 * xsolve(M, f) / sc + 1
                                if rec.check(isinstance(r, tuple) and len(r) == 2 and r[1] is True, lab + ' status'):
                                    rec.close((r[0] - 1) * sc, (want - 1) * sc, 1e-9 * (1 + np.max(np.abs(want - 1)) * sc) * max(1, sc), lab, mat=str(M))
                            rec.check(np.array_equal(b, np.array(f, float)), lab + ' modifies its input')
                        Y = X.A if isinstance(X, Op) else X
                        rec.check(np.array_equal(Y.toarray() if sps.issparse(Y) else Y, keep), 'matrix modified')
        for f in rhss(n):
            b = np.array(f, float)
            go(rec, 'DenseLUSolver', lambda: DenseLUSolver(A).solve(b), xsolve(M, f), [(A, np.array(M, float)), (b, np.array(f, float))], mat=str(M))
            go(rec, 'QRCholesky', lambda: QRCholesky(A).solve(b), xsolve(M, f), [(A, np.array(M, float)), (b, np.array(f, float))], mat=str(M))
    rec.rejects('unknown method', lambda: ExactLinearSolver(np.eye(2), method='nope'))


def pinv(rec, case):
    from funpy.linalg import QRCholesky
    n, m = case['n'], case['m']
    al = (-1, 0, 1, 2) if n * m <= 4 else (-1, 0, 1)
    for i, M in enumerate(part(mats(n, m, al), case)):
        if case['tier'] == 'quick' and n * m >= 8 and i % 4:
            continue
        A0 = np.array(M, dtype=float)
        if not np.any(A0):
            continue
        r = rank(M)
        for sc in (1.0, 2.0**24, 2.0**-24) if i % 5 == 0 else (1.0,):
            A = A0 * sc
            rec.state('pinv', M, sc)
            P = np.linalg.pinv(A0, rcond=1e-9) / sc
            for kw, form in [(k, f) for f in ('dense', 'sparse') for k in ({}, dict(rank=r))]:
                lab = 'QRCholesky %s %s' % (form, 'square' if n == m else 'wide' if n < m else 'tall')
                lab += ' full rank' if r == min(n, m) else ' deficient by %d' % (min(n, m) - r)
                rec.step()
                ok, S = rec.attempt(lab, lambda: quiet(lambda: QRCholesky(A if form == 'dense' else sps.csr_matrix(A), **kw)))
                if not ok:
                    continue
                rec.check(int(S.rank) == r, lab + ' rank', got=int(S.rank), want=r, mat=str(M), scale=sc)
                for f in list(rhss(n)):
                    b = np.array(f, float)
                    go(rec, lab, lambda: np.asarray(S.solve(b)) * sc, P @ b * sc, [(A, A0 * sc), (b, np.array(f, float))], mat=str(M), scale=sc)
                if n + 1 == m and r == n:
                    ok, t = rec.attempt('tangent_vector', S.tangent_vector)
                    if ok:
                        t = np.asarray(t).ravel()
                        rec.check(t.shape == (m,) and abs(np.linalg.norm(t) - 1) < 1e-12 and np.max(np.abs(A0 @ t)) < 1e-11, 'tangent_vector', got=t, mat=str(M))


def brd(rec, case):
    import funpy.linalg.brd_solve as D
    from scipy.sparse.linalg import splu
    n = case['n']
    for sing in (False, True):
        for q, M in enumerate(part(inners(n, 'sing' if sing else 'reg', case['tier']), case)):
            A = sps.csc_matrix(np.array(M, dtype=float))
            V = vecs(n)
            V = V if n < 3 else V[q % 3::3]
            if sing:
                ok, v = rec.attempt('nullvector', lambda: quiet(lambda: D.nullvector(A)))
                if ok:
                    v = np.ravel(v)
                    rec.check(np.linalg.norm(v) > 0.5 and np.max(np.abs(A @ v)) < 1e-11 * (1 + np.linalg.norm(v)), 'nullvector', got=v, mat=str(M))
            for b, c, d in itertools.product(V, V, (0, 3)):
                F = full(M, b, c, d)
                if not det(F):
                    continue
                rec.state('brd', F)
                bb, cc = np.array(b, float), np.array(c, float)
                e = (0,) * n + (1,)
                f = list(rhss(n + 1))[-1]
                kp = [(bb, bb.copy()), (cc, cc.copy())]
                A0 = A.toarray()
                go(rec, 'brd_null_simp' + (' singular' if sing else ''), lambda: D.brd_null_simp(A, bb, cc, float(d)), xsolve(F, e), kp, full=str(F))
                if not sing:
                    r = np.array(f, float)
                    go(rec, 'brd solve', lambda: D.solve(A, bb, cc, float(d), r), xsolve(F, f), kp + [(r, r.copy())], full=str(F))
                    for nm, lu in (('splu', splu(A)), ('lucp', D.LUCP(A.toarray()))):
                        go(rec, 'solve_nonsing ' + nm, lambda: D.solve_nonsing(lu, bb, cc, float(d)), xsolve(F, e), kp, full=str(F))
                        rec.step()
                        ok, vw = rec.attempt('solve_null_nonsing ' + nm, lambda: quiet(lambda: D.solve_null_nonsing(lu, bb, cc, float(d))))
                        if ok:
                            rec.close(vw[0], xsolve(F, e), 1e-9 * (1 + np.max(np.abs(xsolve(F, e)))), 'solve_null_nonsing ' + nm, full=str(F))
                            rec.close(vw[1], xsolve(T(F), e), 1e-9 * (1 + np.max(np.abs(xsolve(T(F), e)))), 'solve_null_nonsing adjoint ' + nm, full=str(F))
                    ok, vw = rec.attempt('brd_null', lambda: quiet(lambda: D.brd_null(A, bb, cc, float(d))))
                    if ok:
                        rec.close(vw[0], xsolve(F, e), 1e-9 * (1 + np.max(np.abs(xsolve(F, e)))), 'brd_null', full=str(F))
                else:
                    lu = D.LUCP(A.toarray())
                    go(rec, 'solve_sing', lambda: D.solve_sing(lu, bb, cc, float(d)), xsolve(F, e), kp, full=str(F))
                    for nm in ('brd_solve', 'brd_solve_detail'):
                        r = np.array(f, float)
                        rec.step()
                        ok, t = rec.attempt(nm, lambda: quiet(lambda: getattr(D, nm)(lu, bb, cc, float(d), r)))
                        if ok:
                            rec.close(t[0], xsolve(F, f), 1e-9 * (1 + np.max(np.abs(xsolve(F, f)))), nm, full=str(F))
                            rec.check(np.array_equal(r, np.array(f, float)), nm + ' modifies its input')
                            for v, B, w in ((t[1], A0, 'right'), (t[2], A0.T, 'left')):
                                rec.check(np.linalg.norm(v) > 0.5 and np.max(np.abs(B @ v)) < 1e-10 * (1 + np.linalg.norm(v)), nm + ' null vector ' + w, got=v, mat=str(M))
                rec.check(np.array_equal(A.toarray(), A0), 'brd matrix modified')


def fold(rec, case):
    """[A 0 c1; B A c2; 0 phi 0] with singular A, against dense exact solutions."""
    from funpy.linalg import QR
    from funpy.linalg.fold_solve import FoldSolver
    n = case['n']
    for q, M in enumerate(part(inners(n, 'sing', case['tier']), case)):
        A = np.array(M, dtype=float)
        S = QR(A, tol=1e-10)
        S.tol = 1e-8
        phi, psi = S.null()
        phi, psi = np.array(phi), np.array(psi)
        Bs = [np.array([[(i * 3 + j * 5 + k) % 4 - 1 for j in range(n)] for i in range(n)], float) for k in range(3)]
        for B in Bs:
            if abs(psi @ B @ phi) < 1e-3:
                continue
            for c1, c2 in itertools.product(list(vecs(n))[1:6], repeat=2):
                a1, a2 = np.array(c1, float), np.array(c2, float)
                if abs(psi @ a1) < 1e-3:
                    continue
                rec.state('fold', M, c1, c2, B.tobytes())
                ok, FS = rec.attempt('FoldSolver', FoldSolver, S, lambda x: x, lambda v: B @ v, a1, a2)
                if not ok:
                    continue
                FS.ddx_adj = lambda v: B.T @ v
                Z = np.zeros((n, n))
                K = np.block([[A, Z, a1[:, None]], [B, A, a2[:, None]], [np.zeros((1, n)), phi[None, :], np.zeros((1, 1))]])
                if abs(np.linalg.det(K)) < 1e-6:
                    continue
                for f in list(rhss(2 * n + 1))[-3:]:
                    r = np.array(f, float)
                    w1, w2 = np.linalg.solve(K, r), np.linalg.solve(K.T, r)
                    go(rec, 'FoldSolver.solve', lambda: FS.solve(r), w1, [(r, np.array(f, float)), (a1, np.array(c1, float))], tol=1e-8, mat=str(M))
                    go(rec, 'FoldSolver.solve_adj', lambda: FS.solve_adj(r), w2, [(r, np.array(f, float)), (a1, np.array(c1, float))], tol=1e-8, mat=str(M))


class Tan:
    """duck-typed continuation state on plain vectors."""
    def __init__(self, u, a):
        self.u, self.a = np.array(u, float), float(a)

    @property
    def shape(self):
        return (self.u.size, 1)

    def __sub__(self, o):
        return Tan(self.u - o.u, self.a - o.a)

    def normalize(self):
        s = np.sqrt(self.u @ self.u + self.a**2)
        return Tan(self.u / s, self.a / s)


def schur(rec, case):
    from funpy.linalg import LinearSolverNGSchur
    n = case['n']
    for q, M in enumerate(part(inners(n, 'reg', case['tier']), case)):
        A = np.array(M, dtype=float)
        V = vecs(n)
        for fa, tu, ta in itertools.product(V[1::2] if n > 1 else V, V[::3], (1.0, -0.5, 0.0)):
            Fa = np.array(fa, float)
            t0 = Tan(tu, ta)
            if not np.any(t0.u) and not ta:
                continue
            t0 = t0.normalize()
            W = np.linalg.solve(A, Fa)
            if abs(t0.a - t0.u @ W) < 1e-3:
                continue
            for nm, op, P in (('matrix', sps.csc_matrix(A), None), ('preconditioned', sps.csc_matrix(A), sps.csc_matrix(np.diag(1.0 + np.arange(n)))), ('operator', None, None)):
                if nm == 'operator':
                    if q % 4:
                        continue

                    class Op(LinearOperator):
                        def __init__(self):
                            super().__init__(dtype=float, shape=A.shape)

                        def to_matrix(self):
                            return sps.csr_matrix(A)

                        def _matvec(self, x):
                            return A @ x
                    op = Op()
                rec.state('schur', M, fa, tu, ta, nm)
                rec.step()
                lab = 'Schur ' + nm
                ok, S = rec.attempt(lab, lambda: LinearSolverNGSchur(op, Fa, t0, sps.eye(n, format='csr'), P=P, to_state=Tan))
                if not ok:
                    continue
                t = S.tangent_vector()
                rec.check(abs(t.u @ t.u + t.a**2 - 1) < 1e-11 and np.max(np.abs(A @ t.u + Fa * t.a)) < 1e-10 * (1 + np.max(np.abs(W))), lab + ' tangent spans the kernel', mat=str(M), fa=str(fa))
                rec.check(t.u @ t0.u + t.a * t0.a > 0, lab + ' tangent keeps its direction', mat=str(M))
                for f in list(rhss(n))[-2:]:
                    b = np.array(f, float)
                    rec.step()
                    ok, x = rec.attempt(lab + ' solve', S.solve, b)
                    if ok:
                        sc = 1e-10 * (1 + np.max(np.abs(x.u)) + abs(x.a)) * (1 + np.max(np.abs(W)))
                        rec.check(np.max(np.abs(A @ x.u + Fa * x.a - b)) < 10 * sc, lab + ' solves the equation', mat=str(M), fa=str(fa))
                        rec.check(abs(t.u @ x.u + t.a * x.a) < 10 * sc, lab + ' correction orthogonal to the tangent', mat=str(M), fa=str(fa), got=float(t.u @ x.u + t.a * x.a))
                        rec.check(np.array_equal(b, np.array(f, float)) and np.array_equal(Fa, np.array(fa, float)), lab + ' modifies its input')
                if nm == 'matrix':
                    B_u, B_l, C_u, C_l = np.array(fa, float)[:, None] + 1.0, 0.5, np.array(tu, float) - 0.25, 1.5
                    J = np.block([[A, Fa[:, None]], [t.u[None, :], np.array([[t.a]])]])
                    K = np.block([[J, np.append(B_u[:, 0], B_l)[:, None]], [np.append(C_u, C_l)[None, :], np.zeros((1, 1))]])
                    if abs(np.linalg.det(K)) < 1e-3:
                        continue
                    rv = types.SimpleNamespace(B_u=B_u, B_l=B_l, C_u=C_u, C_l=C_l, C_a_u=None)
                    want = np.linalg.solve(K, np.append(np.zeros(n + 1), 1.0))
                    ok, tau = rec.attempt(lab + ' bif_pt', S.bif_pt, t.u, rv)
                    if ok:
                        y = S.bif_dir()
                        rec.close(np.hstack((y.u, y.a, tau)), want, 1e-8 * (1 + np.max(np.abs(want))), lab + ' bifurcation system', mat=str(M))


def run(case, rec):
    with np.errstate(all='ignore'):
        {'bem': bem, 'updates': updates, 'bemw': bemw, 'bmat': bmat, 'exact': exact, 'pinv': pinv, 'brd': brd, 'fold': fold, 'schur': schur}[case['kind']](rec, case)
