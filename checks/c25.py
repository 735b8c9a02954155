"""C25: the error-controlled Krylov solver converges or says it did not."""
import itertools
from fractions import Fraction as Fr

import numpy as np
import scipy.sparse as sps

ID = 'C25'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all small integer systems x preconditioners x starts x options on the real code, against exact rational solutions (Cramer) and the step and operation counts of the iteration'
RULE = 'every matrix of size 1, 2 (alphabets up to -2..2, diagonals 1..4) and 3 (off-diagonal -1..1), every right-hand side, preconditioner, start, tolerance, restart length, iteration limit and stopping rule of the lists; one state per combination, one transition per Krylov step. Non-trivial: size at least 2'
ASSUMPTIONS = ['convergence is claimed for preconditioned systems whose symmetric part is positive definite '
               '(the error estimator of good Broyden gives no guarantee otherwise); for the others only '
               'termination, intact operands, and finite results on success are claimed']
LIMIT = 300


def ck(rec, label, cond, *detail):
    return rec.check(cond, label, **{'d%d' % i: v for i, v in enumerate(detail)})


def exact(A, b):
    """ Solution of an integer system by Cramer's rule in rationals """
    n = len(b)

    def det(M):
        if len(M) == 1:
            return M[0][0]
        return sum((-1)**j * M[0][j] * det([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(len(M)) if M[0][j])
    M = [[Fr(v) for v in row] for row in A]
    d = det(M)
    if d == 0:
        return None
    out = []
    for k in range(n):
        N = [row[:k] + [Fr(b[i])] + row[k + 1:] for i, row in enumerate(M)]
        out.append(float(det(N) / d))
    return np.array(out)


def posdef(M):
    S = M + M.T
    return all(np.linalg.det(S[:k, :k]) > 1e-9 for k in range(1, len(S) + 1))


def mats(n, off, diag):
    cells = [(i, j) for i in range(n) for j in range(n) if i != j]
    for d in itertools.product(diag, repeat=n):
        for o in itertools.product(off, repeat=len(cells)):
            A = np.diag(np.array(d, float))
            for (i, j), v in zip(cells, o):
                A[i, j] = v
            yield A


RHS = {1: [(1,), (-3,)], 2: [(1, 0), (1, -2), (0, 0)], 3: [(1, 0, 0), (1, -2, 3)]}


def run_one(rec, name, A, P, b, x, conv, y=None, limit=None, **kw):
    """ One run with all the checks; returns the result """
    from funpy.linalg import gbit
    n = len(b)
    tol = kw.get('tol', 1e-10)
    As, Ps = sps.csr_matrix(A), sps.csr_matrix(P)
    A0, P0 = As.toarray(), Ps.toarray()
    bb = np.array(b, dtype=float)
    yy = None if y is None else np.array(y, dtype=float)
    opts = dict(kw)
    if limit is not None:
        opts['max_iter'] = limit
    opts.setdefault('max_iter', 60)
    rec.state(name, limit)
    _, res = rec.attempt(name, lambda: gbit(As, Ps, bb, y=yy, **{'tol': tol, **opts}))
    if res is None:
        return None
    z, ok, its, nmv, npc = res
    rec.step(max(1, its))
    ck(rec, name + ' keeps its right-hand side', np.array_equal(bb, np.array(b, float)))
    ck(rec, name + ' keeps its matrices', np.array_equal(As.toarray(), A0) and np.array_equal(Ps.toarray(), P0))
    if y is not None:
        ck(rec, name + ' keeps its start vector', np.array_equal(yy, np.array(y, float)))
    ck(rec, name + ' stays within its iteration limit', its <= opts['max_iter'] + 1, (its, opts['max_iter']))
    ck(rec, name + ' counts its operations', nmv == npc and nmv > its - 1, (its, nmv, npc))
    z = np.asarray(z, dtype=float)
    ck(rec, name + ' returns a vector of the right size', z.shape == (n,), z.shape)
    if ok:
        ck(rec, name + ' reports success only on finite results', np.all(np.isfinite(z)), z)
    err = np.linalg.norm(z - x)
    scale = max(np.linalg.norm(x), 1e-30)
    if kw.get('giant_simple'):
        scale = max(scale, np.linalg.norm(x - (np.zeros(n) if y is None else np.array(y, float))))
    bound = max(tol, 1e-11) * scale * 10
    if ok and conv:
        ck(rec, name + ' is accurate when it reports success', err <= bound + 1e-13, (err, bound, z, x, its))
    return z, ok, its, err, bound


def label(A, P, b, **kw):
    s = 'A=%s' % (np.asarray(A).tolist(),)
    if P is not None:
        s += ' P=%s' % (np.asarray(P).tolist(),)
    return s + ' b=%s' % (list(b),) + ''.join(' %s=%s' % kv for kv in sorted(kw.items()))


def converge(rec, n, off, diag, tol, stride=None):
    for A in mats(n, off, diag):
        if not posdef(A):
            continue
        for b in RHS[n]:
            x = exact(A.tolist(), b)
            nm = label(A, None, b, tol=tol)
            r = run_one(rec, nm, A, np.eye(n), b, x, True, tol=tol)
            if r is None:
                continue
            z, ok, its, err, bound = r
            ck(rec, nm + ' converges', ok, (z, x, its))
            ck(rec, nm + ' needs at most 4n+2 steps', its <= 4 * n + 2, its)


def precs(A):
    """ Preconditioners that make P A have a positive definite symmetric part (checked by the caller) """
    n = len(A)
    yield 'inv', np.linalg.inv(A)
    yield 'T', A.T.copy()
    d = np.diag(A).copy()
    d[d == 0] = 1.0
    yield 'diag', np.diag(1.0 / d)
    yield 'tril', np.linalg.inv(np.tril(A) + np.diag((np.diag(A) == 0).astype(float)))
    E = np.zeros((n, n))
    E[0, -1] = 0.125
    yield 'inv+E', np.linalg.inv(A) @ (np.eye(n) + E)
    yield 'neg', -np.eye(n)


def precond(rec, n, off, diag):
    for A in mats(n, off, diag):
        if abs(np.linalg.det(A)) < .5:
            continue
        for b in RHS[n][:2]:
            x = exact(A.tolist(), b)
            for pn, P in precs(A):
                if not posdef(P @ A) or np.linalg.cond(P @ A) > 60:
                    continue
                nm = label(A, None, b) + ' P=' + pn
                r = run_one(rec, nm, A, P, b, x, True, tol=1e-10)
                if r is None:
                    continue
                z, ok, its, err, bound = r
                ck(rec, nm + ' converges', ok, (z, x, its))
                ck(rec, nm + ' needs at most 4n+2 steps', its <= 4 * n + 2, its)
                if pn == 'inv':
                    ck(rec, nm + ' needs at most two steps', its <= 2, its)


def starts(rec, n, off, diag, al):
    for A in mats(n, off, diag):
        if not posdef(A):
            continue
        for b in RHS[n]:
            x = exact(A.tolist(), b)
            S = [list(s) for s in itertools.product(al, repeat=n)] + [x.tolist(), (x + 1e-3).tolist()]
            for y in S:
                for simple in (False, True):
                    nm = label(A, None, b, y=y, giant_simple=simple)
                    atx = np.allclose(y, x, atol=1e-12)
                    r = run_one(rec, nm, A, np.eye(n), b, x, True, y=y, tol=1e-8, giant_simple=simple)
                    if r is None:
                        continue
                    z, ok, its, err, bound = r
                    if not (simple and atx):
                        # a zero solution cannot be met to a relative tolerance before rounding to zero
                        ck(rec, nm + ' converges', ok or (not any(b) and np.linalg.norm(z) <= 1e-12), (z, x, its))
                        if any(b):
                            ck(rec, nm + ' needs at most 4n+2 steps', its <= 4 * n + 2, its)
                    else:
                        ck(rec, nm + ' stays at an exact start', err <= 1e-12 * max(1, np.linalg.norm(x)), (z, x))


def options(rec, n, off, diag):
    for A in mats(n, off, diag):
        if not posdef(A):
            continue
        for b in RHS[n][:2]:
            x = exact(A.tolist(), b)
            for i_max in (1, 2, 3, 10):
                for tol in (1e-4, 1e-12):
                    for rho in (1e-3, 1.0):
                        nm = label(A, None, b, i_max=i_max, tol=tol, rho=rho)
                        r = run_one(rec, nm, A, np.eye(n), b, x, rho < 1 or i_max >= 2 * n, tol=tol, rho=rho, i_max=i_max)
                        if r is None:
                            continue
                        if i_max >= 2 * n:
                            ck(rec, nm + ' converges', r[1], r)
            full = run_one(rec, label(A, None, b), A, np.eye(n), b, x, True, tol=1e-10)
            if full is None:
                continue
            for limit in range(1, 2 * n + 4):
                nm = label(A, None, b, max_iter=limit)
                r = run_one(rec, nm, A, np.eye(n), b, x, True, tol=1e-10, limit=limit)
                if r is None:
                    continue
                z, ok, its, err, bound = r
                if limit > full[2]:
                    ck(rec, nm + ' is enough', ok and its == full[2], (ok, its, full[2]))
                if its > limit or limit < full[2]:
                    ck(rec, nm + ' says it did not converge', not ok, (z, x, its))


def operators(rec, n, off, diag):
    """ The same system through linear operators, object vectors and another inner product """
    from funpy.linalg import gbit
    from scipy.sparse.linalg import LinearOperator
    for A in mats(n, off, diag):
        if not posdef(A):
            continue
        for b in RHS[n]:
            x = exact(A.tolist(), b)
            ref = gbit(sps.csr_matrix(A), sps.eye(n), np.array(b, float), tol=1e-10, max_iter=60)
            for kind in ('operator', 'dense identity operator', 'scaled inner product', 'conversion'):
                nm = label(A, None, b) + ' ' + kind
                rec.state(nm)
                kw, op, P = {}, sps.csr_matrix(A), sps.eye(n)
                if kind == 'operator':
                    op = LinearOperator((n, n), matvec=lambda v, A=A: A @ v, dtype=float)
                elif kind == 'dense identity operator':
                    P = LinearOperator((n, n), matvec=lambda v: v.copy(), dtype=float)
                elif kind == 'scaled inner product':
                    kw['inner'] = lambda u, v: 4.0 * np.dot(u, v)
                else:
                    calls = []
                    kw['to_fun'] = lambda v: (calls.append(1), np.array(v))[1]
                _, r = rec.attempt(nm, lambda: gbit(op, P, np.array(b, float), tol=1e-10, max_iter=60, **kw))
                if r is None:
                    continue
                rec.step(r[2])
                ck(rec, nm + ' agrees with the plain run', r[1] == ref[1] and
                          np.allclose(r[0], ref[0], rtol=1e-9, atol=1e-12), (r, ref))
                if kind == 'conversion':
                    ck(rec, nm + ' converts every preconditioned vector', len(calls) == r[4], (len(calls), r[4]))


def general(rec, n, al):
    """ Any regular matrix: terminates within the limit, operands intact, finite results on success """
    cells = n * n
    for t in itertools.product(al, repeat=cells):
        A = np.array(t, float).reshape(n, n)
        if abs(np.linalg.det(A)) < .5:
            continue
        for b in RHS[n][:2]:
            x = exact(A.tolist(), b)
            for limit in (7, 60):
                r = run_one(rec, label(A, None, b, max_iter=limit), A, np.eye(n), b, x, n == 1, limit=limit, tol=1e-10)
                if n == 1 and r is not None and limit == 60:
                    ck(rec, label(A, None, b) + ' converges', r[1], r)


def cases(tier):
    T = tier == 'thorough'
    out = [('general n1', ('general', 1, tuple(v for v in range(-6, 7)))),
           ('general n2', ('general', 2, (-2, -1, 0, 1, 2))),
           ('converge n1', ('converge', 1, (0,), tuple(range(1, 8)), 1e-10)),
           ('precond n1', ('precond', 1, (0,), (-3, -2, -1, 1, 2, 5))),
           ('precond n2', ('precond', 2, (-2, -1, 0, 1, 2), (-2, -1, 0, 1, 3))),
           ('starts n1', ('starts', 1, (0,), (1, 2, 3), (-2, -1, 0, 1, 2))),
           ('starts n2', ('starts', 2, (-1, 0, 1), (1, 2), (-1, 0, 2))),
           ('options n2', ('options', 2, (-1, 0, 1), (1, 2, 3))),
           ('operators n2', ('operators', 2, (-1, 0, 1), (1, 2, 3))),
           ('operators n3', ('operators', 3, (-1, 0, 1) if T else (0, 1), (1, 3)))]
    out += [('near identity n2', ('near', 2, 10)), ('near identity n3 -1', ('near', 3, 10, -1)), ('near identity n3 1', ('near', 3, 10, 1))]
    for d in (1, 2, 3, 4):
        out.append(('converge n2 diag %d' % d, ('converge2', 2, (-2, -1, 0, 1, 2), d, (1, 2, 3, 4), (1e-4, 1e-10, 1e-12))))
    for d in (1, 2) + ((3,) if T else ()):
        for o in (-1, 0, 1):
            out.append(('converge n3 diag %d corner %d' % (d, o), ('converge3', d, o, (1, 2, 3) if T else (1, 2))))
    if T:
        out += [('precond n3', ('precond', 3, (-1, 0, 1), (-1, 2))),
                ('starts n3', ('starts', 3, (0, 1), (1, 2), (-1, 0, 2))),
                ('options n3', ('options', 3, (0, 1, -1), (2,)))]
        out += [('general n3 %d %d' % (a, b), ('general3', a, b)) for a in (-1, 0, 1) for b in (-1, 0, 1)]
    return [dict(id=i, kind=a[0], args=list(a[1:])) for i, a in out]


def run(case, rec):
    kind, args = case['kind'], case['args']
    np.seterr(all='ignore')
    if kind == 'converge2':
        n, off, d, ds, tols = args
        for A in mats(2, off, ds):
            if A[0, 0] != d or not posdef(A):
                continue
            for b in RHS[2]:
                x = exact(A.tolist(), b)
                for tol in tols:
                    one_converge(rec, A, b, x, tol)
    elif kind == 'converge3':
        d, o, ds = args
        for A in mats(3, (-1, 0, 1), ds):
            if A[0, 0] != d or A[0, 2] != o or not posdef(A):
                continue
            for b in RHS[3]:
                one_converge(rec, A, b, exact(A.tolist(), b), 1e-10)
    elif kind == 'general3':
        for t in itertools.product((-1, 0, 1), repeat=7):
            A = np.array(tuple(args) + t, float).reshape(3, 3)
            if abs(np.linalg.det(A)) < .5:
                continue
            b = (1, -2, 3)
            run_one(rec, label(A, None, b), A, np.eye(3), b, exact(A.tolist(), b), False, limit=30, tol=1e-10)
    elif kind == 'near':
        # I + E/10: exact solutions from the integer system 10 I + E
        n, q = args[:2]
        for t in itertools.product((-2, -1, 0, 1, 2) if n == 2 else (-1, 0, 1), repeat=n * n):
            E = np.array(t, float).reshape(n, n)
            if n == 3 and (E[0, 1] != args[2] or E[1, 0] == 0):
                continue
            for b in RHS[n][:2]:
                B = q * np.eye(n) + E
                one_converge(rec, B / q, b, q * exact(B.astype(int).tolist(), b), 1e-10)
    else:
        {'converge': converge, 'precond': precond, 'starts': starts, 'options': options,
         'operators': operators, 'general': general}[kind](rec, *args)


def one_converge(rec, A, b, x, tol):
    n = len(A)
    nm = label(A, None, b, tol=tol)
    r = run_one(rec, nm, A, np.eye(n), b, x, True, tol=tol)
    if r is None:
        return
    z, ok, its, err, bound = r
    ck(rec, nm + ' converges', ok, (z, x, its))
    ck(rec, nm + ' needs at most 4n+2 steps', its <= 4 * n + 2, its)
