"""C16: the sparse ultraspherical operator matrices represent the operators they are named after."""
import functools
import itertools
from fractions import Fraction as Fr
import numpy as np
import scipy.linalg as LA
import scipy.sparse as sps
from mc.ref import gen
from checks.c18 import conv, up, down, mm

ID = 'C16'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sizes x orders x basis indices x storage formats x multiplier shapes on the real code (every column of every matrix, i.e. every unit vector), against exact rational matrices; plus all short histories of requests and in-place edits of returned matrices'
RULE = 'every size x order x basis pair x format; every multiplier T_i below the size, dense, scaled, padded and zero multipliers x basis; every support of a Toeplitz/Hankel symbol up to length 4 and long ones; every domain; all request-edit-request histories. Non-trivial: size at least 2'
ASSUMPTIONS = ['real multipliers with one column', 'columns of a multiplication matrix are checked where the degree of the product stays below the size, and the leading rows for all columns when the multiplier has no more coefficients than the matrix has rows']
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25)]
FORMATS = (None, 'csr', 'csc')


@functools.lru_cache(None)
def diffref(n, m):
    """exact d^m/dx^m from Chebyshev coefficients to C^m coefficients."""
    if m == 0:
        return np.eye(n)
    D = np.zeros((n, n))
    f = 1
    for j in range(1, m):
        f *= 2 * j
    for k in range(m, n):
        D[k - m, k] = k * f
    return D


@functools.lru_cache(None)
def mulT(i, k, rows):
    """multiplication by T_i on Chebyshev coefficients, (rows, k)."""
    M = [[Fr(0)] * k for _ in range(rows)]
    for j in range(k):
        for r in (i + j, abs(i - j)):
            if r < rows:
                M[r][j] += Fr(1, 2)
    return M


def conv_exact(n, a, b):
    M = [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
    while a < b:
        M = mm(up(n, Fr(a)), M)
        a += 1
    while a > b:
        a -= 1
        M = mm(down(n, Fr(a)), M)
    return M


def rect(A, B):
    return [[sum((A[i][j] * B[j][k] for j in range(len(B)) if A[i][j] and B[j][k]), Fr(0)) for k in range(len(B[0]))] for i in range(len(A))]


@functools.lru_cache(None)
def mulref(i, k, lam):
    """leading k x k section of multiplication by T_i in the C^lam basis."""
    N = k + i
    M = rect(mulT(i, k, N), conv_exact(k, lam, 0))
    M = rect(conv_exact(N, 0, lam), M)
    return np.array([[float(v) for v in row] for row in M[:k]])


def cases(tier):
    N = 12 if tier == 'quick' else 24
    big = [33, 64, 101] if tier == 'quick' else [33, 64, 99, 100, 101, 130]
    for n in list(range(1, N + 1)) + big:
        yield dict(id='linear.n%d' % n, kind='linear', n=n, orders=5 if n <= N else 3)
    for lam in range(0, 5):
        for k in range(1, (9 if tier == 'quick' else 15)):
            yield dict(id='mult.lam%d.k%d' % (lam, k), kind='mult', k=k, lam=lam)
    for lam in (0, 1, 2):
        for k in ([40, 101] if tier == 'quick' else [40, 64, 99, 100, 101, 130]):
            yield dict(id='multbig.lam%d.k%d' % (lam, k), kind='multbig', k=k, lam=lam)
    yield dict(id='toeplitz', kind='toeplitz', L=4 if tier == 'quick' else 6)
    for dom in DOMS:
        yield dict(id='disc.%g' % dom[0], kind='disc', dom=dom, N=8 if tier == 'quick' else 16)
    for n in (1, 2, 3, 5, 8):
        yield dict(id='history.n%d' % n, kind='history', n=n)


def dense(rec, lab, M, n, fmt='any'):
    if not rec.check(sps.issparse(M) and M.shape == (n, n), lab + ' is a sparse matrix of the right shape', got=str(getattr(M, 'shape', M))):
        return None
    if fmt in ('csr', 'csc'):
        rec.check(M.format == fmt, lab + ' format', got=M.format)
    return np.asarray(M.todense())


def linear(rec, case):
    from funpy.colloc.ultraS import matrices as U, transform as T
    from funpy.cheb import chebpts_type2
    n, Q = case['n'], case['orders']
    for fmt in FORMATS:
        for m in range(0, Q + 1):
            rec.state('diff', n, m, fmt)
            lab = 'diffmat m=%d %s' % (m, fmt)
            ok, D = rec.attempt(lab, lambda: U.diffmat(n, m=m, format=fmt))
            if ok:
                D = dense(rec, lab, D, n, fmt)
                if D is not None:
                    W = diffref(n, m)
                    rec.close(D, W, 1e-15 * np.max(W, initial=1), lab)
        for a, b in itertools.product(range(0, Q), range(-1, Q)):
            rec.state('conv', n, a, b, fmt)
            W = conv(n, Fr(a), Fr(max(b + 1, a)))
            lab = 'convertmat(%d, %d) %s' % (a, b, fmt)
            ok, S = rec.attempt(lab, lambda: U.convertmat(n, a, b, format=fmt))
            if ok:
                S = dense(rec, lab, S, n, fmt)
                if S is not None:
                    rec.close(S, W, 1e-14, lab)
            W = conv(n, Fr(max(b + 1, a)), Fr(a)) if n <= 40 else None
            lab = 'convertmat_inv(%d, %d) %s' % (a, b, fmt)
            ok, I = rec.attempt(lab, lambda: U.convertmat_inv(n, a, b, format=fmt))
            if ok:
                I = dense(rec, lab, I, n, fmt)
                if I is not None and W is not None:
                    rec.close(I, W, 1e-13 * np.max(np.abs(W)), lab)
                if I is not None and S is not None:
                    rec.close(S @ I, np.eye(n), 1e-13 * max(1.0, np.max(np.abs(S) @ np.abs(I))), lab + ' inverts convertmat')
        for lam in range(0, Q):
            lab = 'spconvert lam=%d %s' % (lam, fmt)
            ok, S = rec.attempt(lab, lambda: T.spconvert(n, lam, format=fmt))
            if ok:
                S = dense(rec, lab, S, n, fmt)
                if S is not None:
                    rec.close(S, conv(n, Fr(lam), Fr(lam + 1)), 1e-15, lab)
            lab = 'spconvert_inv lam=%d %s' % (lam, fmt)
            ok, S = rec.attempt(lab, lambda: T.spconvert_inv(n, lam, format=fmt))
            if ok and n <= 40:
                S = dense(rec, lab, S, n, fmt)
                if S is not None:
                    W = conv(n, Fr(lam + 1), Fr(lam))
                    rec.close(S, W, 1e-14 * np.max(W), lab)
        w = np.array([2 / (1 - k * k) if k % 2 == 0 else 0.0 for k in range(n)])
        ok, I = rec.attempt('intmat %s' % fmt, lambda: U.intmat(n, format=fmt))
        if ok:
            I = dense(rec, 'intmat %s' % fmt, I, n, fmt)
            if I is not None:
                rec.close(I, np.vstack((w, np.zeros((n - 1, n)))), 1e-15, 'intmat %s' % fmt)
        ok, R = rec.attempt('realmat %s' % fmt, lambda: U.realmat(n, format=fmt))
        if ok:
            R = dense(rec, 'realmat %s' % fmt, R, n, fmt)
            if R is not None:
                rec.close(R, np.diag([1.0] + [0.0] * (n - 1)), 0, 'realmat %s' % fmt)
        if fmt:
            for sh in ((n, n), (n, n + 1), (1, n)):
                ok, Z = rec.attempt('zeromat', lambda: U.zeromat(sh, format=fmt))
                if ok:
                    rec.check(Z.shape == sh and Z.nnz == 0 and Z.format == fmt, 'zeromat')
    if n <= 33:
        x = np.asarray(chebpts_type2(n)[0]).ravel()
        V = np.cos(np.outer(np.arccos(np.clip(x, -1, 1)), np.arange(n)))
        for z in [-1.0, -0.7, 0.0, 0.3, 1.0] + [float(t) for t in x[:4]]:
            lab = 'evalfun(%r)' % z
            ok, E = rec.attempt(lab, lambda: U.evalfun(n, z))
            if ok:
                rec.close(np.reshape(E, -1) @ V, np.cos(np.arange(n) * np.arccos(z)), 1e-11, lab)


def mult(rec, case):
    from funpy import Fun
    from funpy.colloc.ultraS import matrices as U
    k, lam = case['k'], case['lam']

    def fs():
        for i in range(k):
            c = np.zeros(i + 1)
            c[i] = 1.5
            yield 'T%d' % i, c
        for n in range(1, k + 1):
            yield 'dense%d' % n, gen(n, n, 1)[:, 0]
            yield 'small%d' % n, 1e-17 * gen(n + 3, n, 1)[:, 0]
            yield 'large%d' % n, 1e9 * gen(n + 5, n, 1)[:, 0]
            yield 'even%d' % n, gen(n, n, 1)[:, 0] * (np.arange(n) % 2 == 0)
            yield 'odd%d' % n, gen(n, n, 1)[:, 0] * (np.arange(n) % 2 == 1)
            yield 'zero%d' % n, np.zeros(n)
            if n > 2:
                c = np.zeros(n)
                c[0], c[-1] = 2.0, -1.0
                yield 'gap%d' % n, c
                c = gen(n, n, 1)[:, 0]
                c[1:-1] *= 1e-18
                yield 'ends%d' % n, c
        for n in (k + 1, k + 2, 2 * k + 1):
            yield 'long%d' % n, np.hstack((gen(n, k, 1)[:, 0], np.zeros(n - k)))
            # longer than the matrix: the product is exact for low degrees only if f itself is short
        for n in (k + 1, k + 3):
            c = np.zeros(n)
            c[:max(1, k // 2)] = gen(n, max(1, k // 2), 1)[:, 0]
            yield 'pad%d' % n, c

    for name, c in fs():
        for fmt in FORMATS:
            lab = 'multmat %s %s' % (name, fmt)
            rec.state(lab, k, lam)
            f = Fun(coeffs=np.asfortranarray(c[:, None]), domain=np.array([-1.0, 1.0]), simplify=False)
            if f.coeffs.shape[0] != c.size:
                rec.check(False, 'the multiplier is built with the given coefficients')
                continue
            keep = f.coeffs.copy()
            ok, M = rec.attempt(lab, lambda: U.multmat(k, f, lam, format=fmt))
            rec.check(np.array_equal(keep, f.coeffs), lab + ' multiplier unchanged')
            if not ok:
                continue
            M = dense(rec, lab, M, k)
            if M is None:
                continue
            W = sum((c[i] * mulref(i, k, lam) for i in range(min(k, c.size))), np.zeros((k, k)))
            sc = sum((abs(c[i]) * np.max(np.abs(mulref(i, k, lam))) for i in range(min(k, c.size))), 0.0)
            rec.close(M, W, 1e-13 * k * sc, lab)
    # a looser tolerance may only drop what is below it
    for n in range(2, k + 1):
        for eps in (1e-12, 1e-8, 1e-4):
            c = gen(n, n, 1)[:, 0] * 10.0 ** (-3.0 * np.arange(n))
            f = Fun(coeffs=np.asfortranarray(c[:, None]), domain=np.array([-1.0, 1.0]), simplify=False)
            lab = 'multmat n=%d eps=%g' % (n, eps)
            ok, M = rec.attempt(lab, lambda: U.multmat(k, f, lam, eps=eps))
            if ok:
                M = dense(rec, lab, M, k)
                if M is not None:
                    W = sum((c[i] * mulref(i, k, lam) for i in range(n)), np.zeros((k, k)))
                    top = max(np.max(np.abs(mulref(i, k, lam))) for i in range(n))
                    rec.close(M, W, 50 * eps * np.max(np.abs(c)) * top, lab)


def multbig(rec, case):
    """large sizes take a different construction path."""
    from funpy import Fun
    from funpy.colloc.ultraS import matrices as U
    k, lam = case['k'], case['lam']
    C = conv(k, Fr(0), Fr(lam))
    pal = {'T0': (0,), 'T1': (1,), 'T2': (2,), 'T7': (7,), 'T30': (30,), 'T0+T1': (0, 1), 'T0+T5': (0, 5), 'T3+T4': (3, 4), 'T2+T6+T9': (2, 6, 9)}
    for name, idx in pal.items():
        for n in sorted({max(idx) + 1, k // 2, k, k + 5}):
            if n < max(idx) + 1:
                continue
            c = np.zeros(n)
            for q, i in enumerate(idx):
                c[i] = 1.0 + q
            f = Fun(coeffs=np.asfortranarray(c[:, None]), domain=np.array([-1.0, 1.0]), simplify=False)
            lab = 'multmat %s n=%d' % (name, n)
            rec.state(lab, k, lam)
            ok, M = rec.attempt(lab, lambda: U.multmat(k, f, lam, format='csr'))
            if not ok:
                continue
            M = dense(rec, lab, M, k)
            if M is None:
                continue
            # applied to every Chebyshev polynomial of admissible degree
            top = k - 1 - max(idx)
            A = np.zeros((k, top + 1))
            for j in range(top + 1):
                for q, i in enumerate(idx):
                    A[i + j, j] += 0.5 * (1 + q)
                    A[abs(i - j), j] += 0.5 * (1 + q)
            rec.close(M @ C[:, :top + 1], C @ A, 1e-11, lab)


def toeplitz(rec, case):
    from funpy.colloc.ultraS import transform as T
    L = case['L']

    def symbols(n):
        for mask in range(2**n):
            yield np.array([(1.0 + 2 * i) * (mask >> i & 1) for i in range(n)])
    for n in range(1, L + 1):
        for c in symbols(n):
            for shape in ((n,), (n, 1)):
                for fmt in FORMATS:
                    for name, f, W in (('sptoeplitz_fast', T.sptoeplitz_fast, LA.toeplitz(c, c)), ('sphankel', T.sphankel, LA.hankel(c))):
                        v = c.reshape(shape)
                        lab = '%s %s %r %s' % (name, c, shape, fmt)
                        rec.state(lab)
                        ok, M = rec.attempt(lab, lambda: f(v, format=fmt))
                        rec.check(np.array_equal(v.ravel(), c), lab + ' input unchanged')
                        if ok:
                            M = dense(rec, lab, M, n)
                            if M is not None:
                                rec.close(M, W, 0, lab)
    for m, n in itertools.product(range(1, min(L, 4) + 1), repeat=2):
        for c in symbols(m):
            for r in symbols(n):
                r = -r
                r[0] = c[0]
                keep = (c.copy(), r.copy())
                lab = 'sptoeplitz %s %s' % (c, r)
                rec.state(lab)
                ok, M = rec.attempt(lab, lambda: T.sptoeplitz(c, r))
                rec.check(np.array_equal(c, keep[0]) and np.array_equal(r, keep[1]), lab + ' input unchanged')
                if ok:
                    rec.close(np.asarray(M.todense()).ravel(), LA.toeplitz(*keep).ravel(), 0, lab)
    for n in (99, 100, 101, 120):
        for idx in ((0,), (1,), (n - 1,), (0, 1), (0, 5), (2, 9), (1, n - 1), (0, 3, 4), ()):
            c = np.zeros(n)
            for q, i in enumerate(idx):
                c[i] = 1.0 + q
            for shape in ((n,), (n, 1)):
                for name, f, W in (('sptoeplitz_fast', T.sptoeplitz_fast, LA.toeplitz(c, c)), ('sphankel', T.sphankel, LA.hankel(c)),
                                   ('sptoeplitz', lambda v: T.sptoeplitz(v, -v + 2 * c[0] * (np.arange(n) == 0).reshape(shape)), LA.toeplitz(c, -c))):
                    lab = '%s n=%d %r %r' % (name, n, idx, shape)
                    rec.state(lab)
                    ok, M = rec.attempt(lab, lambda: f(c.reshape(shape)))
                    if ok:
                        M = dense(rec, lab, M, n)
                        if M is not None:
                            rec.close(M, W, 0, lab)


def disc(rec, case):
    from funpy import Fun
    from funpy.colloc.ultraS.ultraS import ultraS
    a, b = case['dom']
    L = b - a
    for n in range(1, case['N'] + 1):
        ok, d = rec.attempt('construct', lambda: ultraS(domain=[a, b], dimension=n))
        if not ok:
            continue
        for fmt in ('csr', 'csc'):
            rec.state(n, a, fmt)
            for m in range(0, 5):
                ok, D = rec.attempt('diff m=%d' % m, lambda: d.diff(m, format=fmt))
                if ok:
                    D = dense(rec, 'diff m=%d n=%d' % (m, n), D, n, fmt)
                    if D is not None:
                        W = diffref(n, m) * (2 / L)**m
                        rec.close(D, W, 1e-14 * np.max(W, initial=1), 'diff m=%d n=%d %s' % (m, n, fmt))
            w = np.array([2 / (1 - k * k) if k % 2 == 0 else 0.0 for k in range(n)]) * L / 2
            ok, I = rec.attempt('int', lambda: d.int(format=fmt))
            if ok:
                I = dense(rec, 'int n=%d' % n, I, n, fmt)
                if I is not None:
                    rec.close(I, np.vstack((w, np.zeros((n - 1, n)))), 1e-15 * L, 'int n=%d %s' % (n, fmt))
            ok, R = rec.attempt('real', lambda: d.real(format=fmt))
            if ok:
                R = dense(rec, 'real n=%d' % n, R, n, fmt)
                if R is not None:
                    rec.close(R, np.diag([1.0] + [0.0] * (n - 1)), 0, 'real n=%d' % n)
            for p, q in itertools.product(range(0, 4), range(0, 4)):
                ok, S = rec.attempt('convert', lambda: d.convert(p, q, format=fmt))
                if ok:
                    S = dense(rec, 'convert', S, n, fmt)
                    if S is not None:
                        rec.close(S, conv(n, Fr(p), Fr(max(p, q + 1))), 1e-14, 'convert(%d, %d) n=%d' % (p, q, n))
                ok, S = rec.attempt('iconvert', lambda: d.iconvert(p, q, format=fmt))
                if ok:
                    S = dense(rec, 'iconvert', S, n, fmt)
                    if S is not None:
                        W = conv(n, Fr(max(p, q + 1)), Fr(p))
                        rec.close(S, W, 1e-13 * np.max(np.abs(W)), 'iconvert(%d, %d) n=%d' % (p, q, n))
            for i in range(min(n, 5)):
                c = np.zeros((i + 1, 1), order='F')
                c[i] = -2.0
                f = Fun(coeffs=c, domain=np.array([a, b]), simplify=False)
                for lam in range(0, 4):
                    lab = 'mult T%d lam=%d n=%d' % (i, lam, n)
                    ok, M = rec.attempt(lab, lambda: d.mult(f, lam, format=fmt))
                    if ok:
                        M = dense(rec, lab, M, n)
                        if M is not None:
                            W = -2.0 * mulref(i, n, lam)
                            rec.close(M, W, 1e-12 * np.max(np.abs(W), initial=1), lab)


def history(rec, case):
    """a caller that edits a returned matrix must not change later answers."""
    from funpy.colloc.ultraS import matrices as U, transform as T
    n = case['n']
    makers = {'diffmat': lambda fmt: U.diffmat(n, m=1, format=fmt), 'diffmat2': lambda fmt: U.diffmat(n, m=2, format=fmt), 'diffmat0': lambda fmt: U.diffmat(n, m=0, format=fmt),
              'convertmat': lambda fmt: U.convertmat(n, 0, 1, format=fmt), 'convertmat id': lambda fmt: U.convertmat(n, 1, 0, format=fmt),
              'convertmat_inv': lambda fmt: U.convertmat_inv(n, 0, 1, format=fmt),
              'spconvert': lambda fmt: T.spconvert(n, 0, format=fmt), 'spconvert1': lambda fmt: T.spconvert(n, 1, format=fmt), 'spconvert_inv': lambda fmt: T.spconvert_inv(n, 0, format=fmt)}
    users = ['convertmat', 'convertmat_inv', 'diffmat2']
    for fmt in FORMATS:
        for a, b in itertools.product(makers, makers):
            lab = '%s %s then %s' % (fmt, a, b)
            rec.state(lab, n)
            ok, A = rec.attempt(lab, lambda: makers[a](fmt))
            ok2, B = rec.attempt(lab, lambda: makers[b](fmt))
            if not (ok and ok2):
                continue
            w = np.asarray(B.todense())
            # in-place edits a caller may do with its own matrix
            A.data[...] = 7.0
            ok, B2 = rec.attempt(lab, lambda: makers[b](fmt))
            if ok:
                rec.close(np.asarray(B2.todense()).ravel(), w.ravel(), 0, lab + ' is not affected by an edit of the first matrix')
            if a != b:
                rec.close(np.asarray(B.todense()).ravel(), w.ravel(), 0, lab + ': two matrices are independent')


def run(case, rec):
    globals()[case['kind']](rec, case)
