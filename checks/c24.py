"""C24: determinants, factorisations and null vectors agree with the matrix."""
import functools
import itertools
import types
import warnings
from fractions import Fraction as Fr
import numpy as np
import scipy.sparse as sps

ID = 'C24'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all matrices over small integer alphabets up to the size bound (all permutations, all Hessenberg matrices, all rank-one-deficient matrices) on the real code, against exact rational determinants, ranks and kernels'
RULE = 'every permutation up to length 6 (7 thorough); every Givens pair from a grid over magnitudes 1e-300..1e300; every Hessenberg matrix of the size and alphabet bound; every matrix of every shape up to 3x3 over {-1,0,1} (and 2x2 over -3..3, all signed 4x4 permutations with one extra entry); every update of bordered determinants. Non-trivial: size at least 2'
ASSUMPTIONS = ['real matrices for the determinant routines; real and Gaussian-integer matrices for the factorisation and the null vectors',
               'the umfpack flavour is driven with a stand-in for the factorisation object (R A permuted = L U), scikit-umfpack is not installed',
               'sparse determinants of singular matrices may be refused with an exception',
               'QR determinants of wide matrices with one extra column refer to the matrix without the column pivoted last (det) or without the last column (detH)']


def det(M):
    """exact determinant of an integer / Fraction matrix given as nested tuples."""
    n = len(M)
    if n == 0:
        return 1
    A = [list(map(Fr, r)) for r in M]
    d = Fr(1)
    for k in range(n):
        p = next((i for i in range(k, n) if A[i][k]), None)
        if p is None:
            return 0
        if p != k:
            A[p], A[k] = A[k], A[p]
            d = -d
        d *= A[k][k]
        for i in range(k + 1, n):
            f = A[i][k] / A[k][k]
            if f:
                A[i] = [a - f * b for a, b in zip(A[i], A[k])]
    return d


def rank(M):
    A = [list(map(Fr, r)) for r in M]
    r, m = 0, len(A[0])
    for c in range(m):
        p = next((i for i in range(r, len(A)) if A[i][c]), None)
        if p is None:
            continue
        A[p], A[r] = A[r], A[p]
        for i in range(r + 1, len(A)):
            f = A[i][c] / A[r][c]
            A[i] = [a - f * b for a, b in zip(A[i], A[r])]
        r += 1
    return r


def perms(n):
    return itertools.permutations(range(n))


def parity(p):
    seen, s = set(), 0
    for i in range(len(p)):
        j, k = i, 0
        while j not in seen:
            seen.add(j)
            j = p[j]
            k += 1
        s += max(k - 1, 0)
    return s


def mats(n, m, alpha, part=0, parts=1):
    for i, t in enumerate(itertools.product(alpha, repeat=n * m)):
        if i % parts == part:
            yield tuple(tuple(t[r * m:(r + 1) * m]) for r in range(n))


def hess(n, alpha, part=0, parts=1):
    pos = [(i, j) for i in range(n) for j in range(n) if i <= j + 1]
    for q, t in enumerate(itertools.product(alpha, repeat=len(pos))):
        if q % parts == part:
            A = [[0] * n for _ in range(n)]
            for (i, j), v in zip(pos, t):
                A[i][j] = v
            yield tuple(map(tuple, A))


def family4():
    """signed 4x4 permutation matrices with one further entry, and products of small ones."""
    for p in perms(4):
        for s in itertools.product((1, -2), repeat=4):
            A = [[0] * 4 for _ in range(4)]
            for i in range(4):
                A[i][p[i]] = s[i]
            for (i, j) in ((0, 0), (1, 3), (3, 1), (2, 0)):
                B = [list(r) for r in A]
                B[i][j] += 3
                yield tuple(map(tuple, B))


def cases(tier):
    t = tier == 'thorough'
    yield dict(id='swaps', kind='swaps', n=7 if t else 6)
    yield dict(id='givens', kind='givens', tier=tier)
    for n, al in ((1, range(-3, 4)), (2, range(-3, 4)), (3, (-1, 0, 1, 2))):
        P = 8 if n == 3 else 1
        for p in range(P):
            yield dict(id='hess.n%d.%d' % (n, p), kind='hess', n=n, alpha=list(al), part=p, parts=P, take=1 if t or n < 3 else 3)
    for p in range(64):
        yield dict(id='hess.n4.%d' % p, kind='hess', n=4, alpha=[-1, 0, 1], part=p, parts=64, take=1 if t else 60)
    shapes = [(1, 1), (1, 2), (2, 1), (1, 3), (3, 1), (2, 2), (2, 3), (3, 2), (3, 3)]
    for kind in ('lucp', 'qr', 'slog', 'null'):
        for n, m in shapes:
            if kind in ('slog', 'null') and n != m:
                continue
            P = 12 if n * m == 9 else 1
            for p in range(P):
                yield dict(id='%s.%dx%d.%d' % (kind, n, m, p), kind=kind, n=n, m=m, alpha=[-1, 0, 1] if n * m > 4 else [-3, -2, -1, 0, 1, 2, 3], part=p, parts=P, take=1 if t else (3 if n * m == 9 else 1))
        yield dict(id=kind + '.fam4', kind=kind, fam=True, n=4, m=4, take=1 if t else 3)
        for q in range(4):
            yield dict(id='%s.gauss.%d' % (kind, q), kind=kind, gauss=True, n=2, m=2, part=q, parts=4, take=1)
    for n, m in ((1, 2), (2, 3), (3, 4)):
        P = 8 if n == 3 else 1
        for p in range(P):
            yield dict(id='wide.%d.%d' % (n, p), kind='wide', n=n, m=m, alpha=[-1, 0, 1] if n == 3 else [-2, -1, 0, 1, 2], part=p, parts=P, take=1 if n < 3 else (3 if t else 24))
    for n in (1, 2, 3):
        for p in range(4):
            yield dict(id='border.%d.%d' % (n, p), kind='border', n=n, part=p, parts=4, tier=tier)


def space(case):
    if case.get('fam'):
        it = family4()
    elif case.get('gauss'):
        it = mats(2, 2, (0, 1, -1, 1j, 1 + 1j, 2 - 1j), case['part'], case['parts'])
    else:
        it = mats(case['n'], case['m'], case['alpha'], case['part'], case['parts'])
    for i, M in enumerate(it):
        if i % case['take'] == 0:
            yield M


def swaps(rec, case):
    from funpy.linalg import helpers as H
    for n in range(0, case['n'] + 1):
        for p in perms(n):
            rec.state('perm', p)
            rec.step()
            for kind in (list, np.array):
                a = kind(p) if n or kind is list else np.zeros(0, dtype=int)
                keep = list(a)
                k = H.minimumSwaps(a)
                rec.check(k == parity(p), 'minimum swaps', perm=p, got=int(k))
                rec.check(list(a) == keep, 'permutation untouched', perm=p)
            if 0 < n <= 5:
                Q = H.permutation_vector_to_matrix(list(p)).toarray()
                want = np.zeros((n, n))
                for k in range(n):
                    want[p[k], k] = 1
                rec.check(np.array_equal(Q, want), 'permutation matrix', perm=p)


def givens(rec, case):
    from funpy.linalg import helpers as H
    ex = [0, 1, 2, 5, 10, 14, 15, 16, 17, 20, 30, 50, 100, 150, 155, 160, 200, 250, 300]
    mags = [0.0] + [m * 10.0**s for e in ex for s in (e, -e) for m in (1.0, 3.7)]
    vals = sorted({s * m for m in mags for s in (1, -1)})
    for f in vals:
        for g in vals:
            rec.state('givens', f, g)
            rec.step()
            ok, r = rec.attempt('givens', H.givensAlgorithm, f, g)
            if not ok:
                return
            c, s, r = map(float, r)
            sc = max(abs(f), abs(g))
            rec.check(abs(c * c + s * s - 1) < 1e-13, 'givens unit', f=f, g=g, c=c, s=s)
            if sc:
                rec.check(abs(c * (f / sc) + s * (g / sc) - r / sc) < 1e-13 and abs(-s * (f / sc) + c * (g / sc)) < 1e-13, 'givens rotates', f=f, g=g, c=c, s=s, r=r)
            else:
                rec.check(r == 0, 'givens of zero', r=r)


def logcheck(rec, lab, sign, logabs, d, scale, M, tol=1e-11):
    """(sign, log|det|) against the exact determinant d."""
    sign, logabs = float(np.real(sign)), float(np.real(logabs))
    got = sign * np.exp(logabs) if np.isfinite(logabs) else 0.0 if logabs == -np.inf else np.nan
    if d:
        rec.check(sign == (1 if d > 0 else -1), lab + ' sign', got=sign, det=str(d), mat=str(M))
        rec.check(abs(logabs - np.log(abs(float(d)))) < tol * max(1.0, scale), lab + ' logarithm', got=logabs, det=str(d), mat=str(M))
    else:
        rec.check(abs(got) < tol * max(1.0, scale), lab + ' of a singular matrix', got=repr((sign, logabs)), mat=str(M))


def run_hess(rec, case):
    from funpy.linalg import helpers as H
    for i, M in enumerate(hess(case['n'], case['alpha'], case['part'], case['parts'])):
        if i % case['take']:
            continue
        rec.state('hess', M)
        rec.step(2)
        A = np.array(M, dtype=float)
        keep = A.copy()
        d = det(M)
        ok, r = rec.attempt('slogdet_hessenberg', H.slogdet_hessenberg, A)
        if ok:
            logcheck(rec, 'slogdet_hessenberg', r[0], r[1], d, 1, M)
        if len(M) > 1 or True:
            ok, r = rec.attempt('detH', H.detH, A)
            if ok:
                rec.check(abs(float(r) - float(d)) < 1e-12 * 8, 'detH', got=float(r), want=str(d), mat=str(M))
        rec.check(np.array_equal(A, keep), 'matrix untouched', mat=str(M))
        if i % 7 == 0:
            ok, r = rec.attempt('slogdet_hessenberg of integers', H.slogdet_hessenberg, np.array(M))
            if ok:
                logcheck(rec, 'slogdet_hessenberg of integers', r[0], r[1], d, 1, M)


def arrays(M):
    c = any(isinstance(v, complex) for r in M for v in r)
    if c:
        return [np.array(M, dtype=complex)]
    return [np.array(M, dtype=float), np.array(M)]


def lucp(rec, case):
    from funpy.linalg.lucp import lucp as F
    for M in space(case):
        rec.state('lucp', M)
        for A in arrays(M):
            keep = A.copy()
            for full in (True, False):
                rec.step()
                ok, r = rec.attempt('lucp full=%s' % full, F, A, full=full)
                rec.check(np.array_equal(A, keep) and A.dtype == keep.dtype, 'lucp matrix untouched', mat=str(M), full=full)
                A = keep.copy()
                if not ok:
                    continue
                L, U, p, q = r
                if not full:
                    rec.check(sps.issparse(L) and sps.issparse(U), 'lucp sparse factors')
                    L, U = L.toarray(), U.toarray()
                n, m = A.shape
                k = min(n, m)
                if not rec.check(L.shape == (n, k) and U.shape == (k, m), 'lucp shapes', got=[L.shape, U.shape]):
                    continue
                if not rec.check(sorted(p) == list(range(n)) and sorted(q) == list(range(m)), 'lucp permutations', p=str(p), q=str(q)):
                    continue
                rec.check(np.allclose(L, np.tril(L)) and np.allclose(np.diag(L), 1) and np.allclose(U, np.triu(U)), 'lucp triangular', mat=str(M))
                rec.check(np.max(np.abs(L)) <= 1 + 1e-12, 'lucp multipliers bounded by one', mat=str(M), L=L)
                rec.check(np.max(np.abs(L @ U - A[np.ix_(p, q)])) < 1e-12, 'lucp product', mat=str(M), L=L, U=U)
                dg = np.abs(np.diag(U))
                rec.check(n == 1 or dg[0] >= np.max(np.abs(A)) - 1e-12, 'lucp takes the largest pivot', mat=str(M))


def run_null(rec, case):
    import funpy.linalg.nullspace as N
    import funpy.linalg as LG
    n = case['n']
    for M in space(case):
        cx = case.get('gauss')
        if cx:
            if M[0][0] * M[1][1] != M[0][1] * M[1][0] or not any(v for r in M for v in r):
                continue
        elif n == 1 or rank(M) != n - 1:
            continue
        rec.state('null', M)
        for A in arrays(M):
            keep = A.copy()
            for norm in (True, False):
                for which, fn in (('right', lambda: LG.right_null_vector(A, normalize=norm)), ('left', lambda: N.left_null_vector(A, normalize=norm)), ('both', lambda: N.null_vector(A, left=True, normalize=norm))):
                    rec.step()
                    ok, v = rec.attempt('null vector %s' % which, fn)
                    rec.check(np.array_equal(A, keep) and A.dtype == keep.dtype, 'null vector matrix untouched', mat=str(M))
                    A = keep.copy()
                    if not ok:
                        continue
                    for w, side in zip(v if which == 'both' else (v,), ('right', 'left') if which == 'both' else (which,)):
                        w = np.asarray(w)
                        if not rec.check(w.shape == (n,) and np.all(np.isfinite(w)), 'null vector shape', mat=str(M), got=str(w)):
                            continue
                        nn = np.linalg.norm(w)
                        if norm:
                            rec.check(abs(nn - 1) < 1e-12, 'null vector normalised', mat=str(M), got=str(w))
                        else:
                            rec.check(nn > 0.3, 'null vector not zero', mat=str(M), got=str(w))
                        res = A @ w if side == 'right' else A.conj().T @ w
                        rec.check(np.max(np.abs(res)) < 1e-11 * max(1, nn), 'null vector %s residual' % side, mat=str(M), got=str(w))


def slog(rec, case):
    from funpy.linalg import helpers as H
    from scipy.sparse.linalg import splu
    if case.get('gauss'):
        return
    for M in space(case):
        rec.state('slog', M)
        d = det(M)
        A = np.array(M, dtype=float)
        for S in (sps.csc_matrix(A), sps.csr_matrix(A)):
            rec.step()
            keep = S.copy()
            rec.evals += 1
            try:
                s, l = H.logdet(S)
            except RuntimeError as e:
                rec.check(d == 0, 'logdet refuses a regular matrix', mat=str(M), exc=str(e))
                continue
            logcheck(rec, 'logdet', s, l, d, 1, M)
            rec.check((S != keep).nnz == 0, 'logdet matrix untouched', mat=str(M))
        if d:
            # every ordering of the columns before factorising
            for spec in ('NATURAL', 'COLAMD', 'MMD_ATA', 'MMD_AT_PLUS_A'):
                rec.step()
                lu = splu(sps.csc_matrix(A), permc_spec=spec)
                ok, r = rec.attempt('logdet_detail_superlu', H.logdet_detail_superlu, lu)
                if ok:
                    logcheck(rec, 'logdet_detail_superlu ' + spec, r[0], r[1], d, 1, M)
            n = len(M)
            for q in perms(n):
                B = A[:, list(q)]
                # rows pivoted exactly as partial pivoting would
                p, L, U = plu(B)
                if p is None:
                    continue
                for R in ([1.0] * n, [2.0 + i for i in range(n)]):
                    rec.step()
                    # R scales the rows: A = diag(R) A', A' factorised
                    X = A / np.array(R)[:, None]
                    p, L, U = plu(X[:, list(q)])
                    lu = types.SimpleNamespace(L=sps.csc_matrix(L), U=sps.csc_matrix(U), R=np.array(R), perm_r=np.array(p), perm_c=np.array(q), shape=A.shape)
                    ok, r = rec.attempt('logdet_detail_umfpack', H.logdet_detail_umfpack, lu)
                    if ok:
                        logcheck(rec, 'logdet_detail_umfpack', r[0], r[1], d, 1, M)
                    D = H.Determinant(lu=lu)
                    ok, r = rec.attempt('Determinant', lambda: (D(), D(), D.det(), H.Determinant(lu=lu).det()))
                    if ok:
                        logcheck(rec, 'Determinant', r[0][0], r[0][1], d, 1, M)
                        rec.check(r[1] == r[0], 'Determinant repeated')
                        rec.check(abs(r[2] - float(d)) < 1e-11 * max(1, abs(float(d))), 'Determinant.det', got=float(r[2]), want=str(d))
                        rec.check(abs(r[3] - float(d)) < 1e-11 * max(1, abs(float(d))), 'Determinant.det first', got=float(r[3]), want=str(d))
        D = H.Determinant(logdet=np.log(2.5), sign=-1.0)
        rec.check(D() == (-1.0, np.log(2.5)) and abs(D.det() + 2.5) < 1e-14, 'Determinant from values')


def plu(B):
    n = len(B)
    U, L, p = B.copy(), np.eye(n), list(range(n))
    for k in range(n):
        r = k + int(np.argmax(np.abs(U[k:, k])))
        if abs(U[r, k]) < 1e-13:
            return None, None, None
        U[[k, r]] = U[[r, k]]
        L[[k, r], :k] = L[[r, k], :k]
        p[k], p[r] = p[r], p[k]
        for i in range(k + 1, n):
            L[i, k] = U[i, k] / U[k, k]
            U[i] -= L[i, k] * U[k]
    return p, L, U


def run_qr(rec, case):
    from funpy.linalg.qr import qr
    from funpy.linalg import QR, QRCholesky
    for M in space(case):
        rec.state('qr', M)
        for A in arrays(M):
            if np.iscomplexobj(A):
                continue
            n, m = A.shape
            keep = A.copy()
            for piv in (False, True):
                for mode in ('full', 'economic', 'qr'):
                    rec.step()
                    lab = 'qr %s%s' % (mode, ' pivoted' if piv else '')
                    ok, r = rec.attempt(lab, qr, A, pivoting=piv, mode=mode)
                    rec.check(np.array_equal(A, keep), 'qr matrix untouched', mat=str(M))
                    A = keep.copy()
                    if not ok:
                        continue
                    Q, R = r[0], r[1]
                    C = r[2] if piv else np.arange(m)
                    k = r[-1]
                    rec.check(np.max(np.abs(Q.T @ Q - np.eye(Q.shape[1]))) < 1e-13 and np.max(np.abs(R - np.triu(R))) == 0, lab + ' factors', mat=str(M))
                    rec.check(sorted(C) == list(range(m)) and np.max(np.abs(Q @ R - A[:, C])) < 1e-12, lab + ' product', mat=str(M))
                    if Q.shape[0] == Q.shape[1]:
                        rec.check(abs(np.linalg.det(Q) - (-1)**int(k)) < 1e-12, lab + ' reflections', mat=str(M), k=int(k))
                ok, r = rec.attempt('qr r', qr, A, pivoting=piv, mode='r')
                if ok:
                    C = r[1] if piv else np.arange(m)
                    rec.check(np.max(np.abs(r[0].T @ r[0] - (A.T @ A)[np.ix_(C, C)])) < 1e-11, 'qr r mode', mat=str(M))
            if n == m:
                d = det(M)
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    for cls, kw in ((QR, {}), (QRCholesky, {}), (QRCholesky, dict(rank=n))):
                        if n == 1 and cls is QR or not np.any(A) and cls is QRCholesky and not kw:
                            continue
                        if cls is QR:
                            forms = [A, sps.csr_matrix(A), sps.csc_matrix(A)]
                        else:
                            forms = [A]
                            if d == 0:
                                continue
                        for F in forms:
                            rec.step()
                            ok, S = rec.attempt(cls.__name__, cls, F, **kw)
                            if not ok:
                                continue
                            ok, g = rec.attempt(cls.__name__ + '.det', S.det)
                            if ok:
                                rec.check(abs(float(g) - float(d)) < 1e-11, cls.__name__ + '.det', got=float(g), want=str(d), mat=str(M))
                            if cls is QR:
                                ok, g = rec.attempt('QR.det_sign', S.det_sign)
                                if ok and d:
                                    rec.check(float(g) == (1 if d > 0 else -1), 'QR.det_sign', got=float(g), want=str(d), mat=str(M))
                            rec.check(np.array_equal(A, keep), 'matrix untouched by determinant', mat=str(M))


def wide(rec, case):
    from funpy.linalg import QR, QRCholesky
    for M in space(case):
        if rank(M) < len(M):
            continue
        rec.state('wide', M)
        A = np.array(M, dtype=float)
        n = len(M)
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            if n > 1:
                ok, S = rec.attempt('QR wide', QR, A)
                if ok:
                    j = int(np.asarray(S.C)[-1])
                    d = float(det(tuple(tuple(v for c, v in enumerate(r) if c != j) for r in M)))
                    rec.step()
                    ok, g = rec.attempt('QR.det wide', S.det)
                    if ok:
                        rec.check(abs(float(g) - d) < 1e-11, 'QR.det wide', got=float(g), want=d, mat=str(M))
                    ok, g = rec.attempt('QR.det_sign wide', S.det_sign)
                    if ok and d:
                        rec.check(float(g) == np.sign(d), 'QR.det_sign wide', got=float(g), want=d, mat=str(M))
            for kw in ({}, dict(rank=n)):
                ok, S = rec.attempt('QRCholesky wide', QRCholesky, A, **kw)
                if not ok:
                    continue
                rec.step()
                j = int(S.internal_embedding_parameter)
                d = float(det(tuple(tuple(v for c, v in enumerate(r) if c != j) for r in M)))
                ok, g = rec.attempt('QRCholesky.det wide', S.det)
                if ok:
                    rec.check(abs(float(g) - d) < 1e-11, 'QRCholesky.det wide', got=float(g), want=d, mat=str(M))
                d = float(det(tuple(r[:-1] for r in M)))
                ok, g = rec.attempt('QRCholesky.detH', S.detH)
                if ok:
                    rec.check(abs(float(g) - d) < 1e-11, 'QRCholesky.detH', got=float(g), want=d, mat=str(M))


def border(rec, case):
    """determinants of bordered systems, over every border of the alphabet and after updates."""
    from funpy.linalg import QR, BEM, BEMW
    n = case['n']
    if n == 1:
        inner = [((2,),), ((-1,),)]
    elif n == 2:
        inner = [M for M in mats(2, 2, (-1, 0, 1, 2)) if det(M)]
    else:
        inner = [M for i, M in enumerate(mats(3, 3, (-1, 0, 1))) if det(M) and i % (97 if case['tier'] == 'quick' else 7) == 0]
    vec = list(itertools.product((0, 1, -2), repeat=n))
    vec = vec if n < 3 else vec[::4]
    for qi, M in enumerate(inner):
        if qi % case['parts'] != case['part']:
            continue
        A = np.array(M, dtype=float)
        ok, S = rec.attempt('QR', QR, A)
        if not ok:
            continue
        for bi, b in enumerate(vec):
            for ci, c in enumerate(vec):
                for d in (0, 3):
                    full = [list(r) + [v] for r, v in zip(M, c)] + [list(b) + [d]]
                    D = det(full)
                    if not D:
                        continue
                    rec.state('border', M, b, c, d)
                    rec.step()
                    ok, B = rec.attempt('BEM', BEM, S, np.array(b, float), np.array(c, float), float(d))
                    if ok:
                        ok, g = rec.attempt('BEM.det', B.det)
                        if ok:
                            rec.check(abs(float(g) - float(D)) < 1e-10, 'BEM.det', got=float(g), want=str(D), mat=str(full))
                    ok, W = rec.attempt('BEMW', BEMW, S, [np.array(b, float)], [np.array(c, float)], [float(d)])
                    if ok:
                        ok, g = rec.attempt('BEMW.det', W.det)
                        if ok:
                            rec.check(abs(float(g) - float(D)) < 1e-10, 'BEMW.det', got=float(g), want=str(D), mat=str(full))
                    if (bi + ci) % (5 if n < 3 else 11):
                        continue
                    for b2 in vec[::3]:
                        for c2 in vec[1::4]:
                            e, f, d2 = 1, -1, 2
                            full2 = [list(r) + [v] for r, v in zip(full, list(c2) + [e])] + [list(b2) + [f, d2]]
                            D2 = det(full2)
                            if not D2:
                                continue
                            rec.step()
                            ok, W = rec.attempt('BEMW2', BEMW, S, [np.array(b, float), np.array(list(b2) + [f], float)], [np.array(c, float), np.array(list(c2) + [e], float)], [float(d), float(d2)])
                            if ok:
                                ok, g = rec.attempt('BEMW2.det', W.det)
                                if ok:
                                    rec.check(abs(float(g) - float(D2)) < 1e-9, 'BEMW2.det', got=float(g), want=str(D2), mat=str(full2))


def run(case, rec):
    with np.errstate(all='ignore'):
        {'swaps': swaps, 'givens': givens, 'hess': run_hess, 'lucp': lucp, 'qr': run_qr, 'slog': slog, 'null': run_null, 'wide': wide, 'border': border}[case['kind']](rec, case)
