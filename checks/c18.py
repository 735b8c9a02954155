"""C18: re-expressing coefficients in another ultraspherical basis gives the same polynomial."""
import functools
import itertools
from fractions import Fraction as Fr
import numpy as np
from mc.ref import cheb_eval, gen, to_dom, ZS

ID = 'C18'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of lengths x basis pairs x unit vectors and of all conversion chains up to the depth bound on the real code, against exact rational conversion matrices'
RULE = 'every length x every ordered pair of bases x every unit vector (and dense, integer and multi-column arrays); every chain of conversions up to the depth bound, breadth first over (basis) states; Fun.from_ultra on every basis x domain x memory order. Non-trivial: the basis changes'
ASSUMPTIONS = ['two-dimensional coefficient arrays (one column per function)', 'bases differ by an integer']
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25)]


@functools.lru_cache(None)
def up(n, lam):
    """exact matrix C^lam -> C^(lam+1); lam a Fraction, 0 means Chebyshev T."""
    S = [[Fr(0)] * n for _ in range(n)]
    for k in range(n):
        if lam == 0:
            d = Fr(1) if k == 0 else Fr(1, 2)
        else:
            d = lam / (lam + k)
        S[k][k] = d
        if k >= 2:
            S[k - 2][k] = -d
    return S


@functools.lru_cache(None)
def down(n, lam):
    """exact matrix C^(lam+1) -> C^lam by back substitution."""
    S = up(n, lam)
    D = [[Fr(0)] * n for _ in range(n)]
    for k in range(n):
        e = [Fr(int(i == k)) for i in range(n)]
        for i in range(n - 1, -1, -1):
            s = e[i]
            if i + 2 < n:
                s -= S[i][i + 2] * D[i + 2][k]
            D[i][k] = s / S[i][i]
    return D


def mm(A, B):
    n = len(A)
    return [[sum((A[i][j] * B[j][k] for j in range(n) if A[i][j] and B[j][k]), Fr(0)) for k in range(n)] for i in range(n)]


@functools.lru_cache(None)
def conv(n, a, b):
    M = [[Fr(int(i == j)) for j in range(n)] for i in range(n)]
    while a < b:
        M = mm(up(n, a), M)
        a += 1
    while a > b:
        a -= 1
        M = mm(down(n, a), M)
    return np.array([[float(v) for v in row] for row in M]).reshape(n, n)


def cases(tier):
    N, L = (12, 5) if tier == 'quick' else (40, 7)
    for n in range(1, N + 1):
        yield dict(id='pairs.n%d' % n, kind='pairs', n=n, lams=list(range(L)))
    for n in range(1, min(N, 20) + 1):
        yield dict(id='half.n%d' % n, kind='half', n=n)
    for n in (1, 2, 3, 4, 7) if tier == 'quick' else range(1, 17):
        for m in (1, 2, 3):
            yield dict(id='chain.n%d.m%d' % (n, m), kind='chain', n=n, m=m, depth=3 if tier == 'quick' else 4)
    for n in range(1, 8 if tier == 'quick' else 18):
        yield dict(id='fun.n%d' % n, kind='fun', n=n)


def one(rec, lab, U, c, n, a, b):
    keep = c.copy()
    ok, r = rec.attempt(lab, lambda: U(c, a, b))
    rec.check(np.array_equal(c, keep) and c.dtype == keep.dtype, lab + ' input unchanged', before=keep, after=c)
    if not ok:
        return None
    M = conv(n, Fr(a), Fr(b))
    sc = np.max(np.abs(M) @ np.abs(keep.astype(float)))
    if not rec.check(np.shape(r) == keep.shape, lab + ' shape', got=list(np.shape(r)), want=list(keep.shape)):
        return None
    rec.close(r, M @ keep.astype(float), 1e-13 * (1 + n) * (1 + abs(a - b)**3) * max(sc, 1e-300), lab + ' value')
    return r


def run(case, rec):
    from funpy import ultra2ultra as U, Fun
    n, kind = case['n'], case['kind']
    if kind in ('pairs', 'half'):
        lams = case['lams'] if kind == 'pairs' else [0.5, 1.5, 2.5]
        for a, b in itertools.product(lams, repeat=2):
            for k in range(n):
                c = np.zeros((n, 1))
                c[k] = 1.0
                rec.state(n, a, b, k)
                one(rec, '%g->%g e%d' % (a, b, k), U, c, n, a, b)
            for m in (1, 2, 3):
                c = np.stack([gen(3 * j + m, n, 1)[:, 0] for j in range(m)], axis=1)
                one(rec, '%g->%g dense%d' % (a, b, m), U, c, n, a, b)
                one(rec, '%g->%g F-order%d' % (a, b, m), U, np.asfortranarray(c), n, a, b)
            one(rec, '%g->%g zero' % (a, b), U, np.zeros((n, 2)), n, a, b)
            one(rec, '%g->%g integers' % (a, b), U, np.arange(1, n + 1).reshape(n, 1), n, a, b)
            # there and back
            c = gen(5, n, 2)
            ok, r = rec.attempt('%g->%g and back' % (a, b), lambda: U(U(c.copy(), a, b), b, a))
            if ok:
                K = np.max(np.abs(conv(n, Fr(b), Fr(a))) @ (np.abs(conv(n, Fr(a), Fr(b))) @ np.abs(c)))
                rec.close(r, c, 1e-13 * (1 + n) * (1 + abs(a - b)**3) * K, '%g->%g and back' % (a, b))
    elif kind == 'chain':
        m = case['m']
        c0 = gen(7, n, m)
        start = (0, c0)
        # breadth first over chains of bases
        layer = [((0,), c0, np.max(np.abs(c0)))]
        for d in range(case['depth']):
            nxt = []
            for path, c, amp in layer:
                for b in range(4):
                    if b == path[-1]:
                        continue
                    rec.state(path, b, n, m)
                    lab = '->'.join(map(str, path + (b,)))
                    keep = c.copy()
                    ok, r = rec.attempt(lab, lambda: U(c, path[-1], b))
                    rec.check(np.array_equal(c, keep), lab + ' input unchanged')
                    if not ok:
                        continue
                    M = conv(n, Fr(path[-1]), Fr(b))
                    am = amp * max(1.0, np.max(np.sum(np.abs(M), axis=1)))
                    rec.close(r, conv(n, Fr(0), Fr(b)) @ c0, 1e-13 * (1 + n) * am * (d + 1), lab + ' value')
                    if np.shape(r) == c.shape:
                        nxt.append((path + (b,), r, am))
            layer = nxt
    else:
        for lam, m, order, dom in itertools.product((0, 1, 2, 3), (1, 2, 3), 'FC', DOMS):
            c = gen(2 + m, n, m)
            want = conv(n, Fr(lam), Fr(0)) @ c
            flat = c.flatten(order=order)
            keep = flat.copy()
            lab = 'from_ultra lam=%d m=%d %s [%g,%g]' % (lam, m, order, dom[0], dom[1])
            rec.state(lab, n)
            ok, f = rec.attempt(lab, lambda: Fun.from_ultra(flat, m, lam, order=order, domain=np.array(dom)))
            rec.check(np.array_equal(flat, keep), lab + ' input unchanged')
            if not ok:
                continue
            ok, v = rec.attempt(lab + ' values', lambda: f(to_dom(ZS, dom)))
            if ok:
                sc = np.max(np.abs(conv(n, Fr(lam), Fr(0))) @ np.abs(c))
                rec.close(np.reshape(v, (ZS.size, m)), cheb_eval(want, ZS), 1e-12 * (1 + n) * sc, lab + ' values')
