"""C17: collocation and Fourier matrices represent the operators they are named after."""
import itertools
import numpy as np
import scipy.sparse as sps
from mc.ref import gen

ID = 'C17'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of sizes (both parities) x orders x domains x multiplier shapes on the real code, applied to every basis function, against exact derivatives, values and products'
RULE = 'every size x order x basis function (Chebyshev polynomial, Fourier mode, Nyquist mode) x domain; every multiplier mode, dense, padded and too long multipliers; all iteration and indexing paths of the collocated function. Non-trivial: the size is at least 2'
ASSUMPTIONS = ['the Nyquist mode is differentiated as the cosine', 'trigcolloc.int and trigcolloc.matrices.multmat/intmat/evalfun are not implemented in the repository and not claimed',
               'the order-1 aggregation matrix is not claimed (its normalisation is not documented)']
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25), (10.0, 10.5)]
Pi = np.pi


def cases(tier):
    N = 14 if tier == 'quick' else 28
    for n in range(1, N + 1):
        for di, dom in enumerate(DOMS):
            yield dict(id='cheb.n%d.d%d' % (n, di), kind='cheb', n=n, dom=dom)
        yield dict(id='trig.n%d' % n, kind='trig', n=n)
        yield dict(id='bary.n%d' % n, kind='bary', n=n)
        for dom in DOMS[:3]:
            yield dict(id='spec.n%d.%g' % (n, dom[0]), kind='spec', n=n, dom=dom)


def chebder(n, j, k, z):
    """k-th derivative of T_j at z in [-1, 1]."""
    c = np.zeros(j + 1)
    c[j] = 1
    return np.polynomial.chebyshev.chebval(z, np.polynomial.chebyshev.chebder(c, k)) if k else np.polynomial.chebyshev.chebval(z, c)


def cheb(rec, case):
    from funpy import Fun
    from funpy.cheb import chebpts_type2, diffmat
    from funpy.colloc import chebcolloc2
    n, dom = case['n'], case['dom']
    L = dom[1] - dom[0]
    z = -np.cos(Pi * np.arange(n) / (n - 1)) if n > 1 else np.zeros(1)
    V = np.stack([chebder(n, j, 0, z) for j in range(n)], axis=1)
    x = dom[0] + (z + 1) * L / 2
    scales = {}
    for k in range(0, 6):
        rec.state('cheb', n, k, dom)
        W = np.stack([chebder(n, j, k, z) for j in range(n)], axis=1) * (2 / L)**k
        # rounding of the differentiation matrices grows like n^(2k)
        tol = 1e-14 * max(4.0, n)**(2 * k) * (2 / L)**k * 20 * max(1.0, abs(dom[0]) / L)**(k > 0)
        scales[k] = tol
        lab = 'cheb.diffmat k=%d' % k
        xs = np.asarray(chebpts_type2(n, interval=np.array(dom))[0], dtype=float)
        keep = xs.copy()
        ok, D = rec.attempt(lab, lambda: diffmat(xs, k=k))
        rec.check(np.array_equal(keep, xs), lab + ' points unchanged')
        if ok and rec.check(np.shape(D) == (n, n), lab + ' shape', got=np.shape(D)):
            rec.close(D @ V, W, tol, lab)
        for cols in ('eye', 'basis', '1d'):
            vals = {'eye': np.eye(n), 'basis': V, '1d': V[:, n - 1]}[cols]
            want = {'eye': np.linalg.solve(V.T, W.T).T if n > 1 else W, 'basis': W, '1d': W[:, [n - 1]]}[cols]
            lab = 'chebcolloc2(%s) ' % cols
            ok, u = rec.attempt(lab, lambda: chebcolloc2(values=vals, domain=list(dom)))
            if not ok:
                continue
            ok, D = rec.attempt(lab + 'diffmat', lambda: u.diffmat(k=k))
            if ok and rec.check(np.shape(D) == (n, n), lab + 'diffmat shape', got=np.shape(D)):
                rec.close(D @ V, W, tol, lab + 'diffmat k=%d' % k)
            ok, du = rec.attempt(lab + 'np.diff', lambda: np.diff(u, n=k))
            if ok and rec.check(isinstance(du, chebcolloc2), lab + 'np.diff type'):
                rec.close(du.values, want, tol * 4, lab + 'np.diff n=%d' % k)
                rec.check(np.array_equal(np.reshape(u.values, np.shape(vals)), vals), lab + 'original unchanged')
                # derivatives compose
                if k in (1, 2):
                    ok, d2 = rec.attempt(lab + 'np.diff twice', lambda: np.diff(du))
                    if ok:
                        W2 = np.stack([chebder(n, j, k + 1, z) for j in range(n)], axis=1) * (2 / L)**(k + 1)
                        w2 = {'eye': np.linalg.solve(V.T, W2.T).T if n > 1 else W2, 'basis': W2, '1d': W2[:, [n - 1]]}[cols]
                        rec.close(d2.values, w2, 80 * 1e-14 * max(4.0, n)**(2 * k + 2) * (2 / L)**(k + 1) * max(1.0, abs(dom[0]) / L), lab + 'diff of diff')
                # evaluate the derivative at points, including the end points and grid points
                for y in [dom[0], dom[1], dom[0] + 0.3 * L] + [float(t) for t in x[1:-1][:3]]:
                    ok, e = rec.attempt(lab + 'evaluation', lambda: du(y))
                    if ok:
                        ref = np.array([chebder(n, j, k, 2 * (y - dom[0]) / L - 1) for j in range(n)]) * (2 / L)**k
                        ref = {'eye': np.linalg.solve(V.T, ref), 'basis': ref, '1d': ref[[n - 1]]}[cols]
                        rec.close(np.reshape(e, -1), ref, 40 * tol * n, lab + 'derivative %d at %r' % (k, y))
    ok, u = rec.attempt('construct', lambda: chebcolloc2(values=np.eye(n), domain=list(dom)))
    if not ok:
        return
    p = u.functionPoints()[0]
    rec.close(np.asarray(p, float), x, 1e-15 * (L + abs(dom[0])), 'function points')
    ok, q = rec.attempt('equation points', lambda: np.asarray(u.equationPoints()[0], float))
    if ok:
        rec.close(q, dom[0] + (1 - np.cos((2 * np.arange(n) + 1) * Pi / (2 * n))) * L / 2, 4e-15 * (L + abs(dom[0])), 'equation points')
    # columns
    ok, c = rec.attempt('iterate', lambda: [np.reshape(w.values, -1) for w in u])
    if ok:
        rec.close(np.array(c), np.eye(n), 0, 'iteration over the columns')
    for j in range(n):
        ok, w = rec.attempt('column', lambda: u[j])
        if ok:
            rec.close(np.reshape(w.values, -1), np.eye(n)[j], 0, 'column')
    for bad in (dom[0] - 0.1 * L, dom[1] + 0.1 * L):
        rec.rejects('evaluation outside of the domain is refused', lambda: u(bad))
    # multiplication
    for j in range(n):
        f = np.zeros((j + 1, 1), order='F')
        f[j] = 2.0
        F = Fun(coeffs=f, domain=np.array(dom), simplify=False)
        ok, G = rec.attempt('prolong', lambda: F.prolong(n))
        if ok:
            ok, M = rec.attempt('mult', lambda: u.mult(G))
            if ok and rec.check(M.shape == (n, n), 'mult shape', got=M.shape):
                rec.close(np.asarray(M.todense() if sps.issparse(M) else M) @ V, 2 * V[:, [j]] * V, 1e-13, 'mult by T%d' % j)


def trig(rec, case):
    from funpy.colloc.trigcolloc import matrices as T
    from funpy.colloc import trigcolloc
    from funpy.trig.trigtech import diffmat as D2
    n = case['n']
    x = -1 + 2 * np.arange(n) / n

    def modes(k, L, y):
        """k-th derivative on a domain of length L of all basis functions at y in [-1, 1)."""
        out = []
        for q in range(0, n // 2 + 1):
            w = Pi * q
            out.append((2 / L)**k * (w**k if q or k else 1.0) * np.cos(w * y + k * Pi / 2))
            if 0 < q and 2 * q != n:
                out.append((2 / L)**k * w**k * np.sin(w * y + k * Pi / 2))
        return np.stack(out, axis=1)
    V = modes(0, 2, x)
    for k in range(0, 8):
        rec.state(n, k)
        W = modes(k, 2, x)
        if n % 2 == 0 and k % 2:
            W[:, -1] = 0
        tol = 1e-12 * max(1, (Pi * n / 2)**k) * n
        for fmt in (None,):
            lab = 'trigcolloc diffmat m=%d' % k
            ok, D = rec.attempt(lab, lambda: T.diffmat(n, m=k, format=fmt))
            if ok:
                D = np.asarray(D.todense()) if sps.issparse(D) else np.asarray(D)
                if rec.check(D.shape == (n, n), lab + ' shape', got=D.shape):
                    rec.close(D @ V, W, tol, lab)
        lab = 'trigtech diffmat k=%d' % k
        ok, D = rec.attempt(lab, lambda: D2(None, n, k=k))
        if ok and rec.check(np.shape(D) == (n, n), lab + ' shape', got=np.shape(D)):
            rec.close(D @ V, W, tol, lab)
        for dom in DOMS:
            L = dom[1] - dom[0]
            lab = 'trigcolloc on [%g, %g] ' % dom
            ok, u = rec.attempt(lab, lambda: trigcolloc(values=np.eye(n), domain=list(dom)))
            if not ok:
                continue
            ok, D = rec.attempt(lab + 'diff', lambda: u.diff(k=k))
            if ok:
                D = np.asarray(D.todense()) if sps.issparse(D) else np.asarray(D)
                if rec.check(D.shape == (n, n), lab + 'diff shape', got=D.shape):
                    rec.close(D @ V, W * (2 / L)**k, tol * (2 / L)**k, lab + 'diff k=%d' % k)
    for dom in DOMS:
        L = dom[1] - dom[0]
        lab = 'trigcolloc on [%g, %g] ' % dom
        ok, u = rec.attempt(lab, lambda: trigcolloc(values=np.eye(n), domain=list(dom)))
        if not ok:
            continue
        for pts in ('functionPoints', 'equationPoints'):
            ok, p = rec.attempt(lab + pts, lambda: getattr(u, pts)())
            if ok:
                rec.close(np.asarray(p[0]).ravel(), dom[0] + (x + 1) * L / 2, 1e-14 * (L + abs(dom[0])), lab + pts)
        for y in [dom[0], dom[0] + 0.3 * L, dom[0] + 0.71 * L, dom[1], dom[0] + (x[n // 2] + 1) * L / 2]:
            ok, E = rec.attempt(lab + 'eval', lambda: u.eval(y))
            if ok:
                rec.close(np.reshape(E, -1) @ V, modes(0, 2, np.array([2 * (y - dom[0]) / L - 1]))[0], 1e-11 * n, lab + 'eval at %r' % y)
        for bad in (dom[0] - 0.1 * L, dom[1] + 0.1 * L):
            rec.rejects(lab + 'evaluation outside of the domain is refused', lambda: u.eval(bad))
        ok, c = rec.attempt(lab + 'iterate', lambda: [np.reshape(w.values, -1) for w in u])
        if ok:
            rec.close(np.array(c), np.eye(n), 0, lab + 'iteration')


def bary(rec, case):
    from funpy.cheb import barymat, chebpts_type1, chebpts_type2
    n = case['n']
    for name, pts in (('type1', chebpts_type1), ('type2', chebpts_type2)):
        for dom in DOMS:
            L = dom[1] - dom[0]
            x, _, v, _ = pts(n, interval=np.array(dom))
            x, v = np.asarray(x, float), np.asarray(v, float)
            V = np.stack([chebder(n, j, 0, 2 * (x - dom[0]) / L - 1) for j in range(n)], axis=1)
            for q in range(1, n + 3):
                for nm, other in (('type1', chebpts_type1), ('type2', chebpts_type2)):
                    y = np.asarray(other(q, interval=np.array(dom))[0], float)
                    rec.state(name, nm, n, q, dom)
                    ok, P = rec.attempt('barymat', lambda: barymat(y, x, v))
                    if ok and rec.check(np.shape(P) == (q, n), 'barymat shape'):
                        W = np.stack([chebder(n, j, 0, 2 * (y - dom[0]) / L - 1) for j in range(n)], axis=1)
                        rec.close(P @ V, W, 1e-13 * n * n * max(1, abs(dom[0]) / L), 'barymat %s -> %s q=%d' % (name, nm, q))


def spec(rec, case):
    from funpy import Fun
    from funpy.trig import trigtech
    from funpy.colloc.trigspec import matrices as T
    from funpy.colloc.trigspec.trigspec import trigspec
    n, dom = case['n'], case['dom']
    L = dom[1] - dom[0]
    k = np.arange(n) - n // 2
    std = dom == DOMS[0]

    def D(m, length):
        d = (2j * Pi / length * k)**m if m else np.ones(n, complex)
        if n % 2 == 0 and m % 2:
            d[0] = 0
        return np.diag(d)
    ok, disc = rec.attempt('construct', lambda: trigspec(domain=list(dom), dimension=n))
    if not ok:
        return
    for m in range(0, 6):
        rec.state('diff', n, m, dom)
        W = D(m, 2 * Pi)
        for fmt in ((None, 'csr', 'csc') if std else ()):
            lab = 'diffmat m=%d %s' % (m, fmt)
            ok, A = rec.attempt(lab, lambda: T.diffmat(n, m=m, format=fmt))
            if ok and rec.check(A.shape == (n, n), lab + ' shape', got=A.shape):
                rec.close(np.asarray(A.todense()), W, 1e-13 * max(1, np.max(np.abs(W))), lab)
        W = D(m, L)
        lab = 'diff m=%d' % m
        ok, A = rec.attempt(lab, lambda: disc.diff(m))
        if ok and rec.check(A.shape == (n, n), lab + ' shape', got=A.shape):
            rec.close(np.asarray(A.todense()), W, 1e-13 * max(1, np.max(np.abs(W))), lab)
    W = np.zeros((n, n))
    W[n // 2, n // 2] = L
    ok, A = rec.attempt('int', lambda: disc.int())
    if ok and rec.check(A.shape == (n, n), 'int shape'):
        rec.close(np.asarray(A.todense()), W, 1e-14 * L, 'int')
    # aggregation: (1/2R) * integral over 0..R of u(x + r) - u(x - r)
    R = 1 / (0.5 * L)
    with np.errstate(all='ignore'):
        a = np.where(k == 0, 0, 1j * (1 - np.cos(R * Pi * k)) / (R * Pi * np.where(k == 0, 1, k)))
    ok, A = rec.attempt('aggregation', lambda: disc.aggregation())
    if ok and rec.check(A.shape == (n, n), 'aggregation shape'):
        rec.close(np.asarray(A.todense()), np.diag(a), 1e-13, 'aggregation')

    def mulref(c):
        """section of multiplication by the function with coefficients c."""
        q = c.size
        if q % 2 == 0:
            c = np.hstack((0.5 * c[0], c[1:], 0.5 * c[0]))
            q += 1
        h = q // 2
        M = np.zeros((n, n), complex)
        for i in range(n):
            for j in range(n):
                if abs(i - j) <= h:
                    M[i, j] = c[h + i - j]
        return M
    for q in list(range(1, n + 4)) + [2 * n + 1, 2 * n + 2, 2 * n + 5]:
        h = q // 2
        pal = {}
        for w in range(0, h + 1):
            c = np.zeros(q, complex)
            if 2 * w == q:
                c[0] = 1.5
            elif h - w >= 0 and h + w < q:
                c[h - w] += 0.5 - (0.25j if w else 0)
                c[h + w] += 0.5 + (0.25j if w else 0)
            pal['mode%d' % w] = c
        c = gen(q, q, 1)[:, 0] + 1j * gen(q + 1, q, 1)[:, 0]
        r = c[::-1].conj() if q % 2 else np.hstack((np.conj(c[0]), c[:0:-1].conj()))
        pal['dense'] = 0.5 * (c + r)
        if q % 2 == 0:
            pal['dense'][0] = pal['dense'][0].real
        pal['zero'] = np.zeros(q, complex)
        for name, c in pal.items():
            for kind in ('tech', 'Fun'):
                lab = 'mult %s q=%d %s' % (name, q, kind)
                rec.state(lab, n, dom)
                if kind == 'tech':
                    if not std:
                        continue
                    f = trigtech(coeffs=np.asfortranarray(c[:, None]), simplify=False)
                    ok, A = rec.attempt(lab, lambda: T.multmat(n, f))
                else:
                    if n > 9 and name != 'dense':
                        continue
                    f = Fun(coeffs=np.asfortranarray(c[:, None]), domain=np.array(dom), type='trig', simplify=False)
                    ok, A = rec.attempt(lab, lambda: disc.mult(f))
                if ok and rec.check(A.shape == (n, n), lab + ' shape', got=A.shape):
                    cc = np.asarray(f.coeffs).ravel()
                    rec.close(np.asarray(A.todense()), mulref(cc), 1e-14, lab)


def run(case, rec):
    globals()[case['kind']](rec, case)
