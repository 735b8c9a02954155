"""C27: functionals and constraints evaluate what they denote."""
import contextlib
import io
import itertools

import numpy as np
from numpy.polynomial import chebyshev as NC

ID = 'C27'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of all functionals of a grammar (point, derivative, integral atoms and their pairwise combinations with offsets) x all Chebyshev basis functions x sizes x domains on the real code, against the exact functional of the polynomial'
RULE = 'inner-product functionals: every pair of basis functions below the bound, column counts, orders, weights, target lengths; constraint functionals: every atom, ordered pair of atoms with the coefficients of the list, on every size; operator rows: every condition in every position. One state per functional x size x domain, one transition per application. Non-trivial: at least 2 coefficients'
ASSUMPTIONS = ['point evaluations are scalar, inside the domain', 'weighted functionals carry the Chebyshev weight of the reference interval']
LIMIT = 300

DOMS = [(-1.0, 1.0), (0.0, 1.0), (-2.0, 3.0), (0.0, 6.283185307179586), (-0.1, 0.1), (10.0, 11.0)]


def quiet(f):
    with contextlib.redirect_stdout(io.StringIO()):
        return f()


# ------------------------------------------------------------------ reference
def integ(k):
    return 0.0 if k % 2 else 2.0 / (1.0 - k * k)


def dmat(n):
    """ columns: coefficients of T_k' """
    D = np.zeros((n, n))
    for k in range(n):
        for j in range(k - 1, -1, -2):
            D[j, k] = 2.0 * k if j else float(k)
    return D


def gram(n):
    return np.array([[0.5 * (integ(i + j) + integ(abs(i - j))) for j in range(n)] for i in range(n)])


def sobolev(n, order, dom):
    """ matrix of (f, v) + (f', v') + ... on the domain """
    h = 0.5 * (dom[1] - dom[0])
    G, D, E, out = gram(n), dmat(n) / h, np.eye(n), 0
    for _ in range(order + 1):
        out = out + h * E.T @ G @ E
        E = D @ E
    return out


def atom_row(at, n, dom):
    """ the functional applied to T_0..T_{n-1} of the domain """
    h = 0.5 * (dom[1] - dom[0])
    kind, k, frac = at
    E = np.linalg.matrix_power(dmat(n) / h, k)
    if kind == 'sum':
        return h * np.array([integ(i) for i in range(n)]) @ E
    z = 2 * frac - 1.0
    return NC.chebvander(np.array([z]), n - 1)[0] @ E


def weight(parts, n, dom):
    """ size of the rounding error of a row relative to the machine precision """
    h = 0.5 * (dom[1] - dom[0])
    return 1 + sum(abs(cf) * (np.sum(np.abs(atom_row(a, n, dom))) + (n * n / h)**a[1] * (h if a[0] == 'sum' else 1.0)) for cf, a, f in parts)


def loc(frac, dom):
    return dom[0] if frac == 0.0 else dom[1] if frac == 1.0 else dom[0] + frac * (dom[1] - dom[0])


def atom_text(at, f, dom):
    kind, k, frac = at
    g = f if k == 0 else 'np.diff(%s)' % f if k == 1 else 'np.diff(%s, %d)' % (f, k)
    return 'np.sum(%s)' % g if kind == 'sum' else '%s(%r)' % (g, loc(frac, dom))


ATOMS = [('pt', k, fr) for fr in (0.0, 1.0, 0.5, 0.3) for k in (0, 1, 2)] + [('pt', 3, 0.0), ('pt', 3, 1.0), ('pt', 4, 0.25), ('sum', 0, 0), ('sum', 1, 0), ('sum', 2, 0)]
# (text, evaluator on the two values)
COMBOS = [('{A} + {B}', 1.0, 1.0, 0.0), ('{A} - {B}', 1.0, -1.0, 0.0), ('2*{A} - 0.5*{B} - 1', 2.0, -0.5, -1.0), ('-{A} + {B}*3 + 0.25', -1.0, 3.0, 0.25), ('({A} + {B})/2', 0.5, 0.5, 0.0)]


# ------------------------------------------------------------------ cases
def cases(tier):
    big = tier != 'quick'
    for di in range(len(DOMS)):
        yield dict(id='inner.d%d' % di, kind='inner', di=di, n=9 if big else 6)
        yield dict(id='inner2.d%d' % di, kind='inner2', di=di, big=big)
        yield dict(id='shared.d%d' % di, kind='shared', di=di)
        for nf in (1, 2, 3):
            yield dict(id='constraint.d%d.f%d' % (di, nf), kind='constraint', di=di, nf=nf, big=big)
        for nf in (1, 2):
            for g in range(4):
                yield dict(id='rows.d%d.f%d.%d' % (di, nf, g), kind='rows', di=di, nf=nf, g=g, big=big)
        yield dict(id='param.d%d' % di, kind='param', di=di)


def run(case, rec):
    globals()[case['kind']](rec, case)


def fun(c, dom):
    from funpy import Fun
    c = np.array(c, dtype=float)
    return Fun(coeffs=np.asfortranarray(c if c.ndim == 2 else c[:, None]), domain=list(dom), simplify=False)


def unit(n, k):
    c = np.zeros(n)
    c[k] = 1.0
    return c


def inner(rec, case):
    """ every pair of basis functions, order, weight and target length """
    from funpy.functional import Functional
    dom, M = DOMS[case['di']], case['n']
    h = 0.5 * (dom[1] - dom[0])
    for nf in range(1, M + 1):
        for k in range(nf):
            f = fun(unit(nf, k), dom)
            keep = np.array(f.coeffs)
            for order, weighted in ((0, False), (1, False), (2, False), (3, False), (0, True)):
                for n in [None] + list(range(1, M + 1)):
                    rec.state('inner', dom, nf, k, order, weighted, n)
                    lab = 'T%d/%d order %d%s n=%s' % (k, nf, order, ' weighted' if weighted else '', n)
                    kw = dict(order=order, weighted=weighted)
                    if n is not None:
                        kw['n'] = n
                    ok, F = rec.attempt(lab, lambda: Functional(f, **kw))
                    if not ok:
                        continue
                    nn = n or nf
                    L = max(nn, nf)
                    if weighted:
                        want = np.zeros(nn)
                        if k < nn:
                            want[k] = (np.pi if k == 0 else np.pi / 2) * h
                    else:
                        want = sobolev(L, order, dom)[k, :nn]
                    sc = 1e-12 * (1 + np.max(np.abs(want)))
                    rec.close(F.coeffs, want[None, :], sc, lab + ' coefficients')
                    rec.check(np.asarray(F.coeffs).shape == (1, nn), lab + ' shape')
                    rec.check(np.array_equal(f.coeffs, keep) and f.coeffs.shape == keep.shape, lab + ' operand')
                    # application to every basis function of every length
                    for nv in range(1, nn + 1):
                        for j in range(nv):
                            v = fun(unit(nv, j), dom)
                            kv = np.array(v.coeffs)
                            rec.step()
                            ok, r = rec.attempt(lab + ' call', lambda: F(v))
                            if ok:
                                rec.close(r, want[j], sc, lab + ' of T%d/%d' % (j, nv))
                            rec.check(np.array_equal(v.coeffs, kv) and v.coeffs.shape == kv.shape, lab + ' argument')
                            if nv == nn:
                                rec.close(F(v.coeffs), want[j], sc, lab + ' of coefficients T%d/%d' % (j, nv))
                                if j == 0:
                                    ok, r = rec.attempt(lab + ' dot', lambda: np.dot(F, v))
                                    if ok:
                                        rec.close(r, want[j], sc, lab + ' dot')


def inner2(rec, case):
    """ several columns, linear combinations, agreement with the inner products of functions """
    from funpy.functional import Functional
    from funpy.fun import innerw
    dom = DOMS[case['di']]
    P = [np.array(c, float) for c in ((1, 2), (0, 1, -1), (2, 0, 0, .5), (1, -1, 3, 0, 2), (0, 0, 0, 0, 0), (3,))]
    for m in (1, 2, 3) if case['big'] else (1, 2):
        for cols in itertools.product(range(len(P)), repeat=m):
            nf = max(len(P[c]) for c in cols)
            C = np.stack([np.pad(P[c], (0, nf - len(P[c]))) for c in cols], 1)
            f = fun(C, dom)
            keep = np.array(f.coeffs)
            for order, weighted in ((0, False), (1, False), (2, False), (0, True)):
                for n in (None, nf + 3, max(1, nf - 1), 12):
                    rec.state('inner2', dom, cols, order, weighted, n)
                    lab = '%s order %d%s n=%s' % (cols, order, 'w' if weighted else '', n)
                    kw = dict(order=order, weighted=weighted)
                    if n is not None:
                        kw['n'] = n
                    ok, F = rec.attempt(lab, lambda: Functional(f, **kw))
                    if not ok:
                        continue
                    nn = n or nf
                    L = max(nn, nf)
                    if weighted:
                        h = 0.5 * (dom[1] - dom[0])
                        W = np.eye(L) * np.pi / 2 * h
                        W[0, 0] *= 2
                    else:
                        W = sobolev(L, order, dom)
                    want = (W[:nf].T @ C)[:nn]
                    sc = 1e-12 * (1 + np.max(np.abs(want))) * 10
                    rec.close(F.coeffs, want.flatten(order='F')[None, :], sc, lab + ' coefficients')
                    # linear in its argument
                    V = np.array([[(3 * i + 5 * j) % 7 - 3.0 for j in range(m)] for i in range(nn)])
                    X = np.array([[(2 * i + 3 * j) % 5 - 2.0 for j in range(m)] for i in range(nn)])
                    v, x = fun(V, dom), fun(X, dom)
                    a, b = F(v), F(x)
                    t = 1e-11 * (1 + np.sum(np.abs(want)) * 10)
                    rec.step(3)
                    rec.close(a, np.sum(want * V), t, lab + ' value')
                    rec.close(F(2 * v - 3 * x), 2 * a - 3 * b, t, lab + ' linear')
                    rec.close(F(V), a, t, lab + ' coefficient array')
                    if weighted and nn >= nf:
                        rec.close(np.sum(np.asarray(innerw(f, v))), a, t, lab + ' against innerw')
                    if not weighted and order <= 1 and nn >= nf:
                        g = np.trace(np.atleast_2d(np.asarray(np.dot(f, v))))
                        if order:
                            g = g + np.trace(np.atleast_2d(np.asarray(np.dot(np.diff(f), np.diff(v)))))
                        rec.close(a, g, t, lab + ' against the inner products of the functions')
                    rec.check(np.array_equal(f.coeffs, keep) and f.coeffs.shape == keep.shape, lab + ' operand')


def shared(rec, case):
    """ functionals stay valid when the function they came from changes, and on histories of calls """
    from funpy.functional import Functional
    dom = DOMS[case['di']]
    for order, weighted in ((0, False), (1, False), (0, True)):
        f = fun([[1., 2.], [3., -1.], [.5, 0.]], dom)
        F = Functional(f, order=order, weighted=weighted)
        v = fun([[1., 0.], [0., 2.], [1., 1.]], dom)
        first, c = F(v), np.array(F.coeffs)
        for word in itertools.product('spcd', repeat=3):
            rec.state('shared', dom, order, weighted, word)
            for w in word:
                rec.step()
                if w == 's':
                    f.coeffs[0, 0] += 1
                elif w == 'p':
                    F(v)
                elif w == 'c':
                    F(np.array(v.coeffs))
                else:
                    np.dot(F, v)
            rec.check(F(v) == first and np.array_equal(F.coeffs, c), 'functional independent of its source', word=''.join(word), order=order)


def shapes(nf):
    return 'uvw'[:nf]


def texts(nf, dom, big):
    """ (text, list of (coefficient, atom, function), offset) of the grammar """
    fs = shapes(nf)
    A = [(a, f) for f in range(nf) for a in ATOMS]
    for a, f in A:
        t = atom_text(a, fs[f], dom)
        yield t, [(1.0, a, f)], 0.0
        yield '3*%s - 2' % t, [(3.0, a, f)], -2.0
    core = [(a, f) for a, f in A if a in (('pt', 0, 0.0), ('pt', 0, 1.0), ('pt', 1, 0.0), ('pt', 1, 1.0), ('pt', 2, 0.5), ('sum', 0, 0), ('pt', 0, 0.3), ('sum', 1, 0))]
    if nf == 1 or big:
        pairs = itertools.permutations(A if nf == 1 else core, 2)
    else:
        pairs = itertools.permutations(core, 2)
    for i, ((a, f), (b, g)) in enumerate(pairs):
        for j, (t, ca, cb, off) in enumerate(COMBOS):
            if not big and nf > 1 and (i + j) % 5:
                continue
            yield (t.format(A=atom_text(a, fs[f], dom), B=atom_text(b, fs[g], dom)), [(ca, a, f), (cb, b, g)], off)


def row(parts, nf, n, dom, cache={}):
    out = np.zeros(nf * n)
    for c, a, f in parts:
        key = (a, n, dom)
        if key not in cache:
            cache[key] = atom_row(a, n, dom)
        out[f * n:(f + 1) * n] += c * cache[key]
    return out


def constraint(rec, case):
    """ the constraint object: its row in the space of values, its residual """
    from funpy.colloc.chebOpConstraint import ChebOpConstraint
    from funpy.cheb import chebpts_type2
    dom, nf = DOMS[case['di']], case['nf']
    fs = shapes(nf)
    sizes = (1, 2, 3, 4, 5, 8, 9, 12) if nf == 1 else (1, 3, 6) if nf == 2 else (2, 5)
    VAN = {}
    for n in sizes:
        z = -np.cos(np.pi * np.arange(n) / (n - 1)) if n > 1 else np.zeros(1)
        VAN[n] = NC.chebvander(z, n - 1)
    U = np.array([[(3 * i + 5 * j) % 7 - 3.0 for j in range(nf)] for i in range(6)])
    u = fun(U, dom)
    for text, parts, off in texts(nf, dom, case['big']):
        op = eval('lambda %s: %s' % (', '.join(fs), text), {'np': np})
        ok, c = rec.attempt(text, lambda: ChebOpConstraint(op=op, domain=list(dom), nfuns=nf))
        if not ok:
            continue
        for n in sizes:
            rec.state('constraint', dom, nf, text, n)
            rec.step()
            ok, r = rec.attempt('%s n=%d' % (text, n), lambda: c(n))
            if not ok:
                continue
            r = np.asarray(r, dtype=float)
            if not rec.check(r.shape == (1, nf * n), '%s n=%d shape' % (text, n), got=list(r.shape)):
                continue
            want = row(parts, nf, n, dom)
            got = np.concatenate([r[0, k * n:(k + 1) * n] @ VAN[n] for k in range(nf)])
            # rounding of the values weighed by the row
            tol = 1e-13 * weight(parts, n, dom) * 10 * n
            rec.close(got, want, tol, '%s n=%d row' % (text, n))
        # the residual of a function
        want = row(parts, nf, 6, dom) @ U.flatten(order='F') + off
        tol = 1e-12 * weight(parts, 6, dom)
        for vals in (None, 0.0, 1.5, -2.0):
            kw = {} if vals is None else dict(values=vals)
            d = ChebOpConstraint(op=op, domain=list(dom), nfuns=nf, **kw)
            ok, r = rec.attempt(text + ' residual', lambda: d.residual(u))
            if ok:
                rec.close(np.ravel(np.asarray(r, dtype=float)), np.array([want - (vals or 0.0)]), tol, text + ' residual')
            if vals == 1.5:
                e = -d
                rec.close(np.ravel(np.asarray(e.residual(u), float)), np.array([want + vals]), tol, text + ' negated value')


ROWEQ = {1: ['diff(u, x, 4) + u'], 2: ['diff(u, x, 2) + v', 'diff(v, x, 2) - u']}


def rows(rec, case):
    """ the rows an operator puts on top of its matrix """
    dom, nf, big = DOMS[case['di']], case['nf'], case['big']
    from funpy import Fun
    from funpy.colloc.chebOp import ChebOp
    from funpy.vectorspaces import DeflationState
    fs = list(shapes(nf))
    T = list(texts(nf, dom, big))
    step = 1 if big else (17 if nf == 1 else 7)
    T = [t for i, t in enumerate(T) if i % 4 == case['g'] and (i < len(ATOMS) * 2 * nf or (i // 4) % step == 0)]
    for N in (12, 17):
        U = np.array([[((3 * i + 5 * j) % 7 - 3.0) * 0.5**i for j in range(nf)] for i in range(N)])
        u = fun(U, dom)
        keep = np.array(u.coeffs)
        for q in range(0, len(T), 4):
            group = T[q:q + 4]
            if len(group) < 4:
                group = (group + T[:4])[:4]
            for form in ('text', 'callable') if N == 12 else ('text',):
                lab0 = '; '.join(t for t, _, _ in group) + ' ' + form + ' N=%d' % N
                rec.state('rows', dom, nf, lab0)
                op = ChebOp('ultraS', functions=fs, domain=list(dom), parameters={'a': 1.0}, n=N)
                op.eqn = list(ROWEQ[nf])
                op.bcs = [t if form == 'text' else eval('lambda %s: %s' % (', '.join(fs), t), {'np': np}) for t, _, _ in group]
                op.cts = []
                s = DeflationState(u=u, a=1.0)

                def go():
                    d = op.discretize(s)
                    M = d.matrix()[0]
                    res = d.project_vector(d.source.rhs.values.flatten(order='F'), cts=True)
                    return M, res
                rec.step()
                ok, r = rec.attempt(lab0, lambda: quiet(go))
                if not ok:
                    continue
                M, res = r
                M = np.asarray(M.todense() if hasattr(M, 'todense') else M)
                for k, (t, parts, off) in enumerate(group):
                    want = row(parts, nf, N, dom)
                    tol = 1e-13 * weight(parts, N, dom) * 10 * N
                    rec.close(M[k], want, tol, lab0 + ' row of ' + t)
                    rec.close(res[k], want @ U.flatten(order='F') + off, tol * 4, lab0 + ' value of ' + t)
                rec.check(np.array_equal(u.coeffs, keep), lab0 + ' function intact')


def param(rec, case):
    """ offsets and coefficients that depend on the parameters of the state, along histories """
    from funpy.colloc.chebOp import ChebOp
    from funpy.vectorspaces import DeflationState
    dom = DOMS[case['di']]
    N = 10
    lo, hi = (repr(v) for v in dom)
    conds = [('u(%s) - a' % lo, lambda p: [(1., ('pt', 0, 0.), 0)], lambda p: -p['a']),
             ('a*u(%s) + b' % hi, lambda p: [(p['a'], ('pt', 0, 1.), 0)], lambda p: p['b']),
             ('np.diff(u)(%s) - a*b' % lo, lambda p: [(1., ('pt', 1, 0.), 0)], lambda p: -p['a'] * p['b']),
             ('b*np.sum(u) + a*u(%s)' % lo, lambda p: [(p['b'], ('sum', 0, 0), 0), (p['a'], ('pt', 0, 0.), 0)], lambda p: 0.0),
             ('np.diff(u)(%s) + b*u(%s) - 1' % (hi, hi), lambda p: [(1., ('pt', 1, 1.), 0), (p['b'], ('pt', 0, 1.), 0)], lambda p: -1.0)]
    P = [dict(a=1.0, b=0.5), dict(a=-2.0, b=3.0), dict(a=0.0, b=1.0)]
    U = np.array([[(3 * i) % 7 - 3.0] for i in range(N)])
    for c1, c2 in itertools.permutations(conds, 2):
        op = ChebOp('ultraS', functions=['u'], domain=list(dom), parameters=dict(P[0]), n=N)
        op.eqn = ['diff(u, x, 2) + a*u']
        op.bcs = [c1[0], c2[0]]
        op.cts = []
        for word in itertools.product(range(3), repeat=3):
            for w in word:
                p = P[w]
                rec.state('param', dom, c1[0], c2[0], word, w)
                s = DeflationState(u=fun(U, dom), **p)

                def go():
                    d = op.discretize(s)
                    return d.matrix()[0], d.project_vector(d.source.rhs.values.flatten(order='F'), cts=True)
                rec.step()
                lab = '%s; %s %s' % (c1[0], c2[0], word)
                ok, r = rec.attempt(lab, lambda: quiet(go))
                if not ok:
                    return
                M = np.asarray(r[0].todense() if hasattr(r[0], 'todense') else r[0])
                for k, (t, parts, off) in enumerate((c1, c2)):
                    want = row(parts(p), 1, N, dom)
                    tol = 1e-12 * weight(parts(p), N, dom) * N
                    rec.close(M[k], want, tol, lab + ' row of ' + t)
                    rec.close(r[1][k], want @ U[:, 0] + off(p), tol, lab + ' value of ' + t)
