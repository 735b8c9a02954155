"""C12: selecting, stacking, iterating and rebuilding columns follow matrix semantics."""
import itertools
import numpy as np
from mc.ref import cheb_coeffs, trig_coeffs, cheb_eval, trig_eval, ZS, to_dom

ID = 'C12'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of lengths x column counts x kinds x every index, slice, column word and nesting of iterators on the real code, against the matrix of values with one column per function; all interleavings of two column iterators'
RULE = ('every length x columns x kind of function; every index and every slice; every word over the columns (stacking); every interleaving of two iterators over the '
        'same function. Non-trivial: at least two columns')
ASSUMPTIONS = ['negative indices and slices may be refused, but must not select something else', 'non-periodic functions are real']
LIMIT = 120
DOMS = [(-1.0, 1.0), (0.0, 3.0), (-7.5, -2.25)]
KINDS = ('cheb', 'trig', 'trigc', 'mixed')


def cases(tier):
    N, M = (9, 4) if tier == 'quick' else (17, 5)
    for t in KINDS:
        for n in range(1, N + 1):
            for m in range(1, M + 1):
                yield dict(id='col.%s.n%d.m%d' % (t, n, m), what='col', t=t, n=n, m=m)
        for m in range(1, M + 1):
            yield dict(id='iter.%s.m%d' % (t, m), what='iter', t=t, m=m)
        yield dict(id='stack.%s' % t, what='stack', t=t, N=N)


def run(case, rec):
    rec.state(case['id'])
    globals()['t_' + case['what']](case, rec)


def coeffs(t, n, m, seed=1):
    if t == 'cheb':
        return cheb_coeffs('dense', n, m, seed)
    c = trig_coeffs('dense', n, m, seed, real=(t == 'trig'))
    if t == 'mixed':                        # real and complex columns side by side
        r = trig_coeffs('dense', n, m, seed, real=True)
        c[:, ::2] = r[:, ::2]
    return c


def fun(t, c, dom):
    from funpy.fun import Fun
    k = {} if t == 'cheb' else dict(type='trig')
    return Fun(coeffs=np.array(c, order='F'), domain=np.array(dom), simplify=False, **k)


def ev(t, c, z):
    return cheb_eval(c, z) if t == 'cheb' else trig_eval(c, z, isreal=False)


def same(rec, lab, g, want, dom, t):
    """g is a function with the columns `want` (values on ZS)"""
    from funpy.fun import Fun
    if not rec.check(isinstance(g, Fun), lab + ' is a function', got=type(g).__name__):
        return
    k = want.shape[1]
    if not rec.check(g.m == k and g.shape[1] == k and g.size == k and np.shape(g.coeffs) == (len(g), k) and np.shape(g.values) == (len(g), k), lab + ' columns', got=[g.m, g.shape, np.shape(g.values)]):
        return
    rec.check(np.all(np.asarray(g.domain) == np.array(dom)), lab + ' domain')
    ok, v = rec.attempt(lab + ' evaluation', lambda: np.reshape(g(to_dom(ZS, dom)), (ZS.size, k)))
    if ok:
        rec.close(v, want, 1e-12 * (1 + np.max(np.abs(want))), lab + ' value')
    ok, v = rec.attempt(lab + ' integral', lambda: np.ravel(np.sum(g)))
    if ok:
        rec.check(np.size(v) == k, lab + ' integral per column')


def t_col(case, rec):
    from funpy import fun as F
    t, n, m = case['t'], case['n'], case['m']
    c = coeffs(t, n, m)
    dom = DOMS[(n + m) % 3]
    V = ev(t, c, ZS)
    f = fun(t, c, dom)
    vals0, coef0 = f.values.copy(), f.coeffs.copy()
    x = to_dom(ZS, dom)
    rec.check((f.n, f.m, f.size, len(f), tuple(f.shape)) == (n, m, m, n, (n, m)), 'dimensions', got=[f.n, f.m, f.size, len(f)])
    rec.check(np.shape(f(x)) == ((ZS.size, m) if m > 1 else (ZS.size,)), 'shape of values at points', got=np.shape(f(x)))
    for i in range(m):
        for j in (i, np.int64(i), np.int32(i)):
            rec.state('item', j)
            ok, g = rec.attempt('f[%r]' % j, lambda: f[j])
            if ok:
                same(rec, 'f[%r]' % j, g, V[:, i:i + 1], dom, t)
    for j in (m, m + 1, 100):
        rec.rejects('f[%d]' % j, lambda: f[j])
    for j in range(-m - 1, 0):
        if j < -m:
            rec.rejects('f[%d]' % j, lambda: f[j])
            continue
        try:
            g = f[j]
        except Exception:
            continue
        same(rec, 'f[%d]' % j, g, V[:, j][:, None], dom, t)
    rec.rejects('f["a"]', lambda: f['a'])
    pts = [None] + list(range(-m, m + 2))
    for a, b, s in itertools.product(pts, pts, (None, 1, 2, -1)):
        lab = 'f[%s:%s:%s]' % (a, b, s)
        rec.state(lab)
        want = V[:, a:b:s]
        regular = want.shape[1] > 0 and s in (None, 1, 2) and (a is None or a >= 0) and (b is None or 0 <= b <= m)
        if not regular:
            try:
                g = f[a:b:s]
            except Exception:
                continue
            if want.shape[1] == 0:
                rec.check(g.m == 0, lab + ' is empty')
                continue
        else:
            ok, g = rec.attempt(lab, lambda: f[a:b:s])
            if not ok:
                continue
        same(rec, lab, g, want, dom, t)
    # rebuilding
    if t == 'cheb':
        w = f.flatten()
        rec.close(w, np.ravel(c, order='F'), 0, 'flatten stores one column after the other')
        ok, g = rec.attempt('from_coeffs', lambda: F.Fun.from_coeffs(w, m, domain=np.array(dom)))
        if ok:
            same(rec, 'from_coeffs(flatten)', g, V, dom, t)
            rec.check(bool(g == f), 'from_coeffs(flatten) equals')
        rec.close(w, np.ravel(c, order='F'), 0, 'flattened vector unchanged')
    else:
        w = f.flatten()
        rec.close(w, np.ravel(c, order='F'), 0, 'flatten stores one column after the other')
        ok, g = rec.attempt('from_coeffs', lambda: F.Fun.from_coeffs(w, m, type='trig', domain=np.array(dom)))
        if ok:
            same(rec, 'from_coeffs(flatten)', g, V, dom, t)
    tt = 'cheb' if t == 'cheb' else 'trig'
    for lab, vv in (('from_values', f.values.copy(order='F')), ('from_values of a vector', f.values.flatten(order='F'))):
        ok, g = rec.attempt(lab, lambda: F.Fun.from_values(vv, m, type=tt, domain=np.array(dom)))
        if ok:
            same(rec, lab, g, V, dom, t)
    if m > 1:
        rec.rejects('from_coeffs with columns that do not fit', lambda: F.Fun.from_coeffs(np.ones(n * m + 1), m, domain=np.array(dom)))
    # operations act on every column by itself
    ops = {'neg': lambda g: -g, '3f': lambda g: 3 * g, 'f+2': lambda g: g + 2, 'f*f': lambda g: g * g, 'f-f/2': lambda g: g - 0.5 * g, 'diff': np.diff,
           'real': np.real, 'imag': np.imag, 'conj': np.conj, 'copy': np.copy, 'diff2': lambda g: np.diff(g, n=2)}
    if t == 'cheb':
        ops['cumsum'] = np.cumsum
        ops['exp'] = np.exp
    for k, op in ops.items():
        ok, g = rec.attempt(k, lambda: op(f))
        if not ok:
            continue
        ok, w = rec.attempt(k + ' evaluation', lambda: np.reshape(g(x), (ZS.size, m)))
        if not ok:
            continue
        for i in range(m):
            ok, gi = rec.attempt('%s of column %d' % (k, i), lambda: np.ravel(op(f[i])(x)))
            if ok:
                rec.close(w[:, i], gi, 1e-10 * (1 + np.max(np.abs(w))), '%s acts on column %d by itself' % (k, i))
    s = np.ravel(np.sum(f))
    for i in range(m):
        rec.close(np.ravel(np.sum(f[i])), s[i:i + 1], 1e-13 * (1 + np.max(np.abs(c))) * n, 'integral of column %d' % i)
    # constants per column
    k = np.array([2.0, -3.0, 0.5, 7.0, 1e-3])[:m]
    for lab, fn, want in (('f*k', lambda: f * k[None, :], V * k), ('k*f', lambda: k[None, :] * f, V * k), ('f/k', lambda: f / k, V / k), ('f+k', lambda: f + k, V + k),
                          ('k+f', lambda: k + f, V + k), ('f-k', lambda: f - k, V - k), ('k-f', lambda: k - f, k - V)):
        rec.state(lab)
        ok, g = rec.attempt(lab, fn)
        if ok:
            same(rec, lab, g, want, dom, t)
    # a selected column is not a view
    for lab, sel in (('f[0]', lambda: f[0]), ('f[0:1]', lambda: f[0:1]), ('hstack', lambda: np.hstack((f, f))), ('next', lambda: next(iter(f)))):
        ok, g = rec.attempt(lab, sel)
        if ok:
            g.coeffs[:] = 17.0
            g.values[:] = 17.0
            rec.check(np.array_equal(f.coeffs, coef0) and np.array_equal(f.values, vals0), lab + ' does not share storage')
    if t == 'cheb':
        for lab, fn, want in (('fliplr', lambda: F.Fun(onefun=f.onefun.fliplr(), domain=f.domain), V[:, ::-1]),
                              ('flipud', lambda: F.Fun(onefun=f.onefun.flipud(), domain=f.domain), cheb_eval(c, -ZS))):
            ok, g = rec.attempt(lab, fn)
            if ok:
                same(rec, lab, g, want, dom, t)
    rec.check(np.array_equal(f.coeffs, coef0) and np.array_equal(f.values, vals0), 'function unchanged')


def t_iter(case, rec):
    """every interleaving of two iterators over one function, and of an iterator with restarts"""
    t, m = case['t'], case['m']
    c = coeffs(t, 5, m)
    dom = DOMS[1]
    V = ev(t, c, np.array([0.25, -0.5]))
    X = to_dom(np.array([0.25, -0.5]), dom)
    f = fun(t, c, dom)
    h = fun(t, coeffs(t, 4, m, 2), dom)

    def key(g):
        return np.reshape(g(X), (2, 1))

    ok, got = rec.attempt('list', lambda: [key(g) for g in f])
    if ok and rec.check(len(got) == m, 'number of columns iterated', got=len(got)):
        rec.close(np.hstack(got), V, 1e-13, 'columns in order')
    for word in itertools.product((0, 1, 2, 3), repeat=min(2 * m, 5)):
        # 0, 1: advance that iterator; 2, 3: restart iterator word - 2
        its, pos = [iter(f), iter(f)], [0, 0]
        rec.state(word)
        for w in word:
            rec.step()
            if w > 1:
                its[w - 2], pos[w - 2] = iter(f), 0
                continue
            try:
                g = key(next(its[w]))
            except StopIteration:
                g = None
            except Exception as e:
                rec.fail('iterators %s raised %s' % (word, type(e).__name__))
                break
            if pos[w] >= m:
                good = g is None
            else:
                good = g is not None and np.allclose(g, V[:, pos[w]:pos[w] + 1], atol=1e-12)
                pos[w] += 1
            if not rec.check(good, 'two iterators over one function are independent', got=str(word)):
                break
    n2 = 0
    ok, n2 = rec.attempt('nested', lambda: sum(1 for a in f for b in f))
    if ok:
        rec.check(n2 == m * m, 'nested loops over one function visit every pair', got=n2)
    ok, pairs = rec.attempt('zip', lambda: [(key(a), key(b)) for a, b in zip(f, f)])
    if ok and rec.check(len(pairs) == m, 'zip of a function with itself', got=len(pairs)):
        for i, (a, b) in enumerate(pairs):
            rec.close(np.hstack((a, b)), V[:, [i, i]], 1e-13, 'zip of a function with itself')
    ok, pairs = rec.attempt('zip of two', lambda: [(key(a), key(b)) for a, b in zip(f, h)])
    if ok:
        rec.check(len(pairs) == m, 'zip of two functions', got=len(pairs))
    for stop in range(m):
        for i, g in enumerate(f):
            if i == stop:
                break
        ok, k = rec.attempt('loop after a break', lambda: len(list(f)))
        if ok:
            rec.check(k == m, 'a loop starts at the first column', got=k)
    ok, k = rec.attempt('list of the technology', lambda: [g for g in f.onefun])
    if ok:
        rec.check(len(k) == m, 'number of columns of the technology', got=len(k))
    rec.check(sum(1 for _ in (f * 2)) == m, 'iterating a temporary')


def t_stack(case, rec):
    t = case['t']
    for n in range(1, case['N'] + 1):
        c = coeffs(t, n, 3)
        dom = DOMS[n % 3]
        f = fun(t, c, dom)
        V = ev(t, c, ZS)
        for m in (1, 2, 3, 4):
            for word in itertools.product(range(3), repeat=m):
                lab = 'n%d stack %s' % (n, word)
                rec.state(lab)
                for mk in ((tuple,) if m > 2 else (tuple, list)):
                    ok, g = rec.attempt(lab, lambda: np.hstack(mk([f[i] for i in word])))
                    if ok:
                        same(rec, lab, g, V[:, word], dom, t)
        ok, g = rec.attempt('n%d rebuild' % n, lambda: np.hstack([q for q in f]))
        if ok:
            same(rec, 'n%d rebuild' % n, g, V, dom, t)
        # different lengths, several columns each
        for p in range(1, case['N'] + 1):
            for m1, m2 in ((1, 1), (2, 1), (1, 2), (3, 2)):
                c1, c2 = coeffs(t, n, m1), coeffs(t, p, m2, 2)
                f1, f2 = fun(t, c1, dom), fun(t, c2, dom)
                lab = 'stack n%d x%d with n%d x%d' % (n, m1, p, m2)
                rec.state(lab)
                ok, g = rec.attempt(lab, lambda: np.hstack((f1, f2)))
                if ok:
                    same(rec, lab, g, np.hstack((ev(t, c1, ZS), ev(t, c2, ZS))), dom, t)
                    for i in range(m1 + m2):
                        ok, gi = rec.attempt(lab, lambda: np.ravel(g[i](to_dom(ZS, dom))))
                        if ok:
                            rec.close(gi, ev(t, c1, ZS)[:, i] if i < m1 else ev(t, c2, ZS)[:, i - m1], 1e-12, lab + ' column %d' % i)
                rec.check(np.array_equal(f1.coeffs, c1) and np.array_equal(f2.coeffs, c2), lab + ' operands unchanged')
    if t != 'cheb':
        a, b = fun('cheb', coeffs('cheb', 4, 1), DOMS[1]), fun(t, coeffs(t, 4, 1), DOMS[1])
        for lab, w in (('cheb/trig', (a, b)), ('trig/cheb', (b, a))):
            rec.rejects('stacking %s' % lab, lambda: np.hstack(w))
