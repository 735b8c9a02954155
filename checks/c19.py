"""C19: editing rows and columns of sparse matrices matches editing the dense array."""
import itertools
import numpy as np
import scipy.sparse as sps

ID = 'C19'
LEVEL = 'model_checking'
TECHNIQUE = 'exhaustive enumeration of every sparsity pattern up to 3x3 (4x3 thorough) x every edit, and breadth-first exploration of all chains of edits up to the depth bound on the real code, in lock-step with the dense array'
RULE = 'every support of every shape up to the bound x storage class x every edit with every argument; all chains of edits to the depth bound from every support; every assignment of {absent, stored zero, tiny, regular} to the entries for eliminating. Non-trivial: the pattern is neither empty nor full'
ASSUMPTIONS = ['no duplicate entries in the stored matrix', 'an index that does not exist may be refused or behave as in numpy, but must not corrupt the matrix']


def shapes(tier):
    s = [(1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 1), (2, 3), (3, 2), (3, 3)]
    return s + [(4, 3), (3, 4), (1, 5), (5, 1), (2, 4), (4, 2)] if tier != 'quick' else s


def build(cls, shape, mask):
    D = np.zeros(shape)
    k = 0
    for i in range(shape[0]):
        for j in range(shape[1]):
            if mask >> k & 1:
                D[i, j] = 1 + 10 * i + j + 0.5
            k += 1
    return D, getattr(sps, cls)(D)


def cases(tier):
    for sh in shapes(tier):
        bits = sh[0] * sh[1]
        step = 64
        for lo in range(0, 2**bits, step):
            yield dict(id='single.%dx%d.%d' % (sh + (lo,)), kind='single', shape=sh, lo=lo, hi=min(2**bits, lo + step))
    cs = [(2, 2), (3, 2), (2, 3), (3, 3)] if tier == 'quick' else [(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (2, 4)]
    for sh in cs:
        bits = sh[0] * sh[1]
        for lo in range(0, 2**bits, 32):
            yield dict(id='chain.%dx%d.%d' % (sh + (lo,)), kind='chain', shape=sh, lo=lo, hi=min(2**bits, lo + 32), depth=2 if tier == 'quick' and bits > 6 else 3)
    for sh in [(1, 1), (2, 2), (1, 4), (4, 1), (2, 3), (3, 2)] + ([(3, 3)] if tier != 'quick' else []):
        tot = 4**(sh[0] * sh[1])
        for lo in range(0, tot, 1024):
            yield dict(id='tiny.%dx%d.%d' % (sh + (lo,)), kind='tiny', shape=sh, lo=lo, hi=min(tot, lo + 1024))
    yield dict(id='append', kind='append', big=tier != 'quick')
    yield dict(id='bc', kind='bc', N=7 if tier == 'quick' else 14)
    yield dict(id='blocks', kind='blocks')


def valid(rec, lab, m, D):
    if not rec.check(sps.issparse(m) and m.shape == D.shape, lab + ' shape', got=str(getattr(m, 'shape', m)), want=D.shape):
        return
    try:
        m.check_format(full_check=True)
        ok = m.nnz == len(m.data) == len(m.indices)
    except Exception as e:
        rec.fail(lab + ' structurally valid', exc=repr(e))
        return
    rec.check(ok, lab + ' structurally valid', nnz=m.nnz, data=len(m.data), indices=len(m.indices))
    rec.close(m.toarray().ravel(), D.ravel(), 0, lab)


def subsets(n):
    for r in range(n + 1):
        yield from itertools.combinations(range(n), r)


def single(rec, case):
    from funpy.colloc.sparse import csr, csc
    from funpy.colloc.ultraS import matrices as M
    sh = case['shape']
    for mask in range(case['lo'], case['hi']):
        for form, kinds in (('csr', ('csr_matrix', 'csr_array')), ('csc', ('csc_matrix', 'csc_array'))):
            for cls in kinds:
                D, A0 = build(cls, sh, mask)
                tag = '%s %s ' % (cls, bin(mask))
                rec.state(sh, mask, cls)
                if form == 'csr':
                    for i in range(-sh[0], sh[0] + 1):
                        A = A0.copy()
                        out = i < 0 or i >= sh[0]
                        lab = tag + 'delete_row_csr(%d)' % i
                        if out:
                            refused(rec, lab, A, D, lambda: csr.delete_row_csr(A, i), lambda: np.delete(D, i, 0))
                        else:
                            ok, _ = rec.attempt(lab, lambda: csr.delete_row_csr(A, i))
                            if ok:
                                valid(rec, lab, A, np.delete(D, i, 0))
                    for s in subsets(sh[0]):
                        for arg in (list(s), np.array(s, dtype=int), tuple(reversed(s))):
                            A = A0.copy()
                            lab = tag + 'delete_rows_csr(%r)' % (arg,)
                            ok, r = rec.attempt(lab, lambda: csr.delete_rows_csr(A, arg))
                            if ok:
                                valid(rec, lab, r, np.delete(D, list(s), 0))
                        if s:
                            dup = list(s) + [s[0]]
                            ok, r = rec.attempt(tag + 'delete_rows_csr(%r)' % dup, lambda: csr.delete_rows_csr(A0.copy(), dup))
                            if ok:
                                valid(rec, tag + 'delete_rows_csr(%r)' % dup, r, np.delete(D, dup, 0))
                        A = A0.copy()
                        ok, r = rec.attempt(tag + 'delete_rows(%r)' % (s,), lambda: M.delete_rows(A, list(s)))
                        if ok:
                            valid(rec, tag + 'delete_rows(%r)' % (s,), r, np.delete(D, list(s), 0))
                            valid(rec, tag + 'delete_rows(%r) argument unchanged' % (s,), A, D)
                    for p in itertools.permutations(range(sh[0])):
                        for arg in (list(p), np.array(p)):
                            A = A0.copy()
                            lab = tag + 'flip_rows(%r)' % (arg,)
                            ok, r = rec.attempt(lab, lambda: csr.flip_rows(A, arg))
                            if ok:
                                valid(rec, lab, r, D[list(p)])
                                valid(rec, lab + ' argument unchanged', A, D)
                    # a matrix that shares its arrays with another one
                    for i in range(sh[0]):
                        A = A0.copy()
                        B = A.T
                        ok, _ = rec.attempt(tag + 'shared', lambda: csr.delete_row_csr(A, i))
                        if ok:
                            valid(rec, tag + 'transpose of a matrix after delete_row_csr(%d)' % i, B, D.T)
                else:
                    for j in range(-sh[1], sh[1] + 1):
                        A = A0.copy()
                        lab = tag + 'delete_col_csc(%d)' % j
                        if j < 0 or j >= sh[1]:
                            refused(rec, lab, A, D, lambda: csc.delete_col_csc(A, j), lambda: np.delete(D, j, 1))
                        else:
                            ok, _ = rec.attempt(lab, lambda: csc.delete_col_csc(A, j))
                            if ok:
                                valid(rec, lab, A, np.delete(D, j, 1))
                            ok, r = rec.attempt(tag + 'delete_cols_csc(%d)' % j, lambda: csc.delete_cols_csc(A0.copy(), j))
                            if ok:
                                valid(rec, tag + 'delete_cols_csc(%d)' % j, r, np.delete(D, j, 1))
                    for s in subsets(sh[1]):
                        for arg in (list(s), np.array(s, dtype=int), list(reversed(s))):
                            lab = tag + 'delete_cols_csc(%r)' % (arg,)
                            ok, r = rec.attempt(lab, lambda: csc.delete_cols_csc(A0.copy(), arg))
                            if ok:
                                valid(rec, lab, r, np.delete(D, list(s), 1))
                        if s:
                            dup = list(s) + [s[0]]
                            ok, r = rec.attempt(tag + 'delete_cols_csc(%r)' % dup, lambda: csc.delete_cols_csc(A0.copy(), dup))
                            if ok:
                                valid(rec, tag + 'delete_cols_csc(%r)' % dup, r, np.delete(D, dup, 1))
                        A = A0.copy()
                        ok, r = rec.attempt(tag + 'delete_cols(%r)' % (s,), lambda: M.delete_cols(A, list(s)))
                        if ok:
                            valid(rec, tag + 'delete_cols(%r)' % (s,), r, np.delete(D, list(s), 1))
                            valid(rec, tag + 'delete_cols(%r) argument unchanged' % (s,), A, D)
                    for p in itertools.permutations(range(sh[1])):
                        A = A0.copy()
                        lab = tag + 'flip_cols(%r)' % (p,)
                        ok, r = rec.attempt(lab, lambda: csc.flip_cols(A, list(p)))
                        if ok:
                            valid(rec, lab, r, D[:, list(p)])
                            valid(rec, lab + ' argument unchanged', A, D)
                # the wrong storage format is refused, not misread
                for f, own in ((lambda A: csr.delete_row_csr(A, 0), 'csr'), (lambda A: csr.delete_rows_csr(A, [0]), 'csr'),
                               (lambda A: csc.delete_col_csc(A, 0), 'csc'), (lambda A: csc.delete_cols_csc(A, [0]), 'csc')):
                    if own != form:
                        rec.rejects(tag + 'wrong storage format is refused', f, A0.copy())
        for i in subsets(sh[0]):
            rec.close(np.shape(M.delete_rows(D, list(i))), np.delete(D, list(i), 0).shape, 0, 'dense delete_rows shape')
        D0 = D.copy()
        for j in subsets(sh[1]):
            rec.close(M.delete_cols(D, list(j)).ravel(), np.delete(D, list(j), 1).ravel(), 0, 'dense delete_cols')
        rec.check(np.array_equal(D, D0), 'dense unchanged')


def refused(rec, lab, A, D, f, ref):
    """either an exception with the matrix intact, or numpy's answer."""
    try:
        want = ref()
    except Exception:
        want = None
    rec.step()
    try:
        f()
    except Exception:
        return valid(rec, lab + ' refused, matrix intact', A, D)
    if want is None:
        rec.fail(lab + ' accepted an index that does not exist')
    else:
        valid(rec, lab, A, want)


def edits(D):
    """(name, sparse transformer, dense transformer)."""
    from funpy.colloc.sparse import csr, csc

    def row(i):
        def f(A):
            A = A.tocsr(copy=True)
            csr.delete_row_csr(A, i)
            return A
        return f

    def col(i):
        def f(A):
            A = A.tocsc(copy=True)
            csc.delete_col_csc(A, i)
            return A
        return f
    r, c = D.shape
    for i in range(r):
        yield 'row%d' % i, row(i), (lambda D, i=i: np.delete(D, i, 0))
    for i in range(c):
        yield 'col%d' % i, col(i), (lambda D, i=i: np.delete(D, i, 1))
    if r > 1:
        s = [0, r - 1]
        yield 'rows%r' % s, (lambda A: csr.delete_rows_csr(A.tocsr(), s)), (lambda D: np.delete(D, s, 0))
        p = list(range(1, r)) + [0]
        yield 'fliprows', (lambda A: csr.flip_rows(A.tocsr(), p)), (lambda D: D[p])
    if c > 1:
        t = [0, c - 1]
        yield 'cols%r' % t, (lambda A: csc.delete_cols_csc(A.tocsc(copy=True), t)), (lambda D: np.delete(D, t, 1))
        q = list(range(1, c)) + [0]
        yield 'flipcols', (lambda A: csc.flip_cols(A.tocsc(), q)), (lambda D: D[:, q])
    if r and c:
        yield 'append', (lambda A: csr.csr_vappend(A.tocsr(copy=True), A.tocsr()[:1])), (lambda D: np.vstack((D, D[:1])))

        def setz(A):
            A = A.tocsr(copy=True)
            if A.nnz:
                A.data[-1] = 1e-20
            return csr.eliminate_zeros(A)

        def dz(D):
            D = D.copy()
            nz = np.argwhere(D != 0)
            if len(nz):
                # the last stored entry of the last non-empty row
                D[tuple(nz[-1])] = 0
            return D
        yield 'drop', (lambda A: setz(sps.csr_array(A.toarray()))), dz


def chain(rec, case):
    for mask in range(case['lo'], case['hi']):
        for cls in ('csr_matrix', 'csr_array'):
            D, A = build(cls, case['shape'], mask)
            layer = {(): (D, A)}
            for d in range(case['depth']):
                nxt = {}
                for path, (D, A) in layer.items():
                    rec.state(D.tobytes(), D.shape, cls)
                    for name, fs, fd in edits(D):
                        lab = cls + ' ' + bin(mask) + ' ' + '.'.join(path + (name,))
                        want = fd(D)
                        ok, r = rec.attempt(lab, lambda: fs(A))
                        if not ok:
                            continue
                        valid(rec, lab, r, want)
                        if r.shape == want.shape and min(want.shape):
                            nxt[path + (name,)] = (want, r)
                layer = nxt


VALS = {0: None, 1: 0.0, 2: 1e-17, 3: -2.5}


def tiny(rec, case):
    from funpy.colloc.sparse import csr, csc
    sh = case['shape']
    n = sh[0] * sh[1]
    for w in range(case['lo'], case['hi']):
        k = [VALS[w // 4**i % 4] for i in range(n)]
        rr, cc, vv = [], [], []
        for i, v in enumerate(k):
            if v is not None:
                rr.append(i // sh[1]); cc.append(i % sh[1]); vv.append(v)
        D = np.array([0.0 if v is None else v for v in k]).reshape(sh)
        coo = sps.coo_matrix((vv, (rr, cc)), shape=sh)
        rec.state(sh, w)
        for name, f, form in (('eliminate_zeros csr', csr.eliminate_zeros, 'csr'), ('eliminate_zeros csc', csr.eliminate_zeros, 'csc'),
                              ('eliminate_zeros_csc', csc.eliminate_zeros_csc, 'csc')):
            for arr in (False, True):
                for eps in (None, 1e-18, 3.0):
                    A = coo.asformat(form)
                    if arr:
                        A = sps.csr_array(A) if form == 'csr' else sps.csc_array(A)
                    lab = '%s%s eps=%s %s' % (name, ' array' if arr else '', eps, w)
                    ok, r = rec.attempt(lab, lambda: f(A, eps))
                    if ok:
                        want = np.where(np.abs(D) < (np.finfo(float).eps if eps is None else eps), 0.0, D)
                        valid(rec, lab, r, want)
                        if r.shape == sh:
                            rec.check(r.nnz == np.count_nonzero(want), lab + ' no zeros are stored', nnz=r.nnz)


def run(case, rec):
    from funpy.colloc.sparse import csr
    k = case['kind']
    if k in ('single', 'chain', 'tiny'):
        return globals()[k](rec, case)
    if k == 'append':
        for c in (1, 2, 3):
            for ra, rb in itertools.product((1, 2), (1, 2)):
                for ma, mb in itertools.product(range(2**(ra * c)), range(2**(rb * c))):
                    if not case['big'] and ra * c + rb * c > 8 and (ma * 7 + mb) % 5:
                        continue
                    for cls in ('csr_matrix', 'csr_array'):
                        Da, A = build(cls, (ra, c), ma)
                        Db, B = build(cls, (rb, c), mb)
                        Db, B = -Db, -B
                        lab = '%s append %d %d %d %s %s' % (cls, c, ra, rb, bin(ma), bin(mb))
                        rec.state(lab)
                        ok, r = rec.attempt(lab, lambda: csr.csr_vappend(A, B))
                        if ok:
                            valid(rec, lab, r, np.vstack((Da, Db)))
                            valid(rec, lab + ' second matrix unchanged', B, Db)
    elif k == 'bc':
        from funpy.colloc.tools import remove_bc, replace_bc, get_bc
        for n in range(1, case['N'] + 1):
            for q in (1, 2, 3):
                for bw in range(0, n + 1):
                    v = np.arange(1.0, n * q + 1)
                    V = v.reshape((n, q), order='F')
                    rec.state(n, q, bw)
                    ok, r = rec.attempt('remove_bc', lambda: remove_bc(v, q, bw=bw))
                    if ok:
                        rec.close(r, V[bw:], 0, 'remove_bc n=%d q=%d bw=%d' % (n, q, bw))
                    ok, r = rec.attempt('get_bc', lambda: get_bc(v, q, bw=bw))
                    if ok:
                        rec.close(r, V[:bw].flatten(order='F'), 0, 'get_bc n=%d q=%d bw=%d' % (n, q, bw))
                    for rs in (False, True):
                        ok, r = rec.attempt('replace_bc', lambda: replace_bc(v, q, bw=bw, reshape=rs))
                        W = np.vstack((V[bw:], np.zeros((bw, q))))
                        if ok:
                            rec.close(r, W if rs else W.flatten(order='F'), 0, 'replace_bc n=%d q=%d bw=%d' % (n, q, bw))
                    rec.check(np.array_equal(v, np.arange(1.0, n * q + 1)), 'input unchanged')
    elif k == 'blocks':
        from funpy.colloc.ultraS.matrices import blockmat
        for r, c in itertools.product((1, 2, 3), repeat=2):
            for fmt in ('csr', 'csc'):
                for hs, ws in itertools.product(itertools.product((1, 2, 3), repeat=r), itertools.product((2, 3), repeat=c)):
                    B = np.empty((r, c), dtype=object)
                    Dn = []
                    for i in range(r):
                        row = []
                        for j in range(c):
                            D = np.arange(1.0, hs[i] * ws[j] + 1).reshape(hs[i], ws[j]) * (i + 2 * j + 1) - 4
                            row.append(D)
                            B[i, j] = sps.csr_matrix(D)
                        Dn.append(row)
                    lab = 'blockmat %r %r %s' % (hs, ws, fmt)
                    rec.state(lab)
                    ok, R = rec.attempt(lab, lambda: blockmat(B, format=fmt))
                    if ok:
                        valid(rec, lab, R, np.block(Dn))
                    if c == 1:
                        V = np.empty((r, 1), dtype=object)
                        for i in range(r):
                            V[i, 0] = np.arange(1.0, hs[i] + 1)[:, None] * (i + 1)
                        ok, R = rec.attempt('vectors', lambda: blockmat(V))
                        if ok:
                            rec.close(R, np.vstack([V[i, 0] for i in range(r)]), 0, 'blockmat of vectors %r' % (hs,))
