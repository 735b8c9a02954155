"""C14: solution states form a vector space with a consistent inner product."""
import copy
import itertools
import numpy as np

from mc.ref import ZS, to_dom, cheb_coeffs, trig_coeffs

ID = 'C14'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration: every word of vector-space operations up to a depth over a heap of two states, on the real code, against a model of value vectors, parameters, weights and namespaces; the inner product against quadrature'
RULE = ('every word of state operations up to the depth x kind of state x function kind x columns x weights x domain; every object is re-read after every word. '
        'Non-trivial: at least one operation on functions with more than one coefficient')
ASSUMPTIONS = ['real functions and parameters', 'the tangent of a Moore-Penrose state is renormalised by every operation']
KINDS = ('cont', 'two', 'twocont', 'defl', 'mp')
CONF = [(t, m, w, dom) for t in ('cheb', 'trig') for m in (1, 2) for w in (False, True) for dom in ((-1.0, 1.0), (0.0, 2.5))]
MAIN = ('cheb', 2, True, (0.0, 2.5))
GX, GW = np.polynomial.legendre.leggauss(24)
TX, TW = -1 + 2 * np.arange(48) / 48.0, np.full(48, 2 / 48.0)


def cases(tier):
    for kind in KINDS:
        for c in CONF:
            deep = (tier == 'thorough') + (c == MAIN)
            for first in range(len(OPS)):
                yield dict(id='%s.%s.%d.%d.%g.%s' % (kind, c[0], c[1], c[2], c[3][0], OPS[first][0]), kind=kind, conf=list(c), first=first, depth=2 + deep)
        for t in ('cheb', 'trig'):
            yield dict(id='%s.%s.inner' % (kind, t), kind=kind, inner=t)
            yield dict(id='%s.%s.misc' % (kind, t), kind=kind, misc=t)


# name, real(x, y) -> new x or None, model(x, y), in place
def _ops():
    O = []

    def op(name, real, fun, place=False):
        O.append((name, real, fun, place))

    op('x+y', lambda x, y: x + y, lambda a, b: a + b)
    op('x-y', lambda x, y: x - y, lambda a, b: a - b)
    op('y-x', lambda x, y: y - x, lambda a, b: b - a)
    op('x+x', lambda x, y: x + x, lambda a, b: 2 * a)
    op('x-x', lambda x, y: x - x, lambda a, b: 0 * a)
    op('2*x', lambda x, y: 2 * x, lambda a, b: 2 * a)
    op('x*-0.5', lambda x, y: x * -0.5, lambda a, b: -0.5 * a)
    op('np*x', lambda x, y: np.float64(1.5) * x, lambda a, b: 1.5 * a)
    op('x*0', lambda x, y: x * 0, lambda a, b: 0 * a)
    op('x/4', lambda x, y: x / 4, lambda a, b: a / 4)
    op('-x', lambda x, y: -x, lambda a, b: -a)
    op('+x', lambda x, y: +x, lambda a, b: a)
    op('x+3*y', lambda x, y: x + 3.0 * y, lambda a, b: a + 3 * b)
    op('zeros', lambda x, y: np.zeros_like(x), lambda a, b: 0 * a)
    op('ones', lambda x, y: np.ones_like(x), lambda a, b: 0 * a + 1)
    op('real', lambda x, y: np.real(x), lambda a, b: a)
    op('imag', lambda x, y: np.imag(x), lambda a, b: 0 * a)
    op('conj', lambda x, y: np.conj(x), lambda a, b: a)
    op('deepcopy', lambda x, y: copy.deepcopy(x), lambda a, b: a)

    def iop(name, fn, model):
        def real(x, y):
            r = fn(x, y)
            return r
        op(name, real, model, True)

    def iadd(x, y):
        x += y
        return x

    def isub(x, y):
        x -= y
        return x

    def imul(x, y):
        x *= 2.0
        return x

    def idiv(x, y):
        x /= 4.0
        return x

    def iaddx(x, y):
        x += x
        return x

    iop('x+=y', iadd, lambda a, b: a + b)
    iop('x-=y', isub, lambda a, b: a - b)
    iop('x*=2', imul, lambda a, b: 2 * a)
    iop('x/=4', idiv, lambda a, b: a / 4)
    iop('x+=x', iaddx, lambda a, b: 2 * a)
    iop('flip', lambda x, y: x.flip(), lambda a, b: -a)
    return O


OPS = _ops()


def nfun(kind):
    return 2 if kind == 'two' else 1


def nreal(kind):
    return {'cont': 1, 'two': 2, 'twocont': 2, 'defl': 0, 'mp': 1}[kind]


def fun(t, n, m, dom, seed):
    from funpy.fun import Fun
    if t == 'cheb':
        return Fun(coeffs=np.asfortranarray(cheb_coeffs('dense', n, m, seed)), domain=np.array(dom), simplify=False)
    return Fun(coeffs=np.asfortranarray(trig_coeffs('dense', n, m, seed, real=True)), domain=np.array(dom), type='trig', simplify=False)


def build(kind, conf, which):
    from funpy.vectorspaces import ContinuationState, TwoParameterState, TwoParContState, DeflationState, MoorePenroseState, Parameter, Namespace
    t, m, w, dom = conf
    n = (4, 7)[which] if t == 'cheb' else (5, 8)[which]
    v = (1.25, -3.0)[which]
    u = fun(t, n, m, dom, which)
    kw = {}
    if w:
        kw['weights'] = np.array([0.5, 2.0, 3.0, 5.0][:nfun(kind) + nreal(kind)])
    ns = Namespace(c=Parameter(c=7.5))
    if kind == 'cont':
        return ContinuationState(a=Parameter(a=v), u=u, ns=ns, **kw)
    if kind == 'two':
        return TwoParameterState(p1=Parameter(a=v), p2=Parameter(b=2 * v + 1), u=u, phi=fun(t, n, m, dom, which + 3), ns=ns, **kw)
    if kind == 'twocont':
        return TwoParContState(p1=Parameter(a=v), p2=Parameter(b=2 * v + 1), u=u, ns=ns, **kw)
    if kind == 'defl':
        return DeflationState(u=u, ns=ns, **kw)
    kw2 = dict(kw)
    return MoorePenroseState(ContinuationState(a=Parameter(a=v), u=u, ns=ns, **kw),
                             ContinuationState(a=Parameter(a=0.5), u=fun(t, n, m, dom, which + 3), ns=Namespace(c=Parameter(c=7.5)), **kw2))


def read(s, conf):
    """value vector of a state: functions at quadrature nodes, then the active parameters"""
    z = GX if conf[0] == 'cheb' else TX
    x = to_dom(z, conf[3])
    return np.concatenate([np.asarray(f(x)).reshape(len(z), -1).ravel(order='F') for f in s.funcs] + [[float(r) for r in s.reals]])


def model_inner(a, b, kind, conf):
    t, m, w, dom = conf
    nf, nr = nfun(kind), nreal(kind)
    W = np.array([0.5, 2.0, 3.0, 5.0][:nf + nr]) if w else np.ones(nf + nr)
    q = (GW if t == 'cheb' else TW) * (dom[1] - dom[0]) / 2
    k = len(q) * m
    r = 0.0
    for i in range(nf):
        r += W[i] * np.sum(np.tile(q, m) * a[i * k:(i + 1) * k] * b[i * k:(i + 1) * k])
    return r + np.sum(W[nf:] * a[nf * k:] * b[nf * k:])


def describe(s, kind, conf):
    return ([r.name for r in s.reals], sorted((k, float(v)) for k, v in s.ns.items()), [float(x) for x in s.weights], type(s).__name__,
            [(f.type, f.m, [float(x) for x in f.domain]) for f in s.funcs])


def run(case, rec):
    rec.state(case['id'])
    if 'inner' in case:
        return t_inner(case, rec)
    if 'misc' in case:
        return t_misc(case, rec)
    conf = tuple(case['conf'])
    conf = conf[:3] + (tuple(conf[3]),)
    for d in range(case['depth']):
        for tail in itertools.product(range(len(OPS)), repeat=d):
            word(rec, case['kind'], conf, (case['first'],) + tail)


def word(rec, kind, conf, w):
    x, y = build(kind, conf, 0), build(kind, conf, 1)
    mp = kind == 'mp'
    ref = describe(x, kind, conf)
    vx, vy = read(x, conf), read(y, conf)
    if mp:
        tx, ty = read(x.v, conf), read(y.v, conf)
    lab = '%s %s: %s' % (kind, conf, '; '.join(OPS[i][0] for i in w))
    for k, i in enumerate(w):
        name, real, model, place = OPS[i]
        if mp and name == 'flip':
            return                           # flipping is delegated to the state
        old, vold = x, vx
        rec.step()
        try:
            x = real(x, y)
        except Exception as e:
            if k == len(w) - 1:
                rec.fail('%s raised %r' % (lab, e))
            return
        vx = model(vx, vy)
        if mp:
            tz = ty
            if name == 'x+3*y':              # two operations, each renormalises the tangent
                tz = ty / (3 * np.sqrt(model_inner(ty, ty, 'cont', conf)))
            tx = model(tx, tz)
            if name not in ('zeros', 'ones', 'real', 'imag', 'deepcopy'):
                nrm = np.sqrt(model_inner(tx, tx, 'cont', conf))
                if nrm < 1e-10:
                    return                   # no direction left
                tx = tx / nrm
    scale = max(1.0, np.max(np.abs(vx)), np.max(np.abs(vold)))
    rec.state(kind, conf, tuple(np.round(vx[:: 7], 9)))
    if place:
        rec.check(x is old, lab + ' works in place')
    else:
        if rec.check(x is not old and x is not y, lab + ' gives a new state'):
            rec.close(read(old, conf), vold, 1e-13 * scale, lab + ' leaves its operand')
            rec.check(describe(old, kind, conf) == ref, lab + ' leaves the parameters of its operand', got=describe(old, kind, conf), want=ref)
    rec.close(read(x, conf), vx, 1e-13 * scale * len(w), lab)
    rec.check(describe(x, kind, conf) == ref, lab + ' keeps names, namespace, weights, kind', got=describe(x, kind, conf), want=ref)
    rec.close(read(y, conf), vy, 1e-13, lab + ' leaves the other state')
    rec.check(describe(y, kind, conf) == ref, lab + ' leaves the parameters of the other state')
    if mp and not (x.v is None):
        rec.close(read(x.v, conf), tx, 1e-12 * max(1.0, np.max(np.abs(tx))), lab + ' tangent')
        rec.close(read(y.v, conf), ty, 1e-12, lab + ' leaves the tangent of the other state')
    I = model_inner(vx, vy, kind, conf)
    ok, r = rec.attempt(lab + ' inner', lambda: float(np.real(np.inner(x, y))))
    if ok:
        rec.close(r, I, 1e-12 * max(1.0, scale * np.max(np.abs(vy)) * 50), lab + ' inner')


def t_inner(case, rec):
    from funpy.vectorspaces import innerw
    from funpy.fun import innerw as finnerw
    kind = case['kind']
    for conf in CONF:
        if conf[0] != case['inner']:
            continue
        x, y = build(kind, conf, 0), build(kind, conf, 1)
        vx, vy = read(x, conf), read(y, conf)
        lab = '%s %s ' % (kind, conf)
        W = [float(v) for v in x.weights]
        nf = len(x.funcs)
        items = [('x', x, vx), ('y', y, vy), ('x+2y', x + 2.0 * y, vx + 2 * vy), ('0', np.zeros_like(x), 0 * vx), ('-x', -x, -vx)]
        for (na, a, va), (nb, b, vb) in itertools.product(items, items):
            rec.state(kind, conf, na, nb)
            I = model_inner(va, vb, kind, conf)
            h = max(1.0, np.sqrt(model_inner(va, va, kind, conf) * model_inner(vb, vb, kind, conf)))
            ok, r = rec.attempt(lab + 'inner', lambda: np.inner(a, b))
            if ok:
                rec.check(np.size(r) == 1, lab + 'inner(%s,%s) is a number' % (na, nb))
                rec.close(np.real(r), I, 1e-13 * h, lab + 'inner(%s,%s)' % (na, nb))
            ok, r = rec.attempt(lab + 'dot', lambda: np.dot(a, b))
            if ok:
                rec.check(np.size(r) == 1, lab + 'dot(%s,%s) is a number' % (na, nb))
                rec.close(np.real(r), I, 1e-13 * h, lab + 'dot(%s,%s)' % (na, nb))
            ok, r = rec.attempt(lab + 'weighted inner product', lambda: innerw(a, b))
            if ok:
                if conf[0] == 'cheb':
                    w = sum(W[i] * np.sum(finnerw(a.funcs[i], b.funcs[i])) for i in range(nf))
                else:
                    w = sum(W[i] * np.trace(np.atleast_2d(np.inner(a.funcs[i], b.funcs[i]))) for i in range(nf))
                w += sum(W[nf + i] * float(a.reals[i]) * float(b.reals[i]) for i in range(len(a.reals)))
                rec.check(np.size(r) == 1, lab + 'weighted inner product is a number')
                rec.close(np.real(r), np.real(w), 1e-12 * max(1.0, h), lab + 'weighted inner product (%s,%s)' % (na, nb))
        for na, a, va in items:
            nrm = np.sqrt(model_inner(va, va, kind, conf))
            ok, r = rec.attempt(lab + 'norm', lambda: a.norm())
            if ok:
                rec.close(float(r), nrm, 1e-12 * max(1.0, nrm), lab + 'norm of ' + na)
        for na, a, va in items[:3]:
            b = copy.deepcopy(a)
            nrm = np.sqrt(model_inner(va, va, kind, conf))
            ok, r = rec.attempt(lab + 'normalize', lambda: b.normalize())
            if ok:
                if kind != 'mp':
                    rec.check(r is b, 'normalize works in place')
                rec.close(read(r, conf), va / nrm, 1e-12, lab + 'normalize ' + na)
                rec.close(float(r.norm()), 1.0, 1e-12, lab + 'normalized ' + na)
                rec.close(read(a, conf), va, 1e-13 * max(1, nrm), lab + 'normalize a copy')


def t_misc(case, rec):
    from funpy.vectorspaces import ContinuationState, TwoParameterState, TwoParContState, DeflationState
    kind = case['kind']
    for conf in CONF:
        if conf[0] != case['misc']:
            continue
        t, m, w, dom = conf
        for which in (0, 1):
            x = build(kind, conf, which)
            vx = read(x, conf)
            ref = describe(x, kind, conf)
            nf, nr = len(x.funcs), len(x.reals)
            lab = '%s %s %d ' % (kind, conf, which)
            rec.state(kind, conf, which)
            rec.check(kind == 'mp' or len(x) == x.u.n, lab + 'length')
            # coefficient vectors
            want = np.concatenate([np.asarray(f.coeffs).ravel(order='F') for f in x.funcs] + [[float(r) for r in x.reals]])
            ok, r = rec.attempt(lab + 'array', lambda: np.asarray(x))
            if ok:
                rec.close(r, want, 0, lab + 'array')
            want = np.concatenate([np.asarray(x.u.coeffs).ravel(order='F')] + [[float(r) for r in x.reals]])
            ok, r = rec.attempt(lab + 'flatten', lambda: x.flatten())
            if ok:
                rec.close(r, want, 0, lab + 'flatten')
                d = np.array(dom)
                back = {'cont': lambda: ContinuationState.from_coeffs(r, 'a', m, domain=d, type=t), 'defl': lambda: DeflationState.from_coeffs(r, m, domain=d, type=t),
                        'two': lambda: TwoParameterState.from_coeffs(r, 'a', 'b', m, domain=d, type=t), 'twocont': lambda: TwoParContState.from_coeffs(r, 'a', 'b', m, domain=d, type=t)}.get(kind)
                if back:
                    ok, b = rec.attempt(lab + 'from_coeffs', back)
                    if ok:
                        rb = read(b, conf)
                        if kind == 'two':        # the vector holds the function and the parameters only
                            k = (len(vx) - 2) // 2
                            rec.close(rb[k:2 * k], np.zeros(k), 0, lab + 'second function')
                            rb, v = np.delete(rb, slice(k, 2 * k)), np.delete(vx, slice(k, 2 * k))
                        else:
                            v = vx
                        rec.close(rb, v, 1e-13, lab + 'from_coeffs of flatten')
                        rec.check([p.name for p in b.reals] == ref[0], lab + 'names')
                        rec.close(b.flatten(), r, 1e-14, lab + 'flatten of from_coeffs')
                        keep = np.array(r)
                        b *= 3.0
                        rec.close(r, keep, 0, lab + 'from_coeffs copies')
                        rec.close(read(x, conf), vx, 0, lab + 'from_coeffs of flatten is independent')
            # integrals
            z = GX if t == 'cheb' else TX
            q = (GW if t == 'cheb' else TW) * (dom[1] - dom[0]) / 2
            cols = vx[:nf * m * len(z)].reshape(nf * m, len(z)) @ q
            ok, r = rec.attempt(lab + 'mass', lambda: x.mass())
            if ok:
                rec.close(np.real(np.ravel(r)), cols.reshape(nf, m).sum(axis=1), 1e-12, lab + 'mass')
            ok, r = rec.attempt(lab + 'sum', lambda: np.sum(x))
            if ok:
                rec.close(np.real(np.ravel(r)), cols[:m], 1e-12, lab + 'sum')
            # columns, nested
            xs = to_dom(ZS[:7], dom)
            want = np.concatenate([np.asarray(f(xs)).reshape(len(xs), -1) for f in x.funcs], axis=1)
            ok, r = rec.attempt(lab + 'columns', lambda: [[np.ravel(a(xs)) for a in x] for b in x])
            if ok and rec.check(len(r) == nf * m and all(len(q) == nf * m for q in r), lab + 'number of columns', got=[len(q) for q in r]):
                rec.close(np.array(r), np.array([want.T] * (nf * m)), 1e-13, lab + 'columns')
                for i in range(nf * m):
                    rec.close(np.ravel(x[i](xs)), want[:, i], 1e-13, lab + 'column')
            rec.check(x.columns == nf * m, lab + 'count of columns')
            # resolution
            for n in (12, 20):
                b = copy.deepcopy(x)
                ok, r = rec.attempt(lab + 'prolong', lambda: b.prolong(n))
                if ok:
                    rec.close(read(b, conf), vx, 1e-13, lab + 'prolong')
                    rec.check(all(f.n == n for f in b.funcs), lab + 'prolonged length', got=[f.n for f in b.funcs])
                    ok, r = rec.attempt(lab + 'happy', lambda: b.happy())
                    if ok:
                        rec.check(np.size(r[1]) == 1, lab + 'happy')
                    ok, r = rec.attempt(lab + 'simplify', lambda: b.simplify())
                    if ok:
                        rec.close(read(b, conf), vx, 1e-12, lab + 'simplify')
                        rec.check(all(f.n <= n for f in b.funcs), lab + 'simplified length')
                    rec.close(read(x, conf), vx, 0, lab + 'prolong a copy')
            # a copy is independent
            b = copy.deepcopy(x)
            b.weights[...] = 9.0
            rec.check(describe(x, kind, conf) == ref, lab + 'weights of a copy are its own')
            for f in (lambda: repr(x), lambda: str(x), lambda: x.pars):
                rec.attempt(lab + 'printing', f)
            for n in ('Sturm', 'SturmNeumann', 'Wkp', 'L2') if kind not in ('defl', ) and t == 'cheb' else ():
                ok, r = rec.attempt(lab + 'plot values', lambda: x.plot_values(norm_type=n))
                if ok and n == 'L2':
                    rec.close(r[1], np.sqrt(q @ vx[:len(z)]**2), 1e-12, lab + 'plotted norm')
                    rec.close(r[0], x.reals[0].value, 0, lab + 'plotted parameter')
            rec.close(read(x, conf), vx, 0, lab + 'reading leaves the state')
            rec.check(describe(x, kind, conf) == ref, lab + 'reading leaves the parameters')
