"""C13: copies and HDF5 files give back the same function, parameter, namespace or state."""
import copy
import itertools
import os
import tempfile
import numpy as np

from mc.ref import ZS, to_dom, cheb_coeffs, trig_coeffs

ID = 'C13'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration: every chain of deep copies, library copies and file round trips up to a depth over a catalogue of functions, parameters, namespaces and states; after every chain the copy is compared with the original, then each is changed and the other one re-read'
RULE = ('every word over {deepcopy, copy of a list holding the object twice, numpy copy, HDF5 file, second group of an HDF5 file} up to the depth x every object of the catalogue x every mutation of the copy and of the original. '
        'Non-trivial: at least one copy of a function with more than one coefficient')
ASSUMPTIONS = ['files are written and read by the same version of h5py', 'shallow copies (copy.copy) share by definition', 'Moore-Penrose states have no reader, parameters in a namespace read back as numbers']


def catalogue():
    from funpy.fun import Fun
    from funpy.vectorspaces import ContinuationState, TwoParameterState, TwoParContState, DeflationState, MoorePenroseState, Parameter, Namespace
    C = {}
    for dom in ((-1.0, 1.0), (0.0, 2.5), (-3.0, -1.0)):
        d = np.array(dom)
        for n in (1, 2, 5, 16):
            for m in (1, 3):
                c = np.asfortranarray(cheb_coeffs('dense', n, m, n))
                t = np.asfortranarray(trig_coeffs('dense', n, m, n, real=True))
                tc = np.asfortranarray(trig_coeffs('dense', n, m, n, real=False))
                for eps in (None, 1e-5):
                    kw = {} if eps is None else dict(eps=eps)
                    key = 'n%d x%d %s eps%s' % (n, m, dom, eps)
                    C['cheb ' + key] = lambda c=c, d=d, kw=kw: Fun(coeffs=c.copy(order='F'), domain=d.copy(), simplify=False, **kw)
                    C['trig ' + key] = lambda t=t, d=d, kw=kw: Fun(coeffs=t.copy(order='F'), domain=d.copy(), type='trig', simplify=False, **kw)
                    C['complex ' + key] = lambda t=tc, d=d, kw=kw: Fun(coeffs=t.copy(order='F'), domain=d.copy(), type='trig', simplify=False, **kw)
        C['exp %s' % (dom,)] = lambda d=d: Fun(op=lambda x: np.exp(np.sin(x)), domain=d.copy())
        C['two columns %s' % (dom,)] = lambda d=d: Fun(op=[lambda x: np.exp(x), lambda x: 1 + 0 * x], domain=d.copy())
        C['unhappy cheb %s' % (dom,)] = lambda d=d: Fun(op=lambda x: np.abs(x - 0.1), domain=d.copy(), maxLength=65)
        C['aliased cheb %s' % (dom,)] = lambda d=d: Fun(op=lambda x: np.cos(32 * np.arccos(np.clip((2 * x - d[0] - d[1]) / (d[1] - d[0]), -1, 1))), domain=d.copy(), maxLength=17)
        C['short limit %s' % (dom,)] = lambda d=d: Fun(op=lambda x: np.cos(40 * x), domain=d.copy(), maxLength=33)
        C['adaptive trig %s' % (dom,)] = lambda d=d: Fun(op=lambda x: np.exp(np.sin(2 * np.pi * (x - d[0]) / (d[1] - d[0]))), domain=d.copy(), type='trig')
    C['unhappy trig'] = lambda: Fun(op=lambda x: np.abs(x), type='trig')
    C['integer domain'] = lambda: Fun(op=lambda x: x**3, domain=np.array([0, 2]))
    for v in (0.0, -1.5, 3, 1e-300, np.float64(2.0) / 3, np.pi):
        C['parameter %r' % v] = lambda v=v: Parameter(mu=v)
    C['parameter ε_1'] = lambda: Parameter(**{'ε_1': 2.5})
    C['computed parameter'] = lambda: Parameter(mu=2.0) * 3 + 1
    C['namespace 0'] = lambda: Namespace()
    C['namespace 1'] = lambda: Namespace(a=Parameter(a=1.5))
    C['namespace 3'] = lambda: Namespace(b=Parameter(b=1.5), a=Parameter(a=-2.0), D_0=Parameter(D_0=1e-9))
    C['namespace of numbers'] = lambda: Namespace(a=1.0, b=-2.5)
    for t in ('cheb', 'trig'):
        for m in (1, 2):
            for dom in ((-1.0, 1.0), (0.0, 2.5)):
                for w in (False, True):
                    def mk(kind, t=t, m=m, dom=dom, w=w):
                        def f(seed, n):
                            c = cheb_coeffs('dense', n, m, seed) if t == 'cheb' else trig_coeffs('dense', n, m, seed, real=True)
                            return Fun(coeffs=np.asfortranarray(c), domain=np.array(dom), type=t, simplify=False)
                        k = {'cont': 2, 'two': 4, 'twocont': 3, 'defl': 1, 'mp': 2}[kind]
                        kw = dict(weights=np.array([0.5, 2.0, 3.0, 5.0][:k])) if w else {}
                        ns = Namespace(c=Parameter(c=7.5), d=Parameter(d=-1.0))
                        if kind == 'cont':
                            return ContinuationState(a=Parameter(a=1.25), u=f(1, 6), ns=ns, **kw)
                        if kind == 'two':
                            return TwoParameterState(p1=Parameter(a=1.25), p2=Parameter(b=2.5), u=f(1, 6), phi=f(2, 6), ns=ns, **kw)
                        if kind == 'twocont':
                            return TwoParContState(p1=Parameter(a=1.25), p2=Parameter(b=2.5), u=f(1, 6), ns=ns, **kw)
                        if kind == 'defl':
                            return DeflationState(u=f(1, 6), ns=ns, **kw)
                        return MoorePenroseState(mk('cont'), mk('cont'))
                    for kind in ('cont', 'two', 'twocont', 'defl', 'mp'):
                        C['%s state %s x%d %s %d' % (kind, t, m, dom, w)] = lambda kind=kind, mk=mk: mk(kind)
    return C


def fsnap(f):
    x = to_dom(ZS, [float(v) for v in f.domain])
    o = f.onefun
    return [('values', np.array(f(x)).reshape(len(x), -1)), ('coefficients', np.array(o.coeffs)), ('samples', np.array(o.values)), ('domain', [float(v) for v in f.domain]), ('kind', f.type), ('columns', f.m),
            ('length', len(f)), ('tolerance', float(o.eps)), ('happy', bool(o.ishappy)), ('limit', int(o.maxLength)), ('hscale', float(o.hscale)), ('points', np.array(f.x))] + \
        ([('real', [bool(b) for b in np.ravel(o.isReal)])] if f.type == 'trig' else [])


def snap(o):
    from funpy.fun import Fun
    from funpy.vectorspaces import Parameter, Namespace, MoorePenroseState
    if isinstance(o, Fun):
        return [('type', type(o).__name__)] + fsnap(o)
    if isinstance(o, Parameter):
        return [('type', type(o).__name__), ('name', o.name), ('value', float(o.value))]
    if isinstance(o, Namespace):
        return [('type', type(o).__name__), ('items', sorted((k, float(v)) for k, v in o.items()))]
    if isinstance(o, MoorePenroseState):
        return [('type', type(o).__name__)] + [('u ' + k, v) for k, v in snap(o.u)] + [('v ' + k, v) for k, v in snap(o.v)]
    r = [('type', type(o).__name__), ('weights', [float(w) for w in o.weights]), ('names', [p.name for p in o.reals]), ('reals', [float(p) for p in o.reals]), ('namespace', snap(o.ns)[1][1]),
         ('number of functions', len(o.funcs))]
    for i, f in enumerate(o.funcs):
        r += [('f%d %s' % (i, k), v) for k, v in fsnap(f)]
    return r


def compare(rec, lab, got, want):
    if not rec.check([k for k, _ in got] == [k for k, _ in want], lab + ': same structure', got=[k for k, _ in got]):
        return
    for (k, g), (_, w) in zip(got, want):
        if isinstance(w, np.ndarray):
            rec.close(g, w, 2e-15 * max(1.0, np.max(np.abs(w), initial=0)) * max(1, len(w)), '%s: %s' % (lab, k))
            rec.check(np.shape(g) == np.shape(w), '%s: shape of %s' % (lab, k))
        else:
            rec.check(g == w, '%s: %s' % (lab, k), got=g, want=w)


OPS = ('deepcopy', 'copy of a list', 'np.copy', 'file', 'group')


def apply(op, o):
    from funpy.fun import Fun
    from funpy.vectorspaces import MoorePenroseState
    if op == 'deepcopy':
        return copy.deepcopy(o)
    if op == 'copy of a list':
        l = copy.deepcopy([o, {'k': o}])
        assert l[0] is l[1]['k'], 'one object became two'
        return l[0]
    if op == 'np.copy':
        return np.copy(o) if isinstance(o, Fun) else None
    if isinstance(o, MoorePenroseState):
        return None
    import h5py
    with tempfile.TemporaryDirectory(prefix='mc-h5-') as d:
        fn = os.path.join(d, 'x.h5')
        with h5py.File(fn, 'w') as fh:
            if op == 'group':
                o.writeHDF5(fh.create_group('zero'))
            o.writeHDF5(fh if op == 'file' else fh.create_group('one'))
        with h5py.File(fn, 'r') as fh:
            return type(o).from_hdf5(fh if op == 'file' else fh['one'])


def mutations(o):
    from funpy.fun import Fun
    from funpy.vectorspaces import Parameter, Namespace, MoorePenroseState

    def imul(x):
        x *= 2

    def iadd(x):
        x += x

    if isinstance(o, Fun):
        return [('*=', imul), ('+=', iadd), ('prolong', lambda f: f.prolong(23)), ('simplify', lambda f: f.simplify(eps=0.3)), ('coefficients', lambda f: f.coeffs.__setitem__(Ellipsis, 0.25)),
                ('samples', lambda f: f.values.__setitem__(Ellipsis, 0.25) if f.values.flags.writeable else None), ('tolerance', lambda f: f.seteps(0.1))]
    if isinstance(o, Parameter):
        return [('*=', imul), ('value', lambda p: setattr(p, 'value', 77.0)), ('name', lambda p: setattr(p, 'name', 'other'))]
    if isinstance(o, Namespace):
        def inside(ns):
            for v in ns.values():
                if isinstance(v, Parameter):
                    v.value = 66.0
        return [('set', lambda n: n.__setitem__('a', 9.0)), ('clear', lambda n: n.clear()), ('inside', inside)]
    if isinstance(o, MoorePenroseState):
        return [('u %s' % n, lambda s, f=f: f(s.u)) for n, f in mutations(o.u)] + [('v %s' % n, lambda s, f=f: f(s.v)) for n, f in mutations(o.v)]
    r = [('*=', imul), ('prolong', lambda s: s.prolong(23)), ('weights', lambda s: s.weights.__setitem__(Ellipsis, 4.0)), ('function in place', lambda s: imul(s.funcs[0])),
         ('ns set', lambda s: s.ns.__setitem__('c', Parameter(c=1.0))), ('ns value', lambda s: s.ns['c'].__setattr__('value', 3.0) if isinstance(s.ns['c'], Parameter) else None)]
    if len(o.reals):
        r += [('active', lambda s: setattr(s.reals[-1], 'value', 55.0)), ('active in place', lambda s: imul(s.reals[0]))]
    return r


def cases(tier):
    d = 3 if tier == 'quick' else 4
    for k in catalogue():
        yield dict(id=k, key=k, depth=d)


def run(case, rec):
    mk = catalogue()[case['key']]
    rec.state(case['key'])
    for depth in range(1, case['depth'] + 1):
        for word in itertools.product(OPS, repeat=depth):
            o = mk()
            before = snap(o)
            chain = [o]
            lab = '%s: %s' % (case['key'], '; '.join(word))
            for op in word:
                rec.step()
                ok, r = rec.attempt(lab, lambda: apply(op, chain[-1]))
                if not ok or r is None:
                    break
                chain.append(r)
            if len(chain) <= depth:
                continue
            rec.state(case['key'], word)
            compare(rec, lab, snap(chain[-1]), before)
            compare(rec, lab + ' (original)', snap(o), before)
            rec.check(all(a is not b for a, b in itertools.combinations(chain, 2)), lab + ': separate objects')
            if depth > 1 and case['depth'] == 3 and depth == 3:
                continue
            for name, mut in mutations(o):
                for who in (0, len(chain) - 1):
                    if depth > 1 and who == 0:
                        continue
                    o2 = mk()
                    ch = [o2]
                    for op in word:
                        ch.append(apply(op, ch[-1]))
                    rec.step()
                    ok, _ = rec.attempt('%s then %s' % (lab, name), lambda: mut(ch[who]))
                    for i, x in enumerate(ch):
                        if i != who:
                            compare(rec, '%s then %s of object %d, object %d' % (lab, name, who, i), snap(x), before)
