"""C15: named parameters behave as their numbers and stay in step with the namespace that stores them."""
import copy
import io
import itertools
import operator
import os
import tempfile
import numpy as np

ID = 'C15'
LEVEL = 'model_checking'
TECHNIQUE = 'explicit-state exploration: every sequence of writes, copies, changes of the active parameter and file round trips up to a depth, through every handle, against a model dictionary; plus every operator x operand kind x operand order'
RULE = ('every word of operations up to the depth over the handles of a parameter, its namespace and a solution state, deduplicated by model state for the longer words; every operator x value pair x operand kind x order. '
        'Non-trivial: at least one write')
ASSUMPTIONS = ['real parameter values', 'the active parameter of a state is written through the state or the parameter, not through the raw namespace']
LIMIT = 200
VALS = (0.0, 1.0, -2.5, 3.0, 1e-3, 7)
BIN = {k: getattr(operator, k) for k in ('add', 'sub', 'mul', 'truediv', 'floordiv', 'mod', 'pow')}
CMP = {k: getattr(operator, k) for k in ('lt', 'le', 'eq', 'ne', 'gt', 'ge')}
UN = {'neg': operator.neg, 'pos': operator.pos, 'abs': abs, 'sqrt': np.sqrt, 'exp': np.exp, 'sin': np.sin, 'log1p': np.log1p, 'square': np.square}
KINDS = {'float': float, 'int': lambda v: int(round(v)), 'np.float64': np.float64, 'np.int64': lambda v: np.int64(round(v)), '0-d': lambda v: np.array(float(v))}


def cases(tier):
    for op in list(BIN) + list(CMP) + list(UN):
        yield dict(id='op.%s' % op, what='op', op=op)
    yield dict(id='misc', what='misc')
    d = 4 if tier == 'quick' else 5
    for first in range(len(NSOPS)):
        yield dict(id='ns.%d' % first, what='ns', first=first, depth=d)
    for kind in ('cont', 'two', 'twocont', 'defl'):
        for first in range(len(STOPS)):
            yield dict(id='state.%s.%d' % (kind, first), what='state', kind=kind, first=first, depth=d)


def run(case, rec):
    rec.state(case['id'])
    with np.errstate(all='ignore'):
        globals()['t_' + case['what']](case, rec)


def P(name, v):
    from funpy.vectorspaces import Parameter
    return Parameter(**{name: v})


def same_num(rec, lab, got, want):
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    rec.check(got.shape == want.shape and np.allclose(got, want, rtol=1e-13, atol=0, equal_nan=True), lab, got=str(got), want=str(want))


def is_par(rec, lab, r, name, want):
    from funpy.vectorspaces import Parameter
    if rec.check(isinstance(r, Parameter), lab + ' gives a parameter', got=type(r).__name__):
        rec.check(r.name == name, lab + ' keeps the name', got=r.name)
        same_num(rec, lab + ' value', r.value, want)


def t_op(case, rec):
    op = case['op']
    if op in UN:
        for v in VALS:
            p = P('mu', v)
            rec.state(op, v)
            ok, r = rec.attempt('%s(%g)' % (op, v), lambda: UN[op](p))
            if ok:
                is_par(rec, '%s(%g)' % (op, v), r, 'mu', UN[op](np.asarray(v)))
                same_num(rec, '%s leaves its operand' % op, p.value, v)
        return
    fn = BIN.get(op) or CMP[op]
    iop = {'add': operator.iadd, 'sub': operator.isub, 'mul': operator.imul, 'truediv': operator.itruediv, 'floordiv': operator.ifloordiv, 'mod': operator.imod, 'pow': operator.ipow}.get(op)
    for v, w in itertools.product(VALS, VALS):
        rec.state(op, v, w)
        for kn, kind in KINDS.items():
            k = kind(w)
            if op == 'pow' and 'int' in kn and isinstance(v, int) and k < 0:
                continue              # not defined for integers
            for lab, call, want in (('p %s %s' % (op, kn), lambda: fn(P('mu', v), k), lambda: fn(np.asarray(v)[()], np.asarray(k)[()])),
                                    ('%s %s p' % (kn, op), lambda: fn(k, P('mu', v)), lambda: fn(np.asarray(k)[()], np.asarray(v)[()]))):
                lab = '%s with %g, %g' % (lab, v, w)
                ok, r = rec.attempt(lab, call)
                if not ok:
                    continue
                if op in CMP:
                    rec.check(bool(r) == bool(want()), lab + ' as a condition', got=bool(r), want=bool(want()))
                else:
                    is_par(rec, lab, r, 'mu', want())
            if iop:
                p = P('mu', float(v))
                q = p
                ok, r = rec.attempt('in place %s' % op, lambda: iop(p, k))
                if ok:
                    rec.check(r is q, 'p %s= %s keeps the parameter' % (op, kn))
                    is_par(rec, 'p %s= %s with %g, %g' % (op, kn, v, w), q, 'mu', fn(float(v), np.asarray(k)[()]) if op != 'pow' else np.power(float(v), k))
        p, q = P('mu', float(v)), P('mu', float(w))
        ok, r = rec.attempt('p %s q' % op, lambda: fn(p, q))
        if ok:
            if op in CMP:
                rec.check(bool(r) == bool(fn(v, w)), 'p %s q as a condition with %g, %g' % (op, v, w))
            else:
                is_par(rec, 'p %s q with %g, %g' % (op, v, w), r, 'mu', fn(np.float64(v), np.float64(w)))
            rec.check(r is not p and r is not q, 'a new parameter')
        same_num(rec, 'operands', [p.value, q.value], [v, w])
        if iop:
            ok, r = rec.attempt('p %s= q' % op, lambda: iop(p, q))
            if ok:
                is_par(rec, 'p %s= q with %g, %g' % (op, v, w), p, 'mu', fn(np.float64(v), np.float64(w)))
            same_num(rec, 'right operand of the in place operation', q.value, w)
        # parameters that denote different quantities
        if op not in CMP:
            a, b = P('mu', float(v)), P('nu', float(w))
            rec.rejects('mu %s nu' % op, lambda: fn(a, b))
            rec.rejects('nu %s mu' % op, lambda: fn(b, a))
            rec.rejects('mu %s= nu' % op, lambda: iop(a, b))
            same_num(rec, 'refused operation leaves the operands', [a.value, b.value], [v, w])


def t_misc(case, rec):
    from funpy.vectorspaces import Parameter
    for v in VALS + (2.0 / 3, -1e10):
        p = P('mu', v)
        rec.state(v)
        same_num(rec, 'float', float(p), v)
        rec.check(int(p) == int(v), 'int')
        same_num(rec, 'array', np.asarray(p), v)
        same_num(rec, 'dot', np.dot(p, P('mu', 3.0)), 3.0 * v)
        same_num(rec, 'inner', np.inner(p, P('mu', 3.0)), 3.0 * v)
        same_num(rec, 'around', np.around(p, 2), np.around(v, 2))
        for lab, fn, w in (('real', np.real, v), ('imag', np.imag, 0.0), ('conj', np.conj, v), ('zeros_like', np.zeros_like, 0.0), ('ones_like', np.ones_like, 1.0), ('sum', np.sum, v),
                           ('copy', copy.copy, v), ('deepcopy', copy.deepcopy, v)):
            ok, r = rec.attempt(lab, lambda: fn(p))
            if ok:
                is_par(rec, '%s of %g' % (lab, v), r, 'mu', w)
                if r is not p:
                    r.value = 99.0
                    same_num(rec, lab + ' is independent', p.value, v)
        is_par(rec, 'from_real', Parameter.from_real('nu', v), 'nu', v)
        rec.check('mu' in str(p) and 'mu' in repr(p), 'printing')
        bool(p)
        rec.check(bool(p) == bool(v), 'as a condition')
    rec.rejects('no name', lambda: Parameter())
    rec.rejects('two names', lambda: Parameter(a=1, b=2))


# ---------------------------------------------------------------- namespace and its parameters
# handles: p is ns['a'], q is ns['b'] at the start
NSOPS = ['p.value', 'p+=', 'p*=', 'ns.a.value', 'ns.a+=', 'ns.b.value', 'ns.b=new', 'ns.a=p', 'deepcopy', 'deepcopy all', 'file', 'update', 'del b', 'ns.c=']


def roundtrip(ns, name='ns'):
    import h5py
    from funpy.vectorspaces import Namespace
    with tempfile.TemporaryDirectory(prefix='mc-h5-') as d:
        fn = os.path.join(d, 'x.h5')
        with h5py.File(fn, 'w') as fh:
            ns.writeHDF5(fh)
        with h5py.File(fn, 'r') as fh:
            return Namespace.from_hdf5(fh)


def t_ns(case, rec):
    words = [(case['first'],) + w for w in itertools.product(range(len(NSOPS)), repeat=case['depth'] - 1)]
    for word in words:
        if word.count(NSOPS.index('file')) > 1:        # a file is read back into another object
            continue
        ns_word(rec, word)


def ns_word(rec, word):
    from funpy.vectorspaces import Namespace
    p = P('a', 1.0)
    ns = Namespace(a=p, b=P('b', 2.0))
    # the model: cells hold numbers, names are bound to cells
    cells, env, pc = [1.0, 2.0], {'a': 0, 'b': 1}, 0
    lab = ' '.join(NSOPS[w] for w in word)
    rec.state(word)

    def cell(v):
        cells.append(v)
        return len(cells) - 1

    for i, w in enumerate(word):
        op = NSOPS[w]
        v = 10.0 + i
        rec.step()
        try:
            if op == 'p.value':
                p.value = v
                cells[pc] = v
            elif op == 'p+=':
                p += v
                cells[pc] += v
            elif op == 'p*=':
                p *= 2.0
                cells[pc] *= 2
            elif op == 'ns.a.value':
                ns['a'].value = v
                cells[env['a']] = v
            elif op == 'ns.a+=':
                ns['a'] += v
                cells[env['a']] += v
            elif op == 'ns.b.value':
                if 'b' not in env:
                    return
                ns['b'].value = v
                cells[env['b']] = v
            elif op == 'ns.b=new':
                ns['b'] = P('b', v)
                env['b'] = cell(v)
            elif op == 'ns.a=p':
                ns['a'] = p
                env['a'] = pc
            elif op == 'deepcopy':
                ns = copy.deepcopy(ns)
                env = {k: cell(cells[c]) for k, c in env.items()}
            elif op == 'deepcopy all':
                ns, p = copy.deepcopy((ns, p))
                m = {c: cell(cells[c]) for c in set(env.values()) | {pc}}
                env, pc = {k: m[c] for k, c in env.items()}, m[pc]
            elif op == 'file':
                back = roundtrip(ns)
                got = {k: float(x) for k, x in back.items()}
                rec.check(got == {k: cells[c] for k, c in env.items()}, 'file after: ' + lab, got=got)
            elif op == 'update':
                ns.update(Namespace(b=P('b', v)))
                env['b'] = cell(v)
            elif op == 'del b':
                if 'b' not in env:
                    return
                del ns['b']
                del env['b']
            elif op == 'ns.c=':
                ns['c'] = P('c', v)
                env['c'] = cell(v)
        except Exception as e:
            rec.fail('%s raised %r' % (lab, e))
            return
        got = {k: float(x) for k, x in ns.items()}
        want = {k: cells[c] for k, c in env.items()}
        if not (rec.check(type(ns) is Namespace, 'type of the namespace') and rec.check(got == want, 'values after: ' + lab, got=got, want=want)
                and rec.check(float(p) == cells[pc], 'value of the parameter after: ' + lab) and rec.check(all(x.name == k for k, x in ns.items()), 'names after: ' + lab)
                and rec.check((ns['a'] is p) == (env['a'] == pc), 'sharing after: ' + lab)):
            return


# ---------------------------------------------------------------- solution states
STOPS = ['par.value', 'par+=', 's[b]=', 's[act]=', 'ns.b=', 'ns.new=', 'deepcopy', 'from_state same', 'from_state b', 'from_state new', 'to two', 'to twocont', 'to defl', 'neg', 'scale', 'file', 's[b]+write copy']


def mkstate(kind):
    from funpy.fun import Fun
    from funpy.vectorspaces import ContinuationState, TwoParameterState, TwoParContState, DeflationState, Namespace
    u = Fun(coeffs=np.asfortranarray([[1.0], [0.5]]), simplify=False)
    ns = Namespace(**{k: P(k, v) for k, v in (('b', 2.0), ('c', 3.0), ('u', 4.0)) if kind in ('cont', 'defl') or k != 'b'})
    if kind == 'cont':
        return ContinuationState(a=P('a', 1.0), u=u, ns=ns), ['a'], dict(a=1.0, b=2.0, c=3.0, u=4.0)
    if kind == 'defl':
        ns['a'] = P('a', 1.0)
        return DeflationState(u=u, ns=ns), [], dict(a=1.0, b=2.0, c=3.0, u=4.0)
    cls = TwoParameterState if kind == 'two' else TwoParContState
    return cls(p1=P('a', 1.0), p2=P('b', 2.0), u=u, ns=ns), ['a', 'b'], dict(a=1.0, b=2.0, c=3.0, u=4.0)


def t_state(case, rec):
    words = [(case['first'],)]
    seen = set()
    # breadth first, words that reach a model state already expanded are checked but not extended
    for depth in range(case['depth']):
        nxt = []
        for word in words:
            key = state_word(rec, case['kind'], word)
            if key is None or (key in seen and depth > 1):
                continue
            seen.add(key)
            nxt += [word + (w,) for w in range(len(STOPS))]
        words = nxt


def state_word(rec, kind, word):
    from funpy.vectorspaces import ContinuationState, TwoParameterState, TwoParContState, DeflationState
    s, act, vals = mkstate(kind)
    lab = '%s: %s' % (kind, ' '.join(STOPS[w] for w in word))
    rec.state(kind, word)
    last = len(word) - 1
    for i, w in enumerate(word):
        op = STOPS[w]
        v = 10.0 + i
        rec.step()
        old = None
        try:
            if op == 'par.value':
                if not act:
                    return None
                s.reals[-1].value = v
                vals[act[-1]] = v
            elif op == 'par+=':
                if not act:
                    return None
                r = s.reals[0]
                r += v
                vals[act[0]] += v
            elif op in ('s[b]=', 's[b]+write copy'):
                name = next(k for k in 'bcd' if k not in act)
                if op != 's[b]=':
                    old, oldv, olda = s, dict(vals), list(act)
                    s = copy.deepcopy(s)
                s[name] = v
                vals[name] = v
            elif op == 's[act]=':
                if not act:
                    return None
                s[act[-1]] = v
                vals[act[-1]] = v
            elif op == 'ns.b=':
                name = next(k for k in 'bcd' if k not in act)
                s.ns[name] = P(name, v)
                vals[name] = v
            elif op == 'ns.new=':
                s.ns['d'] = P('d', v)
                if 'd' in act:
                    return None
                vals['d'] = v
            elif op == 'deepcopy':
                old, oldv, olda = s, dict(vals), list(act)
                s = copy.deepcopy(s)
            elif op.startswith('from_state'):
                names = {'from_state same': ('a', 'c'), 'from_state b': ('b', 'c'), 'from_state new': ('z', 'a')}[op]
                t = type(s)
                if t is ContinuationState:
                    s, act = t.from_state(s, names[0], v), [names[0]]
                    vals[names[0]] = v
                elif t is DeflationState:
                    s = t.from_state(s)
                else:
                    s, act = t.from_state(s, names[0], v, names[1], v + 0.5), list(names)
                    vals[names[0]], vals[names[1]] = v, v + 0.5
            elif op in ('to two', 'to twocont'):
                t = TwoParameterState if op == 'to two' else TwoParContState
                s, act = t.from_state(s, 'c', v, 'a', v + 0.5), ['c', 'a']
                vals['c'], vals['a'] = v, v + 0.5
            elif op == 'to defl':
                if 'u' in vals:               # a parameter must not be called as the function of the state
                    if type(s) is DeflationState:
                        return None
                s, act = DeflationState.from_state(s), []
            elif op == 'neg':
                s = -s
                for a in act:
                    vals[a] = -vals[a]
            elif op == 'scale':
                s *= 2.0
                for a in act:
                    vals[a] *= 2
            elif op == 'file':
                if type(s) is not ContinuationState:
                    return None
                import h5py
                with tempfile.TemporaryDirectory(prefix='mc-h5-') as d:
                    fn = os.path.join(d, 'x.h5')
                    with h5py.File(fn, 'w') as fh:
                        s.writeHDF5(fh)
                    with h5py.File(fn, 'r') as fh:
                        s = ContinuationState.from_hdf5(fh)
        except Exception as e:
            if i == last:
                rec.fail('%s raised %r' % (lab, e))
            return None
        if i < last:
            continue
        items = list(s.items())
        got = {k: float(x) for k, x in items}
        if not (rec.check(got == vals, 'items after: ' + lab, got=got, want=vals) and rec.check(len(items) == len(vals), 'no item twice after: ' + lab, got=str(items))
                and rec.check([r.name for r in s.reals] == act, 'active parameters after: ' + lab, got=[r.name for r in s.reals])
                and rec.check([float(r) for r in s.reals] == [vals[a] for a in act], 'active values after: ' + lab)
                and rec.check([(k, float(x)) for k, x in s.update_items()] == [(a, vals[a]) for a in act], 'update items after: ' + lab)
                and rec.check(not set(s.ns) & set(act), 'active parameters are not in the namespace after: ' + lab)):
            return None
        if len(act) == 1:
            rec.check(s.cpar == act[0] and float(s.a) == vals[act[0]] and s.par is s.reals[0], 'handles after: ' + lab)
        elif len(act) == 2:
            rec.check(s.cpar == act[1] and s.bname == act[0] and float(s.a) == vals[act[1]] and float(s.b) == vals[act[0]], 'handles after: ' + lab)
        rec.close(np.ravel(s.u(np.array([0.5, -0.5]))) / (np.ravel(s.u(np.array([0.5])))[0]), [1.0, 0.6], 1e-14, 'function after: ' + lab)
        if old is not None:
            got = {k: float(x) for k, x in old.items()}
            rec.check(got == oldv and [r.name for r in old.reals] == olda, 'the original of a copy after: ' + lab, got=got, want=oldv)
    return (type(s).__name__, tuple(act), tuple(sorted(vals)))
