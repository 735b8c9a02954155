"""Shared program explorer for pointwise arithmetic (C01, C02).

Model state: the table of exact values of every live function on the reference grid,
together with a rounding budget.  Every transition applies one real operation to the
real objects and the same operation to the tables."""
import copy
import itertools
import numpy as np
from mc.ref import ZS, to_dom


class V:
    """Model of a function: its values on the grid and how far rounding may have moved it."""
    def __init__(self, v, err):
        self.v = v
        self.err = err

    @property
    def s(self):
        return float(np.max(np.abs(self.v))) if self.v.size else 0.0


def lin(a, b, v):
    return V(v, a.err + b.err + 4e-14 * (a.s + b.s))


def prod(a, b):
    return V(a.v * b.v, a.err * b.s + b.err * a.s + a.err * b.err + 2e-13 * a.s * b.s)


def quot(a, b, eps):
    lo = float(np.min(np.abs(b.v)))
    q = a.v / b.v
    s = float(np.max(np.abs(q))) if q.size else 0.0
    return V(q, (a.err + s * b.err) / lo + eps * 2e3 * max(s, a.s / lo, s * b.s / lo))


def const(c):
    a = np.asarray(c)
    return V(np.broadcast_to(a, (len(ZS), a.size if a.size > 1 else 1)).astype(a.dtype), 0.0)


def nonvanishing(b):
    return b.s > 0 and np.min(np.abs(b.v)) > 0.2 * b.s


def signdef(b):
    return not np.iscomplexobj(b.v) and b.s > 0 and np.all(np.min(b.v, 0) * np.max(b.v, 0) > 0) \
        and np.min(np.abs(b.v)) > 0.1 * b.s


# each op: (name, guard(model a, model b), real(a, b) -> result, model(a, b) -> V)
def table(m, eps, scalars, arr):
    T = []

    def add(name, real, model, guard=None, inplace=False):
        T.append((name, real, model, guard, inplace))

    div = lambda a, b: quot(a, b, eps)
    add('f+g', lambda a, b: a + b, lambda a, b: lin(a, b, a.v + b.v))
    add('f-g', lambda a, b: a - b, lambda a, b: lin(a, b, a.v - b.v))
    add('f*g', lambda a, b: a * b, prod)
    add('f/g', lambda a, b: a / b, div, lambda a, b: nonvanishing(b))
    add('-f', lambda a, b: -a, lambda a, b: V(-a.v, a.err))
    add('+f', lambda a, b: +a, lambda a, b: V(a.v.copy(), a.err))
    add('f**2', lambda a, b: a**2, lambda a, b: V(a.v**2, 2 * a.err * a.s + eps * 2e3 * max(a.s, a.s**2)))
    add('f**3', lambda a, b: a**3, lambda a, b: V(a.v**3, 3 * a.err * a.s**2 + eps * 2e3 * max(a.s, a.s**3)))
    add('f**1', lambda a, b: a**1, lambda a, b: V(a.v.copy(), a.err + eps * 2e3 * a.s))
    add('f**0', lambda a, b: a**0, lambda a, b: V(np.ones_like(a.v), 1e-12))
    add('f**0.5', lambda a, b: a**0.5, lambda a, b: V(a.v**0.5, a.err / max(a.s, 1e-9) + eps * 2e3 * max(1, a.s)),
        lambda a, b: signdef(a) and np.min(a.v) > 0)
    add('f**-1', lambda a, b: a**-1, lambda a, b: div(const(1.0), a), lambda a, b: nonvanishing(a))
    add('abs', lambda a, b: abs(a), lambda a, b: V(np.abs(a.v), a.err + eps * 2e3 * a.s), lambda a, b: signdef(a))
    for c in scalars:
        k = const(c)
        add('f+%s' % c, lambda a, b, c=c: a + c, lambda a, b, k=k: lin(a, k, a.v + k.v))
        add('%s+f' % c, lambda a, b, c=c: c + a, lambda a, b, k=k: lin(a, k, a.v + k.v))
        add('f-%s' % c, lambda a, b, c=c: a - c, lambda a, b, k=k: lin(a, k, a.v - k.v))
        add('%s-f' % c, lambda a, b, c=c: c - a, lambda a, b, k=k: lin(a, k, k.v - a.v))
        add('f*%s' % c, lambda a, b, c=c: a * c, lambda a, b, k=k: prod(a, k))
        add('%s*f' % c, lambda a, b, c=c: c * a, lambda a, b, k=k: prod(a, k))
        if c != 0:
            add('f/%s' % c, lambda a, b, c=c: a / c, lambda a, b, k=k: quot(a, k, 1e-16))
            add('%s/f' % c, lambda a, b, c=c: c / a, lambda a, b, k=k: div(k, a), lambda a, b: nonvanishing(a))
    if arr is not None:
        ka = const(arr)
        add('f+A', lambda a, b: a + arr, lambda a, b: lin(a, ka, a.v + ka.v))
        add('A+f', lambda a, b: arr + a, lambda a, b: lin(a, ka, a.v + ka.v))
        add('f-A', lambda a, b: a - arr, lambda a, b: lin(a, ka, a.v - ka.v))
        add('A-f', lambda a, b: arr - a, lambda a, b: lin(a, ka, ka.v - a.v))
        add('f/A', lambda a, b: a / arr, lambda a, b: quot(a, ka, 1e-16))

    def ip(op):
        def run(a, b):
            a = copy.deepcopy(a)
            r = op(a, b)
            return r
        return run

    def i_add(a, b): a += b; return a
    def i_sub(a, b): a -= b; return a
    def i_mul(a, b): a *= b; return a
    def i_div(a, b): a /= b; return a
    add('f+=g', ip(i_add), lambda a, b: lin(a, b, a.v + b.v), None, True)
    add('f-=g', ip(i_sub), lambda a, b: lin(a, b, a.v - b.v), None, True)
    add('f*=g', ip(i_mul), prod, None, True)
    add('f/=g', ip(i_div), div, lambda a, b: nonvanishing(b), True)
    for c in scalars[:2]:
        k = const(c)
        add('f+=%s' % c, lambda a, b, c=c: ip(i_add)(a, c), lambda a, b, k=k: lin(a, k, a.v + k.v), None, True)
        add('f-=%s' % c, lambda a, b, c=c: ip(i_sub)(a, c), lambda a, b, k=k: lin(a, k, a.v - k.v), None, True)
        add('f*=%s' % c, lambda a, b, c=c: ip(i_mul)(a, c), lambda a, b, k=k: prod(a, k), None, True)
        if c != 0:
            add('f/=%s' % c, lambda a, b, c=c: ip(i_div)(a, c), lambda a, b, k=k: quot(a, k, 1e-16), None, True)
    return T


def observe(rec, h, mv, dom, label, ftype):
    """Compare a real function with its model."""
    ok = True
    sh = getattr(h, 'm', None)
    ok &= rec.check(sh == mv.v.shape[1], label + ':columns', got=sh, want=mv.v.shape[1])
    d = np.asarray(h.domain, dtype=float)
    ok &= rec.check(d.shape == (2,) and np.all(d == np.asarray(dom, dtype=float)), label + ':domain', got=d)
    ok &= rec.check(h.type == ftype, label + ':kind', got=h.type)
    got = h(to_dom(ZS, dom))
    if not np.iscomplexobj(mv.v) and np.iscomplexobj(got):
        rec.check(False, label + ':real operands gave a complex result')
        return False
    want = mv.v
    got = np.asarray(got)
    got = got.reshape(len(ZS), -1)
    ok &= rec.close(got, want, mv.err + 1e-13 * mv.s + 1e-300, label + ':values')
    return ok
