"""Truncated power series arithmetic: R[t, e, h] / (t^T, e^2, h^2), vectorised over points.

Evaluating an equation on the Taylor jets of known functions gives its value, its
directional derivatives (coefficients of e, h and e*h) and its derivatives in x, all
without any symbolic manipulation: the reference the compiled equations are judged against."""
import math
import numpy as np

T = 5


class Jet:
    __array_priority__ = 1000
    __array_ufunc__ = None

    def __init__(self, a):
        self.a = a                      # (T, 2, 2, N)

    @classmethod
    def const(cls, c, N):
        a = np.zeros((T, 2, 2, N))
        a[0, 0, 0] = c
        return cls(a)

    def lift(self, o):
        return o if isinstance(o, Jet) else Jet.const(float(o), self.a.shape[-1])

    def __add__(self, o):
        return Jet(self.a + self.lift(o).a)
    __radd__ = __add__

    def __neg__(self):
        return Jet(-self.a)

    def __pos__(self):
        return self

    def __sub__(self, o):
        return Jet(self.a - self.lift(o).a)

    def __rsub__(self, o):
        return Jet(self.lift(o).a - self.a)

    def __mul__(self, o):
        p, q = self.a, self.lift(o).a
        r = np.zeros_like(p)
        for i in range(T):
            for j in range(T - i):
                for e in (0, 1):
                    for h in (0, 1):
                        for e2 in range(2 - e):
                            for h2 in range(2 - h):
                                r[i + j, e + e2, h + h2] += p[i, e, h] * q[j, e2, h2]
        return Jet(r)
    __rmul__ = __mul__

    def compose(self, ders):
        """f(self), ders(v) -> list of f^(k)(v), k = 0..T+1."""
        v = self.a[0, 0, 0]
        n = Jet(self.a.copy())
        n.a[0, 0, 0] = 0
        out = Jet.const(0.0, v.size)
        pw = Jet.const(1.0, v.size)
        for k, d in enumerate(ders(v)):
            out = out + Jet(pw.a * (d / math.factorial(k)))
            pw = pw * n
        return out

    def __pow__(self, p):
        if isinstance(p, Jet):
            return exp(log(self) * p)
        if float(p) == int(p) and p >= 0:
            r = Jet.const(1.0, self.a.shape[-1])
            for _ in range(int(p)):
                r = r * self
            return r

        def ders(v):
            c, q, r = 1.0, float(p), []
            for _ in range(T + 2):
                r.append(c * v**q)
                c, q = c * q, q - 1
            return r
        return self.compose(ders)

    def __rpow__(self, b):
        return exp(self * math.log(b))

    def __truediv__(self, o):
        return self * self.lift(o)**-1.0

    def __rtruediv__(self, o):
        return self.lift(o) / self

    def diff(self, n=1):
        a = self.a
        for _ in range(n):
            b = np.full_like(a, np.nan)
            for i in range(T - 1):
                b[i] = (i + 1) * a[i + 1]
            b[T - 1] = 0
            a = b
        return Jet(a)


def _el(name, ders):
    def f(x):
        if not isinstance(x, Jet):
            return getattr(math, name)(x)
        return x.compose(ders)
    f.__name__ = name
    return f


def _cyc(fs):
    return lambda v: [fs[k % len(fs)](v) for k in range(T + 2)]


exp = _el('exp', _cyc([np.exp]))
sin = _el('sin', _cyc([np.sin, np.cos, lambda v: -np.sin(v), lambda v: -np.cos(v)]))
cos = _el('cos', _cyc([np.cos, lambda v: -np.sin(v), lambda v: -np.cos(v), np.sin]))
sinh = _el('sinh', _cyc([np.sinh, np.cosh]))
cosh = _el('cosh', _cyc([np.cosh, np.sinh]))


def log(x):
    if not isinstance(x, Jet):
        return math.log(x)
    return x.compose(lambda v: [np.log(v)] + [(-1.0)**(k - 1) * math.factorial(k - 1) / v**k for k in range(1, T + 2)])


def sqrt(x):
    return x**0.5 if isinstance(x, Jet) else math.sqrt(x)


def tanh(x):
    if not isinstance(x, Jet):
        return math.tanh(x)
    e = exp(2.0 * x)
    return (e - 1.0) / (e + 1.0)


class Field:
    """An unknown: value polynomial p, directions w (e) and q (h); any numpy callables with
    .deriv(k). taylor(x) gives its jet."""
    def __init__(self, p, w=None, q=None):
        self.parts = {(0, 0): p, (1, 0): w, (0, 1): q}

    def jet(self, x):
        a = np.zeros((T, 2, 2, x.size))
        for (e, h), p in self.parts.items():
            if p is None:
                continue
            for k in range(T):
                a[k, e, h] = p(x) if k == 0 else p.deriv(k)(x) / math.factorial(k)
        return Jet(a)


_GX, _GW = np.polynomial.legendre.leggauss(60)
# composite rule: 4 panels
_GX = np.concatenate([(_GX + 2 * i - 3) / 4 for i in range(4)])
_GW = np.tile(_GW / 4, 4)


def evaluate(src, fields, x, dom, par=None, consts=None):
    """Jets of the equation text ``src`` at the points x."""
    a, b = float(dom[0]), float(dom[1])
    gx = a + (_GX + 1) * (b - a) / 2
    gw = _GW * (b - a) / 2
    nodes = np.concatenate([np.asarray(x, dtype=float), gx])
    N = nodes.size
    X = Jet.const(nodes, N)
    X.a[1, 0, 0] = 1.0
    ns = {k: f.jet(nodes) for k, f in fields.items()}
    ns.update({k: f.jet(nodes) for k, f in (consts or {}).items()})
    for k, v in (par or {}).items():
        if isinstance(v, tuple):        # (value, direction component index)
            j = Jet.const(v[0], N)
            j.a[(0,) + v[1]] = 1.0
            v = j
        ns[k] = v

    def integral(f, *lim):
        f = X.lift(f)
        r = np.zeros_like(f.a)
        r[0] = (f.a[0][..., x.size:] @ gw)[..., None]
        return Jet(r)

    def diff(f, *args):
        n = 0
        args = list(args)
        i = 0
        while i < len(args):
            if i + 1 < len(args) and not isinstance(args[i + 1], Jet):
                n += int(args[i + 1])
                i += 2
            else:
                n += 1
                i += 1
        return X.lift(f).diff(n)

    ns.update(x=X, diff=diff, int=integral, sum=integral, sin=sin, cos=cos, exp=exp, log=log, sqrt=sqrt, tanh=tanh,
              sinh=sinh, cosh=cosh, pi=math.pi, __builtins__={})
    r = X.lift(eval(src, ns))
    return Jet(r.a[..., :x.size])
