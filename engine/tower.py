"""Reference arithmetic (the specification side): polynomials over F_p and the tower
Fp2 = Fp[u]/(u^2+1), Fp6 = Fp2[v]/(v^3-xi), Fp12 = Fp6[w]/(w^2-v).  Independent of the code
under test; an element with constant coefficients is an ordinary field element, so the same
specification functions serve the symbolic proof and the concrete replay."""

class Field:
    def __init__(self, p, xi, name=''):
        self.p, self.xi, self.name = p, xi, name
        self.R = pow(2, 256, p); self.Ri = pow(self.R, -1, p)
    def el(self, v): return El(self, {(): v % self.p} if v % self.p else {})
    def var(self, a): return El(self, {(a,): 1})

class El:
    """polynomial over F_p, {monomial (sorted tuple of atoms): coefficient}"""
    __slots__ = ('F', 'd')
    def __init__(self, F, d): self.F, self.d = F, d
    def _c(self, o): return o if isinstance(o, El) else self.F.el(o)
    def __add__(self, o):
        o = self._c(o); p = self.F.p; r = dict(self.d)
        for m, c in o.d.items():
            v = (r.get(m, 0) + c) % p
            if v: r[m] = v
            else: r.pop(m, None)
        return El(self.F, r)
    __radd__ = __add__
    def __neg__(self): return El(self.F, {m: self.F.p - c for m, c in self.d.items()})
    def __sub__(self, o):
        o = self._c(o); p = self.F.p; r = dict(self.d)
        for m, c in o.d.items():
            v = (r.get(m, 0) - c) % p
            if v: r[m] = v
            else: r.pop(m, None)
        return El(self.F, r)
    def __rsub__(self, o): return self._c(o) - self
    def __mul__(self, o):
        p = self.F.p
        if isinstance(o, int):
            o %= p
            return El(self.F, {m: c * o % p for m, c in self.d.items()} if o else {})
        if not isinstance(o, El): return NotImplemented
        r = {}
        for m, c in self.d.items():
            for n, d in o.d.items():
                k = tuple(sorted(m + n)) if m and n else m or n
                r[k] = r.get(k, 0) + c * d
        return El(self.F, {k: v % p for k, v in r.items() if v % p})
    __rmul__ = __mul__
    def __eq__(self, o): return self.d == self._c(o).d
    def isconst(self): return not self.d or list(self.d) == [()]
    def int(self):
        assert self.isconst(); return self.d.get((), 0)
    def zero(self): return not self.d
    def inv(self): return self.F.el(pow(self.int(), -1, self.F.p))
    def subst(self, m):
        """replace atoms by elements"""
        r = self.F.el(0); cache = {}
        for mono, c in self.d.items():
            t = self.F.el(c)
            for a in mono: t = t * (m[a] if a in m else self.F.var(a))
            r = r + t
        return r
    def ev(self, env):
        p = self.F.p; r = 0
        for mono, c in self.d.items():
            for a in mono: c = c * env[a] % p
            r += c
        return r % p
    def atoms(self): return {a for m in self.d for a in m}
    def __repr__(self): return 'El(%d terms)' % len(self.d)
    # common interface of all levels
    def comps(self): return [self]

class Tup:
    n = 0
    def __init__(self, *c): self.c = tuple(c)
    def __add__(self, o): return type(self)(*[x + y for x, y in zip(self.c, o.c)])
    def __sub__(self, o): return type(self)(*[x - y for x, y in zip(self.c, o.c)])
    def __neg__(self): return type(self)(*[-x for x in self.c])
    def __eq__(self, o): return all(x == y for x, y in zip(self.c, o.c))
    def scale(self, k): return type(self)(*[x * k if isinstance(x, El) else x.scale(k) for x in self.c])
    def comps(self): return [q for x in self.c for q in x.comps()]
    def zero(self): return all(x.zero() for x in self.c)
    def subst(self, m): return type(self)(*[x.subst(m) for x in self.c])
    @property
    def F(self): return self.c[0].F
    def __repr__(self): return '%s%r' % (type(self).__name__, self.c)

class T2(Tup):
    def __mul__(self, o):
        if isinstance(o, (int, El)): return self.scale(o)
        a, b = self.c; c, d = o.c
        return T2(a * c - b * d, a * d + b * c)
    __rmul__ = __mul__
    def conj(self): return T2(self.c[0], -self.c[1])
    def inv(self):
        a, b = self.c; n = (a * a + b * b).inv(); return T2(a * n, -b * n)
    def mulxi(self): return self * xi2(self.F)
def xi2(F): return T2(F.el(F.xi[0]), F.el(F.xi[1]))
class T6(Tup):
    def __mul__(self, o):
        if isinstance(o, (int, El, T2)): return T6(*[x * o for x in self.c])
        a = self.c; b = o.c; r = [None] * 5
        for i in range(3):
            for j in range(3):
                t = a[i] * b[j]; r[i + j] = t if r[i + j] is None else r[i + j] + t
        return T6(r[0] + r[3].mulxi(), r[1] + r[4].mulxi(), r[2])
    def mulv(self): return T6(self.c[2].mulxi(), self.c[0], self.c[1])
    def inv(self):
        a, b, c = self.c
        A = a * a - (b * c).mulxi(); B = (c * c).mulxi() - a * b; C = b * b - a * c
        n = (a * A + (c * B).mulxi() + (b * C).mulxi()).inv()
        return T6(A * n, B * n, C * n)
class T12(Tup):
    def __mul__(self, o):
        if isinstance(o, (int, El)): return self.scale(o)
        a, b = self.c; c, d = o.c
        return T12(a * c + (b * d).mulv(), a * d + b * c)
    def conj(self): return T12(self.c[0], -self.c[1])
    def inv(self):
        a, b = self.c; n = (a * a - (b * b).mulv()).inv(); return T12(a * n, -(b * n))

def make(kind, comps):
    comps = list(comps)
    if kind == 'Fp': return comps[0]
    if kind == 'Fp2': return T2(*comps)
    if kind == 'Fp6': return T6(*[T2(*comps[2*i:2*i+2]) for i in range(3)])
    if kind == 'Fp12': return T12(make('Fp6', comps[:6]), make('Fp6', comps[6:]))
    raise ValueError(kind)
NCOMP = {'Fp': 1, 'Fp2': 2, 'Fp6': 6, 'Fp12': 12}
def power(x, n, one):
    r = one
    while n:
        if n & 1: r = r * x
        x = x * x; n >>= 1
    return r
def one(kind, F): return make(kind, [F.el(1)] + [F.el(0)] * (NCOMP[kind] - 1))
