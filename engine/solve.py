"""Concrete values that satisfy the facts of a failing path of the field-level domain (ring.Ring): used to build the operands with
which a refutation is replayed natively.  Elements are pairs (a, b) = a + b u over F_p (b = 0 when K = F_p), u^2 = -1."""
U = -1
class Fq:
    def __init__(self, p, ext): self.p, self.ext, self.q = p, ext, p * p if ext else p
    def add(self, a, b): return ((a[0] + b[0]) % self.p, (a[1] + b[1]) % self.p)
    def sub(self, a, b): return ((a[0] - b[0]) % self.p, (a[1] - b[1]) % self.p)
    def mul(self, a, b):
        if not a[1] and not b[1]: return (a[0] * b[0] % self.p, 0)
        return ((a[0] * b[0] - a[1] * b[1]) % self.p, (a[0] * b[1] + a[1] * b[0]) % self.p)
    def inv(self, a):
        k = pow(a[0] * a[0] + a[1] * a[1], -1, self.p); return (a[0] * k % self.p, -a[1] * k % self.p)
    def pw(self, a, n):
        if n < 0: a, n = self.inv(a), -n
        r = (1, 0)
        for b in bin(n)[2:]:
            r = self.mul(r, r)
            if b == '1': r = self.mul(r, a)
        return r
    def rnd(self, rng): return (rng.randrange(self.p), rng.randrange(self.p) if self.ext else 0)
    # polynomials: lists of coefficients, lowest first
    def trim(self, f):
        while f and f[-1] == (0, 0): f.pop()
        return f
    def rem(self, f, g):
        f = list(f); ig = self.inv(g[-1]); n = len(g)
        while len(f) >= n:
            c = self.mul(f[-1], ig)
            if c != (0, 0):
                for i in range(n): f[len(f) - n + i] = self.sub(f[len(f) - n + i], self.mul(c, g[i]))
            f.pop()
        return self.trim(f)
    def div(self, f, g):
        f = list(f); ig = self.inv(g[-1]); n = len(g); r = []
        while len(f) >= n:
            c = self.mul(f[-1], ig); r.append(c)
            for i in range(n): f[len(f) - n + i] = self.sub(f[len(f) - n + i], self.mul(c, g[i]))
            f.pop()
        return self.trim(r[::-1])
    def gcd(self, f, g):
        while g: f, g = g, self.rem(f, g)
        return f
    def mulmod(self, f, g, m):
        r = [(0, 0)] * (len(f) + len(g) - 1) if f and g else []
        for i, a in enumerate(f):
            if a != (0, 0):
                for j, b in enumerate(g): r[i + j] = self.add(r[i + j], self.mul(a, b))
        return self.rem(r, m)
    def powmod(self, f, n, m):
        r = [(1, 0)]
        for b in bin(n)[2:]:
            r = self.mulmod(r, r, m)
            if b == '1': r = self.mulmod(r, f, m)
        return r
    def root(self, f, rng):
        """a root of f in the field or None"""
        f = self.trim(list(f))
        if len(f) < 2: return None
        if len(f) > 2:
            h = self.powmod([(0, 0), (1, 0)], self.q, f); h = h + [(0, 0)] * (2 - len(h)); h[1] = self.sub(h[1], (1, 0))
            f = self.gcd(f, self.trim(h))
        for _ in range(60):
            if len(f) < 2: return None
            if len(f) == 2: return self.mul(self.sub((0, 0), f[0]), self.inv(f[1]))
            h = self.powmod([self.rnd(rng), (1, 0)], (self.q - 1) // 2, f) or [(0, 0)]
            h = list(h); h[0] = self.sub(h[0], (1, 0)); g = self.gcd(f, self.trim(h))
            if 1 < len(g) < len(f):
                o = self.div(f, g); f = min(g, o, key=len) if len(o) > 1 else g
        return None

def facts(d, atoms):
    """what the path assumed: polynomials that are zero, and components that are zero.  atoms: numbers of the operand atoms"""
    C = d.C; z = []
    for a, e in d.sub.items():
        if a in atoms: q = dict(e.d); q = {m: -c for m, c in q.items()}; q[(a,)] = q.get((a,), 0) + 1; z.append((q, None))
    z += [(dict(e.d), None) for e in d.zero_]
    z += [(dict(e.d), i) for e, i, v in d.cz if v]
    ok = lambda q: all(x == U or x in atoms or C.invof.get(x) in atoms for m in q for x in m)
    return [t for t in z if ok(t[0])], dict(C.invof)

def value(K, q, val, invof):
    r = (0, 0)
    for m, c in q.items():
        t = (c % K.p, 0)
        for x in m:
            if x == U: t = K.mul(t, (0, 1))
            elif x in val: t = K.mul(t, val[x])
            else: t = K.mul(t, K.inv(val[invof[x]]))
        r = K.add(r, t)
    return r

def satisfy(K, fs, val, order, rng, fix=lambda a, val: True, fixed=()):
    """val: atom -> element; changes it until the facts hold (True) or gives up (False).  order: atoms that may be changed;
    fix(a, val) restores the relations of the operands after a change of a"""
    zs, invof = fs
    try:
        for rnd in range(3):
            bad = [(q, i) for q, i in zs if (value(K, q, val, invof) if i is None else (value(K, q, val, invof)[i], 0)) != (0, 0)]
            if not bad: return True
            for q, i in bad:
                at = [a for a in order if any(x == a or invof.get(x) == a for m in q for x in m)]; rng.shuffle(at)
                for a in at:
                    co = {}
                    for m, c in q.items():
                        k = sum(x == a for x in m) - sum(x not in val and invof.get(x) == a for x in m); t = (c % K.p, 0)
                        for x in m:
                            if x == U: t = K.mul(t, (0, 1))
                            elif x == a or x not in val and invof.get(x) == a: continue
                            elif x in val: t = K.mul(t, val[x])
                            else: t = K.mul(t, K.inv(val[invof[x]]))
                        co[k] = K.add(co.get(k, (0, 0)), t)
                    lo = min(co); f = [co.get(j, (0, 0)) for j in range(lo, max(co) + 1)]
                    if i is not None:      # one component of the value is zero: any value of the other
                        r = rng.randrange(K.p); j = -lo
                        if j < 0: f = [(0, 0)] * -j + f; j = 0
                        f += [(0, 0)] * (j + 1 - len(f)); f[j] = K.sub(f[j], (0, r) if i == 0 else (r, 0))
                    x = K.root(f, rng)
                    if x is None: continue
                    old = dict(val); val[a] = x
                    if fix(a, val): break
                    val.clear(); val.update(old)
        return all((value(K, q, val, invof) if i is None else (value(K, q, val, invof)[i], 0)) == (0, 0) for q, i in zs)
    except (ValueError, KeyError): return False
