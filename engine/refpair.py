"""Slow reference on plain integers: F_p2, F_p12 = F_p2[w]/(w^6 - xi), the twist, the optimal ate pairing.  Written from the
mathematical definitions; used only to judge native runs."""
class R:
    def __init__(self, cfg):
        self.p, self.r, self.z, self.xi, self.b = cfg.p, cfg.r, cfg.z, cfg.F.xi, cfg.b
        self.N = self.p ** 12 - 1
    # F_p2
    def m2(self, a, b):
        p = self.p; x, y = a; u, v = b; return ((x * u - y * v) % p, (x * v + y * u) % p)
    def a2(self, a, b): return ((a[0] + b[0]) % self.p, (a[1] + b[1]) % self.p)
    def s2(self, a, b): return ((a[0] - b[0]) % self.p, (a[1] - b[1]) % self.p)
    def i2(self, a):
        n = pow(a[0] * a[0] + a[1] * a[1], -1, self.p); return (a[0] * n % self.p, -a[1] * n % self.p)
    # F_p12: six coefficients of w^0..w^5
    def m12(self, a, b):
        p = self.p; xa, xb = self.xi; re = [0] * 11; im = [0] * 11
        for i, (x, y) in enumerate(a):
            if x or y:
                for j, (u, v) in enumerate(b): re[i + j] += x * u - y * v; im[i + j] += x * v + y * u
        for k in range(6, 11):
            re[k - 6] += re[k] * xa - im[k] * xb; im[k - 6] += re[k] * xb + im[k] * xa
        return [(re[k] % p, im[k] % p) for k in range(6)]
    def conj(self, a): return [c if k % 2 == 0 else (-c[0] % self.p, -c[1] % self.p) for k, c in enumerate(a)]
    def one(self): return [(1, 0)] + [(0, 0)] * 5
    def pow(self, a, n):
        if n < 0: n %= self.N
        r = self.one()
        for c in bin(n)[2:]:
            r = self.m12(r, r)
            if c == '1': r = self.m12(r, a)
        return r
    def inv(self, a): return self.pow(a, self.N - 1)
    POS = [0, 2, 4, 1, 3, 5]
    def from_flat(self, v):
        """12 integers in memory order -> coefficients of w"""
        r = [None] * 6
        for i, k in enumerate(self.POS): r[k] = (v[2 * i] % self.p, v[2 * i + 1] % self.p)
        return r
    def to_flat(self, a): return [x for k in self.POS for x in a[k]]
    # twist: y^2 = x^3 + b/xi, affine; None is infinity
    def tadd(self, P, Q):
        if P is None: return Q
        if Q is None: return P
        p = self.p
        if P[0] == Q[0]:
            if self.a2(P[1], Q[1]) == (0, 0): return None
            l = self.m2(self.m2((3, 0), self.m2(P[0], P[0])), self.i2(self.m2((2, 0), P[1])))
        else: l = self.m2(self.s2(Q[1], P[1]), self.i2(self.s2(Q[0], P[0])))
        x = self.s2(self.s2(self.m2(l, l), P[0]), Q[0])
        return (x, self.s2(self.m2(l, self.s2(P[0], x)), P[1]))
    def tmul(self, P, n):
        r = None
        if n < 0: n = -n; P = (P[0], (-P[1][0] % self.p, -P[1][1] % self.p))
        for c in bin(n)[2:]:
            r = self.tadd(r, r)
            if c == '1': r = self.tadd(r, P)
        return r
    def cadd(self, P, Q):
        e = lambda A: None if A is None else ((A[0], 0), (A[1], 0))
        r = self.tadd(e(P), e(Q)); return None if r is None else (r[0][0], r[1][0])
    def cmul(self, P, n):
        r = self.tmul(None if P is None else ((P[0], 0), (P[1], 0)), n); return None if r is None else (r[0][0], r[1][0])
    def cpow2(self, a, n):
        r = (1, 0)
        for c in bin(n)[2:]:
            r = self.m2(r, r)
            if c == '1': r = self.m2(r, a)
        return r
    def line(self, A, B, P):
        """the line through psi(A), psi(B) (tangent when equal) at P, up to a factor in F_p2* <w>:
        psi(x, y) = (x w^2, y w^3);  y_P - y w^3 - l w (x_P - x w^2)"""
        if A[0] == B[0] and A[1] == B[1]: l = self.m2(self.m2((3, 0), self.m2(A[0], A[0])), self.i2(self.m2((2, 0), A[1])))
        else: l = self.m2(self.s2(B[1], A[1]), self.i2(self.s2(B[0], A[0])))
        c = self.s2(self.m2(l, A[0]), A[1])
        k = self.m2(l, ((-P[0]) % self.p, 0))
        return [(P[1] % self.p, 0), k, (0, 0), c, (0, 0), (0, 0)]
    def frob(self, Q, k):
        """pi_p^k through the twist isomorphism"""
        x, y = Q; q = self.p ** k
        if k & 1: x, y = (x[0], -x[1] % self.p), (y[0], -y[1] % self.p)
        return (self.m2(x, self.cpow2(self.xi, (q - 1) // 3)), self.m2(y, self.cpow2(self.xi, (q - 1) // 2)))
    def miller(self, Q, P):
        n = 6 * self.z + 2; T = Q; f = self.one()
        for c in bin(abs(n))[3:]:
            f = self.m12(self.m12(f, f), self.line(T, T, P)); T = self.tadd(T, T)
            if c == '1': f = self.m12(f, self.line(T, Q, P)); T = self.tadd(T, Q)
        neg = lambda A: (A[0], (-A[1][0] % self.p, -A[1][1] % self.p))
        if n < 0: f = self.conj(f); T = neg(T)
        Q1, Q2 = self.frob(Q, 1), neg(self.frob(Q, 2))
        f = self.m12(f, self.line(T, Q1, P)); T = self.tadd(T, Q1)
        return self.m12(f, self.line(T, Q2, P))
    def expo(self):
        p, z = self.p, self.z
        h = p ** 3 * (12 * z ** 3 + 6 * z ** 2 + 4 * z - 1) + p ** 2 * (12 * z ** 3 + 6 * z ** 2 + 6 * z) + p * (12 * z ** 3 + 6 * z ** 2 + 4 * z) + 12 * z ** 3 + 12 * z ** 2 + 6 * z + 1
        return (p ** 6 - 1) * (p * p + 1) * h % self.N
    def pairing(self, Q, P):
        if Q is None or P is None: return self.one()
        return self.pow(self.miller(Q, P), self.expo())
    def g2(self, P): 
        """a point of order r from a point of the twist"""
        return self.tmul(P, 2 * self.p - self.r)
