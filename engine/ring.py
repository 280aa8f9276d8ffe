"""Field-level domain: a field element in memory is a token (its limbs are opaque) whose value is a
polynomial over *atoms* of an arbitrary field K (K = F_p, or K = F_p2 with u^2 = -1).  The base
operations are replaced by the specifications that the limb-level checks decide (C01-C06), so the
C++ formulas above them are executed symbolically for every field element.  Branches on "is zero" / "is equal" fork;
each branch records what it assumed (relations and non-zero facts)."""
import re, subprocess
import limb
from limb import KINDS, CW, size
from x86 import Unsupported, PathEnd, Exec, Part
import tower
from poly import Fork, Cond
ARGR = [7, 6, 2, 1, 8, 9]
CALLER = [0, 1, 2, 6, 7, 8, 9, 10, 11]
U = -1     # atom of the imaginary unit

def lead(m):
    n = m[1:] if m and m[0] == U else m
    return (len(n), n, len(m))

class Ctx:
    """field and atoms; inv pairs: atom a and its inverse atom"""
    def __init__(self, F, ext):
        self.F, self.p, self.ext = F, F.p, ext
        self.names = []; self.invof = {}
    def atom(self, nm):
        self.names.append(nm); return Q(self, {(len(self.names) - 1,): 1})
    def el(self, v): v %= self.p; return Q(self, {(): v} if v else {})
    def k(self, a, b=0):
        d = {}
        if a % self.p: d[()] = a % self.p
        if b % self.p: d[(U,)] = b % self.p
        return Q(self, d)
    def inverse(self, i):
        if i not in self.invof:
            self.names.append(self.names[i] + "^-1"); j = len(self.names) - 1
            self.invof[i] = j; self.invof[j] = i
        return self.invof[i]

class Q:
    __slots__ = ('C', 'd')
    def __init__(self, C, d): self.C, self.d = C, d
    def _c(self, o):
        if isinstance(o, Q): return o
        if isinstance(o, int): return self.C.el(o)
        if isinstance(o, tower.El): return self.C.el(o.int())
        raise Unsupported('mixed operand %s' % type(o).__name__)
    def __add__(self, o, k=1):
        if isinstance(o, Comp): return o + self if k == 1 else -o + self
        o = self._c(o); p = self.C.p; r = dict(self.d)
        for m, c in o.d.items():
            v = (r.get(m, 0) + k * c) % p
            if v: r[m] = v
            else: r.pop(m, None)
        return Q(self.C, r)
    __radd__ = __add__
    def __sub__(self, o): return self.__add__(o, -1)
    def __rsub__(self, o): return -self + o
    def __neg__(self): return Q(self.C, {m: self.C.p - c for m, c in self.d.items()})
    def __mul__(self, o):
        if isinstance(o, Comp): return o * self
        o = self._c(o); p = self.C.p; inv = self.C.invof; r = {}
        for m, c in self.d.items():
            for n, e in o.d.items():
                v = c * e
                if m and n:
                    k = list(m + n); k.sort()
                    while len(k) > 1 and k[0] == U and k[1] == U: del k[:2]; v = -v
                    if inv:
                        i = 0
                        while i < len(k):
                            j = inv.get(k[i])
                            if j is not None and j in k: k.remove(j); k.remove(inv[j]); i = 0
                            else: i += 1
                    k = tuple(k)
                else: k = m or n
                r[k] = r.get(k, 0) + v
        return Q(self.C, {k: v % p for k, v in r.items() if v % p})
    __rmul__ = __mul__
    def mulxi(self): return self * self.C.k(*self.C.F.xi)
    def conj(self): raise Unsupported('conjugate')
    def isconst(self): return all(m in ((), (U,)) for m in self.d)
    def const_(self, i): return self.d.get(((), (U,))[i], 0)
    def const(self): return self.d.get((), 0), self.d.get((U,), 0)
    def key(self): return tuple(sorted(self.d.items()))
    def __eq__(self, o): return isinstance(o, Q) and self.d == o.d
    __hash__ = None
    def pw(self, n):
        r = self.C.el(1)
        for _ in range(n): r = r * self
        return r
    def __repr__(self):
        nm = lambda a: 'u' if a == U else self.C.names[a]
        return ' + '.join('%d%s' % (c if c < self.C.p // 2 else c - self.C.p, ''.join('*' + nm(a) for a in m)) for m, c in list(self.d.items())[:10]) or '0'
    @property
    def c(self): return (comp(self, 0), comp(self, 1))
    def comps(self): return [self]

def comp(E, i):
    if E.isconst(): return E.C.el(E.const()[i])
    return Comp(E, i)
class Comp:
    """component i of an element of F_p2, an element of F_p"""
    __slots__ = ('E', 'i')
    def __init__(self, E, i): self.E, self.i = E, i
    def _lift(self, o):
        if isinstance(o, int): o = self.E.C.el(o)
        if isinstance(o, tower.El): o = self.E.C.el(o.int())
        if isinstance(o, Q) and o.isconst() and not o.const()[1]: return o if self.i == 0 else o * self.E.C.k(0, 1)
        if isinstance(o, Comp) and o.i == self.i: return o.E
        raise Unsupported('components of different positions')
    def __add__(self, o): return comp(self.E + self._lift(o), self.i)
    __radd__ = __add__
    def __sub__(self, o): return comp(self.E - self._lift(o), self.i)
    def __neg__(self): return Comp(-self.E, self.i)
    def __mul__(self, o):
        if isinstance(o, int) or isinstance(o, tower.El): return comp(self.E * o, self.i)
        if isinstance(o, Q) and o.isconst() and not o.const()[1]: return comp(self.E * o, self.i)
        raise Unsupported('product of components')
    __rmul__ = __mul__
    def comps(self): return [self]
    def key(self): return (self.i, self.E.key())

class Wd:
    """limb i of an element"""
    __slots__ = ('v', 'i')
    def __init__(self, v, i): self.v, self.i = v, i
class Un:
    __slots__ = ('nm',)
    def __init__(self, nm): self.nm = nm
class OrT:
    __slots__ = ('ws',)
    def __init__(self, ws): self.ws = ws

class Ring:
    def __init__(self, C):
        self.C = C; self.p = C.p
        self.sub = {}        # atom -> Q
        self.zero_ = []      # polynomials known to be 0
        self.nz = []         # polynomials known to be nonzero
        self.cz = []         # (E, component, is it zero)
        self.log = []
    def clone(self):
        d = Ring.__new__(Ring); d.__dict__.update(self.__dict__)
        d.sub = dict(self.sub); d.zero_ = list(self.zero_); d.nz = list(self.nz); d.cz = list(self.cz); d.log = list(self.log)
        return d
    # ---- facts
    def norm(self, e):
        """normal form of an element under the facts"""
        if isinstance(e, Comp): return comp(self.norm(e.E), e.i)
        if self.sub and any(a in self.sub for m in e.d for a in m):
            r = self.C.el(0)
            for m, c in e.d.items():
                t = Q(self.C, {(): c})
                for a in m: t = t * (self.sub[a] if a in self.sub else Q(self.C, {(a,): 1}))
                r = r + t
            e = r
        if self.zero_: e = Q(self.C, self.rem(e.d))
        return e
    def rem(self, a):
        p = self.p; a = dict(a); r = {}
        ds = []
        for z in self.zero_:
            if z.d:
                lm = max(z.d, key=lead); ds.append((lm, z))
        steps = 0
        while a:
            m = max(a, key=lead); c = a[m]
            for lm, z in ds:
                q = list(m); ok = U not in lm
                for x in lm:
                    if x in q: q.remove(x)
                    else: ok = False; break
                if ok:
                    t = z * Q(self.C, {tuple(q): c * pow(z.d[lm], -1, p) % p})
                    for mm, cc in t.d.items():
                        v = (a.get(mm, 0) - cc) % p
                        if v: a[mm] = v
                        else: a.pop(mm, None)
                    steps += 1
                    if steps > 200000: raise Unsupported('division budget')
                    break
            else:
                r[m] = c; a.pop(m)
        return r
    def known(self, e):
        """True: zero, False: nonzero, None: not determined"""
        if isinstance(e, Comp):
            E = self.norm(e.E)
            if E.isconst(): return not E.const()[e.i]
            q = self.pair(E, e.i); n = -q
            for k, j, v in self.cz:
                if j == e.i and (k.d == q.d or k.d == n.d): return v
            c = self.partner(E, e.i)
            if c is not None:
                t = self.known(c)
                if t is not None: return t
            elif self.known(E) is True: return True
            return None
        e = self.norm(e)
        if not e.d: return True
        if e.isconst(): return False
        for _ in range(60):
            if e.isconst(): return False
            for n in self.nz:
                q = self.divide(e, self.norm(n))
                if q is not None: e = q; break
            else: break
        return None
    def divide(self, a, b):
        """exact quotient or None"""
        if not b.d: return None
        p = self.p; b = self.monic(b)
        if b.isconst(): return None
        lm = max(b.d, key=lead); ic = pow(b.d[lm], -1, p)
        if U in lm: return None
        r = dict(a.d); q = {}
        n = 0
        while r:
            m = max(r, key=lead); t = list(m)
            for x in lm:
                if x in t: t.remove(x)
                else: return None
            c = r[m] * ic % p; t = tuple(t); q[t] = (q.get(t, 0) + c) % p
            for mm, cc in (b * Q(self.C, {t: c})).d.items():
                v = (r.get(mm, 0) - cc) % p
                if v: r[mm] = v
                else: r.pop(mm, None)
            n += 1
            if n > 3000: return None
        return Q(self.C, q)
    def set_zero(self, e):
        if isinstance(e, Comp): raise Unsupported('component relation')
        e = self.norm(e); self.log.append('%r = 0' % e)
        if not e.d: return True
        if e.isconst(): return False
        # divide out the nonzero factors
        for _ in range(60):
            for n in self.nz:
                q = self.divide(e, self.norm(n))
                if q is not None: e = q; break
            else: break
        if e.isconst(): return False
        for m, c in sorted(e.d.items(), reverse=True):
            if len(m) == 1 and m[0] != U and all(m[0] not in k for k in e.d if k != m) and m[0] not in self.C.invof:
                r = Q(self.C, {k: v for k, v in e.d.items() if k != m}) * (-pow(c, -1, self.p) % self.p)
                self.sub = {a: Q(self.C, self._s1(x, m[0], r)) for a, x in self.sub.items()}
                self.sub[m[0]] = r
                return self.refacts()
        e = self.monic(e)
        self.zero_.append(e)
        return self.refacts()
    def monic(self, e):
        m = max(e.d, key=lead); n = m[1:] if m and m[0] == U else m
        a, b = e.d.get(n, 0), e.d.get((U,) + n, 0)
        k = pow(a * a + b * b, -1, self.p)
        return e * self.C.k(a * k, -b * k)
    def _s1(self, x, a, r):
        o = self.C.el(0)
        for m, c in x.d.items():
            t = Q(self.C, {(): c})
            for b in m: t = t * (r if a == b else Q(self.C, {(b,): 1}))
            o = o + t
        return o.d
    def set_nonzero(self, e):
        e = self.norm(e); self.log.append('%r != 0' % e)
        if not e.d: return False
        if not e.isconst(): self.nz.append(e)
        return True
    # ---- executor interface
    def rd(self, v): return v
    def undef(self, nm): return Un(nm)
    def on_store(self, st, a, v): pass
    def flag_dead(self, c): pass
    def logic(self, k, a, b, w):
        if isinstance(a, (int, Part, Un)) and isinstance(b, (int, Part, Un)):
            f = lambda x: (x, (1 << w) - 1) if isinstance(x, int) else (x.v, x.m) if isinstance(x, Part) else (0, 0)
            (x, m), (y, n) = f(a), f(b)
            v, q = (x ^ y, m & n) if k == 'xor' else (x & y, m & n | m & ~x | n & ~y) if k == 'and' else (x | y, m & n | m & x | n & y)
            q &= (1 << w) - 1; v &= q
            return v if q == (1 << w) - 1 else Part(v, q) if q else Un('logic')
        if k == 'or':
            ws = []
            for x in (a, b):
                if isinstance(x, int):
                    if x: raise Unsupported('or with a constant')
                elif isinstance(x, OrT): ws += x.ws
                elif isinstance(x, Wd): ws.append(x)
                else: raise Unsupported('or of %s' % type(x).__name__)
            return OrT(ws)
        raise Unsupported('logic ' + k)
    def subb(self, a, b, cin, w):
        if isinstance(b, int) and b == 0 and isinstance(a, OrT): return a, None
        raise Unsupported('arithmetic on a field element')
    def insert(self, old, v, off, n):
        mk = (1 << n) - 1 << off
        if not isinstance(v, (int, Un)): raise Unsupported('partial write of %s' % type(v).__name__)
        ov, om = (old, (1 << 64) - 1) if isinstance(old, int) else (old.v, old.m) if isinstance(old, Part) else (0, 0)
        if isinstance(v, Un): om &= ~mk; ov &= om
        else: ov = ov & ~mk | v << off; om |= mk
        return ov if om == (1 << 64) - 1 else Part(ov, om) if om else Un('part')
    insert_any = insert
    def extract(self, v, off, n):
        if isinstance(v, Part):
            mk = (1 << n) - 1 << off
            return (v.v & mk) >> off if v.m & mk == mk else Part((v.v & mk) >> off, (v.m & mk) >> off) if v.m & mk else Un('part')
        if isinstance(v, Un): return v
        raise Unsupported('extract of %s' % type(v).__name__)
    def zext(self, v, w):
        m = (1 << w) - 1; x, k = (v.v & m, v.m & m) if isinstance(v, Part) else (0, 0)
        if not isinstance(v, (Part, Un)): raise Unsupported('zext of %s' % type(v).__name__)
        return Part(x, k | (1 << 64) - 1 ^ m)
    def zext_to(self, v, w, to): return self.zext(v, w)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('operation ' + n)
    def zero(self, f):
        v = f.res
        if isinstance(v, OrT):
            vs = {}
            for w in v.ws: vs.setdefault(id(w.v), (w.v, set()))[1].add(w.i)
            if all(len(s) == 4 for _, s in vs.values()): return Cond('allzero', [x for x, _ in vs.values()])
        raise Unsupported('zero test of %s' % type(v).__name__)
    def bnot(self, c): return (not c) if isinstance(c, bool) else Cond(c.kind, c.a, not c.neg)
    def decide(self, c):
        ks = [self.known(e) for e in c.a]
        if any(k is False for k in ks): return c.neg
        if all(k is True for k in ks): return not c.neg
        return None
    def split(self, e):
        """list of assumptions (fn(dom) -> feasible) deciding whether e is zero"""
        if isinstance(e, Comp):
            E, i = self.norm(e.E), e.i
            return [lambda d, v=v: d.set_cz(E, i, v) for v in (True, False)]
        return [lambda d: d.set_zero(e), lambda d: d.set_nonzero(e)]
    def pair(self, E, i):
        """E without its constant term in the other component"""
        d = dict(E.d); d.pop(() if i else (U,), None)
        return Q(self.C, d)
    def partner(self, E, i):
        """the element whose component i is that of E and whose other component is known to be zero"""
        base = dict(E.d); base.pop((), None); base.pop((U,), None); base = Q(self.C, base); n = -base
        for o, j, v in self.cz:
            if j == 1 - i and v:
                r = dict(o.d); r.pop((), None); r.pop((U,), None)
                if r == n.d: o = -o; r = base.d
                if r == base.d: return base + self.C.k(*((E.const_(0), o.const_(1)) if i == 0 else (o.const_(0), E.const_(1))))
        return None
    def set_cz(self, E, i, v):
        self.log.append('component %d of %r %s 0' % (i, E, '=' if v else '!='))
        c = self.partner(E, i)
        if c is not None: return self.set_zero(c) if v else self.set_nonzero(c)
        self.cz.append((self.pair(E, i), i, v))
        if not v: self.set_nonzero(E)
        return True
    def refacts(self):
        """after a new relation: every recorded fact in normal form; False if one is violated"""
        old, self.cz = self.cz, []
        for o, i, v in old:
            q = self.norm(o)
            if q.isconst():
                if (not q.const()[i]) != v: return False
                continue
            self.cz.append((self.pair(q, i), i, v))
        return all(self.norm(n).d for n in self.nz)
    def assume(self, c, val, st):
        # reached only for undecided conditions: ask for a case split on the first undetermined element
        for e in c.a:
            if self.known(e) is None: raise Fork([lambda s2, f=f: f(s2.dom) for f in self.split(e)])
        raise Unsupported('assume')
    def ite(self, c, a, b, w, st=None):
        for e in c.a:
            if self.known(e) is None: raise Fork([lambda s2, f=f: f(s2.dom) for f in self.split(e)])
        return a if self.decide(c) else b
    def b2v(self, c, w):
        t = self.decide(c)
        if t is not None: return int(t)
        self.assume(c, True, None)
    # ---- elements in memory
    def words(self, e):
        e = self.norm(e)
        if isinstance(e, Q) and (e.isconst() and not e.const()[1]):
            v = e.const()[0] * self.C.F.R % self.p
            return [v >> 64 * j & (1 << 64) - 1 for j in range(4)]
        if isinstance(e, Q) and self.C.ext: raise Unsupported('element of the wrong field')
        return [Wd(e, j) for j in range(4)]
    def read(self, s, a):
        ws = [s.load(a + 8 * j) for j in range(4)]
        if all(isinstance(w, int) for w in ws):
            v = sum(w << 64 * j for j, w in enumerate(ws))
            if v >= self.p: raise Unsupported('unreduced constant')
            return self.C.el(v * self.C.F.Ri)
        if all(isinstance(w, Wd) for w in ws) and [w.i for w in ws] == [0, 1, 2, 3] and all(w.v is ws[0].v for w in ws): return self.norm(ws[0].v)
        raise Unsupported('not a field element')
    def read_obj(self, s, a, k):
        es = [self.read(s, a + 32 * i) for i in range(len(KINDS[k]))]
        if k == 'Fp': return es[0]
        if not self.C.ext: return limb.build_value(k, es)
        r = [self.join(es[i], es[i + 1]) for i in range(0, len(es), 2)]
        if k == 'Fp6': return tower.T6(*r)
        if k == 'Fp12': return tower.T12(tower.T6(*r[:3]), tower.T6(*r[3:]))
        return r[0] if k == 'Fp2' else r
    def join(self, a, b):
        if isinstance(a, Q) and isinstance(b, Q): return a + b * self.C.k(0, 1)
        if isinstance(a, Comp) and isinstance(b, Comp) and a.i == 0 and b.i == 1:
            if a.E == b.E: return a.E
            strip = lambda e: Q(self.C, {m: c for m, c in e.d.items() if m not in ((), (U,))})
            x, y = self.norm(a.E), self.norm(b.E)
            if strip(x) == strip(y): return strip(x) + self.C.k(x.const_(0), y.const_(1))
        raise Unsupported('components do not form an element')
    def write_obj(self, s, a, v):
        if isinstance(v, (list, tuple)):
            for x in v: a = self.write_obj(s, a, x)
            return a
        if isinstance(v, tower.Tup): return self.write_obj(s, a, list(v.c))
        if isinstance(v, tower.El): v = self.C.el(v.int())
        if isinstance(v, Q) and self.C.ext and not isinstance(v, Comp): v = self.norm(v); es = v.c
        else: es = (v,)
        for e in es:
            for w in self.words(e): s.mem[a] = w; s.writes.add(a); a += 8
        return a
    def write_fp(self, s, a, e):
        for w in self.words(e): s.mem[a] = w; s.writes.add(a); a += 8

def ret(s, v=None):
    for i in CALLER: s.r[i] = Un('clob')
    s.r[0] = Un('rax') if v is None else v
    s.setfl(None)
    s.pc = s.load(s.r[4]); s.r[4] += 8

def contract(cfg, specs, note):
    """call of a routine with a specification: evaluate the specification on field elements"""
    def hook(s):
        d = s.dom; why = None
        for sp in specs:
            try: ok = apply(s, d, sp)
            except Unsupported as e: ok = str(e)
            if ok is True: break
            why = ok
        else: raise Unsupported('contract of %s: %s' % (specs[0].name, why))
        note.add(sp.name); ret(s)
    def apply(s, d, sp):
        addr = {}
        for i, (n, k, m) in enumerate(sp.args):
            v = s.r[ARGR[i]]
            if k in KINDS:
                if not isinstance(v, int): return 'symbolic pointer'
                addr[n] = v
            elif n in sp.ints and v != sp.ints[n]: return 'integer argument'
        objs = [(n, k) for n, k, m in sp.args if k in KINDS]
        if any(KINDS[k][0][0] != 'F' for n, k in objs): return 'kind'
        outs = {n for n, k in sp.outs()}
        groups = {}
        for n, k in objs: groups.setdefault(addr[n], []).append(n)
        for i, (n, k) in enumerate(objs):
            for m, k2 in objs[i + 1:]:
                a, b = addr[n], addr[m]
                if a != b and a < b + size(k2) and b < a + size(k) and (n in outs or m in outs): return 'partial overlap'
        pat = {frozenset(g) for g in groups.values() if len(g) > 1 and any(n in outs for n in g)}
        if pat and not any({frozenset(g) for g in al if set(g) & outs} == pat for al in sp.patterns()): return 'aliasing'
        env = {n: d.read_obj(s, addr[n], k) for n, k in sp.ins()}
        want = sp.fn(d.C.F, env)
        for n, k in sp.outs():
            if k == 'Fp': d.write_fp(s, addr[n], want[n] if isinstance(want[n], (Q, Comp)) else d.C.el(want[n].int()))
            else: d.write_obj(s, addr[n], want[n])
        return True
    return hook

def short(img):
    """demangled, abbreviated function name -> address"""
    if hasattr(img, '_short'): return img._short
    out = subprocess.run(['nm', '-C', img.exe], capture_output=True, text=True).stdout
    r = {}
    for l in out.splitlines():
        p = l.split(None, 2)
        if len(p) == 3 and p[1] in 'tTwW':
            r.setdefault(abbr(p[2]), int(p[0], 16))
    img._short = r
    return r
def abbr(n):
    n = n.replace('mie::', '').replace('bn::', '').replace('__gmp_expr<__mpz_struct [1], __mpz_struct [1]>', 'mpz')
    n = n.replace('VuintT<local::FixedBuffer<unsigned long, 576ul> >', 'Vuint')
    n = n.replace('VsintT<Vuint >', 'Vsint').replace('Fp2T<Fp>', 'Fp2').replace('Fp6T<Fp2 >', 'Fp6').replace('Fp12T<Fp6 >', 'Fp12')
    n = n.replace('EcT<Fp2 >', 'Ec2').replace('EcT<Fp>', 'Ec1').replace('VsintT<Vuint>', 'Vsint').replace(' >', '>')
    n = n.replace('Fp6T<Fp2>', 'Fp6').replace('Fp12T<Fp6>', 'Fp12').replace('EcT<Fp2>', 'Ec2').replace('CompressT<Fp2>', 'Compress')
    n = n.replace('std::vector<signed char, std::allocator<signed char>>', 'vec8').replace('std::vector<Fp6, std::allocator<Fp6>>', 'vecFp6')
    return re.sub(r'^(void|bool|unsigned long|int) ', '', n)
def find(img, pat):
    """addresses of the functions whose abbreviated name matches the regular expression"""
    return [a for n, a in short(img).items() if re.search(pat, n)]

def plt(img, nm):
    return [a for a, n in img.symname.items() if '@plt' in n and n.strip('<>').split('@')[0] == nm]
def plt_throw(img):
    def h(s): raise PathEnd('throw')
    return {a: h for n in ('__cxa_allocate_exception', '__cxa_throw') for a in plt(img, n)}

def inv_hooks(img, C, note, zeroinv='end'):
    """Fp::inv(out, in), Fp2::inverse(): the result times the operand is one (decided by C03 and C05)"""
    def inverse(s, d, e):
        e = d.norm(e)
        if d.known(e) is True: return C.el(0)      # Fp::inv(0) = 0 (C03), and 0 times anything is 0
        if isinstance(e, Comp): raise Unsupported('inverse of a component')
        if e.isconst():
            a, b = e.const(); n = pow(a * a + b * b, -1, d.p); return C.k(a * n, -b * n)
        if len(e.d) == 1:
            (m, c), = e.d.items()
            if all(a != U for a in m):
                return Q(C, {tuple(sorted(C.inverse(a) for a in m)): pow(c, -1, d.p)})
        r = C.atom('inv(%r)' % e)
        d.zero_.append(d.monic(r * e - 1))
        return r
    def split(s, e, go):
        k = s.dom.known(e)
        if k is None:
            outs = []
            for f in s.dom.split(e):
                t = s.copy()
                if f(t.dom): outs.append(t)
            return outs
        if k is True:
            if zeroinv == 'end': raise PathEnd('inverse of zero')
        go()
    def fpinv(s):
        d = s.dom; z, x = s.r[7], s.r[6]; e = d.read(s, x)
        def go(): note.add('Fp::inv'); d.write_fp(s, z, inverse(s, d, e)); ret(s)
        return split(s, e, go)
    def f2inv(s):
        d = s.dom; z = s.r[7]; e = d.read_obj(s, z, 'Fp2')
        def go(): note.add('Fp2::inverse'); d.write_obj(s, z, inverse(s, d, e)); ret(s)
        return split(s, e, go)
    def cmp_(s):
        d = s.dom; a = d.read(s, s.r[7]); b = d.read(s, s.r[6]); e = a - b
        k = d.known(e)
        if k is None:
            outs = []
            for f in d.split(d.norm(e)):
                t = s.copy()
                if f(t.dom): outs.append(t)
            return outs
        note.add('Fp::compare'); ret(s, 0 if k else 1)
    h = {}
    for a in find(img, r'^Fp::inv\('): h[a] = fpinv
    if C.ext:
        for a in find(img, r'^Fp2::inverse\(\)'): h[a] = f2inv
    for a in find(img, r'^Fp::compare\('): h[a] = cmp_
    return h

def cpp_specs(img, cfg, groups=('fp', 'fpmul', 'fp2', 'fp6')):
    """C++ routines (static functions, methods) decided by their own limb-level obligations: address -> specs"""
    import specs_field as sf
    r = {}
    for g in groups:
        for sp in getattr(sf, g)(cfg):
            m = re.match(r'c:(\w+::\w+)$', sp.name)
            if m and all(c[0] == 'F' for n, k, _ in sp.args for c in KINDS[k]) and not re.search('op[a-z]', sp.name.split('::')[1]):
                for a in find(img, r'^%s\(' % m.group(1)): r.setdefault(a, []).append(sp)
    return r
def hooks(img, cfg, C, specs, note, skip=(), zeroinv='end'):
    by = {}
    for sp in specs:
        if sp.name not in skip: by.setdefault(img.entries[sp.name], []).append(sp)
    h = {a: contract(cfg, v, note) for a, v in by.items()}
    for a, v in cpp_specs(img, cfg).items():
        if not any(sp.name in skip for sp in v): h.setdefault(a, contract(cfg, v, note))
    h.update(inv_hooks(img, C, note, zeroinv)); h.update(plt_throw(img))
    if skip:
        for n in skip: h.pop(img.entries[n], None)
    import contracts
    h.update(contracts.mem_hooks(img))
    return h
