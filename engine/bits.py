"""Words whose bits are constants or literals over independent bits of a scalar, and an executor that merges the two
sides of a branch on one such bit at their first common point.  Objects (points, powers) carry a
multiplicity that is a polynomial over the bits."""
import ring
from absdom import Abs, FC
from ring import Wd, Un
from x86 import Exec, Unsupported, PathEnd, Part
from poly import Cond

class Bits:
    """entries: 0, 1, None (unknown) or (bit, polarity)"""
    __slots__ = ('b',)
    def __init__(self, b): self.b = tuple(b)
    @property
    def w(self): return len(self.b)
    def __repr__(self): return 'Bits(%s)' % ''.join('?' if x is None else str(x) if isinstance(x, int) else '*' for x in reversed(self.b))
def abits(a):
    r = [(('@', a, i), True) for i in range(a.w)]
    if a.sg == -1 and a.k == 0 and a.n.w >= a.w and a.n.b[a.w - 1] == 0 and any(x == 1 and isinstance(x, int) for x in a.n.b): r[-1] = 1
    return r
def num(b):
    """int when all bits are known"""
    b = tuple(b)
    if b and isinstance(b[0], tuple) and isinstance(b[0][0], tuple):      # bits of a signed number put together again
        a = b[0][0][1]
        if len(b) == a.w and list(b) == abits(a): return a
    return sum(x << i for i, x in enumerate(b)) if all(isinstance(x, int) for x in b) else Bits(b)
class Aff:
    """sg * n + k modulo 2^w, n the non-negative number with the given bits (never overflowing as a signed number)"""
    __slots__ = ('sg', 'n', 'k', 'w')
    def __init__(self, sg, n, k, w): self.sg, self.n, self.k, self.w = sg, n, k, w
    def __eq__(self, o): return isinstance(o, Aff) and (self.sg, self.n.b, self.k, self.w) == (o.sg, o.n.b, o.k, o.w)
    def __hash__(self): return hash((self.sg, self.k))
class Split(Unsupported):
    """a test on several bits at once: the driver decides the case in which all of them have the given values, and the other one"""
    def __init__(self, L): Unsupported.__init__(self, 'test of %d bits' % len(L)); self.L = L
def inv(x): return 1 - x if isinstance(x, int) else None if x is None else (x[0], not x[1])

class BitDom(Abs):
    def lst(self, v, w):
        if isinstance(v, int): return [v >> i & 1 for i in range(w)]
        if isinstance(v, Bits): return [v.b[i] if i < v.w else 0 for i in range(w)]
        if isinstance(v, Aff): return abits(v) + [0] * (w - v.w)
        if isinstance(v, Part): return [(v.v >> i & 1) if v.m >> i & 1 else None for i in range(w)]
        if isinstance(v, Un): return [None] * w
        raise Unsupported('bits of %s' % type(v).__name__)
    def is_(self, *v): return any(isinstance(x, Bits) for x in v)
    def aff(self, v, w):
        if isinstance(v, Aff): return v
        if isinstance(v, Bits): return Aff(1, v, 0, w)
        raise Unsupported('arithmetic')
    def mk(self, sg, n, k, w):
        if sg == 1 and k == 0: return n
        return Aff(sg, n, k, w)
    def logic(self, k, a, b, w):
        if isinstance(a, Aff) and isinstance(b, int) or isinstance(b, Aff) and isinstance(a, int):
            if isinstance(b, Aff): a, b = b, a
            if k == 'xor':
                if b == 0: return a
                if b == (1 << w) - 1: return self.bitnot(a, w)
            if k == 'and' and b == (1 << w) - 1 or k == 'or' and b == 0: return a
            raise Unsupported('logic on a signed number')
        if not self.is_(a, b): return Abs.logic(self, k, a, b, w)
        r = []
        for x, y in zip(self.lst(a, w), self.lst(b, w)):
            if isinstance(x, int): x, y = y, x
            if isinstance(y, int):
                r.append({'and': x if y else 0, 'or': 1 if y else x, 'xor': inv(x) if y else x}[k])
            elif x is None or y is None: r.append(None)
            elif x == y: r.append(0 if k == 'xor' else x)
            elif x == inv(y): r.append({'and': 0, 'or': 1, 'xor': 1}[k])
            else: raise Unsupported('logic on two bits')
        return num(r)
    def bitnot(self, a, w):
        if isinstance(a, Aff): return self.mk(-a.sg, a.n, -a.k - 1, a.w)
        if not self.is_(a): return Abs.__getattr__(self, 'bitnot')
        return num(inv(x) for x in self.lst(a, w))
    def shl(self, a, k, w):
        if not isinstance(k, int): raise Unsupported('shift count')
        return num(([0] * k + self.lst(a, w))[:w])
    def shr(self, a, k, w):
        if not isinstance(k, int): raise Unsupported('shift count')
        return num(self.lst(a, w)[k:] + [0] * min(k, w))
    def sar(self, a, k, w):
        if isinstance(a, Aff):
            if k == w - 1 and (a.sg, a.k) == (-1, 0): return (1 << w) - 1
            raise Unsupported('sar')
        b = self.lst(a, w); k = min(k, w - 1); return num(b[k:] + [b[-1]] * k)
    def rol(self, a, k, w): b = self.lst(a, w); return num(b[w - k:] + b[:w - k])
    def shld(self, a, b, k, w): return num((self.lst(b, w) + self.lst(a, w))[w - k:2 * w - k])
    def shrd(self, a, b, k, w): return num((self.lst(a, w) + self.lst(b, w))[k:k + w])
    def shift_cf(self, mn, a, k, w):
        if isinstance(a, Aff): return None
        b = self.lst(a, w)
        if not isinstance(k, int) or not 1 <= k <= w: return None
        return b[k - 1] if mn in ('shr', 'sar') else b[w - k]
    def addc(self, a, b, cin, w):
        if cin == 0 and not isinstance(cin, tuple):
            if isinstance(b, int) and b == 0: return a, 0
            if isinstance(a, int) and a == 0: return b, 0
            if isinstance(a, Bits) and isinstance(b, Bits) and a.b == b.b: return self.shl(a, 1, w), self.lst(a, w)[w - 1]
            if isinstance(a, (Aff, Bits)) and isinstance(b, int):
                f = self.aff(a, w); k = f.k + (b - (1 << w) if b >> (w - 1) else b); return self.mk(f.sg, f.n, k, w), None
            if self.is_(a, b) and not isinstance(a, Aff) and not isinstance(b, Aff):
                x, y = self.lst(a, w), self.lst(b, w)
                if all(p == 0 and isinstance(p, int) or q == 0 and isinstance(q, int) for p, q in zip(x, y)):
                    return num(q if p == 0 and isinstance(p, int) else p for p, q in zip(x, y)), 0
        raise Unsupported('addition')
    def add(self, a, b, w): return self.addc(a, b, 0, w)[0]
    def subb(self, a, b, cin, w):
        if isinstance(cin, int) and cin == 0:
            if isinstance(b, int) and b == 0 and not isinstance(a, ring.OrT): return a, 0
            if isinstance(b, int) and isinstance(a, (Aff, Bits)):
                f = self.aff(a, w); k = f.k - (b - (1 << w) if b >> (w - 1) else b)
                lit = None
                if b == 1 and isinstance(a, Bits):
                    u = [x for x in a.b if not isinstance(x, int)]
                    if not u and 0: pass
                    lit = 0 if any(x == 1 and isinstance(x, int) for x in a.b) else inv(u[0]) if len(u) == 1 else None
                return self.mk(f.sg, f.n, k, w), lit
            if isinstance(a, int) and isinstance(b, (Aff, Bits)):
                f = self.aff(b, w); cf = None
                if a == 0: cf = 1 if self.nonz(b) else None
                return self.mk(-f.sg, f.n, (a - (1 << w) if a >> (w - 1) else a) - f.k, w), cf
        return Abs.subb(self, a, b, cin, w)
    def nonz(self, v):
        return isinstance(v, Bits) and any(x == 1 and isinstance(x, int) for x in v.b) or isinstance(v, Aff) and v.k == 0 and self.nonz(v.n)
    def cf_bool(self, c):
        if isinstance(c, tuple) and not isinstance(c[0], tuple): return Cond('bit', [c])
        raise Unsupported('carry')
    def lit(self, x):
        if isinstance(x, int): return bool(x)
        if x is None or isinstance(x[0], tuple): raise Unsupported('undefined bit')
        return Cond('bit', [x])
    def bt(self, a, k, w):
        if not isinstance(k, int): raise Unsupported('bt')
        r = self.lst(a, w)[k & w - 1]
        if r is None or isinstance(r, tuple) and isinstance(r[0], tuple): raise Unsupported('undefined bit')
        return r
    def zero(self, f):
        v = f.res
        if isinstance(v, Aff):
            if v.sg == -1 and v.k == 0: v = v.n
            elif v.sg == 1 and isinstance(v.k, int):    # n + k == 0
                if -v.k < 0 or -v.k >= 1 << v.w: return False
                b = self.lst(v.n, v.w); t = -v.k
                if any(isinstance(x, int) and x != (t >> i & 1) for i, x in enumerate(b)): return False
                u = [(x, t >> i & 1) for i, x in enumerate(b) if not isinstance(x, int)]
                if len(u) == 1 and u[0][0] is not None: return self.lit(u[0][0] if u[0][1] else inv(u[0][0]))
                return self.cube(u)
            else: raise Unsupported('zero test')
        if isinstance(v, Bits):
            b = self.lst(v, f.w)
            if any(x == 1 and isinstance(x, int) for x in b): return False
            u = {x for x in b if not isinstance(x, int)}
            if not u: return True
            if len(u) == 1 and None not in u: return self.lit(inv(u.pop()))
            return self.cube([(x, 0) for x in u])
        return Abs.zero(self, f)
    neqs = frozenset()       # sets of (bit, value) not all of which hold
    def cube(self, u):
        """all of these literals have the given values?"""
        if any(x is None or isinstance(x[0], tuple) for x, t in u): raise Unsupported('zero test')
        L = frozenset((x[0], t if x[1] else 1 - t) for x, t in u)
        if len({i for i, t in L}) < len(L): return False
        if any(n <= L for n in self.neqs): return False
        raise Split(L)
    def sign(self, f):
        if isinstance(f.res, Aff):
            if f.res.sg == -1 and f.res.k <= 0 and self.nonz(f.res.n): return True
            raise Unsupported('sign')
        if self.is_(f.res): return self.lit(self.lst(f.res, f.w)[f.w - 1])
        raise Unsupported('sign of %s' % type(f.res).__name__)
    def signed(self, f, cc):
        if f.kind == 'logic' or f.kind in ('sub', 'cmp') and isinstance(f.b, int) and f.b == 0:
            s = self.sign(f)
            if cc == 'o': return False
            if cc == 'l': return s
            if s is True: return True
            if s is False: return self.zero(f)
        raise Unsupported('signed comparison')
    def bor(self, a, b): raise Unsupported('disjunction')
    def extract(self, v, off, n):
        if self.is_(v): return num(self.lst(v, v.w)[off:off + n])
        if isinstance(v, Aff) and off == 0 and n == v.w: return v
        return Abs.extract(self, v, off, n)
    def extract2(self, lo, hi, off, n): return num((self.lst(lo, 64) + self.lst(hi, 64))[off:off + n])
    def zext(self, v, w):
        if self.is_(v): return num(self.lst(v, v.w)[:w] + [0] * (64 - w))
        if isinstance(v, Aff): return num(self.lst(v, w) + [0] * (64 - w))
        return Abs.zext(self, v, w)
    def zext_to(self, v, w, to):
        if self.is_(v): return num(self.lst(v, w) + [0] * (to - w))
        return self.zext(v, w)
    def sext_to(self, v, w, to):
        if self.is_(v): b = self.lst(v, w); return num(b + [b[-1]] * (to - w))
        raise Unsupported('sign extension')
    def insert(self, old, v, off, n):
        if self.is_(old, v) or isinstance(v, Aff) or isinstance(old, Aff):
            b = self.lst(old, 64); b[off:off + n] = self.lst(v, n); return num(b)
        return Abs.insert(self, old, v, off, n)
    insert_any = insert
    def decide(self, c): return None if c.kind == 'bit' else Abs.decide(self, c)
    def b2v(self, c, w): return num([c.a[0] if not c.neg else inv(c.a[0])] + [0] * (w - 1)) if c.kind == 'bit' else Abs.b2v(self, c, w)
    def mask(self, c, w): return num([c.a[0] if not c.neg else inv(c.a[0])] * w) if c.kind == 'bit' else Abs.__getattr__(self, 'mask')
    def ite(self, c, a, b, w, st=None):
        if c.kind != 'bit': return Abs.ite(self, c, a, b, w, st)
        l = c.a[0] if not c.neg else inv(c.a[0])
        if isinstance(a, (int, Bits)) and isinstance(b, (int, Bits)):
            r = []
            for x, y in zip(self.lst(a, w), self.lst(b, w)):
                if x == y: r.append(x)
                elif (x, y) == (1, 0): r.append(l)
                elif (x, y) == (0, 1): r.append(inv(l))
                else: raise Unsupported('selection by a bit')
            return num(r)
        raise Unsupported('selection by a bit')

def cases(run, limit=300):
    """run(fixed, neqs) -> result, for a partition of the bits: fixed: bit -> value; neqs as in BitDom"""
    work = [({}, frozenset())]; n = 0
    while work:
        fixed, neqs = work.pop(); n += 1
        if n > limit: raise Unsupported('too many case distinctions')
        try: r = run(fixed, neqs)
        except Split as e:
            t = dict(fixed); t.update(e.L); work.append((fixed, neqs | {e.L}))
            if not any(all(t.get(i) == v for i, v in N) for N in neqs): work.append((t, neqs))
            continue
        yield fixed, neqs, r

# ---- multiplicities: polynomials over the bits
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        c = r.get(m, 0) + k * c
        if c: r[m] = c
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, e in b.items():
            t = m | n; v = r.get(t, 0) + c * e
            if v: r[t] = v
            else: r.pop(t, None)
    return r
def plit(x):
    if isinstance(x, int): return {frozenset(): x} if x else {}
    b = {frozenset([x[0]]): 1}
    return b if x[1] else padd({frozenset(): 1}, b, -1)
def froz(p): return frozenset(p.items())
def pnum(bits):
    r = {}
    for i, x in enumerate(bits): r = padd(r, plit(x), 1 << i)
    return r

class MergeExec(Exec):
    merging = True
    """kinds: key tags (tag, id, frozen polynomial) that merge; size: components of such an object"""
    limit = 400
    def __init__(self, img, hooks, tag='J', ncomp=None, neutral=None, **kw):
        """neutral: limbs of the object of multiplicity zero when the code writes it as constants"""
        Exec.__init__(self, img, hooks, **kw); self.tag, self.ncomp = tag, ncomp; self.merges = 0
        self.neutral = neutral or [0] * (4 * ncomp)
    def peek(self, s, upto=None):
        """steps s without branching on bits; the sequence of (pc, rsp) seen; stops at upto"""
        seq = [(s.pc, s.r[4])]
        if upto is not None and seq[0] == upto: return seq, s
        for _ in range(self.limit):
            self.stop = False
            if s.pc >= (1 << 63): break
            try:
                self.probing += 1
                try: nx = self.step(s)
                finally: self.probing -= 1
            except Stop: break
            if nx is not None:
                if len(nx) != 1: break
                s = nx[0]
            seq.append((s.pc, s.r[4]))
            if upto is not None and seq[-1] == upto: return seq, s
            from x86 import RET
            if s.pc == RET: break
        return seq, s
    probing = 0
    def branch(self, st, c, a_true, a_false):
        if isinstance(c, bool) or c.kind != 'bit': return Exec.branch(self, st, c, a_true, a_false)
        if self.probing: raise Stop()
        lit = inv(c.a[0]) if c.neg else c.a[0]
        def side(pc): s = st.copy(); s.pc = pc; return s
        qt, _ = self.peek(side(a_true)); qf, _ = self.peek(side(a_false))
        sf = set(qf); join = next((x for x in qt if x in sf), None)
        if join is None: raise Unsupported('no common point after a branch on a bit')
        T = self.peek(side(a_true), join)[1]; F = self.peek(side(a_false), join)[1]
        self.merges += 1
        return [self.merge(lit, T, F, st)]
    def merge(self, lit, T, F, st):
        s = F; l = plit(lit)
        s.steps = max(T.steps, F.steps)
        eq = lambda a, b: a is b or (type(a) is type(b) and (a == b if isinstance(a, (int, FC, Aff, tuple)) else a.b == b.b if isinstance(a, Bits) else
              (a.v == b.v and a.i == b.i) if isinstance(a, Wd) else (a.v == b.v and a.m == b.m) if isinstance(a, Part) else False))
        def zeroobj(x, a, v):
            base = a - 32 * v.v.i - 8 * v.i
            return all(isinstance(x.mem.get(base + 8 * o), int) and x.mem[base + 8 * o] == t for o, t in enumerate(self.neutral))
        def mk(kt, kf, id_): return (self.tag, id_, froz(padd(kf, pmul(l, padd(kt, kf, -1)))))
        def mg(a, x, y):
            if eq(x, y): return x
            if isinstance(x, Wd) and isinstance(y, Wd) and isinstance(x.v, FC) and isinstance(y.v, FC) and x.v.key[0] == y.v.key[0] == self.tag:
                if (x.v.i, x.i, x.v.sg, x.v.key[1]) == (y.v.i, y.i, y.v.sg, y.v.key[1]):
                    return Wd(FC(mk(dict(x.v.key[2]), dict(y.v.key[2]), x.v.key[1]), x.v.i, x.v.sg), x.i)
            if a is not None and isinstance(x, int) and isinstance(y, Wd) and isinstance(y.v, FC) and y.v.key[0] == self.tag and y.v.sg == 1 and zeroobj(T, a, y):
                return Wd(FC(mk({}, dict(y.v.key[2]), y.v.key[1]), y.v.i), y.i)
            if a is not None and isinstance(y, int) and isinstance(x, Wd) and isinstance(x.v, FC) and x.v.key[0] == self.tag and x.v.sg == 1 and zeroobj(F, a, x):
                return Wd(FC(mk(dict(x.v.key[2]), {}, x.v.key[1]), x.v.i), x.i)
            if isinstance(x, (int, Bits)) and isinstance(y, (int, Bits)):
                try: return s.dom.ite(Cond('bit', [lit]), x, y, 64)
                except Unsupported: pass
            return Un('merged')
        r = {}
        for a in set(T.mem) | set(F.mem):
            x, y = T.mem.get(a), F.mem.get(a)
            if x is None: x = T.img.u64(a)
            if y is None: y = F.img.u64(a)
            r[a] = Un('stk') if x is None or y is None else mg(a, x, y)
        s.mem = r
        s.r = [mg(None, x, y) for x, y in zip(T.r, F.r)]
        s.x = [x if x == y else (Un('x'), Un('x')) for x, y in zip(T.x, F.x)]
        s.fl = None; s.writes = T.writes | F.writes
        if T.user.get('heap') != F.user.get('heap'): raise Unsupported('allocation under a bit')
        return s
class Stop(Exception): pass
