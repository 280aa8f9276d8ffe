"""C17: division of unsigned big integers.
 - div1/mod1 (word divisor): exact integer identities X = Q y + r, r < y.
 - the estimate GetApp: floating point and bit vectors, every top word and following word.
 - one iteration of the quotient loop from an arbitrary state that satisfies the invariant (induction over the
   number of iterations): the estimated digit never exceeds the true one, the subtraction does not borrow, the quotient word
   does not overflow, and Q y + X keeps its value.
 - the wrapper div and the operators, with the loop replaced by its contract."""
import copy, time, random, re, z3
import build, limb, ring
from x86 import Unsupported, PathEnd, STACK, Flags, RET
from zbv import ZB, ZExec, bv, BV, fresh, M64
from idom import IDom, IExec, IW, padd, pmul, const, Cond, path_words, Follow
from poly import STATS
from check import Ob
import c_vuint
from c_vuint import A, SLOT, NW, CF, image, hooks, Case, VOb, word

def find(img, *pats):
    """address of the one function whose demangled name matches"""
    import subprocess
    if not hasattr(img, 'dem'):
        ns = sorted({n.strip('<>') for n in img.symname.values() if '@' not in n and n.startswith('_Z')})
        o = subprocess.run(['c++filt'], input='\n'.join(ns), capture_output=True, text=True).stdout.split('\n')
        img.dem = dict(zip(ns, o)); img.byname = {n.strip('<>'): a for a, n in img.symname.items()}
    r = [n for n, d in img.dem.items() if all(p in d for p in pats)]
    if len(r) != 1: raise Unsupported('no function %s' % (pats,))
    return img.byname[r[0]]
F_DIV = ('VuintT<', '::div(unsigned long*, unsigned long*, unsigned long, unsigned long const*, unsigned long)')
F_APP = ('VuintT<', '::GetApp(unsigned long const*, unsigned long, bool)')
F_CMP = ('PrimitiveFunction::compare(',)

# ---- the estimate
# the estimate t of a number X of n words (top word not zero) satisfies
#   rounded down:  t 2^(64(n-1)) <= X          rounded up:  t 2^(64(n-1)) >= X (1 + 2^-53), or a power of two (then dividing by it is exact) >= X
def dbl_scaled(t, W, sc):
    """the double with the bits t (positive, normal) times 2^sc as a W-bit integer, and whether that is exact"""
    e = z3.ZeroExt(W - 11, z3.Extract(62, 52, t)); m = z3.ZeroExt(W - 53, z3.Concat(BV(1, 1), z3.Extract(51, 0, t)))
    sh = e - (1075 - sc)
    return m << sh, z3.And(z3.Extract(63, 63, t) == 0, z3.Extract(62, 52, t) != 0, z3.UGE(e, 1075 - sc), z3.ULT(sh, W - 54))
class AppOb(VOb):
    def __init__(self, cfg, up):
        self.cfg, self.up = cfg, up; self.key = '%s GetApp %s' % (cfg.name, 'up' if up else 'down'); self.cost = 1; self.functions = ['Vuint::GetApp']; self.cases = []
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = image(ctx, self.cfg); det = dict(paths=0, steps=0); bad = None
        for n in (2, 3, 9):
            d = ZB(); ex = ZExec(img, hooks(img)); ws = [z3.BitVec('w%d' % i, 64) for i in range(n)]
            s = ex.start(d, find(img, *F_APP), [A, n, int(self.up)])
            for i, w in enumerate(ws): s.mem[A + 8 * i] = w
            d.pcs.append(ws[-1] != 0)
            for f in ex.run(s):
                det['paths'] += 1; det['steps'] += f.steps
                if f.user['end'] != 'ret': raise Unsupported('GetApp ends by ' + f.user['end'])
                r = f.x[0][0]; v, ok = dbl_scaled(bv(r), 200, 64)
                # only the two top words matter: X / 2^(64 (n-2)) lies in [H 2^64 + L, H 2^64 + L + 1)
                X = z3.ZeroExt(72, z3.Concat(ws[-1], ws[-2]))
                claim = z3.ULE(v, X) if not self.up else z3.Or(z3.UGE(v << 53, ((X + 1) << 53) + (X + 1)), z3.And(z3.Extract(51, 0, bv(r)) == 0, z3.UGE(v, X + 1)))
                if not self.up: claim = z3.And(claim, v != 0)
                m = f.dom.sat(z3.Not(z3.And(ok, claim)), to=120000)
                if m is not None: bad = 'GetApp n=%d: top words %s' % (n, [m.eval(w, model_completion=True) for w in ws[-2:]])
            if bad: break
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='refuted' if bad else 'proved')
        if bad: det['why'] = bad
        return det
    def validate(self, ctx): return None, 0
    def witness(self, ctx, hints): return native_div(ctx, self.cfg, ctx.seed + 7, 60000, ctx.wdeadline, [(n, m) for n in range(2, 10) for m in range(2, n + 1)], ('V::div',))

# ---- the quotient loop
class R:
    """a real number: z3 term and the term for its product with the divisor Y"""
    __slots__ = ('z', 'y', 'of')
    def __init__(self, z, y, of=None): self.z, self.y, self.of = z, y, of     # of: for the estimate of the divisor
RAT = lambda v: z3.RealVal(int(v)) if v == int(v) else z3.RealVal(str(__import__('fractions').Fraction(v)))
class DDom(IDom):
    """IDom with real-valued floating point.  Everything is kept linear: each real or integer quantity v that is compared with
    the quotient comes with a variable for v Y, and a fact about v is added for v Y as well (Y > 0)."""
    def __init__(self): IDom.__init__(self); self.nf = []; self.big = {}; self.Y = z3.Real('Y'); self.nf.append(self.Y >= 1)
    def clone(self):
        d = IDom.clone(self); d.nf = list(self.nf); d.big = dict(self.big); return d
    def num(self, p, nm):
        """the integer with this polynomial as one real variable"""
        k = frozenset(p.items())
        if k not in self.big: self.big[k] = (z3.Real('%s_%d' % (nm, len(self.big))), z3.Real('%sY_%d' % (nm, len(self.big))))
        return self.big[k][0]
    def rz(self, w):
        """an integer word with its product"""
        if isinstance(w, int): return R(z3.RealVal(w), w * self.Y)
        self.num(self.p(w), 'i'); return R(*self.big[frozenset(self.p(w).items())])
    def nra(self, *neg, to=30000):
        s = z3.SolverFor('QF_LRA'); s.set('timeout', to); s.add(self.nf); s.add(neg)
        t = time.time(); r = s.check(); STATS.q += 1; STATS.t += time.time() - t
        if r == z3.unknown: STATS.unk += 1
        return r == z3.unsat
    def rel(self, op, a, b):
        """a op b, multiplied by Y too"""
        a, b = self.flt(a), self.flt(b); return z3.And(op(a.z, b.z), op(a.y, b.y))
    def newR(self, nm): k = str(fresh(nm)); return R(z3.Real(k), z3.Real(k + 'Y'))
    def fpop(self, e, s, mn, o, nxt):
        import operator as op
        def src():
            v = s.x[o[1][1]][0] if o[1][0] == 'x' else s.get(o[1], nxt, 64)
            return self.raw(v)
        def dst(): return self.raw(s.x[o[0][1]][0])
        def put(v): s.x[o[0][1]] = (v, s.x[o[0][1]][1])
        if mn == 'mulsd':
            a, b = dst(), src()
            if isinstance(a, float): a, b = b, a
            if not isinstance(b, float) or isinstance(a, float): raise Unsupported('product of doubles')
            import math
            if math.frexp(b)[0] != 0.5: raise Unsupported('product by a double that is no power of two')
            put(R(a.z * RAT(b), a.y * RAT(b))); return
        if mn == 'divsd':
            a, b = dst(), src()
            if b.of is None: raise Unsupported('division by something else than the estimate of the divisor')
            # Y <= b sc / (1 + 2^-53), or b is a power of two; the quotient rounds up by at most 1 + 2^-53
            div_lemma(); f = self.newR('f'); self.nf += [f.z >= 0, f.y >= 0, f.y <= a.z * b.of]
            put(f); return
        if mn in ('comisd', 'ucomisd'):
            a, b = dst(), src(); s.fl = Flags('fcmp', 64, a, b, None, None); s.fl.cf = ('lt', a, b); return
        if mn == 'subsd':
            a, b = dst(), src()
            if not isinstance(b, float): raise Unsupported('difference of doubles')
            # exact by Sterbenz when b/2 <= a <= 2b
            if not self.nra(z3.Or(self.rel(op.lt, a, b / 2), self.rel(op.gt, a, b * 2))): raise Unsupported('rounded difference')
            put(R(a.z - RAT(b), a.y - RAT(b) * self.Y)); return
        if mn == 'cvttsd2si':
            a = src()
            if not self.nra(z3.Or(self.rel(op.lt, a, 0.), self.rel(op.ge, a, float(1 << 63)))): raise Unsupported('conversion out of range')
            w = self.word('cv', (1 << 63) - 1); r = self.rz(w); self.nf += [self.rel(op.ge, r, 0.), self.rel(op.le, r, a), self.rel(op.lt, a, R(r.z + 1, r.y + self.Y))]
            s.put(o[0], w, nxt); return
        raise Unsupported(mn)
    def raw(self, v):
        if isinstance(v, int):
            import struct
            return struct.unpack('<d', struct.pack('<Q', v))[0]
        if isinstance(v, R): return v
        raise Unsupported('unknown double')
    def flt(self, v): return R(RAT(v), RAT(v) * self.Y) if isinstance(v, (int, float)) else v
    def cf_bool(self, c):
        if isinstance(c, tuple): return Cond('real', c)
        return IDom.cf_bool(self, c)
    def flag_dead(self, c): pass
    def p(self, v): return v.p if isinstance(v, IW) else const(v) if isinstance(v, int) else self._bad()
    def _bad(self): raise Unsupported('real used as an integer')
    def logic(self, k, a, b, w):
        if isinstance(a, int): a, b = b, a
        if k in ('xor', 'or') and b == 1 << 63 and isinstance(a, IW) and self.hi(a) < 1 << 63:
            r = self.mk(padd(a.p, const(1 << 63)), M64); x, y = self.rz(r), self.rz(a); self.nf += [x.z == y.z + z3.RealVal(1 << 63), x.y == y.y + z3.RealVal(1 << 63) * self.Y]; return r
        return IDom.logic(self, k, a, b, w)
    def lit(self, c, val):
        import operator as op
        return self.rel(op.lt if val else op.ge, c[1], c[2])
    def decide(self, c, lazy=False):
        if isinstance(c, Cond) and c.kind == 'real':
            if self.nra(self.lit(c.p, True)): return c.neg
            if self.nra(self.lit(c.p, False)): return not c.neg
            return None
        return IDom.decide(self, c, lazy)
    def assume(self, c, val, st=None):
        if c.kind == 'real': self.nf.append(self.lit(c.p, val != c.neg)); return True
        k = frozenset(c.p.items())
        if c.kind == 'zero' and k in self.big:
            v = val != c.neg; z, y = self.big[k]; self.nf += [z == 0, y == 0] if v else [z >= 1, y >= self.Y]
        return IDom.assume(self, c, val, st)
    def ite(self, c, a, b, w, st=None):
        # cmov on a zero test: both cases
        t = c if isinstance(c, bool) else self.decide(c)
        if t is not None: return a if t else b
        raise Fork2(c)
LEM = []
def div_lemma():
    """f = fl(a / t), t an estimate of y from above as GetApp makes it: then f y <= a (all real, in one scale)"""
    if LEM: return
    f, t, a, y = z3.Reals('f t a y'); u = z3.Q(1, 1 << 53); s = z3.SolverFor('QF_NRA'); s.set('timeout', 60000)
    s.add(f >= 0, t > 0, a >= 0, y > 0, z3.Or(z3.And(t >= y * (1 + u), f * t <= a * (1 + u)), z3.And(t >= y, f * t == a)), f * y > a)
    t0 = time.time(); r = s.check(); STATS.q += 1; STATS.t += time.time() - t0
    if r != z3.unsat: raise Unsupported('lemma on the rounded quotient')
    LEM.append(1)
class Fork2(Exception):
    def __init__(self, c):
        def mk(v): return lambda s: s.dom.assume(c, v, s)
        self.cases = [mk(True), mk(False)]
class DExec(IExec):
    """plain forking, with states handed over at cut points"""
    def branch(self, st, c, a_true, a_false):
        if not isinstance(c, bool):
            t = st.dom.decide(c); c = t if t is not None else c
        if isinstance(c, bool): st.pc = a_true if c else a_false; return None
        s2 = st.copy(); st.dom.assume(c, True, st); s2.dom.assume(c, False, s2); st.pc = a_true; s2.pc = a_false
        return [st, s2]
    def run(self, s):
        s.user.setdefault('depth', 0); work = [s]; done = []
        while work:
            st = work.pop()
            try:
                while st.pc != RET:
                    nx = self.step(st)
                    if nx is not None: work += nx[1:]; st = nx[0]
                st.user['end'] = 'ret'
            except PathEnd as e:
                st.user['end'] = e.why
                if e.why == 'infeasible': continue
            done.append(st)
        return done

def ret(s, v=None):
    if v is not None: s.r[0] = v
    for i in (1, 2, 6, 7, 8, 9, 10, 11): s.r[i] = s.dom.undef('clob')
    s.fl = None; s.pc = s.load(s.r[4]); s.r[4] += 8
def words(s, a, n):
    t = {}
    for k in range(n): t = padd(t, s.dom.p(s.load(a + 8 * k)), 1 << 64 * k)
    return t
def neg(p): return {m: -c for m, c in p.items()}
def cmp_hook(track):
    def compare(s):
        x, xn, y, yn = (s.r[i] for i in (7, 6, 2, 1)); d = s.dom
        if not all(isinstance(v, int) for v in (x, xn, y, yn)): raise Unsupported('compare shape')
        if track:
            r = track(s, x, xn, y, yn)
            if r: raise PathEnd(r)
        if xn != yn: ret(s, 1 if xn > yn else M64 >> 32); return
        X, Y = words(s, x, xn), words(s, y, yn); D = padd(X, Y, -1); out = []
        if not D: ret(s, 0); return
        for sg, facts, zf in ((M64 >> 32, [padd(neg(D), const(1), -1)], lambda a, b: a <= b - 1), (0, [D, neg(D)], lambda a, b: a == b), (1, [padd(D, const(1), -1)], lambda a, b: a >= b + 1)):
            t = s.copy(); t.dom.pf = getattr(t.dom, 'pf', []) + facts
            if isinstance(d, DDom):
                t.dom.nf.append(zf(t.dom.num(X, 'x'), t.dom.Y))
                if t.dom.nra(): continue
            t.user['cmp'] = t.user.get('cmp', ()) + ((sg, x, xn, y, yn),)
            ret(t, sg); out.append(t)
        if not out: raise PathEnd('infeasible')
        return out
    return compare
class LoopOb(Ob):
    def __init__(self, cfg, n, m, withq):
        self.cfg, self.n, self.m, self.withq = cfg, n, m, withq; self.cost = 4
        self.key = '%s loop n=%d m=%d%s' % (cfg.name, n, m, '' if withq else ' no quotient'); self.functions = ['Vuint::div (words)']
    def validate(self, ctx): return native_div(ctx, self.cfg, ctx.seed + self.n * 10 + self.m, 12, time.time() + 10, [(self.n, self.m)], ('V::div',) if self.withq else ('V::%',))
    def witness(self, ctx, hints): return native_div(ctx, self.cfg, ctx.seed + 99, 60000, ctx.wdeadline, [(self.n, self.m)], ('V::div',) if self.withq else ('V::%',))
    def prove(self, ctx):
        q0, t0, u0 = STATS.q, STATS.t, STATS.unk; img = image(ctx, self.cfg); det = dict(paths=0, steps=0, frames=0)
        try: why = self.run(img, det)
        finally: det.update(queries=STATS.q - q0, solver_s=STATS.t - t0, unknown=STATS.unk - u0)
        det['status'] = 'proved' if not why else 'open'
        if why: det['why'] = why
        return det
    def run(self, img, det):
        n, m = self.n, self.m; Xa, Ya, Qa = A + SLOT, A + 2 * SLOT, A + 3 * SLOT if self.withq else 0; nq = n - m + 1
        cut = {}
        def track(s, x, xn, y, yn):
            # the loop head: the comparison of the whole dividend
            at = s.load(s.r[4])
            if x > Xa and 'xn' in s.user:      # part of the dividend: relate the two numbers
                d = s.dom; k = (x - Xa) // 8; xt = s.user['xn']
                if x != Xa + 8 * k or k + xn != xt: raise Unsupported('comparison inside the dividend')
                lo = d.num(words(s, Xa, k), 'lo'); d.nf += [d.num(words(s, Xa, xt), 'x') == d.num(words(s, x, xn), 'x') * (1 << 64 * k) + lo, lo >= 0, lo <= (1 << 64 * k) - 1]
            if 'head' not in s.user:
                if x != Xa or y != Ya or yn != m: raise Unsupported('first comparison is not that of the operands')
                s.user['head'] = at; s.user['start'] = True; s.user['xn'] = xn
                return 'cut'
            if at == s.user['head']:
                if s.user.pop('resume', False): return None
                s.user['xn'] = xn
                return 'cut'
            return None
        h = hooks(img); h[find(img, *F_CMP)] = cmp_hook(track)
        def app(s):
            x, k, up = s.r[7], s.r[6], s.r[2]; d = s.dom
            if not all(isinstance(v, int) for v in (x, k, up)) or k < 2: raise Unsupported('GetApp shape')
            X = words(s, x, k); sc = z3.RealVal(1 << 64 * (k - 1))
            # the top word is not zero
            top = d.p(s.load(x + 8 * k - 8))
            if frozenset(top.items()) not in {frozenset(p.items()) for p in d.nz}: raise Unsupported('GetApp on a zero top word')
            t = d.newR('t')
            if up & 255:
                if x != Ya or k != m: raise Unsupported('estimate from above of something else than the divisor')
                t.of = sc
            else: v = d.num(X, 'x'); d.nf += [v >= sc, v < sc * (1 << 64), t.z > 0, t.z * sc <= v]
            ret(s); s.x[0] = (t, s.x[0][1])
        h[find(img, *F_APP)] = app
        def mul1(s):
            o, x, k, y = (s.r[i] for i in (7, 6, 2, 1)); d = s.dom
            if not all(isinstance(v, int) for v in (o, x, k)): raise Unsupported('mul1 shape')
            if x != Ya or k != m: raise Unsupported('product of something else than the divisor')
            T = pmul(words(s, x, k), d.p(y)); ws = [d.word('m') for _ in range(k)]
            w0 = T
            for i, w in enumerate(ws): w0 = padd(w0, w.p, -(1 << 64 * (i + 1)))
            d.wordfact(w0); s.store(o, d.mk(w0, M64))
            for i, w in enumerate(ws): s.store(o + 8 * i + 8, w)
            s.user['T'] = (T, o, k, y)
            ret(s)
        h[img.entries['zm::mul1']] = mul1
        def subN(s):
            o, x, y, k = (s.r[i] for i in (7, 6, 2, 1)); d = s.dom
            if not all(isinstance(v, int) for v in (o, x, y, k)) or o != x or 'T' not in s.user: raise Unsupported('subN shape')
            T, to, tk, qt = s.user['T']
            if to != y or k > tk + 1: raise Unsupported('subN operands')
            X = words(s, x, k); zx = d.num(X, 'x'); zt = d.rz(qt).y; d.nf += [zx >= 0, zx < z3.RealVal(1 << 64 * k)]
            off = x - Xa
            if off % 8 or off < 0: raise Unsupported('subN place')
            xn = s.user['xn']; full = words(s, Xa, xn); low = padd(full, X, -(1 << 8 * off)); zf = d.num(full, 'x')
            if off + 8 * k != 8 * xn: raise Unsupported('subN does not end at the top word')
            if off: lo = d.num(low, 'lo'); d.nf += [zf == zx * (1 << 8 * off) + lo, lo >= 0, lo <= (1 << 8 * off) - 1]
            # the product does not exceed the part of the dividend it is taken from (both are integers)
            if not d.nra(zt >= zx + 1): raise Unsupported('cannot show that the estimated digit is not too large')
            if k == tk:      # the top word of the product is not used: it is zero
                if not d.nra(zt >= z3.RealVal(1 << 64 * k)): raise Unsupported('product longer than the operand')
            res = padd(X, T, -1); ws = [d.word('r') for _ in range(1, k)]; w0 = res
            for i, w in enumerate(ws): w0 = padd(w0, w.p, -(1 << 64 * (i + 1)))
            d.wordfact(w0); s.store(o, d.mk(w0, M64))
            for i, w in enumerate(ws): s.store(o + 8 * i + 8, w)
            s.user['pos'] = off // 8; s.user['qt'] = qt
            ret(s, 0)
        h[img.entries['zm::subN']] = subN
        # entry
        d = DDom(); ex = DExec(img, h); s = ex.start(d, find(img, *F_DIV), [Qa, Xa, n, Ya, m])
        Y = {}
        for k in range(m): w = d.word('y%d' % k); s.mem[Ya + 8 * k] = w; Y = padd(Y, w.p, 1 << 64 * k)
        d.nz.append(w.p); ytop = w
        for k in range(n): w = d.word('x%d' % k); s.mem[Xa + 8 * k] = w
        d.nz.append(w.p)
        if Qa:
            for k in range(nq): s.mem[Qa + 8 * k] = d.word('junk')
        yws = [s.mem[Ya + 8 * k] for k in range(m)]
        seen = {}; todo = []
        def arrive(f, pre):
            """a state at the loop head: check the invariant, then queue its frame"""
            dd = f.dom; xn = f.user['xn']
            if not isinstance(xn, int) or not m - 1 <= xn <= n: return 'size of the dividend at the loop head'
            if xn >= m:
                top = dd.p(f.load(Xa + 8 * xn - 8))
                if frozenset(top.items()) not in {frozenset(p.items()) for p in dd.nz}: return 'leading zero word at the loop head'
            X, Q = words(f, Xa, xn), words(f, Qa, nq) if Qa else {}
            if pre is None:
                if Q: return 'quotient not cleared'
            else:
                X0, Q0, xn0 = pre
                # words the trimming dropped
                full = words(f, Xa, xn0); qt = f.user['qt']; pos = f.user['pos']
                if Qa and not self.qword(dd, f, Q, Q0, qt, pos, X0, Y): return 'quotient word overflows or is not the sum'
                D = padd(padd(full, X0, -1), pmul(dd.p(qt), Y), 1 << 64 * pos)
                if D: return 'the dividend is not reduced by the multiple of the divisor'
                if any(not dd.equal(dd.p(f.load(Xa + 8 * k))) for k in range(xn, xn0)): return 'a dropped word is not zero'
                if not dd.nra(dd.rz(qt).z < 1): return 'no progress'
            for k in range(m):
                if f.load(Ya + 8 * k) is not yws[k]: return 'divisor changed'
            # concrete part of the frame: what differs between two arrivals with the same number of words becomes arbitrary
            lo = f.r[4]; con = {a: v for a, v in f.mem.items() if lo <= a < STACK and isinstance(v, int)}
            con.update({('r', i): v for i, v in enumerate(f.r) if isinstance(v, int) and i in (3, 4, 5, 12, 13, 14, 15)})
            old = seen.get(xn)
            if old is None: new = con
            else: new = {a: v for a, v in old.items() if con.get(a) == v}
            if old is None or len(new) != len(old): seen[xn] = new; todo.append(f)
            return None
        keep = set()
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps
            if f.user['end'] != 'cut': return 'entry: ' + f.user['end']
            # doubles computed before the loop stay
            keep |= {a for a, v in f.mem.items() if isinstance(v, R) and f.r[4] <= a < STACK}
            w = arrive(f, None)
            if w: return w
        base = {a: f.mem[a] for a in keep}; bx = list(f.x)
        while todo:
            f = todo.pop(); det['frames'] += 1; xn = f.user['xn']
            if det['frames'] > 40: return 'too many frames'
            # arbitrary dividend and quotient under the invariant; other symbolic cells arbitrary
            g = f.copy(); dd = g.dom; dd.zeros = []; dd.nz = [ytop.p]; dd.path = {}; dd.pf = []; dd.sh = copy.copy(dd.sh); dd.sh.facts = []
            dd.nf = [c for c in dd.nf] if f.user.get('start') else list(dd.nf0)
            if f.user.get('start'): nf0 = list(dd.nf); big0 = dict(dd.big)
            dd.nf0 = nf0; dd.nf = list(nf0); dd.big = dict(big0)
            for a, v in list(g.mem.items()):
                if g.r[4] <= a < STACK and not (isinstance(v, int) and seen[xn].get(a) == v) and a not in keep: g.mem[a] = dd.undef('cell')
                if a in keep and g.mem[a] is not base[a]: return 'a double kept over the loop changes'
            g.r = [v if isinstance(v, int) and (i not in (3, 4, 5, 12, 13, 14, 15) or seen[xn].get(('r', i)) == v) else dd.undef('reg') for i, v in enumerate(g.r)]; g.x = [(dd.undef('xmm'), dd.undef('xmm')) for _ in g.x]
            for k in range(n): g.mem[Xa + 8 * k] = dd.word('X%d' % k) if k < xn else 0
            if xn >= m: dd.nz.append(g.mem[Xa + 8 * xn - 8].p)
            X0 = words(g, Xa, xn); zx = dd.num(X0, 'x'); zy = dd.Y
            dd.nf += [zx >= (1 << 64 * (xn - 1) if xn >= m else 0), zx < z3.RealVal(1 << 64 * xn), zy >= z3.RealVal(1 << 64 * (m - 1)), zy < z3.RealVal(1 << 64 * m)]
            Q0 = {}
            if Qa:
                for k in range(nq): g.mem[Qa + 8 * k] = dd.word('Q%d' % k)
                Q0 = words(g, Qa, nq)
            g.user = {k: v for k, v in g.user.items() if k in ('head', 'depth', 'callee', 'xn')}; g.user['resume'] = True
            for e in ex.run(g):
                det['paths'] += 1; det['steps'] += e.steps; end = e.user['end']
                if end == 'cut':
                    e.user.pop('start', None); w = arrive(e, (X0, Q0, xn))
                    if w: return '%s (xn=%d)' % (w, xn)
                elif end == 'ret':
                    # left the loop: the remainder is smaller than the divisor, nothing else changed
                    xk = words(e, Xa, n)
                    if padd(xk, X0, -1): return 'dividend changed on leaving'
                    if Qa and padd(words(e, Qa, nq), Q0, -1): return 'quotient changed on leaving'
                    if xn >= m and not e.dom.nra(zx >= zy): return 'remainder not below the divisor'
                else: return 'iteration: ' + end
        return None
    def qword(self, dd, f, Q, Q0, qt, pos, X0, Y):
        """Q = Q0 + qt 2^(64 pos), the word at pos without overflow.  The invariant, for every j:
        q_k = 0 for all k <= j, or (q_0 + .. + q_j 2^64j) Y + X < 2^(64 (j+1)) Y."""
        D = padd(padd(Q, Q0, -1), dd.p(qt), -(1 << 64 * pos)); D = dd.res(D)
        zx, zy = dd.num(X0, 'x'), dd.Y; B = lambda j: z3.RealVal(1 << 64 * (j + 1)); P = z3.RealVal(1 << 64 * pos)
        zq = dd.rz(qt)
        # first use of the position: X < 2^(64 (pos+1)) Y; so the invariant holds for every j >= pos, used before or not
        if not dd.nra(zx >= B(pos) * zy): return False
        low, q, lowy, qy = z3.Reals('lowq q lowqY qY'); inv = [low >= 0, lowy >= 0, q >= 0, qy >= 0, z3.Or(z3.And(low == 0, q == 0, lowy == 0, qy == 0), lowy + qy * P + zx < B(pos) * zy)]
        if D:
            # the only difference may be the carry out of the word at pos
            (mm, c), = D.items() if len(D) == 1 else (((), 0),)
            if not (len(mm) == 1 and dd.sh.bit[mm[0]] and c == -(1 << 64 * (pos + 1))): return False
            if not dd.nra(*inv, q + zq.z >= z3.RealVal(1 << 64), qy + zq.y >= z3.RealVal(1 << 64) * zy, zq.y * P <= zx): return False
        # the subtraction keeps (sum of q) Y + X
        return dd.nra(*inv, z3.Not(lowy + (qy + zq.y) * P + (zx - zq.y * P) < B(pos) * zy))

# ---- the wrapper
class WDom(IDom):
    def clone(self):
        d = IDom.clone(self); d.pf = list(getattr(self, 'pf', [])); return d
    def assume(self, c, val, st=None):
        r = IDom.assume(self, c, val, st)
        if c.kind == 'zero' and val != c.neg and len(c.p) == 1:
            (m, k), = c.p.items()
            if len(m) == 1: self.path[m[0]] = 0       # in products too
        return r
    def b2v(self, c, w):
        if c.kind != 'zero': return IDom.b2v(self, c, w)
        t = self.decide(c)
        if t is None: raise Fork2(c)
        return int(t)
def div_contract(s):
    """the quotient loop: X = Q Y + R, R < Y (the obligations loop)"""
    q, x, n, y, m = (s.r[i] for i in (7, 6, 2, 1, 8)); d = s.dom
    if not all(isinstance(v, int) for v in (q, x, n, y, m)) or not 2 <= m <= n <= NW: raise Unsupported('div shape')
    rng = [(x, n)] + ([(q, n - m + 1)] if q else [])
    for (a, k) in [(y, m)] + rng:
        for (b, l) in rng:
            if (a, k) != (b, l) and a < b + 8 * l and b < a + 8 * k: raise Unsupported('div overlap')
    for a, k in ((x, n), (y, m)):
        top = s.load(a + 8 * k - 8)
        if isinstance(top, int) and not top or not isinstance(top, int) and frozenset(top.p.items()) not in {frozenset(p.items()) for p in d.nz}: raise Unsupported('div on a leading zero word')
    X, Y = words(s, x, n), words(s, y, m); Q = {}
    for k in range(n - m + 1):
        w = d.word('Q%d' % k); Q = padd(Q, w.p, 1 << 64 * k)
        if q: s.store(q + 8 * k, w)
    Rm = padd(X, pmul(Q, Y), -1); ws = [d.word('R%d' % k) for k in range(1, m)]; w0 = Rm
    for k, w in enumerate(ws): w0 = padd(w0, w.p, -(1 << 64 * (k + 1)))
    d.wordfact(w0); d.pf += [padd(padd(Y, Rm, -1), const(1), -1), Rm]
    for k, w in enumerate([d.mk(w0, M64)] + ws): s.store(x + 8 * k, w)
    for k in range(m, n): s.store(x + 8 * k, 0)
    ret(s)
class WOb(VOb):
    """V::div and the operators: X = Q Y + R, R < Y, canonical results, operands kept"""
    cur = None
    def __init__(self, cfg, key, cases, cost=2): VOb.__init__(self, cfg, key, cases, cost)
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = image(ctx, self.cfg); det = dict(paths=0, steps=0); why = None
        for c in self.cases:
            why = self.one(img, c, det)
            if why: break
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='proved' if not why else 'open', shapes=len(self.cases))
        if why: det['why'] = why; det['hints'] = [(self.cases.index(c), path_words(self.cur, r'x\d+_\d+|[a-z]'))] if self.cur else []
        return det
    def one(self, img, c, det):
        d = WDom(); h = hooks(img); d.pf = []
        h[find(img, *F_CMP)] = cmp_hook(None)
        h[find(img, *F_DIV)] = div_contract
        def u128(rem):
            def f(s):
                lo, hi, y, yh = (s.r[i] for i in (7, 6, 2, 1))
                if not (isinstance(yh, int) and yh == 0): raise Unsupported('128-bit divisor')
                q, r = s.dom.div(s, hi, lo, y, 64); ret(s, r if rem else q); s.r[2] = 0
            return f
        for nm, rem in (('__udivti3', 0), ('__umodti3', 1)):
            for a in ring.plt(img, nm): h[a] = u128(rem)
        ex = DExec2(img, h); s = ex.start(d, img.entries[c.name], []); vals = []; addr = []; wd = None
        for i, a in enumerate(c.args):
            if i in c.same: j = c.same[i]; addr.append(addr[j]); vals.append(vals[j]); v = addr[j]
            elif a[0] == 'u64':
                w = d.word(a[1]); d.nz.append(w.p); vals.append(w.p); addr.append(None); v = w; d.sh.lt.add((frozenset(), frozenset(w.p.items())))
            elif a[0] == 'c': vals.append(a[1]); addr.append(None); v = a[1]
            else:
                ad = v = A + SLOT * i; n = a[1] if a[0] in ('in', 'io', 'raw64') else next((c.args[k][1] for k, j in c.same.items() if j == i), 0); tot = {}
                for k in range(NW if a[0] in ('in', 'io', 'out') else a[1]):
                    w = d.word('x%d_%d' % (i, k)); s.mem[ad + 8 * k] = w
                    if k < n: tot = padd(tot, w.p, 1 << 64 * k); top = w
                if a[0] in ('in', 'io', 'out'):
                    s.mem[ad + 8 * NW] = n or 3
                    if n > 1: d.nz.append(top.p)
                    if n == 1: d.sh.lt.add((frozenset(), frozenset(top.p.items())))     # guarded by the test for zero below
                vals.append(tot); addr.append(ad)
            s.r[[7, 6, 2, 1, 8, 9][i]] = v
        inp = dict(s.mem); ix, iy, iq, ir = c.fn(None)
        X, Y = vals[ix], vals[iy]
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps; dd = self.cur = f.dom; tag = '%s %s: ' % (c.name, c.text())
            if f.user['end'] != 'ret': return tag + 'ends by ' + f.user['end']
            yz = c.args[iy][1] == 1 and not isinstance(Y, int) and any(frozenset(p.items()) == frozenset(Y.items()) for p in dd.zeros)
            if yz:
                # zero divisor: reported, nothing is promised about the results
                if c.name == 'V::div' and not (isinstance(f.r[0], int) and f.r[0] & 255 == 0): return tag + 'zero divisor not reported'
                continue
            if c.name == 'V::div' and not (isinstance(f.r[0], int) and f.r[0] & 255 == 1): return tag + 'returns false'
            nz = {frozenset(dd.res(p).items()) for p in dd.nz}
            def val(i):
                if i == 'ret': return dd.p(f.r[0])
                if c.name.startswith('zm::'): return words(f, addr[i], c.args[i][1])
                sz = f.load(addr[i] + 8 * NW)
                if not isinstance(sz, int) or not 1 <= sz <= NW: raise Unsupported(tag + 'size of the result')
                top = f.load(addr[i] + 8 * sz - 8)
                if sz > 1 and not (isinstance(top, int) and top) and frozenset(dd.res(dd.p(top)).items()) not in nz and not dd.positive(top): raise Unsupported(tag + 'leading zero word')
                return words(f, addr[i], sz)
            Q = val(iq) if iq is not None else None; Rr = val(ir) if ir is not None else None
            # what was not asked for: the quotient or remainder the path computed inside
            if Q is None or Rr is None: why = self.partial(dd, X, Y, Q, Rr)
            else:
                why = None if dd.equal(padd(padd(X, pmul(Q, Y), -1), Rr, -1)) else 'quotient * divisor + remainder is not the dividend'
                if not why and not dd.unsat([padd(Rr, Y, -1)]): why = 'remainder not below the divisor'
            if why: return tag + why
            for i, a in enumerate(c.args):
                if addr[i] is not None and a[0] in ('in', 'raw64') and not any(isinstance(j, int) and addr[i] == addr[j] for j in (iq, ir)):
                    for k in range(NW + 1):
                        if addr[i] + 8 * k in inp and f.mem[addr[i] + 8 * k] is not inp[addr[i] + 8 * k]: return tag + 'operand %d modified' % i
        return None
    def partial(self, dd, X, Y, Q, Rr):
        """only one of quotient and remainder is delivered.  The other one is what the division step introduced."""
        cand = [({}, None)]
        names = {}
        for i, nm in enumerate(dd.sh.nm):
            mm = re.match(r'Q(\d+)$', nm)
            if mm: names[int(mm.group(1))] = i
        if names: cand.append(({(i,): 1 << 64 * k for k, i in names.items()}, None))
        ks = [i for i, nm in enumerate(dd.sh.nm) if nm == 'q']      # word quotients, most significant first
        for t in range(1, len(ks) + 1): cand.append(({(i,): 1 << 64 * (len(ks[:t]) - 1 - j) for j, i in enumerate(ks[:t])}, None))
        cand.append(({(): 1}, None))
        for q, _ in cand:
            if Rr is not None: D = padd(padd(X, pmul(q, Y), -1), Rr, -1)
            else:
                r = padd(X, pmul(Q, Y), -1)
                if dd.unsat([padd(r, Y, -1)]) and dd.unsat([padd(neg(r), const(1), -1)]): return None
                continue
            if dd.equal(D): return None if dd.unsat([padd(Rr, Y, -1)]) else 'remainder not below the divisor'
        return 'not the %s' % ('remainder' if Rr is not None else 'quotient')
class DExec2(DExec):
    def branch(self, st, c, a_true, a_false):
        return DExec.branch(self, st, c, a_true, a_false)

# ---- native
def rnd(rng, n):
    ws = [word(rng) for _ in range(n)]
    if n > 1 and ws[-1] == 0: ws[-1] = rng.choice([1, M64, 1 << 63, rng.getrandbits(64) | 1, rng.getrandbits(rng.randrange(1, 64)) | 1])
    return sum(w << 64 * i for i, w in enumerate(ws))
def native_div(ctx, cfg, seed, n, deadline, shapes, names, hints=None):
    nat = limb.Native(ctx.exes['zm'], cfg); rng = random.Random('%s|%s|%s' % (seed, cfg.name, shapes[:1])); tried = 0
    try:
        def put(a, v, k): nat.srv.write(a, v.to_bytes(8 * NW, 'little') + k.to_bytes(8, 'little'))
        def get(a):
            b = nat.srv.read(a, 8 * NW + 8); k = int.from_bytes(b[72:], 'little')
            return int.from_bytes(b[:8 * k], 'little') if 1 <= k <= NW and (k == 1 or any(b[8 * k - 8:8 * k])) else None
        while tried < n and time.time() < deadline:
            k, m = rng.choice(shapes); name = rng.choice(names); tried += 1
            x, y = rnd(rng, k), rnd(rng, m)
            if k >= m and rng.random() < .6 and y:       # a dividend next to a multiple of the divisor
                x = max(0, y * rnd(rng, k - m + 1) + rng.choice([-1, 0, 1, rng.randrange(y), y - 1])) & ((1 << 64 * k) - 1)
            if rng.random() < .2: x = max(0, y + rng.choice([-1, 0, 1]))
            if hints and rng.randrange(2):
                h, ix, iy = rng.choice(hints); fo = Follow(h, rng); x, y = fo.value('x%d' % ix, x, k), fo.value('x%d' % iy, y, m)
            x &= (1 << 64 * NW) - 1; sz = lambda v: max(1, (v.bit_length() + 63) // 64)
            Z, Q, Xa, Ya = A, A + SLOT, A + 2 * SLOT, A + 3 * SLOT
            put(Z, rnd(rng, NW), rng.randrange(1, NW + 1)); put(Q, rnd(rng, NW), rng.randrange(1, NW + 1))
            sx, sy = sz(x), sz(y); put(Xa, x, sx); put(Ya, y, sy)
            if sx < NW: nat.srv.write(Xa + 8 * sx, b''.join(word(rng).to_bytes(8, 'little') for _ in range(NW - sx)))
            if sy < NW: nat.srv.write(Ya + 8 * sy, b''.join(word(rng).to_bytes(8, 'little') for _ in range(NW - sy)))
            if name == 'V::div':
                q, r = Q, Z; al = rng.randrange(7)
                if al == 1: q = Xa
                if al == 2: q = Ya
                if al == 3: r = Xa
                if al == 4: r = Ya
                if al == 5: q, r = Xa, Ya
                if al == 6: q, r = Ya, Xa
                o = nat.srv.call(nat.ent[name], q, r, Xa, Ya).split(); inp = dict(x=hex(x), y=hex(y), q='apart x y'.split()[[Q, Xa, Ya].index(q)], r='apart x y'.split()[[Z, Xa, Ya].index(r)])
                if o[0] != 'ret': return dict(entry=name, inputs=inp, observed='the call ended by ' + ' '.join(o)), tried
                if y == 0:
                    if int(o[1], 16) & 255: return dict(entry=name, inputs=inp, observed='zero divisor not reported'), tried
                    continue
                g = get(q), get(r), int(o[1], 16) & 255; w = x // y, x % y, 1
            else:
                if y == 0: continue
                al = rng.randrange(3); z = Xa if name.endswith('=') else (Z, Xa, Ya)[al]; inp = dict(x=hex(x), y=hex(y), result='apart x y'.split()[[Z, Xa, Ya].index(z)])
                o = nat.srv.call(nat.ent[name], *((Xa, Ya) if name.endswith('=') else (z, Xa, Ya))).split()
                if o[0] != 'ret': return dict(entry=name, inputs=inp, observed='the call ended by ' + ' '.join(o)), tried
                g = get(z); w = x // y if '/' in name else x % y
            if g != w: return dict(entry=name, inputs=inp, observed='got %s, should be %s' % (hx(g), hx(w))), tried
        return None, tried
    finally: nat.close()
def hx(v): return str(tuple(map(hx, v))) if isinstance(v, tuple) else 'no canonical number' if v is None else hex(v)

class DivOb(WOb):
    def validate(self, ctx): return self.nv(ctx, ctx.seed, 20, time.time() + 10)
    def witness(self, ctx, hints): return self.nv(ctx, ctx.seed + 5, 60000, ctx.wdeadline, hints)
    def nv(self, ctx, seed, n, dl, hints=None):
        c = self.cases[0]; names = tuple(sorted({x.name for x in self.cases}))
        if names[0] in ('V::div1', 'V::mod1', 'zm::div1', 'zm::mod1'): return native_div1(ctx, self.cfg, seed, n, dl, [x for x in self.cases], hints)
        ix, iy, _, _ = c.fn(None); return native_div(ctx, self.cfg, '%s%s' % (seed, self.key), n, dl, [(c.args[ix][1], c.args[iy][1])], names, [(h, *self.cases[k].fn(None)[:2]) for k, h in hints or []])
def native_div1(ctx, cfg, seed, n, dl, cases, hints=None):
    nat = limb.Native(ctx.exes['zm'], cfg); rng = random.Random('%s|%s|%s' % (seed, cfg.name, cases[0].text())); tried = 0
    try:
        while tried < n and time.time() < dl:
            c = rng.choice(cases); fo = Follow(None, rng)
            if hints and rng.randrange(2): i, h = rng.choice(hints); c = cases[i]; fo = Follow(h, rng)
            tried += 1; prim = c.name.startswith('zm::'); args = []; X = y = None; ad = {}
            for i, a in enumerate(c.args):
                if i in c.same: args.append(args[c.same[i]]); ad[i] = ad[c.same[i]]; continue
                if a[0] == 'u64': y = fo.words([a[1]], [word(rng) or 1])[0] or 1; args.append(y); continue
                if a[0] == 'c': args.append(a[1] & M64); continue
                p = A + SLOT * i; args.append(p); ad[i] = p
                k = a[1] if len(a) > 1 else next((c.args[q][1] for q, j in c.same.items() if j == i), None)
                v = rnd(rng, k if k else NW)
                if k:
                    w = fo.value('x%d' % i, v, k)
                    if prim or k == 1 or w >> 64 * k - 64: v = w
                if k and (a[0] in ('in', 'raw64') or i in c.same.values()): X = v
                nat.srv.write(p, v.to_bytes(72, 'little') + (b'' if prim else (k or 3).to_bytes(8, 'little')))
            o = nat.srv.call(nat.ent[c.name], *args).split(); inp = dict(x=hex(X), y=hex(y), shape=c.text())
            if o[0] != 'ret': return dict(entry=c.name, inputs=inp, observed=' '.join(o)), tried
            if int(o[1], 16) != X % y: return dict(entry=c.name, inputs=inp, observed='remainder 0x%s' % o[1]), tried
            iq = c.fn(None)[2]
            if iq is not None:
                b = nat.srv.read(ad[iq], 80)
                k = c.args[iq][1] if prim else int.from_bytes(b[72:], 'little')
                if not 1 <= k <= NW or int.from_bytes(b[:8 * k], 'little') != X // y or not prim and k > 1 and not any(b[8 * k - 8:8 * k]): return dict(entry=c.name, inputs=inp, observed='quotient'), tried
        return None, tried
    finally: nat.close()

def obs_for(cfg, ctx):
    th = ctx.thorough; obs = []; N = NW
    for up in (0, 1): obs.append(AppOb(cfg, up))
    for n in range(1, N + 1):
        R64 = ('raw64', n)
        obs.append(DivOb(cfg, 'zm::div1 n=%d' % n, [Case('zm::div1', [('ro', n), R64, ('c', n), ('u64', 'y')], lambda v: (1, 3, 0, 'ret'), sm) for sm in ({}, {1: 0})]))
        obs.append(DivOb(cfg, 'zm::mod1 n=%d' % n, [Case('zm::mod1', [R64, ('c', n), ('u64', 'y')], lambda v: (0, 2, None, 'ret'))]))
        obs.append(DivOb(cfg, 'div1 n=%d' % n, [Case('V::div1', [('out',), ('in', n), ('u64', 'y')], lambda v: (1, 2, 0, 'ret'), sm) for sm in ({}, {1: 0})] + [Case('V::mod1', [('in', n), ('u64', 'y')], lambda v: (0, 1, None, 'ret'))]))
        for m in range(1, N + 1):
            X, Y, O = ('in', n), ('in', m), ('out',)
            cs = [Case('V::div', [O, O, X, Y], lambda v: (2, 3, 0, 1), sm) for sm in ({}, {2: 0}, {3: 0}, {2: 1}, {3: 1}, {2: 0, 3: 1}, {3: 0, 2: 1})]
            cs += [Case('V::div', [('c', 0), O, X, Y], lambda v: (2, 3, None, 1), sm) for sm in ({}, {2: 1}, {3: 1})]
            if n == m: cs += [Case('V::div', [O, O, X, Y], lambda v: (2, 3, 0, 1), sm) for sm in ({3: 2}, {2: 0, 3: 0}, {2: 1, 3: 1})]
            obs.append(DivOb(cfg, 'V::div n=%d m=%d' % (n, m), cs, 3))
            cs = [Case('V::/', [O, X, Y], lambda v: (1, 2, 0, None), sm) for sm in ({}, {1: 0}, {2: 0})] + [Case('V::/=', [('io', n), Y], lambda v: (0, 1, 0, None))]
            obs.append(DivOb(cfg, 'V::/ n=%d m=%d' % (n, m), cs, 3))
            cs = [Case('V::%', [O, X, Y], lambda v: (1, 2, None, 0), sm) for sm in ({}, {1: 0}, {2: 0})] + [Case('V::%=', [('io', n), Y], lambda v: (0, 1, None, 0))]
            obs.append(DivOb(cfg, 'V::%% n=%d m=%d' % (n, m), cs, 3))
            if 2 <= m <= n:
                for wq in (True, False): obs.append(LoopOb(cfg, n, m, wq))
    return obs
def obligations(prop, ctx):
    ctx.exes = build.build(['zm']); obs = []
    for cfg in CF: image(ctx, cfg); obs += obs_for(cfg, ctx)
    info = dict(bounds='dividends and divisors of 1 to 9 words (576 bits), every value of the words (canonical operands), every zero or non-zero divisor; any number of iterations of the quotient loop; quotient and remainder overlapping the operands in every way the interface allows; portable and generated word primitives',
                outside='non-canonical operands; the number of iterations (termination follows because every iteration lowers the dividend); the 32-bit build', assumptions=['memcpy and memmove copy', '__udivti3 and __umodti3 divide 128-bit numbers', 'doubles are IEEE, rounded to nearest, as on x86-64'])
    return obs, info
