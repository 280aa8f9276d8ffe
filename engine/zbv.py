"""Bit-vector domain: every word is a z3 bit vector (or a Python int).  ZExec follows both sides of an undecided branch
to their join point (the immediate postdominator in the machine code's flow graph, or the return of the
function) and merges them, so straight-line data-dependent code yields one state."""
import time, z3
import x86
from x86 import Exec, State, PathEnd, Unsupported, Flags, decode, STACK, RET, sx
from poly import STATS

BV = z3.BitVecVal
M64 = (1 << 64) - 1
def bv(v, w=64): return BV(v, w) if isinstance(v, int) else v
def num(e):
    """int when the expression is a constant"""
    if isinstance(e, int): return e
    return e.as_long() if z3.is_bv_value(e) else e
_fresh = [0]
def fresh(nm, w=64): _fresh[0] += 1; return z3.BitVec('%s!%d' % (nm, _fresh[0]), w)
class Case(Exception):
    def __init__(self, cases): self.cases = cases

class ZB:
    timeout = 30000; qfbv = True
    def __init__(self): self.pcs = []
    def clone(self):
        d = self.__class__.__new__(self.__class__); d.__dict__.update(self.__dict__); d.pcs = list(self.pcs); return d
    # ---- solver
    def sat(self, *cs, to=None):
        s = z3.SolverFor('QF_BV') if self.qfbv else z3.Solver(); s.set('timeout', to or self.timeout); t = time.time()
        for c in self.pcs: s.add(c)
        for c in cs: s.add(c)
        r = s.check(); STATS.q += 1; STATS.t += time.time() - t
        if r == z3.unknown: STATS.unk += 1; raise Unsupported('solver gave up')
        return s.model() if r == z3.sat else None
    def rd(self, v): return v
    def undef(self, nm): return fresh(nm)
    def on_store(self, s, a, v): pass
    def flag_dead(self, c): pass
    # ---- words
    def ext(self, v, w, n): return z3.ZeroExt(n, bv(v, w))
    def addc(self, a, b, cin, w):
        if isinstance(b, int) and b == 0 and isinstance(cin, int) and cin == 0: return a, 0
        if isinstance(a, int) and a == 0 and isinstance(cin, int) and cin == 0: return b, 0
        s = self.ext(a, w, 1) + self.ext(b, w, 1)
        if not (isinstance(cin, int) and cin == 0): s = s + (BV(int(cin), w + 1) if isinstance(cin, (int, bool)) else z3.ZeroExt(w, cin))
        return z3.Extract(w - 1, 0, s), z3.Extract(w, w, s)
    def add(self, a, b, w):
        if isinstance(b, int) and b == 0: return a
        return bv(a, w) + bv(b, w)
    def subb(self, a, b, cin, w):
        if isinstance(b, int) and b == 0 and isinstance(cin, int) and cin == 0: return a, 0
        if isinstance(cin, int) and cin == 0: return bv(a, w) - bv(b, w), z3.If(z3.ULT(bv(a, w), bv(b, w)), BV(1, 1), BV(0, 1))
        s = self.ext(a, w, 1) - self.ext(b, w, 1) - (BV(int(cin), w + 1) if isinstance(cin, (int, bool)) else z3.ZeroExt(w, cin))
        return z3.Extract(w - 1, 0, s), z3.Extract(w, w, s)
    def mul(self, a, b, w):
        p = self.ext(a, w, w) * self.ext(b, w, w); return z3.Extract(w - 1, 0, p), z3.Extract(2 * w - 1, w, p)
    def mullo(self, a, b, w): return bv(a, w) * bv(b, w)
    def imul_full(self, a, b, w):
        p = z3.SignExt(w, bv(a, w)) * z3.SignExt(w, bv(b, w)); return z3.Extract(w - 1, 0, p), z3.Extract(2 * w - 1, w, p)
    def logic(self, k, a, b, w):
        if isinstance(a, int): a, b = b, a
        m = (1 << w) - 1
        if isinstance(b, int):
            if k == 'and' and b & m == 0: return 0
            if k == 'or' and b & m == m: return m
            if (k == 'and' and b & m == m) or (k != 'and' and b & m == 0): return a
        a, b = bv(a, w), bv(b, w)
        return a & b if k == 'and' else a | b if k == 'or' else a ^ b
    def bitnot(self, a, w): return ~bv(a, w)
    def cnt(self, k, w): return bv(k, w) if isinstance(k, int) else z3.ZeroExt(w - k.size(), k) if k.size() < w else z3.Extract(w - 1, 0, k) if k.size() > w else k
    def shl(self, a, k, w): return bv(a, w) << self.cnt(k, w)
    def shr(self, a, k, w): return z3.LShR(bv(a, w), self.cnt(k, w))
    def sar(self, a, k, w): return bv(a, w) >> self.cnt(k, w)
    def rol(self, a, k, w): return z3.RotateLeft(bv(a, w), k)
    def shld(self, a, b, k, w):
        x = z3.Concat(bv(a, w), bv(b, w)) << self.cnt(k if isinstance(k, int) else k & (w - 1), 2 * w); return z3.Extract(2 * w - 1, w, x)
    def shrd(self, a, b, k, w):
        x = z3.LShR(z3.Concat(bv(b, w), bv(a, w)), self.cnt(k if isinstance(k, int) else k & (w - 1), 2 * w)); return z3.Extract(w - 1, 0, x)
    def shift_cf(self, mn, a, k, w):
        if not isinstance(k, int): return None
        i = k - 1 if mn in ('shr', 'sar') else w - k
        return z3.Extract(i, i, bv(a, w)) if 0 <= i < w else None
    def extract(self, v, lo, n):
        if isinstance(v, int): return v >> lo & (1 << n) - 1
        return v if lo == 0 and n == v.size() else z3.Extract(lo + n - 1, lo, v)
    def extract2(self, lo, hi, off, n): return z3.Extract(off + n - 1, off, z3.Concat(bv(hi), bv(lo)))
    def insert(self, old, v, off, n):
        old = bv(old); v = bv(v, n); ps = []
        if off + n < 64: ps.append(z3.Extract(63, off + n, old))
        ps.append(v)
        if off: ps.append(z3.Extract(off - 1, 0, old))
        return z3.Concat(ps) if len(ps) > 1 else ps[0]
    insert_any = insert
    def zext(self, v, w): return v if v.size() == 64 else z3.ZeroExt(64 - v.size(), v)
    def zext_to(self, v, w, to): return z3.ZeroExt(to - v.size(), v) if v.size() < to else v
    def sext_to(self, v, w, to): return z3.SignExt(to - v.size(), v) if v.size() < to else v
    def bt(self, a, k, w): return z3.Extract(0, 0, z3.LShR(bv(a, w), self.cnt(k, w) & (w - 1)))
    def bitscan(self, s, mn, a, w):
        if mn in ('bsr', 'lzcnt'):
            r = fresh('undef', w) if mn == 'bsr' else BV(w, w)
            for i in range(w): r = z3.If(z3.Extract(i, i, a) == 1, BV(i if mn == 'bsr' else w - 1 - i, w), r)
        else:
            r = fresh('undef', w) if mn == 'bsf' else BV(w, w)
            for i in range(w - 1, -1, -1): r = z3.If(z3.Extract(i, i, a) == 1, BV(i, w), r)
        return r
    def div(self, s, hi, lo, b, w):
        hi, lo, b = bv(hi, w), bv(lo, w), bv(b, w)
        if self.sat(z3.UGE(hi, b)) is not None: raise Unsupported('possible divide error')
        n = z3.Concat(hi, lo); d = z3.ZeroExt(w, b)
        return z3.Extract(w - 1, 0, z3.UDiv(n, d)), z3.Extract(w - 1, 0, z3.URem(n, d))
    # ---- conditions
    def bnot(self, c): return (not c) if isinstance(c, bool) else z3.Not(c)
    def bor(self, a, b): return z3.Or(a, b)
    def cf_bool(self, c): return c == 1
    def zero(self, f): return bv(f.res, f.w) == 0
    def sign(self, f): return z3.Extract(f.w - 1, f.w - 1, f.res) == 1
    def signed(self, f, cc):
        w = f.w
        if f.kind == 'sub':
            a, b = bv(f.a, w), bv(f.b, w)
            if cc == 'l': return a < b
            if cc == 'le': return a <= b
        if f.kind == 'logic':
            if cc == 'l': return bv(f.res, w) < 0
            if cc == 'le': return bv(f.res, w) <= 0
            if cc == 'o': return False
        if f.kind in ('add',) and cc in ('l', 'le'):
            a, b = z3.SignExt(1, bv(f.a, w)), z3.SignExt(1, bv(f.b, w)); s = a + b
            return s < 0 if cc == 'l' else s <= 0
        raise Unsupported('signed condition')
    def mask(self, c, w): return z3.If(c, BV((1 << w) - 1, w), BV(0, w))
    def b2v(self, c, w): return z3.If(c, BV(1, w), BV(0, w))
    def ite(self, c, a, b, w, st=None):
        if isinstance(a, int) and isinstance(b, int) and a == b: return a
        return z3.If(c, bv(a, w), bv(b, w))
    def decide(self, c, lazy=False):
        if isinstance(c, bool): return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if lazy: return None
        if self.sat(c) is None: return False
        if self.sat(z3.Not(c)) is None: return True
        return None
    # ---- addresses
    def values(self, e, limit=600):
        e = z3.simplify(e)
        if z3.is_bv_value(e): return [e.as_long()]
        out = []; blk = []
        while True:
            m = self.sat(*blk)
            if m is None: return out
            v = m.eval(e, model_completion=True).as_long(); out.append(v); blk.append(e != v)
            if len(out) > limit: raise Unsupported('too many values of an address')
    def splitcases(self, s, e, setter):
        vs = self.values(e)
        if not vs: raise PathEnd('infeasible')
        return vs
    def sym_load(self, s, a, n):
        vs = self.values(a, 80)
        if not vs: raise PathEnd('infeasible')
        r = None
        for v in vs:
            x = s.load(v, n)
            if isinstance(x, tuple): raise Unsupported('vector load at a symbolic address')
            r = x if r is None else z3.If(a == v, bv(x, n), bv(r, n)) if not (isinstance(x, int) and isinstance(r, int) and x == r) else r
        return r
    def sym_store(self, s, a, v, n):
        vs = self.values(a, 80)
        if not vs: raise PathEnd('infeasible')
        if len(vs) == 1: return s.store(vs[0], v, n)
        for x in vs:
            old = s.load(x, n); s.store(x, z3.If(a == x, bv(v, n), bv(old, n)), n)
    def concretize(self, s, t): raise Unsupported('symbolic jump')
    # ---- floating point (doubles)
    def fp(self, v): return z3.fpBVToFP(bv(v), z3.Float64())
    def ieee(self, r):
        r = z3.simplify(r)
        if z3.is_fp_value(r): return z3.simplify(z3.fpToIEEEBV(r)).as_long()
        t = fresh('fp'); self.pcs.append(self.fp(t) == r); return t
    def fpop(self, e, s, mn, o, nxt):
        self.qfbv = False
        rm = z3.RNE()
        def src(): return s.x[o[1][1]][0] if o[1][0] == 'x' else s.get(o[1], nxt, 64)
        if mn == 'cvtsi2sd':
            w = s.width(o[1]) or 64; v = s.get(o[1], nxt, w)
            s.x[o[0][1]] = (self.ieee(z3.fpSignedToFP(rm, bv(v, w), z3.Float64())), s.x[o[0][1]][1]); return
        if mn == 'cvttsd2si':
            w = s.width(o[0]); s.put(o[0], z3.fpToSBV(z3.RTZ(), self.fp(src()), z3.BitVecSort(w)), nxt); return
        if mn in ('comisd', 'ucomisd'):
            s.fl = Flags('fcmp', 64, self.fp(s.x[o[0][1]][0]), self.fp(src()), None, None)
            a, b = s.fl.a, s.fl.b
            s.fl.cf = z3.If(z3.Or(z3.fpLT(a, b), z3.fpIsNaN(a), z3.fpIsNaN(b)), BV(1, 1), BV(0, 1)); return
        a, b = self.fp(s.x[o[0][1]][0]), self.fp(src())
        f = {'addsd': z3.fpAdd, 'subsd': z3.fpSub, 'mulsd': z3.fpMul, 'divsd': z3.fpDiv}.get(mn)
        if f is None: raise Unsupported(mn)
        s.x[o[0][1]] = (self.ieee(f(rm, a, b)), s.x[o[0][1]][1])
    def fl_fcmp(self, f, cc):
        un = z3.Or(z3.fpIsNaN(f.a), z3.fpIsNaN(f.b))
        if cc == 'e': return z3.Or(un, z3.fpEQ(f.a, f.b))
        if cc == 'be': return z3.Or(un, z3.fpLEQ(f.a, f.b))
        return un

NORET = ('errExit', '__cxa_throw', '__throw', 'exit', 'abort', '_Unwind_Resume', 'terminate', '__cxa_rethrow')
class ZExec(Exec):
    merging = True
    """merging executor"""
    lazy = 12
    def __init__(self, *a, **k): Exec.__init__(self, *a, **k); self.joins = 0; self.ended = []; self.pd = {}; self.split_mem = None
    # ---- flow graph after a branch: its immediate postdominator within the function, or None (= the return)
    def noret(self, a):
        nm = self.img.symname.get(a, '')
        return any(x in nm for x in NORET)
    def ipdom(self, pc):
        if pc in self.pd: return self.pd[pc]
        succ = {}; work = [pc]; EXIT = 'exit'
        while work:
            p = work.pop()
            if p in succ or p == EXIT: continue
            ent = self.img.fetch(p)
            if ent is None: succ[p] = []; continue
            nxt, txt = ent; mn, ops = decode(txt)
            if mn == 'ret': succ[p] = [EXIT]
            elif mn == 'jmp': succ[p] = [ops[0][1]] if ops[0][0] == 'i' and not self.tail(ops[0][1]) else [EXIT]
            elif mn[0] == 'j': succ[p] = [ops[0][1], nxt]
            elif mn == 'call' and ops[0][0] == 'i' and self.noret(ops[0][1]): succ[p] = []
            elif mn in ('ud2', 'hlt'): succ[p] = []
            else: succ[p] = [nxt]
            work += succ[p]
            if len(succ) > 4000: self.pd[pc] = None; return None
        nodes = [n for n in succ]; full = frozenset(nodes) | {EXIT}
        # nodes that cannot reach the exit are ignored
        pred = {}
        for n in succ:
            for q in succ[n]: pred.setdefault(q, []).append(n)
        live = {EXIT}; st = [EXIT]
        while st:
            for n in pred.get(st.pop(), []):
                if n not in live: live.add(n); st.append(n)
        if pc not in live: self.pd[pc] = None; return None
        pdom = {n: set(live) for n in live}; pdom[EXIT] = {EXIT}
        order = []; seen = {EXIT}; q = [EXIT]
        while q:
            x = q.pop(0); order.append(x)
            for n in pred.get(x, []):
                if n in live and n not in seen: seen.add(n); q.append(n)
        ch = True
        while ch:
            ch = False
            for n in order:
                if n == EXIT: continue
                ss = [pdom[m] for m in succ[n] if m in live]
                new = set.intersection(*ss) | {n} if ss else {n}
                if new != pdom[n]: pdom[n] = new; ch = True
        cand = pdom[pc] - {pc}
        best = max(cand, key=lambda n: len(pdom[n])) if cand else EXIT
        r = None if best == EXIT else best
        self.pd[pc] = r
        return r
    def tail(self, a): return a in self.img.symname or a in self.hooks
    def step(self, s):
        pc = s.pc
        h = self.hooks.get(pc)
        if h is not None:
            r = h(s)
            if r != 'continue':
                for t in ([s] if r is None else r): t.user['depth'] -= 1
                return r
        ent = self.img.fetch(pc); c = ent[1][:4] if ent else ''
        if c == 'call': s.user['depth'] += 1
        elif c[:3] == 'ret' or ent and ent[1].startswith('repz ret'): s.user['depth'] -= 1
        hk = self.hooks; self.hooks = {}
        try: return Exec.step(self, s)
        finally: self.hooks = hk
    def branch(self, st, c, a_true, a_false):
        if not isinstance(c, bool):
            # the solver is asked only where paths could otherwise multiply without end
            k = ('n', a_true, a_false); st.user[k] = st.user.get(k, 0) + 1
            t = st.dom.decide(c, lazy=st.user[k] <= self.lazy); c = t if t is not None else c
        if isinstance(c, bool): st.pc = a_true if c else a_false; return None
        self.pending = c
        return [('branch', c, a_true, a_false)]
    def run_to(self, st, stop):
        """states that reach the stop: (pc, depth) or (None, depth) for leaving the activation"""
        while True:
            d = st.user['depth']
            if stop[0] is None:
                if d < stop[1]: return [st]
            elif st.pc == stop[0] and d == stop[1]: return [st]
            elif d < stop[1]: return [st]
            pc = st.pc
            try: nx = self.step(st)
            except PathEnd as e:
                st.user['end'] = e.why
                if e.why != 'infeasible' and st.dom.sat() is not None: self.ended.append(st)
                return []
            except (Unsupported, RuntimeError):
                if st.dom.sat() is None: return []       # a path that cannot be taken
                raise
            if nx is None: continue
            if isinstance(nx[0], tuple):
                _, c, at, af = nx[0]
                j = (self.ipdom(pc), st.user['depth'])
                A = st.copy(); A.pc = at; A.dom.pcs.append(c)
                B = st; B.pc = af; n = len(B.dom.pcs); B.dom.pcs = B.dom.pcs + [z3.Not(c)]
                out = self.run_to(A, j) + self.run_to(B, j)
                out = self.join(out, n)
                if len(out) == 1: st = out[0]; continue
                return [y for x in out for y in self.run_to(x, stop)]
            if len(nx) == 1: st = nx[0]; continue
            return [y for x in nx for y in self.run_to(x, stop)]
    def run(self, s):
        s.user['depth'] = 0
        out = self.run_to(s, (None, 0))
        for x in out: x.user['end'] = 'ret'
        return out + self.ended
    # ---- merging
    def join(self, sts, n):
        out = []
        for s in sts:
            for i, o in enumerate(out):
                m = self.merge(o, s, n)
                if m is not None: out[i] = m; break
            else: out.append(s)
        return out
    def mergeable(self, a, b): return a.pc == b.pc and a.r[4] == b.r[4] and a.user['depth'] == b.user['depth']
    def merge(self, a, b, n):
        if not self.mergeable(a, b): return None
        ga, gb = a.dom.pcs[n:], b.dom.pcs[n:]; b.dom.qfbv = b.dom.qfbv and a.dom.qfbv
        g = z3.And(ga) if len(ga) != 1 else ga[0]
        self.joins += 1
        def mg(x, y):
            if x is y: return x
            if isinstance(x, int) and isinstance(y, int) and x == y: return x
            if isinstance(x, (int, z3.BitVecRef)) and isinstance(y, (int, z3.BitVecRef)):
                if not isinstance(x, int) and not isinstance(y, int) and x.eq(y): return x
                return z3.If(g, bv(x), bv(y))
            return fresh('merged')
        r = {}
        for k in set(a.mem) | set(b.mem):
            x, y = a.mem.get(k), b.mem.get(k)
            if x is None: x = a.img.u64(k)
            if y is None: y = a.img.u64(k)
            r[k] = fresh('stk') if x is None and y is None else mg(fresh('stk') if x is None else x, fresh('stk') if y is None else y)
        b.mem = r; b.r = [mg(x, y) for x, y in zip(a.r, b.r)]
        b.x = [tuple(mg(p, q) for p, q in zip(x, y)) for x, y in zip(a.x, b.x)]
        if a.fl is not b.fl: b.fl = None
        b.writes |= a.writes; b.steps = max(a.steps, b.steps)
        comp = len(ga) == len(gb) == 1 and z3.Not(ga[0]).eq(gb[0])
        b.dom.pcs = b.dom.pcs[:n] + ([] if comp else [z3.Or(z3.And(ga), z3.And(gb))])
        for k in set(a.user) | set(b.user):
            if isinstance(k, tuple): b.user[k] = max(a.user.get(k, 0), b.user.get(k, 0))
            if k in ('heap',): b.user[k] = max(a.user.get(k, 0), b.user.get(k, 0))
        return b
