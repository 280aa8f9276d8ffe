"""Exact integer domain: a word is a polynomial over atoms with its exact value in [0, 2^64).  A carry is a fresh 0/1
atom, a product a fresh high word, a quotient a fresh word with the remainder as its exact defect.  What the carries are
is left open; at the end the solver (linear arithmetic over the monomials) decides those that remain in the claim."""
import time, z3
from x86 import Unsupported, PathEnd, Flags
from zbv import ZExec
from poly import STATS
M64 = (1 << 64) - 1; B64 = 1 << 64

def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)); v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def const(c): return {(): c} if c else {}
class IW:
    __slots__ = ('p', 'hi', 'rec', 'parts')
    def __init__(self, p, hi, rec=None): self.p, self.hi, self.rec, self.parts = p, hi, rec, None
    def __repr__(self): return 'IW(%s)' % self.p
class Cond:
    __slots__ = ('kind', 'p', 'neg')
    def __init__(self, kind, p, neg=False): self.kind, self.p, self.neg = kind, p, neg

class Shared:
    def __init__(self): self.hi = []; self.nm = []; self.bit = []; self.facts = []; self.known = {}; self.divs = {}; self.lt = set()
class IDom:
    timeout = 20000
    def __init__(self): self.sh = Shared(); self.path = {}; self.zeros = []; self.nz = []
    def clone(self):
        d = self.__class__.__new__(self.__class__); d.__dict__.update(self.__dict__)
        d.path = dict(self.path); d.zeros = list(self.zeros); d.nz = list(self.nz); return d
    def atom(self, nm, hi, bit=False):
        s = self.sh; s.hi.append(hi); s.nm.append(nm); s.bit.append(bit); return len(s.hi) - 1
    def word(self, nm='', hi=M64): return IW({(self.atom(nm, hi),): 1}, hi)
    def bitatom(self, nm='c'): return {(self.atom(nm, 1, True),): 1}
    def undef(self, nm): return self.word(nm)
    def rd(self, v): return v
    def on_store(self, s, a, v): pass
    def flag_dead(self, c): pass
    def p(self, v): return const(v) if isinstance(v, int) else v.p
    def hi(self, v): return v if isinstance(v, int) else min(v.hi, self.upper(v.p))
    def upper(self, p):
        t = 0
        for m, c in p.items():
            if c > 0:
                for a in m: c *= self.sh.hi[a]
                t += c
        return t
    def lower(self, p):
        t = 0
        for m, c in p.items():
            if c < 0 or not m:
                for a in m: c *= self.sh.hi[a]
                t += c
        return t
    def mk(self, p, hi, rec=None):
        if not p: return 0
        if list(p) == [()]: return p[()]
        return IW(p, hi, rec)
    def fact(self, p): self.sh.facts.append(p)          # p >= 0
    def wordfact(self, p): self.fact(p); self.fact(padd(const(M64), p, -1))
    def key(self, v): return frozenset(self.p(v).items())
    # ---- arithmetic
    def cp(self, c): return const(int(c)) if isinstance(c, (int, bool)) else c
    def fits(self, v, w):
        if w != 64 and self.hi(v) >> w: raise Unsupported('narrow arithmetic')
    def addc(self, a, b, cin, w):
        self.fits(a, w); self.fits(b, w)
        s = padd(padd(self.p(a), self.p(b)), self.cp(cin)); h = self.hi(a) + self.hi(b) + (cin if isinstance(cin, (int, bool)) else 1)
        if h < 1 << w: return self.mk(s, h), 0
        if w != 64: raise Unsupported('narrow arithmetic')
        c = self.bitatom(); r = padd(s, c, -B64); self.wordfact(r)
        return self.mk(r, M64, (self.key(a), self.key(b), c) if isinstance(cin, int) and not cin else None), c
    def add(self, a, b, w): return self.addc(a, b, 0, w)[0]
    def subb(self, a, b, cin, w):
        if isinstance(b, int) and not b and isinstance(cin, int) and not cin: return a, 0
        if w != 64: raise Unsupported('narrow arithmetic')
        d = padd(padd(self.p(a), self.p(b), -1), self.cp(cin), -1)
        if self.lower(d) >= 0: return self.mk(d, M64), 0
        if isinstance(cin, int) and not cin and isinstance(a, IW) and a.rec and self.key(b) in a.rec[:2]: c = a.rec[2]
        else: c = self.bitatom()
        r = padd(d, c, B64); self.wordfact(r)
        return self.mk(r, M64), c
    def mul(self, a, b, w):
        if w != 64: raise Unsupported('narrow product')
        h = self.hi(a) * self.hi(b); pr = pmul(self.p(a), self.p(b))
        if h <= M64: return self.mk(pr, h), 0
        k = ('mul', frozenset((self.key(a), self.key(b))))
        if k in self.sh.divs: return self.sh.divs[k]
        H = self.word('h', h >> 64); L = padd(pr, H.p, -B64); self.wordfact(L)
        self.sh.divs[k] = (IW(L, M64), H); return self.sh.divs[k]
    def mullo(self, a, b, w): return self.mul(a, b, w)[0]
    def div(self, s, hi, lo, b, w):
        """quotient and remainder; the high word must be below the divisor"""
        if w != 64: raise Unsupported('narrow division')
        lt = self.sh.lt
        if not ((self.key(hi), self.key(b)) in lt or isinstance(b, int) and self.hi(hi) < b): raise Unsupported('high word of a division not below the divisor')
        k = (self.key(hi), self.key(lo), self.key(b))
        if k not in self.sh.divs:
            q = self.word('q'); r = padd(padd(pmul(self.p(hi), const(B64)), self.p(lo)), pmul(q.p, self.p(b)), -1)
            self.fact(r); self.fact(padd(padd(self.p(b), r, -1), const(1), -1))
            R = self.mk(r, min(M64, self.hi(b) - 1)); lt.add((self.key(R), self.key(b))); self.sh.divs[k] = (q, R)
        return self.sh.divs[k]
    def logic(self, k, a, b, w):
        if isinstance(a, int): a, b = b, a
        m = (1 << w) - 1
        if isinstance(b, int):
            if k == 'and':
                if b & m == 0: return 0
                n = (b & m).bit_length()
                if b & m == (1 << n) - 1 and self.hi(a) <= b & m: return a
            elif b & m == 0: return a
        elif self.key(a) == self.key(b): return 0 if k == 'xor' else a
        elif k == 'or' and self.hi(a) <= 1 and self.hi(b) <= 1: return self.mk(padd(padd(self.p(a), self.p(b)), pmul(self.p(a), self.p(b)), -1), 1)
        raise Unsupported('logic ' + k)
    def extract(self, v, lo, n):
        if isinstance(v, int): return v >> lo & (1 << n) - 1
        if lo == 0 and self.hi(v) < 1 << n: return v
        for a, k, u in v.parts or ():
            if a <= lo and lo + n <= a + k:
                if isinstance(u, int): return u >> lo - a & (1 << n) - 1
                if (a, k) == (lo, n): return u
        raise Unsupported('extract')
    def insert(self, old, v, off, n):
        if off == 0 and isinstance(old, int) and not old >> n: return v
        if off == 0 and isinstance(old, int): return self.mk(padd(self.p(v), const(old >> n << n)), M64)
        r = self.undef('ins')
        r.parts = [t for t in ([(0, 64, old)] if isinstance(old, int) else old.parts or []) if t[0] + t[1] <= off or off + n <= t[0]] + [(off, n, v)]
        if isinstance(old, int):      # the concrete rest stays readable
            if off: r.parts.append((0, off, old & (1 << off) - 1))
            if off + n < 64: r.parts.append((off + n, 64 - off - n, old >> off + n))
        return r
    insert_any = insert
    def zext(self, v, n): return v
    def zext_to(self, v, w, n): return v
    def sext_to(self, v, w, n):
        if self.hi(v) < 1 << (w - 1): return v
        raise Unsupported('sign extension')
    def shl(self, a, k, w):
        if isinstance(k, int) and self.hi(a) << k <= M64: return self.mk(pmul(self.p(a), const(1 << k)), M64)
        raise Unsupported('shl')
    def shr(self, a, k, w):
        if isinstance(k, int) and self.hi(a) >> k == 0: return 0
        raise Unsupported('shr')
    def shift_cf(self, *a): return None
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('operation ' + n)
    # ---- conditions
    def bnot(self, c): return (not c) if isinstance(c, bool) else Cond(c.kind, c.p, not c.neg)
    def cf_bool(self, c):
        c = self.res(c)
        return bool(c.get((), 0)) if not c or list(c) == [()] else Cond('c', c)
    def zero(self, f):
        p = self.p(f.res)
        if self.lower(p) > 0: return False
        return Cond('zero', p)
    def res(self, p):
        """with the bits known on this path or everywhere put in"""
        k = self.sh.known; o = {}
        for m, c in p.items():
            if any(a in k or a in self.path for a in m):
                n = []
                for a in m:
                    v = k.get(a, self.path.get(a))
                    if v is None: n.append(a)
                    else: c *= v
                m = tuple(n)
            if c: o[m] = o.get(m, 0) + c
        return {m: c for m, c in o.items() if c}
    def decide(self, c, lazy=False):
        if isinstance(c, bool): return c
        p = self.res(c.p)
        if c.kind == 'c':
            if not p or list(p) == [()]: return bool(p.get((), 0)) != c.neg
            return None
        f = frozenset(p.items())
        if not p or any(f == frozenset(self.res(z).items()) for z in self.zeros): return not c.neg
        if list(p) == [()] or any(f == frozenset(self.res(z).items()) for z in self.nz): return c.neg
        return None
    def assume(self, c, val, st=None):
        v = val != c.neg
        if c.kind == 'zero': (self.zeros if v else self.nz).append(c.p); return True
        p = self.res(c.p); (m, k), = p.items() if len(p) == 1 else ((None, 0),)
        if m is None or len(m) != 1 or k != 1: raise Unsupported('condition')
        self.path[m[0]] = int(v); return True
    def b2v(self, c, w):
        if c.kind != 'c': raise Unsupported('setcc')
        return self.mk(c.p if not c.neg else padd(const(1), c.p, -1), 1)
    def ite(self, c, a, b, w, st=None):
        if c.kind != 'c': raise Unsupported('cmov')
        if c.neg: a, b = b, a
        return self.mk(padd(self.p(b), pmul(c.p, padd(self.p(a), self.p(b), -1))), M64)
    def mask(self, c, w):
        raise Unsupported('mask')
    # ---- solver
    def unsat(self, extra):
        """no values of the atoms satisfy the facts and the extra claims (polynomials >= 0).  Monomials are independent unknowns.
        Models found earlier on the same path are tried first."""
        extra = [self.res(p) for p in extra]; sh = self.sh
        for p in extra:
            if not p or list(p) == [()]:
                if p.get((), 0) < 0: return True
        sig = (len(sh.facts), len(self.zeros), len(self.nz), len(self.path), len(sh.known), len(self.__dict__.get('pf', ())))
        ms = self.__dict__.get('models')
        if ms is None or ms[0] != sig: ms = self.__dict__['models'] = [sig, [], None, set()]
        def ev(p, m): return sum(c * m.get(k, 0) if k else c for k, c in p.items())
        for m in ms[1]:
            if all(ev(p, m) >= 0 for p in extra): return False
        cache = sh.__dict__.setdefault('lins', {}); vs = sh.__dict__.setdefault('zvars', {})
        def var(m):
            if m not in vs:
                v = (z3.Int if len(m) == 1 and sh.bit[m[0]] else z3.Real)('m' + '_'.join(map(str, m))); u = 1
                for a in m: u *= sh.hi[a]
                vs[m] = (v, z3.And(v >= 0, v <= u))
            return vs[m][0]
        def con(p, k0, op):      # p - k0 op 0, cached
            k = (frozenset(p.items()), k0, op); e = cache.get(k)
            if e is None:
                ts = [z3.RealVal(c) if not m else (c * var(m) if not (len(m) == 1 and sh.bit[m[0]]) else c * z3.ToReal(var(m))) for m, c in p.items()]
                e = ts[0] if len(ts) == 1 else z3.Sum(ts) if ts else z3.RealVal(0); e = cache[k] = e >= k0 if op == '>=' else e == k0
            return e
        used = ms[3]; s = ms[2]
        def bounds(ps):
            n = {m for p in ps for m in p if m} - used; used.update(n); return [vs[m][1] for m in n]
        if s is None:
            s = ms[2] = z3.SolverFor('QF_LIRA'); s.set('timeout', self.timeout); cons = []; ps = []
            for p in self.zeros: p = self.res(p); ps.append(p); cons.append(con(p, 0, '=='))
            for p in self.nz: p = self.res(p); ps.append(p); cons.append(con(p, 1, '>='))
            seen = set()
            for p in list(sh.facts) + list(self.__dict__.get('pf', ())):
                p = self.res(p); k = frozenset(p.items())
                if k in seen or len(p) == 1 and list(p.values())[0] >= 0: continue
                seen.add(k); ps.append(p); cons.append(con(p, 0, '>='))
            s.add(cons + bounds(ps))
        xs = [con(p, 0, '>=') for p in extra]; s.add(bounds(extra)); s.push(); s.add(xs)
        t = time.time(); r = s.check(); STATS.q += 1; STATS.t += time.time() - t
        if r == z3.unknown:      # once more without the history
            STATS.unk += 1; s2 = z3.SolverFor('QF_LIRA'); s2.set('timeout', self.timeout); s2.add(s.assertions()); t = time.time(); r = s2.check(); STATS.q += 1; STATS.t += time.time() - t
        if r == z3.sat and len(ms[1]) < 12:
            try:
                md = s.model()
                def num(v):
                    v = md.eval(v, model_completion=True); return v.as_long() if z3.is_int_value(v) else v.as_fraction()
                ms[1].append({m: num(vs[m][0]) for m in used})
            except z3.Z3Exception: pass
        s.pop()
        return r == z3.unsat
    def positive(self, v): return self.unsat([{m: -c for m, c in self.p(v).items()}])
    def equal(self, p):
        """p == 0 under the facts of the path"""
        p = self.res(p)
        if not p: return True
        f = frozenset(p.items())
        if any(f == frozenset(self.res(z).items()) for z in self.zeros): return True
        return self.unsat([padd(p, const(1), -1)]) and self.unsat([padd({m: -c for m, c in p.items()}, const(1), -1)])
    def equal_mod(self, p, n):
        """p == 0 modulo 2^(64 n): the remaining carries are decided in the order they arose"""
        for _ in range(200):
            p = {m: c % (1 << 64 * n) for m, c in self.res(p).items()}; p = {m: c for m, c in p.items() if c}
            if not p: return True
            bits = sorted({a for m in p for a in m if self.sh.bit[a]})
            done = False
            for a in bits:
                if self.unsat([{(a,): 1, (): -1}]): self.sh.known[a] = 0; done = True; break
                if self.unsat([{(a,): -1}]): self.sh.known[a] = 1; done = True; break
            if not done: return False
        return False

class IExec(ZExec):
    """a branch on a carry runs both sides to their join point and merges; a branch on a zero test forks"""
    def branch(self, st, c, a_true, a_false):
        if not isinstance(c, bool):
            t = st.dom.decide(c); c = t if t is not None else c
        if isinstance(c, bool): st.pc = a_true if c else a_false; return None
        return [('branch', c, a_true, a_false)]
    def run_to(self, st, stop):
        while True:
            d = st.user['depth']
            if stop[0] is None:
                if d < stop[1]: return [st]
            elif st.pc == stop[0] and d == stop[1]: return [st]
            elif d < stop[1]: return [st]
            pc = st.pc
            try: nx = self.step(st)
            except PathEnd as e:
                st.user['end'] = e.why
                if e.why != 'infeasible': self.ended.append(st)
                return []
            if nx is None: continue
            if isinstance(nx[0], tuple):
                _, c, at, af = nx[0]
                A = st.copy(); B = st; A.dom.assume(c, True); B.dom.assume(c, False); A.pc = at; B.pc = af
                if c.kind == 'c':
                    j = (self.ipdom(pc), st.user['depth'])
                    a, b = self.run_to(A, j), self.run_to(B, j)
                    if len(a) == len(b) == 1 and self.join2(c, a[0], b[0]): st = b[0]; continue
                    return [y for x in a + b for y in self.run_to(x, stop)]
                return self.run_to(A, stop) + self.run_to(B, stop)
            if len(nx) == 1: st = nx[0]; continue
            return [y for x in nx for y in self.run_to(x, stop)]
    def join2(self, c, a, b):
        if not self.mergeable(a, b) or len(a.dom.zeros) != len(b.dom.zeros) or len(a.dom.nz) != len(b.dom.nz): return False
        d = b.dom; (m, k), = d.res(c.p).items() if len(d.res(c.p)) == 1 else (((list(c.p)[0]), 1),)
        at = list(c.p)[0][0]; self.joins += 1
        if c.neg: a, b2 = b, a
        else: b2 = b
        def mg(x, y):      # x where the bit is one
            if x is y or isinstance(x, int) and isinstance(y, int) and x == y: return x
            if isinstance(x, (int, IW)) and isinstance(y, (int, IW)):
                dp = padd(d.p(x), d.p(y), -1)
                if not dp: return y
                return d.mk(padd(d.p(y), pmul({(at,): 1}, dp)), min(M64, max(d.hi(x), d.hi(y))))
            return d.undef('merged')
        r = {}
        for q in set(a.mem) | set(b2.mem):
            x, y = a.mem.get(q), b2.mem.get(q)
            if x is None: x = a.img.u64(q)
            if y is None: y = a.img.u64(q)
            r[q] = d.undef('stk') if x is None or y is None else mg(x, y)
        b.mem = r; b.r = [mg(x, y) for x, y in zip(a.r, b2.r)]
        b.x = [tuple(mg(p, q) for p, q in zip(x, y)) for x, y in zip(a.x, b2.x)]
        b.fl = None if a.fl is not b2.fl else b.fl
        b.writes = a.writes | b2.writes; b.steps = max(a.steps, b2.steps)
        b.dom.path.pop(at, None)
        return True

# ---- operands for a failing path
def path_words(dd, pat):
    """what a path says about the words whose names match the pattern: fixed values, linear equations, and a few (rounded) models"""
    import re
    nm = dd.sh.nm; ok = {i for i, n in enumerate(nm) if re.fullmatch(pat, n)}
    first = {}
    for i in sorted(ok): first.setdefault(nm[i], i)
    ok = set(first.values()); forced = {}
    for i in ok:
        v = dd.path.get(i, dd.sh.known.get(i))
        if v is not None: forced[nm[i]] = int(v)
    eqs = [[(nm[m[0]] if m else None, int(c)) for m, c in p.items()] for p in map(dd.res, dd.zeros) if p and all(len(m) < 2 and (not m or m[0] in ok) for m in p)]
    models = []
    try: dd.unsat([])
    except Exception: pass
    for m in (dd.__dict__.get('models') or [0, []])[1][:6]:
        t = {nm[i]: min(max(0, int(m[(i,)])), (1 << 64) - 1) for i in ok if (i,) in m}
        if t: models.append(t)
    return dict(forced=forced, eqs=eqs, models=models)
class Follow:
    """changes drawn words one number at a time so that they follow the hint"""
    def __init__(self, hint, rng):
        self.h, self.rng, self.done = hint, rng, {}
        self.model = rng.choice(hint['models']) if hint and hint['models'] and rng.randrange(2) else {}
    def words(self, names, ws):
        if self.h:
            mine = dict(zip(names, ws))
            for n in names:
                if n in self.model and self.rng.randrange(8): mine[n] = self.model[n]
                if n in self.h['forced']: mine[n] = self.h['forced'][n]
            for e in self.h['eqs']:
                if not all(n is None or n in mine or n in self.done for n, c in e): continue
                cand = [(n, c) for n, c in e if n in mine and n not in self.h['forced']]; self.rng.shuffle(cand)
                get = lambda n: 1 if n is None else mine[n] if n in mine else self.done[n]
                for n, c in cand:
                    r = -sum(k * get(x) for x, k in e if x != n)
                    if r % c == 0 and 0 <= r // c < 1 << 64: mine[n] = r // c; break
            ws = [mine[n] for n in names]; self.done.update(mine)
        return ws
    def value(self, pre, v, n):
        ws = self.words(['%s_%d' % (pre, k) for k in range(n)], [v >> 64 * k & (1 << 64) - 1 for k in range(n)])
        return sum(w << 64 * k for k, w in enumerate(ws))
