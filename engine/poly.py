"""Integer-polynomial domain for limb arithmetic.

A 64-bit word is an integer polynomial over *atoms*.  Every add/adc/sub/sbb introduces a
fresh word atom w for the result; its carry is the exact rational expression
N/2^s built from w and the operands, so a whole carry chain stays one expression.
mul introduces two atoms with lo + 2^64*hi = a*b.  When the end of a chain is reached, z3
decides whether the final carry can be non-zero (integer linear arithmetic over the
monomials, with the ranges of all atoms); the resulting equation is a *relation*.
Reduction modulo the relations (Gauss-Jordan over Q) folds the limbs of a number back into
one *block* atom, so `sum 2^64i*z_i` becomes X*Y by itself when the code is right.

Conditional reductions (cmov / masks) are cut: the four (or eight) words become the limbs
of a fresh block atom, for which z3 has proved the range (< p, < 2^256 p) in both cases and
of which only the residue class mod p is kept."""
import z3, time
from fractions import Fraction
from x86 import Unsupported, PathEnd, M64, Part

B64 = 1 << 64

class Stats:
    def __init__(self): self.q = 0; self.t = 0.0; self.unsat = 0; self.sat = 0; self.unk = 0
STATS = Stats()
DEBUG = 0

class W:
    """A symbolic 64-bit word.  poly: exact value.  info: extra structure."""
    __slots__ = ('p', 'res', 'info', 'key')
    def __init__(self, p, res=None, info=None):
        self.p = p; self.res = res; self.info = info; self.key = None
    def __repr__(self): return 'W(%s)' % pstr(self.p)

class Carry:
    __slots__ = ('n', 's', 'used', 'val')
    def __init__(self, n, s): self.n, self.s, self.used, self.val = n, s, False, None

class Cond:
    """boolean condition: kind 'atom' (b==1 xor neg), 'zero' (all words zero xor neg)"""
    __slots__ = ('kind', 'a', 'neg', 'src')
    def __init__(self, kind, a, neg=False, src=None): self.kind, self.a, self.neg, self.src = kind, a, neg, src

def pstr(p):
    return ' + '.join('%s*%s' % (c, m) for m, c in list(p.items())[:12]) + (' ...' if len(p) > 12 else '')
def padd(a, b, k=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
    return r
def pacc(r, b, k=1):
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v: r[m] = v
        else: r.pop(m, None)
def pscale(a, k): return {m: c * k for m, c in a.items()} if k else {}
def pmul(a, b):
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = tuple(sorted(m + n)) if m and n else m or n
            v = r.get(k, 0) + c * d
            if v: r[k] = v
            else: r.pop(k, None)
    return r
def pmod(a, p):
    r = {}
    for m, c in a.items():
        if isinstance(c, Fraction): c = c.numerator * pow(c.denominator, -1, p)
        c %= p
        if c: r[m] = c
    return r
def pmulmod(a, b, p): return pmod(pmul(a, b), p)
def const(c): return {(): c} if c else {}

def pow2(c):
    """is |c| a power of two (possibly negative exponent)"""
    if isinstance(c, Fraction):
        n, d = abs(c.numerator), c.denominator
        return n & (n - 1) == 0 and d & (d - 1) == 0
    c = abs(c)
    return c & (c - 1) == 0

def _lead(m): return (len(m), m)
def pdivmany(a, divs, p):
    """remainder of a modulo the polynomials divs over F_p (graded order)"""
    a = dict(a); r = {}
    ds = []
    for d in divs:
        if d:
            lm = max(d, key=_lead); ds.append((lm, pow(d[lm], -1, p), d))
    while a:
        m = max(a, key=_lead); c = a[m]
        for lm, ic, d in ds:
            q = list(m); ok = True
            for x in lm:
                if x in q: q.remove(x)
                else: ok = False; break
            if ok:
                k = c * ic % p
                for mm, cc in d.items():
                    t = tuple(sorted(list(mm) + q)); v = (a.get(t, 0) - k * cc) % p
                    if v: a[t] = v
                    else: a.pop(t, None)
                break
        else:
            r[m] = c; a.pop(m)
    return r

class Fork(Exception):
    """case split requested by the domain: every function in cases, applied to a copy of the state, assumes one case"""
    def __init__(self, cases): self.cases = cases

class Failure(Exception):
    def __init__(self, what, model=None): self.what, self.model = what, model

class Poly:
    def __init__(self, p, name=''):
        self.P = p
        self.hi = []; self.lo = []; self.kind = []; self.nm = []
        self.elim = {}           # atom -> fully reduced poly
        self.occ = {}            # atom -> set(eliminated atoms whose def mentions it)
        self.facts = []          # extra facts: polys known >= 0
        self.alias = {}          # old word atom -> new W
        self.cls = {}            # block atom -> class poly mod p over base blocks
        self.group = {}          # word atom -> block limb group (tuple of atoms)
        self.cutby = {}
        self.itelog = []
        self.runs = {}
        self.events = []         # notes for diagnosis
        self.bits = {}
        self.bdef = {}           # boolean atom -> atoms of the chain that defines it
        self.ordinary = set()
        self.block_hi = {}
        self.cuts = 0
        self.undetermined = []
        self.mask_cache = {}
        self.timeout = 20000
        self.deep = 0
        self.tabs = {}
        self.zcls = []           # classes known to be 0 mod p on this path
    def clone(self):
        d = Poly.__new__(Poly)
        for k, v in self.__dict__.items():
            if isinstance(v, dict): v = dict(v)
            elif isinstance(v, list): v = list(v)
            elif isinstance(v, set): v = set(v)
            d.__dict__[k] = v
        d.occ = {k: set(s) for k, s in self.occ.items()}
        return d
    # ---- atoms
    def atom(self, kind, hi, lo=0, nm=''):
        i = len(self.hi)
        self.hi.append(hi); self.lo.append(lo); self.kind.append(kind); self.nm.append(nm)
        return i
    def word(self, hi=M64, nm=''):
        i = self.atom('w', hi, 0, nm)
        return W({(i,): 1}), i
    def undef(self, nm): return self.word(nm=nm)[0]
    def block(self, nm, nwords, hi, cls=None, words=None):
        """A fresh number 0 <= X <= hi; returns (atom, [W]*nwords)."""
        X = self.atom('B', hi, 0, nm)
        ids = []
        for i in range(nwords):
            m = min(M64, hi >> (64 * i)) if i == nwords - 1 else M64
            ids.append(self.atom('w', m, 0, '%s_%d' % (nm, i)))
        d = {(X,): 1}
        for i in range(1, nwords): d[(ids[i],)] = -(1 << (64 * i))
        self._eliminate(ids[0], d)
        for a in ids: self.group[a] = (X,) + tuple(ids)
        self.group[X] = (X,) + tuple(ids)
        self.cls[X] = cls if cls is not None else {(X,): 1}
        return X, [W({(a,): 1}) for a in ids]
    # ---- elimination
    def reduce(self, p):
        e = self.elim
        out = {}
        for m, c in p.items():
            if not any(a in e for a in m):
                v = out.get(m, 0) + c
                if v: out[m] = v
                else: out.pop(m, None)
                continue
            t = {(): c}
            for a in m:
                t = pmul(t, e[a] if a in e else {(a,): 1})
            pacc(out, t)
        return out
    def _eliminate(self, a, d):
        d = self.reduce(d)
        for m in d:
            if a in m: raise Unsupported('cyclic elimination')
        users = self.occ.pop(a, set())
        self.elim[a] = d
        for m in d:
            for b in m: self.occ.setdefault(b, set()).add(a)
        for u in users:
            old = self.elim[u]
            new = self.reduce(old)
            self.elim[u] = new
            for m in new:
                for b in m: self.occ.setdefault(b, set()).add(u)
    def relation(self, p):
        """p == 0 holds; eliminate its newest eligible atom."""
        r = self.reduce(p)
        if not r: return
        cnt = {}
        for m in r:
            for a in set(m): cnt[a] = cnt.get(a, 0) + 1
        best = None
        for m, c in r.items():
            if len(m) == 1 and cnt[m[0]] == 1 and pow2(c) and self.kind[m[0]] != 'b':
                if best is None or m[0] > best: best = m[0]
        if best is None:
            # keep it as two inequalities
            self.facts.append(r); self.facts.append(pscale(r, -1)); return
        c = r.pop((best,))
        if abs(c) == 1: d = pscale(r, -c)
        else:
            d = {}
            for m, k in r.items():
                v = Fraction(-k) / c
                d[m] = v.numerator if v.denominator == 1 else v
        self._eliminate(best, d)
    # ---- z3 linear reasoning over monomials
    def _monobound(self, m):
        u = 1
        for a in m: u *= self.hi[a]
        return u
    def interval(self, p):
        lo = hi = 0
        for m, c in p.items():
            if not m: lo += c; hi += c
            elif c > 0: hi += c * self._monobound(m)
            else: lo += c * self._monobound(m)
        return lo, hi
    def query(self, goals, full=False, extra_atoms=(), cases=()):
        """z3: is the conjunction of goals [(poly, op)] satisfiable under the facts?
        ops: 'gt','ge','lt','le','eq','ne' (against 0).  Returns 'unsat'/'sat'/'unknown', model."""
        vars_ = {}; names = []
        kind = self.kind; his = self.hi; los = self.lo; elim = self.elim; group = self.group
        todo = []
        def num(c):
            if isinstance(c, Fraction):
                n, d = c.numerator, c.denominator
                return '(/ %s %d.0)' % ('%d.0' % n if n >= 0 else '(- %d.0)' % -n, d) if d != 1 else num(n)
            return '%d.0' % c if c >= 0 else '(- %d.0)' % -c
        def var(m):
            v = vars_.get(m)
            if v is None:
                nm = 'm' + '_'.join(map(str, m))
                if len(m) == 1 and kind[m[0]] == 'b': names.append((nm, 'Int')); v = '(to_real %s)' % nm
                else: names.append((nm, 'Real')); v = nm
                vars_[m] = v
                todo.append(m)
            return v
        def lin(p):
            ts = []
            for m, c in p.items():
                if not m: ts.append(num(c))
                elif c == 1: ts.append(var(m))
                else: ts.append('(* %s %s)' % (num(c), var(m)))
            return '(+ %s)' % ' '.join(ts) if len(ts) > 1 else (ts[0] if ts else '0.0')
        cons = []
        atoms = set(extra_atoms)
        OPN = {'gt': '(> %s 0.0)', 'ge': '(>= %s 0.0)', 'lt': '(< %s 0.0)', 'le': '(<= %s 0.0)', 'eq': '(= %s 0.0)', 'ne': '(not (= %s 0.0))'}
        for p, o in goals:
            q = self.reduce(p) if full else p
            cons.append(OPN[o] % lin(q))
            for m in p: atoms.update(m)
            for m in q: atoms.update(m)
        if full:
            for a in list(atoms):
                d = self.bdef.get(a)
                if d: atoms.update(d)
            for a in list(atoms):
                g = group.get(a)
                if g: atoms.update(g)
            if full == 2:
                # everything connected to the goal through definitions
                live = set(atoms); grew = True
                for a in list(atoms):
                    for m in elim.get(a, ()): live.update(m)
                while grew and len(live) < 150:
                    grew = False
                    for a, d in elim.items():
                        if a in atoms or len(d) > 64: continue
                        if any(b in live for m in d for b in m):
                            atoms.add(a); live.add(a); grew = True
                            for m in d: live.update(m)
            for a in sorted(atoms):
                d = elim.get(a)
                if d is not None and len(d) <= 64:
                    l = lin(d); cons.append('(let ((l %s)) (and (>= l 0.0) (<= l %s)))' % (l, num(his[a])))
            # product facts for every degree-2 monomial of the unreduced goals and limb expansions
            pairs = set()
            for p, o in goals:
                for m in list(p) + list(self.reduce(p)):
                    if len(m) == 2:
                        pairs.add(m)
                        for x in (0, 1):
                            g = group.get(m[x])
                            if g and kind[m[1 - x]] == 'B':
                                for y in g: pairs.add(tuple(sorted((y, m[1 - x]))))
            for (a, b) in pairs:
                pa = elim.get(a, {(a,): 1}); pb = elim.get(b, {(b,): 1})
                if len(pa) * len(pb) > 200: continue
                pr = pmul(pa, pb)
                cons.append('(let ((l %s)) (and (>= l 0.0) (<= l (* %s %s)) (<= l (* %s %s))))' % (lin(pr), num(his[a]), lin(pb), num(his[b]), lin(pa)))
            fa = set(atoms)
            for f in self.facts:
                if any(a in fa for m in f for a in m): cons.append('(>= %s 0.0)' % lin(self.reduce(f)))
        done = set()
        while todo:
            m = todo.pop()
            if m in done: continue
            done.add(m)
            v = vars_[m]
            if len(m) == 1:
                cons.append('(and (>= %s %s) (<= %s %s))' % (v, num(los[m[0]]), v, num(his[m[0]])))
            else:
                cons.append('(and (>= %s 0.0) (<= %s %s))' % (v, v, num(self._monobound(m))))
                if len(m) == 2:
                    a, b = m
                    if a == b:
                        # tangent of the square in the middle of the range
                        h = his[a]; cons.append('(>= %s (- (* %s %s) (/ %s 4.0)))' % (v, num(h), var((a,)), num(h * h)))
                    va = vars_.get((a,)); vb = vars_.get((b,))
                    if kind[a] == 'b' or kind[b] == 'b': va = var((a,)); vb = var((b,))
                    if va is not None: cons.append('(<= %s (* %s %s))' % (v, num(his[b]), va))
                    if vb is not None: cons.append('(<= %s (* %s %s))' % (v, num(his[a]), vb))
                    if va is not None and vb is not None:
                        cons.append('(>= %s (+ (* %s %s) (* %s %s) %s))' % (v, num(his[b]), va, num(his[a]), vb, num(-his[a] * his[b])))
        sol = z3.SimpleSolver(); sol.set('timeout', self.timeout); sol.set('smt.arith.propagation_mode', 0); sol.set('smt.relevancy', 0)
        t0 = time.time()
        sol.from_string('\n'.join(['(declare-fun %s () %s)' % x for x in names] + ['(assert %s)' % c for c in cons]))
        r = sol.check()
        STATS.q += 1; STATS.t += time.time() - t0
        if r == z3.unsat: STATS.unsat += 1; return 'unsat', None
        if r == z3.sat:
            STATS.sat += 1
            return 'sat', None
        STATS.unk += 1
        return 'unknown', None
    def prove(self, goals, extra=()):
        """goals: negated claim; True if z3 shows it unsatisfiable."""
        # cheap attempt on the unreduced form (skip when intervals already say it cannot work)
        if len(goals) == 1 and not extra:
            p, o = goals[0]
            lo, hi = self.interval(p)
            could = {'gt': hi <= 0, 'ge': hi < 0, 'lt': lo >= 0, 'le': lo > 0}.get(o, False)
            if could and self.query(goals)[0] == 'unsat': return True, None
        r, m = self.query(goals, full=True)
        if r != "unsat" and len(self.hi) < self.deep: r, m = self.query(goals, full=2)
        return r == 'unsat', m
    # ---- carry resolution
    def resolve(self, c):
        """value of a carry: 0, 1 or ('b', atom)"""
        if c.val is not None: return c.val
        n, s = c.n, c.s
        two = 1 << s
        if not n: c.val = 0; return 0
        if list(n) == [()]:
            c.val = n[()] >> s; return c.val
        n = dict(n)
        # claim 0
        ok, m = self.prove([(padd(n, const(two), -1), 'ge')])
        if ok:
            c.val = 0; self.relation(n); return 0
        r = self.reduce(n)
        ok, _ = self.prove([(n, 'le')])
        if ok:
            c.val = 1; self.relation(padd(n, const(two), -1)); return 1
        cands = []
        cand = {mm: k // two for mm, k in r.items() if mm and isinstance(k, int) and k % two == 0}
        if cand: cands.append(cand)
        users = set()
        for mm in r:
            if len(mm) == 1: users |= self.occ.get(mm[0], set())
        for a in sorted(users, reverse=True)[:40]:
            d = self.elim[a]
            com = [mm for mm in d if mm in r and mm]
            if com and all(r[mm] == d[mm] * two for mm in com):
                cands.append({(a,): 1})
                if cand: cands.append(padd(cand, {(a,): 1}))
            if len(com) > 1:
                rho = Fraction(r[com[0]]) / d[com[0]]
                if all(r[mm] == d[mm] * rho for mm in com) and rho.denominator == 1:
                    ex = {mm: -rho.numerator * c // two for mm, c in d.items() if mm and mm not in r and isinstance(c, int) and c % two == 0}
                    if ex: cands.insert(0, padd(cand, ex))
        if DEBUG: print('cands', cands, 'users', users)
        for cand in cands[:6]:
            e = padd(n, cand, -two)
            if self.prove([(padd(e, const(two), -1), 'ge')])[0] and self.prove([(padd(e, const(two)), 'le')])[0]:
                self.relation(e)
                if len(cand) == 1:
                    (mm, k), = cand.items()
                    if len(mm) == 1 and k == 1 and self.kind[mm[0]] == 'b':
                        c.val = ('b', mm[0], False); return c.val
                b = self.atom('b', 1, 0, 'c'); self.relation(padd({(b,): 1}, cand, -1))
                c.val = ('b', b, False); return c.val
        bs = {a for mm in list(r) + list(n) for a in mm if self.kind[a] == 'b'}
        for b in sorted(bs):
            for neg in (0, 1):
                # n == 2^s * b (or 1-b)
                ok1, _ = self.prove([(padd(n, const(two), -1), 'ge'), ({(b,): 1, (): -neg} if neg else {(b,): 1}, 'eq')])
                if not ok1: continue
                ok2, _ = self.prove([(n, 'le'), (padd({(b,): 1}, const(1 - neg), -1), 'eq')])
                if ok2:
                    if neg: self.relation(padd(padd(n, const(two), -1), {(b,): two}))
                    else: self.relation(padd(n, {(b,): two}, -1))
                    c.val = ('b', b, bool(neg)); return c.val
        b = self.atom('b', 1, 0, 'c')
        self.bdef[b] = tuple({a for mm in n for a in mm})
        self.relation(padd(n, {(b,): two}, -1))
        c.val = ('b', b, False)
        self.undetermined.append((b, m))
        return c.val
    def cpoly(self, c):
        """carry as exact polynomial (resolving)"""
        if isinstance(c, (int, bool)): return const(int(c))
        v = self.resolve(c)
        if isinstance(v, int): return const(v)
        return {(v[1],): 1} if not v[2] else {(): 1, (v[1],): -1}
    def cf_bool(self, c):
        v = self.resolve(c)
        if isinstance(v, int): return bool(v)
        return Cond('atom', v[1], v[2])
    def flag_dead(self, c):
        if isinstance(c, Carry) and not c.used: self.resolve(c)
    # ---- word operations
    def rd(self, v):
        if isinstance(v, (int, Part)): return v
        while True:
            if len(v.p) == 1:
                (m, c), = v.p.items()
                if len(m) == 1 and c == 1 and m[0] in self.alias:
                    v = self.alias[m[0]]
                    if isinstance(v, int): return v
                    continue
            return v
    def w(self, v):
        """polynomial of an operand"""
        if isinstance(v, int): return const(v)
        return v.p
    def resid(self, v):
        if isinstance(v, int): return const(v % B64)
        if v.res is not None: return v.res
        return {m: c % B64 for m, c in v.p.items() if c % B64}
    def simp(self, v):
        """value that became constant"""
        return v
    def addc(self, a, b, cin, w):
        if w != 64: return self._narrow('add', a, b, cin, w)
        a = self.rd(a); b = self.rd(b)
        if isinstance(a, W) and isinstance(b, W):
            a, b = self._unmask(a), self._unmask(b)
        if isinstance(cin, Carry) and cin.val is not None and isinstance(cin.val, int): cin = cin.val
        if isinstance(cin, (int, bool)):
            cin = int(cin)
            if isinstance(b, int) and b == 0 and cin == 0: return a, 0
            if isinstance(a, int) and a == 0 and cin == 0: return b, 0
            N, s = const(cin), 0
        elif isinstance(a, int) and isinstance(b, int) and a + b < M64:
            return W(padd(self.cpoly(cin), const(a + b))) if self.cpoly(cin) else a + b, 0
        else: N, s = cin.n, cin.s; cin.used = True
        res = None
        if isinstance(cin, int):
            rr = padd(padd(self.resid(a), self.resid(b)), const(cin))
            rr = {m: c % B64 for m, c in rr.items() if c % B64}
            if len(rr) <= 6: res = rr
        if s == 0 and self._smallb(a) and self._smallb(b):
            t = padd(padd(self.w(a), self.w(b)), N)
            lo, hi = self.interval(t)
            if lo >= 0 and hi <= M64: return W(t), 0
        N = dict(N)
        sc = 1 << s
        pacc(N, self.w(a), sc); pacc(N, self.w(b), sc)
        if res is not None and all(m == () for m in res):
            k = res.get((), 0)
            if self._resconst(a, b, cin, k):
                pacc(N, const(k), -sc)
                return k, Carry(N, s + 64)
        z, i = self.word()
        z.res = res if res is not None and res else None
        N[(i,)] = N.get((i,), 0) - sc
        return z, Carry(N, s + 64)
    def subb(self, a, b, cin, w):
        if w != 64: return self._narrow('sub', a, b, cin, w)
        a = self.rd(a); b = self.rd(b)
        if isinstance(cin, Carry) and isinstance(cin.val, int): cin = cin.val
        if isinstance(cin, (int, bool)):
            cin = int(cin)
            if isinstance(b, int) and b == 0 and cin == 0: return a, 0
            N, s = const(cin), 0
        else: N, s = cin.n, cin.s; cin.used = True
        N = dict(N); sc = 1 << s
        pacc(N, self.w(a), -sc); pacc(N, self.w(b), sc)
        z, i = self.word()
        N[(i,)] = N.get((i,), 0) + sc
        return z, Carry(N, s + 64)
    def add(self, a, b, w):
        """address arithmetic: exact, no wrap (addresses only)"""
        return W(padd(self.w(a), self.w(b)))
    def _narrow(self, k, a, b, cin, w): raise Unsupported('narrow arithmetic')
    def _unmask(self, a): return a
    def _smallb(self, a):
        return isinstance(a, int) or all(len(m) <= 1 and all(self.hi[q] < 4096 for q in m) for m in a.p)
    def sar(self, *a): raise Unsupported('sar')
    def _resconst(self, a, b, cin, k):
        """z3 (bit-vectors): a+b+cin has the constant low word k."""
        key = ('rc', tuple(sorted(self.resid(a).items())), tuple(sorted(self.resid(b).items())), cin, k)
        if key in self.mask_cache: return self.mask_cache[key]
        vs = {}
        def bv(r):
            t = z3.BitVecVal(0, 64)
            for m, c in r.items():
                x = z3.BitVecVal(c, 64)
                for q in m: x = x * vs.setdefault(q, z3.BitVec('a%d' % q, 64))
                t = t + x
            return t
        s = z3.Solver(); s.set('timeout', self.timeout)
        s.add(bv(self.resid(a)) + bv(self.resid(b)) + cin != k)
        t0 = time.time(); r = s.check(); STATS.q += 1; STATS.t += time.time() - t0
        if r == z3.unsat: STATS.unsat += 1
        self.mask_cache[key] = r == z3.unsat
        return r == z3.unsat
    def mul(self, a, b, w):
        if w != 64: raise Unsupported('mul width')
        a = self.rd(a); b = self.rd(b)
        if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0: return 0, 0
        if isinstance(a, int) and a == 1: return b, 0
        if isinstance(b, int) and b == 1: return a, 0
        pa, pb = self.w(a), self.w(b)
        pr = pmul(pa, pb)
        ha = a if isinstance(a, int) else self._wmax(a); hb = b if isinstance(b, int) else self._wmax(b)
        lo, li = self.word(); hi, hj = self.word(hi=(ha * hb) >> 64)
        if isinstance(a, int) or isinstance(b, int):
            c, x = (a, b) if isinstance(a, int) else (b, a)
            rr = {m: k * c % B64 for m, k in self.resid(x).items() if k * c % B64}
            if len(rr) <= 6: lo.res = rr
        # lo = a*b - 2^64 hi
        self._eliminate(li, padd(pr, {(hj,): B64}, -1))
        self.facts.append({(li,): 1}) if False else None
        self.group.setdefault(li, (li, hj)); self.group.setdefault(hj, (li, hj))
        return lo, hi
    def _wmax(self, a):
        lo, hi = self.interval(a.p)
        return min(hi, M64)
    def mullo(self, a, b, w):
        if w != 64: raise Unsupported('imul width')
        a = self.rd(a); b = self.rd(b)
        if isinstance(a, int) and a == 0 or isinstance(b, int) and b == 0: return 0
        z, i = self.word()
        rr = {}
        for m, c in self.resid(a).items():
            for n, d in self.resid(b).items():
                k = tuple(sorted(m + n)); rr[k] = (rr.get(k, 0) + c * d) % B64
        rr = {m: c for m, c in rr.items() if c}
        if len(rr) <= 6: z.res = rr
        return z
    def mask(self, c, w):
        if isinstance(c, bool): return ((1 << w) - 1) if c else 0
        if c.kind != 'atom' or w != 64: raise Unsupported('mask')
        p = {(c.a,): M64} if not c.neg else {(): M64, (c.a,): -M64}
        return W(p, info=('mask', c))
    def bitnot(self, a, w):
        if w != 64: raise Unsupported('not')
        inf = None
        if a.info and a.info[0] == 'mask': inf = ('mask', self.bnot(a.info[1]))
        return W(padd(const(M64), a.p, -1), info=inf)
    def logic(self, k, a, b, w):
        a = a if isinstance(a, int) else self.rd(a); b = b if isinstance(b, int) else self.rd(b)
        if isinstance(a, int): a, b = b, a
        if isinstance(b, W) and b.info and b.info[0] == 'mask': a, b = b, a
        if k == 'and':
            if isinstance(b, int) and b == 0: return 0
            if isinstance(b, int) and b == M64: return a
            if a.info and a.info[0] == 'mask':
                c = a.info[1]
                cp = {(c.a,): 1} if not c.neg else {(): 1, (c.a,): -1}
                return W(pmul(cp, self.w(b)), info=('ite', c, b, 0))
            if isinstance(b, int) and b & (b + 1) == 0 and b < 16:
                if a.info and a.info[0] == 'low': a = a.info[1]
                return self.lowbits(a, b.bit_length())
            if isinstance(b, int):
                tz = (b & -b).bit_length() - 1; m = b >> tz
                if m & (m + 1) == 0 and isinstance(a, W):
                    hi = self.interval(a.p)[1]
                    if hi >> tz <= m:
                        t = self.shr(a, tz, 64) if tz else a
                        return t if isinstance(t, int) else W(pscale(t.p, 1 << tz))
            raise Unsupported('and')
        if k in ('or', 'xor'):
            if isinstance(b, int) and b == 0: return a
            if k == 'or':
                la = a.info[1] if a.info and a.info[0] == 'or' else [a]
                lb = [b] if isinstance(b, int) else b.info[1] if b.info and b.info[0] == 'or' else [b]
                z, i = self.word()
                z.info = ('or', la + lb)
                return z
            # xor of two ite words / masks is used by constant-time selects
            raise Unsupported('xor')
        raise Unsupported(k)
    def below(self, a, k):
        """z3: word a is always < k"""
        key = ('below', k, tuple(sorted(a.p.items())))
        r = self.mask_cache.get(key)
        if r is None:
            r = self.interval(a.p)[1] < k
            if not r and len(a.p) == 1 and list(a.p)[0] and (list(a.p)[0][0] in self.elim): r = self.prove([(padd(a.p, const(k), -1), 'ge')])[0]
            self.mask_cache[key] = r
        return r
    def lowbits(self, a, n):
        """a mod 2^n as a polynomial of bit atoms"""
        if self.below(a, 1 << n): return a
        p = {}
        for j in range(n): pacc(p, {(self.bit(a, j),): 1}, 1 << j)
        return W(p)
    def bit(self, a, j):
        """atom for bit j (j small) of word a: a = 2^k*hi + low bits"""
        key = tuple(sorted(a.p.items()))
        ent = self.bits.get(key)
        if ent is None: ent = self.bits[key] = []
        while len(ent) <= j:
            q = self.atom('q', M64 >> (len(ent) + 1), 0, 'half')
            b = self.atom('b', 1, 0, 'bit')
            prev = a.p if not ent else {(ent[-1][1],): 1}
            # prev = 2q + b
            rel = padd(prev, {(q,): -2, (b,): -1})
            self.facts.append({(q,): 1})
            self.relation(rel)
            ent.append((b, q))
        return ent[j][0]
    def half(self, a, n):
        if self.below(a, 1 << n): return {}
        self.bit(a, n - 1)
        return {(self.bits[tuple(sorted(a.p.items()))][n - 1][1],): 1}
    def shr(self, a, k, w):
        if not isinstance(k, int) or w != 64: raise Unsupported('shr')
        if isinstance(a, int): return a >> k
        if self.below(self.rd(a), 1 << k): return 0
        if k <= 4: return W(self.half(self.rd(a), k))
        # top bits: a = 2^k*h + l
        a = self.rd(a)
        key = ('shr', k, tuple(sorted(a.p.items())))
        if key in self.mask_cache: return self.mask_cache[key]
        h = self.atom('w', min(M64, self.interval(a.p)[1]) >> k, 0, 'top'); l = self.atom('w', (1 << k) - 1, 0, 'low')
        self.relation(padd(a.p, {(h,): -(1 << k), (l,): -1}))
        z = self.mask_cache[key] = W({(h,): 1})
        return z
    def shl(self, a, k, w):
        if not isinstance(k, int): raise Unsupported('shl')
        a = self.rd(a)
        lo, hi = self.interval(a.p)
        if hi << k <= M64: return W(pscale(a.p, 1 << k))
        if w == 64: return self.shlw(a, k)
        raise Unsupported('shl overflow')
    def shrd(self, a, b, k, w):
        if not isinstance(k, int) or w != 64 or k > 4: raise Unsupported('shrd')
        p = const(a >> k) if isinstance(a, int) else self.half(self.rd(a), k)
        lb = const(b % (1 << k)) if isinstance(b, int) else self.lowbits(self.rd(b), k).p
        return W(padd(p, pscale(lb, 1 << (64 - k))))
    def shld(self, a, b, k, w):
        if not isinstance(k, int) or w != 64: raise Unsupported('shld')
        if isinstance(b, int): top = const(b >> (64 - k))
        else: top = self.w(self.shr(b, 64 - k, 64))
        if isinstance(a, int): return W(padd(const((a << k) & M64), top))
        return W(padd(self.shlw(a, k).p, top))
    def shlw(self, a, k):
        """low word of a << k"""
        a = self.rd(a); h = self.shr(a, 64 - k, 64)
        if isinstance(h, int): return W(pscale(a.p, 1 << k))
        return W(padd(pscale(a.p, 1 << k), pscale(h.p, 1 << 64), -1))
    def shift_cf(self, mn, a, k, w): return None
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('operation ' + n)
    def sext_to(self, v, w, n):
        lo, hi = self.interval(v.p)
        if lo >= 0 and hi < 1 << (w - 1): return v
        raise Unsupported('sext')
    def extract(self, v, off, n):
        if isinstance(v, Part):
            mk = (1 << n) - 1 << off
            if v.m & mk == mk: return (v.v & mk) >> off
            raise Unsupported('partly written word')
        if off != 0 and isinstance(v, W): v = self.shr(v, off, 64); off = 0
        if isinstance(v, int): return v & ((1 << n) - 1)
        if off == 0:
            v = self.rd(v)
            if isinstance(v, int): return v & ((1 << n) - 1)
            lo, hi = self.interval(v.p)
            if hi < (1 << n) and lo >= 0: return v
        if off == 0:
            # low part: v = t + 2^n h
            key = ('low', n, tuple(sorted(v.p.items())))
            z = self.mask_cache.get(key)
            if z is None:
                t = self.atom('w', (1 << n) - 1, 0, 'low'); h = self.atom('w', M64 >> n, 0, 'high')
                self.relation(padd(v.p, {(t,): -1, (h,): -(1 << n)}))
                z = self.mask_cache[key] = W({(t,): 1}, info=('low', v))
            return z
        raise Unsupported('extract')
    def zext(self, v, n): return v
    def zext_to(self, v, w, n): return v
    def insert(self, old, v, off, n):
        if not isinstance(v, int): raise Unsupported('insert')
        mk = (1 << n) - 1 << off
        ov, om = (old, (1 << 64) - 1) if isinstance(old, int) else (old.v, old.m) if isinstance(old, Part) else (0, 0)
        ov = ov & ~mk | v << off; om |= mk
        return ov if om == (1 << 64) - 1 else Part(ov, om)
    insert_any = insert
    def bnot(self, c):
        if isinstance(c, bool): return not c
        return Cond(c.kind, c.a, not c.neg, c.src)
    def bor(self, a, b):
        if a is True or b is True: return True
        if a is False: return b
        if b is False: return a
        raise Unsupported('bor')
    def zero(self, f):
        v = self.rd(f.res)
        if isinstance(v, int): return v == 0
        ws = v.info[1] if v.info and v.info[0] == 'or' else [v]
        ws = [self.rd(x) for x in ws]
        if any(isinstance(x, int) and x != 0 for x in ws): return False
        ws = [x for x in ws if not isinstance(x, int)]
        if not ws: return True
        return Cond('zero', ws, src=v)
    def sign(self, f): raise Unsupported('sign')
    def signed(self, f, cc): raise Unsupported('signed')
    def decide(self, c):
        if c.kind == 'zero':
            tot = {}
            for x in c.a: pacc(tot, x.p)
            ok, _ = self.prove([(tot, 'le')])
            if ok: return c.neg
            ok, _ = self.prove([(padd(tot, const(1), -1), 'ge')])
            if ok: return not c.neg
        return None
    def assume(self, c, val, st):
        v = val != c.neg
        if c.kind == 'atom':
            self.elim_bool(c.a, 1 if v else 0)
            return True
        if c.kind == 'zero':
            if v:
                ats = [list(x.p)[0][0] for x in c.a if len(x.p) == 1 and len(list(x.p)[0]) == 1]
                g = self.group.get(ats[0]) if ats else None
                if g and g[0] in self.cls and set(g[1:]) == set(ats) and self.lo[g[0]] > 0: return False
                for x in c.a[::-1]: self.relation(x.p)
                if c.src is not None and len(c.src.p) == 1: self.alias[list(c.src.p)[0][0]] = 0
                if g and g[0] in self.cls and set(g[1:]) == set(ats): self.zcls.append(self.cls[g[0]])
            else:
                tot = {}
                for x in c.a: pacc(tot, x.p)
                self.facts.append(padd(tot, const(1), -1))
                # if the words are exactly the limbs of one block, the block is nonzero
                ats = [list(x.p)[0][0] for x in c.a if len(x.p) == 1 and len(list(x.p)[0]) == 1]
                g = self.group.get(ats[0]) if ats else None
                if g and set(g[1:]) == set(ats): self.lo[g[0]] = max(self.lo[g[0]], 1)
            return True
        raise Unsupported('assume')
    def elim_bool(self, b, v):
        self._eliminate(b, const(v))
    def ite(self, c, a, b, w, st=None):
        a = a if isinstance(a, int) else self.rd(a); b = b if isinstance(b, int) else self.rd(b)
        if w != 64: raise Unsupported('ite width')
        if isinstance(c, bool): return a if c else b
        if c.kind != 'atom': raise Unsupported('cmov on zero flag')
        if c.neg: a, b = b, a; c = Cond('atom', c.a, False)
        if isinstance(a, int) and isinstance(b, int):
            return W({k: v for k, v in {(): b, (c.a,): a - b}.items() if v})
        z, i = self.word()
        z.info = ('ite', c, a, b)
        log = self.itelog
        if log and log[-1][0] == c.a: log[-1][1].append(z)
        else: log.append((c.a, [z]))
        if len(log[-1][1]) == 4:
            ws = log[-1][1]; log.append((None, []))
            self.try_cut(ws, st)
        return z
    def b2v(self, c, w):
        if c.kind != 'atom': raise Unsupported('setcc')
        return W({(c.a,): 1} if not c.neg else {(): 1, (c.a,): -1})
    # ---- cuts
    def blockval(self, ws):
        t = {}
        for i, x in enumerate(ws): pacc(t, self.w(x), 1 << (64 * i))
        return t
    def is_clean(self, p):
        """only base/derived block atoms"""
        return all(self.kind[a] == 'B' for m in p for a in m)
    def try_cut(self, ws, st=None):
        """ws: 4 or 8 words; if they form a number determined mod p, make it a block."""
        ws = [self.rd(x) for x in ws]
        if any(isinstance(x, int) for x in ws) and all(isinstance(x, int) for x in ws): return None
        ids = []
        for x in ws:
            if isinstance(x, int): ids.append(None); continue
            if len(x.p) != 1: ids.append(None); continue
            (m, c), = x.p.items()
            ids.append(m[0] if len(m) == 1 and c == 1 else None)
        if all(i is not None for i in ids):
            g = self.group.get(ids[0])
            if g and g[1:] == tuple(ids): return g[0]          # already a block
        conds = {x.info[1].a for x in ws if not isinstance(x, int) and x.info and x.info[0] == 'ite' and self._isfresh(x)}
        n = len(ws)
        full = self.P if n == 4 else self.P << 256
        if len(conds) > 1: return None
        if conds:
            b = conds.pop()
            br = []
            for v in (1, 0):
                us = [(x.info[2] if v else x.info[3]) if not isinstance(x, int) and x.info and x.info[0] == 'ite' and self._isfresh(x) else x for x in ws]
                us = [u if isinstance(u, int) else self.rd(u) for u in us]
                br.append(self.blockval(us))
            cl = []
            for v, t in zip((1, 0), br):
                r = self.reduce(t); r = self._setb(r, b, v)
                r = pmod(r, self.P)
                if not self.is_clean(r): return None
                cl.append(self.toclass(r))
            if cl[0] != cl[1]:
                self.events.append(('class-mismatch', cl)); return None
            def below(k):
                for v, t in zip((1, 0), br):
                    ok, m = self.prove2(padd(t, const(k), -1), b, v)
                    if not ok: return False, m
                return True, None
            hi, m = self._range(below, full, n)
            cls = cl[0]
        else:
            t = self.blockval(ws)
            r = self.reduce(t)
            rm = pmod(r, self.P)
            if not self.is_clean(rm): return None
            if self.is_clean(r) and all(isinstance(c, int) or c.denominator == 1 for c in r.values()): return 'exact'
            hi, m = self._range(lambda k: self.prove([(padd(t, const(k), -1), 'ge')]), full, n)
            cls = self.toclass(rm)
        if hi is None: hi = (1 << (64 * n)) - 1
        X, nw = self.block('R%d' % self.cuts, n, hi, cls=cls)
        self.cuts += 1
        self.block_hi[X] = hi
        for o, x, y in zip(ids, ws, nw):
            if o is not None: self.alias[o] = y
        self.cutby[X] = (ws, nw)
        self.lastcut = X, nw
        if st is not None and any(i is None for i in ids): pass
        return (X, nw)
    def _isfresh(self, x):
        return len(x.p) == 1
    def _setb(self, r, b, v):
        out = {}
        for m, c in r.items():
            if b in m:
                if v == 0: continue
                m = tuple(a for a in m if a != b)
            k = out.get(m, 0) + c
            if k: out[m] = k
            else: out.pop(m, None)
        return out
    def prove2(self, t, b, v):
        """claim t < 0 when boolean b == v"""
        g = [(t, 'ge'), (padd({(b,): 1}, const(v), -1), 'eq')]
        r, m = self.query(g, full=True)
        if r != "unsat" and len(self.hi) < self.deep: r, m = self.query(g, full=2)
        return r == 'unsat', m
    def _range(self, below, full, n):
        m = None
        for k in (full, 2 * full, 3 * full, 4 * full):
            if k > 1 << (64 * n): break
            ok, mm = below(k)
            if ok: return k - 1, None
            m = m or mm
        self.events.append(('range', m))
        return None, m
    def toclass(self, r):
        """expand derived blocks into base blocks, mod p"""
        out = {}
        for m, c in r.items():
            t = {(): c}
            for a in m: t = pmulmod(t, self.cls[a], self.P)
            pacc(out, t)
        return pmod(out, self.P)
    def on_store(self, st, a, v):
        if isinstance(v, int): return
        v = self.rd(v)
        if isinstance(v, W) and len(v.p) == 1:
            k = list(v.p)[0]
            if len(k) == 1 and k[0] in self.group and self.kind[k[0]] == 'w' and len(self.group[k[0]]) >= 5: return
        # look for complete 4- and 8-word runs ending or containing this address
        for n in (4, 8):
            for off in range(n):
                base = a - 8 * off
                ws = []
                for i in range(n):
                    x = st.mem.get(base + 8 * i)
                    if x is None: break
                    ws.append(x)
                if len(ws) < n or off != n - 1: continue
                r = self.try_cut(ws, st)
                if isinstance(r, tuple):
                    X, nw = r
                    for i in range(n): st.mem[base + 8 * i] = nw[i]
                    return
                # the top carry of the number just stored decides the number: settle it now if nothing else will read it
                c = st.fl.cf if st.fl else None
                if r is None and isinstance(c, Carry) and c.val is None and not c.used and c.s == 64 * n and st.carry_unused():
                    self.resolve(c)
                    r = self.try_cut(ws, st)
                    if isinstance(r, tuple):
                        for i in range(n): st.mem[base + 8 * i] = r[1][i]
                        return
    def sym_load(self, st, a, n):
        """address = const + sum of bit atoms * scale (table lookup)"""
        p = self.reduce(a.p)
        bs = sorted({q for m in p for q in m})
        if not bs: return st.load(p.get((), 0), n)
        if n == 128: return (self.sym_load(st, a, 64), self.sym_load(st, W(padd(a.p, const(8))), 64))
        if len(bs) == 1 and self.kind[bs[0]] != 'b' and self.hi[bs[0]] - self.lo[bs[0]] < 64 and n == 64:
            t = self.table(st, bs[0], p)
            if t is not None: return t
        if len(bs) == 1 and self.kind[bs[0]] != 'b' and self.hi[bs[0]] - self.lo[bs[0]] < 64:
            def case(k):
                def f(s2):
                    s2.dom.relation({(bs[0],): 1, (): -k} if k else {(bs[0],): 1}); s2.dom.snap(cl)
                return f
            cl = self.related(bs[0])
            self.deep = 1 << 60
            ks = [k for k in range(self.lo[bs[0]], self.hi[bs[0]] + 1) if self.query([({(bs[0],): 1, (): -k} if k else {(bs[0],): 1}, 'eq')], full=2)[0] != 'unsat']
            if not ks: raise PathEnd('infeasible')
            raise Fork([case(k) for k in ks])
        if len(bs) > 3 or any(self.kind[q] != 'b' for q in bs) or any(len(m) > 1 for m in p): raise Unsupported('symbolic load')
        out = {}
        for bits in range(1 << len(bs)):
            addr = p.get((), 0); sel = {(): 1}
            for j, q in enumerate(bs):
                if bits >> j & 1: addr += p[(q,)]; sel = pmul(sel, {(q,): 1})
                else: sel = pmul(sel, {(): 1, (q,): -1})
            v = st.load(addr, n)
            pacc(out, pmul(sel, self.w(v)))
        return W(out)
    def table(self, st, q, p):
        """four-word table entry selected by the word q, without a case split: every entry is a multiple of the
        modulus, and lies between two linear functions of q (checked on the entries of the image)"""
        stride = p.get((q,)); base = p.get((), 0)
        if stride != 32 or len(p) != 1 + (() in p): return None
        for b0, ws in self.tabs.get(q, {}).items():
            if 0 <= base - b0 < 32 and (base - b0) % 8 == 0: return ws[(base - b0) // 8]
        ks = [k for k in range(self.lo[q], self.hi[q] + 1) if self.query([({(q,): 1, (): -k} if k else {(q,): 1}, 'eq')], full=2)[0] != 'unsat']
        if not ks: raise PathEnd('infeasible')
        E = []
        for k in ks:
            v = [st.load(base + 32 * k + 8 * j) for j in range(4)]
            if not all(isinstance(x, int) for x in v): return None
            E.append(sum(x << 64 * j for j, x in enumerate(v)))
        if len(ks) == 1 or all(e == 0 for e in E): return None
        # an entry may be a multiple of the modulus truncated to four words
        H = [-e * pow(1 << 256, -1, self.P) % self.P for e in E]
        if max(H) > 15: return None
        E = [e + (h << 256) for e, h in zip(E, H)]
        best = None
        for al in [self.P] + [1 << j for j in range(245, 257)]:
            dv = [e - al * k for e, k in zip(E, ks)]
            if best is None or max(dv) - min(dv) < best[0]: best = max(dv) - min(dv), al, min(dv), max(dv)
        spread, al, mn, mx = best; self.deep = len(self.hi) + 70
        self.lo[q] = max(self.lo[q], ks[0]); self.hi[q] = min(self.hi[q], ks[-1])
        ws = [self.word(nm='tab') for j in range(4)]
        tot = {}
        for j, (w, i) in enumerate(ws): pacc(tot, {(i,): 1}, 1 << 64 * j)
        if max(H): tot[(self.atom('w', max(H), min(H), 'tabhi'),)] = 1 << 256
        m = self.atom('w', max(E) // self.P, 0, 'mult')
        self._eliminate(ws[0][1], pscale(padd(padd(tot, {(ws[0][1],): 1}, -1), {(m,): self.P}, -1), -1))
        if spread == 0 and al % self.P == 0 and not mn % self.P: self.relation(padd({(m,): 1, (q,): -(al // self.P)}, const(mn // self.P), -1))
        elif spread == 0: self.relation(padd({(m,): self.P, (q,): -al}, const(mn), -1))
        else:
            self.facts.append(padd({(m,): self.P, (q,): -al}, const(mn), -1))
            self.facts.append(padd({(m,): -self.P, (q,): al}, const(mx)))
        g = tuple(i for _, i in ws) + (m, q)
        for i in g[:5]: self.group.setdefault(i, g)
        self.tabs.setdefault(q, {})
        self.tabs[q] = dict(self.tabs[q]); self.tabs[q][base] = [w for w, _ in ws]
        return ws[0][0]
    def related(self, a, n=16):
        """eliminated word atoms sharing definitions with a (newest first)"""
        live = {a}
        for _ in range(2):
            for q in {q for x in live for q in self.occ.get(x, ())}:
                if len(self.elim[q]) <= 16: live.add(q); live.update(x for m in self.elim[q] for x in m)
        c = set()
        for x in live: c |= self.occ.get(x, set())
        return [x for x in sorted(c, reverse=True) if self.kind[x] == 'w' and x not in self.group][:n]
    def snap(self, cand):
        """integer rounding: a word below 1 is 0"""
        for x in cand:
            d = self.elim.get(x)
            if not d or list(d) == [()]: continue
            if not any(isinstance(c, Fraction) for c in d.values()): continue
            if self.query([({(x,): 1, (): -1}, 'ge')], full=2)[0] == 'unsat': self.relation({(x,): 1})
    def sym_store(self, *a): raise Unsupported('symbolic store')
    def concretize(self, st, v): raise Unsupported('symbolic jump')
    # ---- reading results
    def value(self, ws):
        """(class mod p or None, exact poly, upper bound or None)"""
        ws = [x if isinstance(x, int) else self.rd(x) for x in ws]
        r = self.try_cut(ws)
        if isinstance(r, tuple): X = r[0]
        elif isinstance(r, int) and not isinstance(r, bool): X = r
        else: X = None
        if X is not None: return self.cls[X], {(X,): 1}, self.hi[X], X
        t = self.blockval(ws)
        e = self.reduce(t)
        rm = pmod(e, self.P)
        if not self.is_clean(rm): return None, e, None, None
        return self.toclass(rm), e, None, None
