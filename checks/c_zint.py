"""C18: signed big integers; C19: integers modulo m.
The operations run on the compiled code with symbolic words (sizes and stored signs enumerated).  The word primitives and the
quotient loop are replaced by their contracts (obligations of C16 and C17); what the result must be is an integer identity
or inequality over the words, decided by linear arithmetic.  Constructors and shifts run on bit vectors."""
import time, random, re, z3
import build, limb, ring
from x86 import Unsupported, PathEnd, STACK
from zbv import ZB, ZExec, bv, BV, fresh, M64
from idom import IW, padd, pmul, const, path_words, Follow
from poly import STATS
from check import Ob
import c_vuint, c_vdiv
from c_vuint import A, SLOT, NW, CF, image, hooks, word, rshl, rshr, fits, csize, req
from c_vdiv import WDom, DExec2, words, neg, ret, cmp_hook, find, rnd, F_CMP
CAP = 1 << 64 * NW
SG = 8 * NW + 8       # offset of the sign

class P:
    """integer polynomial"""
    __slots__ = ('p',)
    def __init__(self, p): self.p = p
    def __add__(a, b): return P(padd(a.p, poly(b)))
    def __sub__(a, b): return P(padd(a.p, poly(b), -1))
    def __mul__(a, b): return P(pmul(a.p, poly(b)))
    __radd__ = __add__; __rmul__ = __mul__
    def __neg__(a): return P(neg(a.p))
def poly(v): return v.p if isinstance(v, P) else const(v) if isinstance(v, int) else v

def prim_hooks(img):
    """contracts of the word primitives (obligations zm::* of C16)"""
    h = {}
    def sums(sub, one):
        def f(s):
            d = s.dom; o, x = s.r[7], s.r[6]; y, n = (s.r[1], s.r[2]) if one else (s.r[2], s.r[1])
            if not all(isinstance(v, int) for v in (o, x, n)) or not 1 <= n <= NW: raise Unsupported('primitive shape')
            if o != x and abs(o - x) < 8 * n: raise Unsupported('primitive overlap')
            X = words(s, x, n)
            if one: Y = d.p(y)
            else:
                if not isinstance(y, int) or o != y and abs(o - y) < 8 * n: raise Unsupported('primitive overlap')
                Y = words(s, y, n)
            T = padd(X, Y, -1 if sub else 1); c = d.bitatom(); ws = [d.word('s') for _ in range(1, n)]
            w0 = padd(T, c, (1 if sub else -1) << 64 * n)
            for k, w in enumerate(ws): w0 = padd(w0, w.p, -(1 << 64 * k + 64))
            d.wordfact(w0)
            for k, w in enumerate([d.mk(w0, M64)] + ws): s.store(o + 8 * k, w)
            ret(s, d.mk(c, 1))
        return f
    def mul1(s):
        d = s.dom; o, x, n, y = (s.r[i] for i in (7, 6, 2, 1))
        if not all(isinstance(v, int) for v in (o, x, n)) or not 1 <= n <= NW: raise Unsupported('primitive shape')
        if o != x and abs(o - x) < 8 * n + 8: raise Unsupported('primitive overlap')
        w0 = pmul(words(s, x, n), d.p(y)); ws = [d.word('m') for _ in range(n)]
        for k, w in enumerate(ws): w0 = padd(w0, w.p, -(1 << 64 * k + 64))
        d.wordfact(w0)
        for k, w in enumerate([d.mk(w0, M64)] + ws): s.store(o + 8 * k, w)
        ret(s)
    def div1(mod):
        def f(s):
            d = s.dom
            if mod: x, n, y = s.r[7], s.r[6], s.r[2]; o = None
            else: o, x, n, y = (s.r[i] for i in (7, 6, 2, 1))
            if not all(isinstance(v, int) for v in (x, n)) or not 1 <= n <= NW: raise Unsupported('primitive shape')
            if o is not None and o != x and abs(o - x) < 8 * n: raise Unsupported('primitive overlap')
            yp = d.p(y)
            if not (isinstance(y, int) and y) and frozenset(yp.items()) not in {frozenset(p.items()) for p in d.nz}: raise Unsupported('division by a word that may be zero')
            X = words(s, x, n); Q = {}
            for k in range(n):
                w = d.word('Q%d' % k); Q = padd(Q, w.p, 1 << 64 * k)
                if o is not None: s.store(o + 8 * k, w)
            r = padd(X, pmul(Q, yp), -1); d.fact(r); d.fact(padd(padd(yp, r, -1), const(1), -1))
            if 'divs' in s.user:
                s.user['divs'] += ((X, yp, r),); d.pf.append(padd(pmul(Q, yp), Q, -2 if d.unsat([padd(const(1), yp, -1)]) else -1))      # the divisor is at least two, or one
            ret(s, d.mk(r, M64))
        return f
    E = img.entries
    h[E['zm::addN']] = sums(False, False); h[E['zm::add1']] = sums(False, True); h[E['zm::subN']] = sums(True, False); h[E['zm::sub1']] = sums(True, True)
    h[E['zm::mul1']] = mul1; h[E['zm::div1']] = div1(False); h[E['zm::mod1']] = div1(True)
    h[find(img, *F_CMP)] = cmp_hook(None); h[find(img, *c_vdiv.F_DIV)] = c_vdiv.div_contract
    return h

class Sh:
    """one shape: entry, arguments and the claim.  args: ('S', n, sign) ('SO',) signed; ('V', n) ('VO',) unsigned; ('Z', n) ('ZO',) modular, ('raw', n), ('c', v);
    same {i: j}: argument i is the object of argument j; mn: words of the modulus"""
    def __init__(self, name, args, kind, fn, same=None, mn=None): self.name, self.args, self.kind, self.fn, self.same, self.mn = name, args, kind, fn, same or {}, mn
    def text(self): return ' '.join('x'.join(map(str, a)) for a in self.args) + (' same %s' % self.same if self.same else '') + (' m=%d words' % self.mn if self.mn else '')
class IOb(Ob):
    def __init__(self, cfg, key, shapes, cost=1):
        self.cfg, self.shapes, self.cost = cfg, shapes, cost; self.key = '%s %s' % (cfg.name, key); self.functions = sorted({c.name for c in shapes})
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = image(ctx, self.cfg); det = dict(paths=0, steps=0); why = None
        for c in self.shapes:
            why = self.one(img, c, det)
            if why: why = '%s %s: %s' % (c.name, c.text(), why); break
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='proved' if not why else 'open', shapes=len(self.shapes))
        if why: det['why'] = why; det['hints'] = [(self.shapes.index(c), path_words(self.cur, r'x\d+_\d+|m_\d+'))]
        return det
    def one(self, img, c, det):
        d = WDom(); d.pf = []; h = hooks(img); h.update(prim_hooks(img)); ex = DExec2(img, h); s = ex.start(d, img.entries[c.name], [])
        def number(ad, n, nm):
            tot = {}
            for k in range(NW):
                w = d.word('%s_%d' % (nm, k)); s.mem[ad + 8 * k] = w
                if k < n: tot = padd(tot, w.p, 1 << 64 * k); top = w
            s.mem[ad + 8 * NW] = n or 3
            if n > 1: d.nz.append(top.p)
            return tot
        Mp = None
        if c.mn:
            ma = img.syms['Zn::m'][0]; Mp = number(ma, c.mn, 'm'); d.pf.append(padd(Mp, const(1), -1))
            if c.mn == 1: d.nz.append(Mp)
        vals = []; addr = []
        for i, a in enumerate(c.args):
            if i in c.same: addr.append(addr[c.same[i]]); vals.append(vals[c.same[i]]); v = addr[i]
            elif a[0] == 'c': vals.append(a[1]); addr.append(None); v = a[1] & M64
            elif a[0] == 'raw':
                v = A + SLOT * i; tot = {}
                for k in range(a[1]): w = d.word('x%d_%d' % (i, k)); s.mem[v + 8 * k] = w; tot = padd(tot, w.p, 1 << 64 * k)
                vals.append(P(tot)); addr.append(v)
            else:
                v = A + SLOT * i; sh = a if len(a) > 1 else next((c.args[k] for k, j in c.same.items() if j == i), None); addr.append(v)
                tot = number(v, sh[1] if sh else 0, 'x%d' % i)
                if a[0][0] == 'S': s.mem[v + SG] = sh[2] if sh else d.word('sign')
                if a[0][0] == 'Z' and sh: d.pf.append(padd(padd(Mp, tot, -1), const(1), -1))
                vals.append(P(neg(tot) if sh and sh[0] == 'S' and sh[2] else tot) if sh else None)
            s.r[[7, 6, 2, 1, 8, 9][i]] = v
        inp = dict(s.mem); outs = c.kind[1:] if c.kind[0] in ('val', 'floor', 'mod') else ()
        oa = {addr[i] for i in outs if isinstance(i, int)}
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps; dd = self.cur = f.dom; end = f.user['end']
            if end == 'exit' and c.kind[0] == 'val':
                # only a result beyond the capacity is reported
                E = poly(c.fn(*vals)[0])
                if not dd.unsat([padd(const(CAP - 1), E, -1), padd(E, const(CAP - 1))]): return 'the program is stopped'
                continue
            if end != 'ret':
                if dd.unsat([]): continue
                settle(dd, sorted(a for a in range(len(dd.sh.nm)) if dd.sh.bit[a] or dd.sh.nm[a].startswith('Q')))
                if dd.unsat([]): continue
                return 'ends by ' + end
            nz = None
            def val(i, f=f, dd=dd):
                a = addr[i]; sz = f.load(a + 8 * NW)
                if not isinstance(sz, int) or not 1 <= sz <= NW: raise Unsupported('size of the result')
                top = f.load(a + 8 * sz - 8)
                if sz > 1 and not (isinstance(top, int) and top) and frozenset(dd.res(dd.p(top)).items()) not in {frozenset(dd.res(p).items()) for p in dd.nz} and not dd.positive(top): raise Unsupported('leading zero word')
                v = words(f, a, sz)
                if c.args[i][0][0] == 'S':
                    g = dd.extract(f.load(a + SG), 0, 8)
                    if not isinstance(g, int): raise Unsupported('sign of the result')
                    if g > 1: raise Unsupported('sign byte')
                    if g: v = neg(v)
                return v
            k = c.kind[0]
            if k == 'val':
                for i, e in zip(outs, c.fn(*vals)):
                    if not dd.equal(padd(val(i), poly(e), -1)): return 'wrong value'
            elif k == 'floor':
                X, Y = (poly(v) for v in c.fn(*vals))
                ya = c.args[-1]; ya = ya if len(ya) > 1 else c.args[c.same[len(c.args) - 1]]; sy = ya[2] if ya[0] == 'S' else 0
                zd = self.zero(dd, Y)
                if len(outs) > 2:
                    r = f.r[0]; r = dd.extract(r, 0, 8)
                    if not isinstance(r, int) or r not in (0, 1): return 'returned value'
                    if (r == 0) != zd and not dd.unsat([]):
                        if not (r == 1 and dd.unsat([Y, neg(Y)])) : return 'zero divisor'
                if zd: continue
                Q = val(outs[0]) if outs[0] is not None else None; Rr = val(outs[1]) if outs[1] is not None else None
                why = floor(dd, X, Y, Q, Rr, sy)
                if why: return why
            elif k == 'mod':
                E = poly(c.fn(*vals)[0]); v = val(outs[0])
                if not congruent(dd, padd(E, v, -1), Mp): return 'wrong residue'
                if not dd.unsat([padd(v, Mp, -1)]) or not dd.unsat([padd(neg(v), const(1), -1)]): return 'not reduced'
            elif k == 'cmp':
                X, Y = (poly(v) for v in c.fn(*vals)); r = dd.extract(f.r[0], 0, 32)
                if not isinstance(r, int): raise Unsupported('returned value')
                r -= (r >> 31) << 32; D = padd(X, Y, -1)
                ok = dd.unsat([neg(D)]) if r > 0 else dd.unsat([D]) if r < 0 else dd.equal(D)
                if not ok: return 'wrong comparison'
            elif k == 'bool':
                r = dd.extract(f.r[0], 0, 8)
                if not isinstance(r, int): raise Unsupported('returned value')
                D, rel = c.fn(*vals); D = poly(D); one = const(1)
                pos = {'<': [padd(neg(D), one, -1)], '<=': [neg(D)], '>': [padd(D, one, -1)], '>=': [D]}
                if rel in ('==', '!='):
                    eq = (r == 1) == (rel == '==')
                    ok = dd.equal(D) if eq else dd.unsat([D, neg(D)])
                else: ok = dd.unsat(pos[{'<': '>=', '<=': '>', '>': '<=', '>=': '<'}[rel] if r else rel])
                if r > 1 or not ok: return 'wrong answer'
            for i, a in enumerate(c.args):
                if addr[i] is not None and len(a) > 1 and addr[i] not in oa:
                    for kk in list(range(NW + 1)) + ([SG // 8] if a[0] == 'S' else []):
                        if addr[i] + 8 * kk in inp and f.mem[addr[i] + 8 * kk] is not inp[addr[i] + 8 * kk]: return 'operand %d modified' % i
            if c.mn and any(f.mem[ma + 8 * kk] is not inp[ma + 8 * kk] for kk in range(NW + 1)): return 'modulus modified'
        return None
    def zero(self, dd, Y): return not dd.res(Y) or any(frozenset(dd.res(p).items()) in (frozenset(dd.res(Y).items()), frozenset(dd.res(neg(Y)).items())) for p in dd.zeros)
    # ---- native
    def validate(self, ctx): return self.nv(ctx, ctx.seed, 25, time.time() + 10)
    def witness(self, ctx, hints): return self.nv(ctx, ctx.seed + 5, 60000, ctx.wdeadline, hints)
    def nv(self, ctx, seed, n, deadline, hints=None):
        nat = limb.Native(ctx.exes['zm'], self.cfg); rng = random.Random('%s|%s' % (seed, self.key)); tried = 0
        try:
            while tried < n and time.time() < deadline:
                c = self.shapes[tried] if tried < len(self.shapes) else rng.choice(self.shapes); tried += 1; h = None
                if hints and rng.randrange(2): i, h = rng.choice(hints); c = self.shapes[i]
                r = native_one(nat, c, rng, h)
                if r: return dict(entry=c.name, config=self.cfg.name, shape=c.text(), **r), tried
            return None, tried
        finally: nat.close()
def qcands(dd):
    """the quotients the division contracts introduced on this path"""
    out = []; cur = {}
    for i, nm in enumerate(dd.sh.nm):
        m = re.match(r'Q(\d+)$', nm)
        if m:
            k = int(m.group(1))
            if k == 0: cur = {}; out.append(cur)
            cur[(i,)] = 1 << 64 * k
    return out
def settle(dd, at):
    """words and carries that have one value (0 or the largest) on this path"""
    ch = False
    for a in at:
        if a in dd.path or a in dd.sh.known: continue
        h = dd.sh.hi[a]; v = None
        if dd.unsat([{(a,): 1, (): -1}]): v = 0
        elif dd.unsat([{(a,): -1, (): h - 1}]): v = h
        elif h > 1 and dd.unsat([{(a,): 1, (): -2}]) and dd.unsat([{(a,): -1}]): v = 1
        if v is not None: dd.path[a] = v; ch = True
    return ch
def equal(dd, p):
    """dd.equal, with the carries of p and the words of p that are settled on this path put in first (p may be of degree two)"""
    if dd.equal(p): return True
    p = dd.res(p)
    if all(len(m) < 2 for m in p): return False
    at = {a for m in p for a in m}; b = {a for a in at if dd.sh.bit[a]}
    if settle(dd, sorted(b, reverse=True)) and dd.equal(p): return True
    return settle(dd, sorted(at - b, reverse=True)) and dd.equal(p)
def floor(dd, X, Y, Q, Rr, sy):
    one = const(1)
    def rng(r):      # 0 <= r < Y, or Y < r <= 0
        if sy: return dd.unsat([padd(r, one, -1)]) and dd.unsat([padd(Y, r, -1)])
        return dd.unsat([padd(neg(r), one, -1)]) and dd.unsat([padd(r, Y, -1)])
    if Q is not None and Rr is not None:
        if not equal(dd, padd(padd(X, pmul(Q, Y), -1), Rr, -1)): return 'quotient * divisor + remainder is not the dividend'
        return None if rng(Rr) else 'remainder out of range'
    cs = [{}] + [one] + [c for c in qcands(dd)]
    for c in cs:
        for sgn in (1, -1):
            for add in (0, 1):
                q = padd(c, const(add)); q = q if sgn > 0 else neg(q)
                if Q is not None:
                    if equal(dd, padd(Q, q, -1)): return None if rng(padd(X, pmul(q, Y), -1)) else 'wrong quotient'
                    continue
                if dd.equal(padd(padd(X, pmul(q, Y), -1), Rr, -1)): return None if rng(Rr) else 'remainder out of range'
    return 'wrong remainder' if Q is None else 'wrong quotient'
def congruent(dd, D, M):
    for k in [{}, const(1), const(-1), const(2), const(-2)] + [x for c in qcands(dd) for x in (c, neg(c))]:
        if dd.equal(padd(D, pmul(k, M), -1)): return True
    return False

def zint(rng, n, prev):
    v = rnd(rng, n)
    if prev and rng.random() < .35: v = max(0, rng.choice(prev) + rng.choice([-1, 0, 1])) & CAP - 1
    return v
def fit(v, n): return n == max(1, (v.bit_length() + 63) // 64)
def native_one(nat, c, rng, hint=None):
    M = None; fo = Follow(hint, rng); sz = lambda v: max(1, (v.bit_length() + 63) // 64)
    def put(a, v, sg=None):
        k = sz(v); b = v.to_bytes(8 * k, 'little') + b''.join(word(rng).to_bytes(8, 'little') for _ in range(NW - k)) + k.to_bytes(8, 'little')
        nat.srv.write(a, b + (bytes([sg]) if sg is not None else b''))
    if c.mn:
        while not M: M = rnd(rng, c.mn)
        if rng.random() < .1 and c.mn == 1: M = rng.choice([1, 2, 3, 5])
        M = fo.value('m', M, c.mn) or M
        put(nat.syms['Zn::m'][0], M)
    vals = []; addr = []; args = []; prev = []; mem = {}
    for i, a in enumerate(c.args):
        if i in c.same: vals.append(vals[c.same[i]]); addr.append(addr[c.same[i]]); args.append(addr[i]); continue
        if a[0] == 'c': vals.append(a[1]); addr.append(None); args.append(a[1] & M64); continue
        ad = A + SLOT * i; addr.append(ad); args.append(ad)
        if a[0] == 'raw':
            v = fo.value('x%d' % i, sum(word(rng) << 64 * k for k in range(a[1])), a[1]); nat.srv.write(ad, v.to_bytes(8 * a[1], 'little')); vals.append(v); continue
        sh = a if len(a) > 1 else next((c.args[k] for k, j in c.same.items() if j == i), None)
        v = zint(rng, sh[1] if sh else rng.randrange(1, NW + 1), prev)
        if sh and sh[0] == 'Z':
            v = rng.choice([0, 1, M - 1, M - 2, M // 2, v, v]) % M
        if sh:
            w = fo.value('x%d' % i, v, sh[1])
            if sz(w) == sh[1] and (sh[0] != 'Z' or w < M): v = w
        if sh: prev.append(v)
        sg = (sh[2] if sh else rng.randrange(2)) if a[0][0] == 'S' else None
        put(ad, v, sg); mem[i] = nat.srv.read(ad, 80 + (sg is not None)); vals.append((-v if sh[0] == 'S' and sg else v) if sh else None)
    k = c.kind[0]; outs = c.kind[1:]
    if c.name[1:] in ('::mul', '::*', '::*=') and sum(sz(abs(v)) for v in vals[-2:]) > NW: return None      # outside the shapes of the claim
    inp = dict(values=[None if v is None else hex(v) for v in vals], same=str(c.same), **(dict(modulus=hex(M)) if M else {}))
    W = lambda x: dict(inputs=inp, observed=x)
    exp = c.fn(*vals) if k != 'inv' else None; die = False
    if k == 'floor' and exp[1] == 0 and len(outs) <= 2: return None
    if k == 'val': die = any(abs(e) >= CAP for e in exp)
    if k == 'inv':
        import math
        if math.gcd(vals[outs[1]], M) != 1 or M == 1: return None
        exp = (pow(vals[outs[1]], -1, M) * (vals[outs[2]] if len(outs) > 2 else 1) % M,)
    o = nat.srv.call(nat.ent[c.name], *args).split()
    if die: return None if o[0] == 'exc' or o[0] == 'sig' and o[1] == '99' else W('a result beyond the capacity is not reported')
    if o[0] != 'ret': return W('the call ended by ' + ' '.join(o))
    r = int(o[1], 16)
    def get(i):
        b = nat.srv.read(addr[i], 80); n = int.from_bytes(b[72:], 'little')
        if not 1 <= n <= NW or n > 1 and not any(b[8 * n - 8:8 * n]): return None
        v = int.from_bytes(b[:8 * n], 'little')
        if c.args[i][0][0] == 'S':
            g = nat.srv.read(addr[i] + SG, 1)[0]
            if g > 1: return None
            if g: v = -v
        return v
    hx = lambda v: 'no canonical number' if v is None else hex(v)
    if k == 'val':
        for i, e in zip(outs, exp):
            if get(i) != e: return W('got %s, should be %s' % (hx(get(i)), hex(e)))
    elif k in ('mod', 'inv'):
        if get(outs[0]) != exp[0] % M: return W('got %s, should be %s' % (hx(get(outs[0])), hex(exp[0] % M)))
    elif k == 'floor':
        X, Y = exp
        if len(outs) > 2 and r & 255 != (Y != 0): return W('returned %d' % (r & 255))
        if Y:
            for i, e in zip(outs[:2], (X // Y, X % Y)):
                if i is not None and get(i) != e: return W('got %s, should be %s' % (hx(get(i)), hex(e)))
    elif k == 'cmp':
        r &= 0xffffffff; r -= (r >> 31) << 32; D = exp[0] - exp[1]
        if (r > 0) - (r < 0) != (D > 0) - (D < 0): return W('returned %d' % r)
    elif k == 'bool':
        D, rel = exp; w = {'<': D < 0, '<=': D <= 0, '>': D > 0, '>=': D >= 0, '==': D == 0, '!=': D != 0}[rel]
        if r & 255 != w: return W('returned %d' % (r & 255))
    oa = {addr[i] for i in outs if i is not None and isinstance(i, int)} if k in ('val', 'floor', 'mod', 'inv') else set()
    for i, b in mem.items():
        if addr[i] not in oa and nat.srv.read(addr[i], len(b)) != b: return W('operand %d modified' % i)
    return None

# ---- constructors, setters and shifts on bit vectors
class BOb(Ob):
    """cases (name, args, fn): args ('S', n, sign) ('SO',) ('V', n) ('VO',) ('Z',) ('ZO',) ('i32', nm) ('u64', nm) ('raw', n) ('c', v).  fn(vals, M words) ->
    dict(out=i, words=.., neg=z3 bool (ignored when the value is zero), pre=.., exit=..)"""
    def __init__(self, cfg, key, cases, mn=None, cost=1):
        self.cfg, self.cases, self.mn, self.cost = cfg, cases, mn, cost; self.key = '%s %s' % (cfg.name, key); self.functions = sorted({c[0] for c in cases})
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = image(ctx, self.cfg); det = dict(paths=0, steps=0); why = None
        for c in self.cases:
            why = self.one(img, c, det)
            if why: why = '%s %s: %s' % (c[0], c[1], why); break
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='proved' if not why else 'refuted', shapes=len(self.cases))
        if why: det['why'] = why; det['hints'] = [(self.cases.index(c), self.md)] if self.md else []
        return det
    md = None
    def one(self, img, c, det):
        def mod1(s):      # the contract of the word primitive, one word
            if s.r[6] != 1: raise Unsupported('remainder of several words')
            y = bv(s.r[2])
            if s.dom.sat(y == 0) is not None: raise Unsupported('division by a word that may be zero')
            x = bv(s.load(s.r[7]))
            if REM and all(s.dom.sat(p != q) is None for p, q in zip(REM[:2], (x, y))): r = REM[2]      # the remainder of the specification
            else: r = z3.URem(x, y)
            s.r[0] = r; ret(s)
        def ret(s): s.pc = s.load(s.r[4]); s.r[4] += 8
        h = hooks(img); h[img.entries['zm::mod1']] = mod1; REM = []
        name, args, fn = c[:3]; same = c[3] if len(c) > 3 else {}; d = ZB(); ex = ZExec(img, h); s = ex.start(d, img.entries[name], []); vals = []; addr = []; M = None
        if self.mn:
            ma = img.syms['Zn::m'][0]; M = c_vuint.put_v(s, ma, self.mn, 'm')
            if self.mn == 1: d.pcs.append(M[0] != 0)
        for i, a in enumerate(args):
            if i in same: addr.append(addr[same[i]]); vals.append(vals[same[i]]); v = addr[i]
            elif a[0] == 'c': v = a[1] & M64; vals.append(a[1]); addr.append(None)
            elif a[0] == 'i32': w = z3.BitVec(a[1], 32); v = z3.Concat(z3.BitVec(a[1] + 'hi', 32), w); vals.append(w); addr.append(None)
            elif a[0] == 'u64': v = z3.BitVec(a[1], 64); vals.append(v); addr.append(None)
            else:
                v = A + SLOT * i; addr.append(v); sh = a if len(a) > 1 else next((args[k] for k, j in same.items() if j == i), None)
                if a[0] == 'raw': vals.append([z3.BitVec('r%d' % k, 64) for k in range(a[1])]); [s.mem.__setitem__(v + 8 * k, w) for k, w in enumerate(vals[-1])]
                else:
                    if sh: vals.append(c_vuint.put_v(s, v, sh[1], 'x%d_' % i))
                    else: c_vuint.put_junk(s, v, 'o%d_' % i); vals.append(None)
                    if a[0][0] == 'S':
                        if sh: s.mem[v + SG] = sh[2]
                        else: g = fresh('sg'); s.mem[v + SG] = g; d.pcs.append(z3.ULE(z3.Extract(7, 0, g), 1))
            s.r[[7, 6, 2, 1, 8, 9][i]] = v
        e = fn(vals, M); inp = dict(s.mem); REM += e.get('rem', ())
        if e.get('pre') is not None: d.pcs.append(e['pre'])
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps; end = f.user['end']; ec = e.get('exit', z3.BoolVal(False))
            if end in ('exit', 'throw'): viol = [z3.Not(ec)]
            elif end != 'ret': raise Unsupported('path ends: ' + end)
            else:
                viol = [ec] if 'exit' in e else []; o = addr[e['out']] if 'out' in e else None
                if o is not None:
                    viol += [z3.Not(x) for x in c_vuint.is_value(f, o, e['words'])]
                    if 'neg' in e:
                        g = z3.Extract(7, 0, bv(f.load(o + SG))); nzv = z3.Or([bv(w) != 0 for w in e['words']])
                        viol += [z3.UGT(g, 1), z3.And(nzv, (g == 1) != e['neg'])]
                if 'ret' in e: viol.append(z3.Extract(7, 0, bv(f.r[0])) != z3.If(e['ret'], BV(1, 8), BV(0, 8)))
                for i, a in enumerate(args):
                    if addr[i] is not None and len(a) > 1 and addr[i] != o:
                        for k in list(range(NW + 1)) + ([SG // 8] if a[0] == 'S' else []):
                            q = addr[i] + 8 * k
                            if q in inp and f.mem[q] is not inp[q]: viol.append(bv(f.mem[q]) != bv(inp[q]))
            viol = [z3.simplify(v) for v in viol]; viol = [v for v in viol if not z3.is_false(v)]
            for v in viol:
                m = f.dom.sat(v)
                if m is not None: self.md = {str(x): m[x].as_long() for x in m if hasattr(m[x], 'as_long')}; return 'wrong result (%s)' % end
        return None
    def validate(self, ctx): return self.nv(ctx, ctx.seed, 40, time.time() + 10)
    def witness(self, ctx, hints): return self.nv(ctx, ctx.seed + 5, 60000, ctx.wdeadline, hints)
    def nv(self, ctx, seed, n, deadline, hints=None):
        nat = limb.Native(ctx.exes['zm'], self.cfg); rng = random.Random('%s|%s' % (seed, self.key)); tried = 0
        try:
            while tried < n and time.time() < deadline:
                c = self.cases[tried] if tried < len(self.cases) else rng.choice(self.cases); tried += 1
                md = {}
                if hints and rng.randrange(2): i, md = rng.choice(hints); c = self.cases[i]
                r = self.nat1(nat, c, rng, md)
                if r: return dict(entry=c[0], config=self.cfg.name, shape=str(c[1]), **r), tried
            return None, tried
        finally: nat.close()
    def nat1(self, nat, c, rng, md={}):
        num = lambda pre, v, n: sum(md.get('%s%d' % (pre, k), v >> 64 * k & M64) << 64 * k for k in range(n)) or v
        name, args, fn = c[:3]; same = c[3] if len(c) > 3 else {}; vals = []; addr = []; regs = []; M = None; Mw = None; sz = lambda v: max(1, (v.bit_length() + 63) // 64)
        def put(a, v, sg=None):
            k = sz(v); nat.srv.write(a, v.to_bytes(8 * k, 'little') + b''.join(word(rng).to_bytes(8, 'little') for _ in range(NW - k)) + k.to_bytes(8, 'little') + (bytes([sg]) if sg is not None else b''))
        L = lambda v, n: [BV(v >> 64 * k & M64, 64) for k in range(n)]
        if self.mn:
            while not M: M = rng.choice([rnd(rng, self.mn), rng.randrange(1, 1 << rng.randrange(1, 40))] if self.mn == 1 else [rnd(rng, self.mn)])
            M = num('m', M, self.mn); put(nat.syms['Zn::m'][0], M); Mw = L(M, self.mn)
        show = []
        for i, a in enumerate(args):
            if i in same: addr.append(addr[same[i]]); vals.append(vals[same[i]]); regs.append(addr[i]); continue
            if a[0] == 'c': vals.append(a[1]); regs.append(a[1] & M64); addr.append(None)
            elif a[0] == 'i32':
                v = rng.choice([0, 1, -1, 2, -2, 1 << 31, (1 << 31) - 1, rng.getrandbits(32), rng.getrandbits(8), -rng.getrandbits(8), *([M & 0xffffffff, (M + 1) & 0xffffffff, -M] if M else [])]) & 0xffffffff
                v = md.get(a[1], v); vals.append(BV(v, 32)); regs.append(v | rng.getrandbits(32) << 32); addr.append(None); show.append(v - (v >> 31 << 32))
            elif a[0] == 'u64': v = md.get(a[1], word(rng)); vals.append(BV(v, 64)); regs.append(v); addr.append(None); show.append(hex(v))
            else:
                ad = A + SLOT * i; addr.append(ad); regs.append(ad); sh = a if len(a) > 1 else next((args[k] for k, j in same.items() if j == i), None)
                if a[0] == 'raw': v = num('r', sum(word(rng) << 64 * k for k in range(a[1])), a[1]); nat.srv.write(ad, v.to_bytes(8 * a[1], 'little')); vals.append(L(v, a[1])); show.append(hex(v)); continue
                v = rnd(rng, sh[1] if sh else rng.randrange(1, NW + 1)); v = num('x%d_' % i, v, sh[1]) if sh else v; sg = (sh[2] if sh else rng.randrange(2)) if a[0][0] == 'S' else None
                put(ad, v, sg); vals.append(L(v, sh[1]) if sh else None)
                if sh: show.append(('-' if sg and sh[0] == 'S' else '') + hex(v))
        e = fn(vals, Mw); ev = z3.simplify
        if e.get('pre') is not None and not z3.is_true(ev(e['pre'])): return None
        o = nat.srv.call(nat.ent[name], *regs).split(); inp = dict(values=show, **(dict(modulus=hex(M)) if M else {})); W = lambda x: dict(inputs=inp, observed=x)
        died = o[0] == 'exc' or o[0] == 'sig' and o[1] == '99'; want = 'exit' in e and z3.is_true(ev(e['exit']))
        if died != want or not died and o[0] != 'ret': return W('the call ended by ' + ' '.join(o))
        if died: return None
        if 'ret' in e and int(o[1], 16) & 255 != z3.is_true(ev(e['ret'])): return W('returned %s' % o[1])
        if 'out' in e:
            w = c_vuint.wnum(e['words']); b = nat.srv.read(addr[e['out']], 81); n = int.from_bytes(b[72:80], 'little')
            if not 1 <= n <= NW or n > 1 and not any(b[8 * n - 8:8 * n]): return W('not canonical')
            g = int.from_bytes(b[:8 * n], 'little')
            if g != w: return W('magnitude 0x%x, should be 0x%x' % (g, w))
            if 'neg' in e and (b[80] > 1 or w and b[80] != z3.is_true(ev(e['neg']))): return W('sign %d' % b[80])
        return None

# ---- C18
ADD = lambda v: v
def s_obs(cfg, ctx):
    th = ctx.thorough; obs = []; SG2 = [(a, b) for a in (0, 1) for b in (0, 1)]; N = NW
    ns = range(1, N + 1)
    pairs = [(n, m) for n in ns for m in ns if th or (n <= 4 and m <= 4 and (cfg is CF[1] or max(n, m) <= 2)) or (n, m) in ((9, 9), (9, 1), (1, 9), (9, 8), (8, 9), (5, 6), (6, 5), (6, 6), (9, 5))[:9 if cfg is CF[1] else 2]]
    O = ('SO',)
    for n, m in pairs:
        f3 = {'add': lambda *v: (v[-2] + v[-1],), 'sub': lambda *v: (v[-2] - v[-1],), 'mul': lambda *v: (v[-2] * v[-1],)}
        for op, sym in (('add', '+='), ('sub', '-='), ('mul', '*=')):
            if op == 'mul' and n + m > N: continue
            cs = []
            for sx, sy in SG2:
                X, Y = ('S', n, sx), ('S', m, sy)
                cs += [Sh('S::' + op, [O, X, Y], ('val', 0), f3[op], sm) for sm in ({}, {1: 0}, {2: 0})] + [Sh('S::' + sym, [X, Y], ('val', 0), f3[op])]
                if n == m and sx == sy: cs += [Sh('S::' + op, [O, X, Y], ('val', 0), f3[op], sm) for sm in ({2: 1}, {1: 0, 2: 0})] + [Sh('S::' + sym, [X, Y], ('val', 0), f3[op], {1: 0})]
            obs.append(IOb(cfg, '%s n=%d m=%d' % (op, n, m), cs, 3))
        fd = lambda *v: (v[-2], v[-1]); cs = []; ds = []
        for sx, sy in SG2 if th or cfg is CF[1] and (n <= m or n <= 4 or m == 1) or max(n, m) <= 2 else []:
            X, Y = ('S', n, sx), ('S', m, sy)
            for sm in ({}, {2: 0}, {3: 0}, {2: 1}, {3: 1}, {2: 0, 3: 1}, {3: 0, 2: 1}): cs.append(Sh('S::div', [O, O, X, Y], ('floor', 0, 1, 'ret'), fd, sm))
            if n == m and sx == sy:
                for sm in ({3: 2}, {2: 0, 3: 0}, {2: 1, 3: 1}): cs.append(Sh('S::div', [O, O, X, Y], ('floor', 0, 1, 'ret'), fd, sm))
            for sm in ({}, {1: 0}, {2: 0}): ds += [Sh('S::mod', [O, X, Y], ('floor', None, 0, 'ret'), fd, sm), Sh('S::/', [O, X, Y], ('floor', 0, None), fd, sm), Sh('S::%', [O, X, Y], ('floor', None, 0), fd, sm)]
        if cs: obs.append(IOb(cfg, 'div n=%d m=%d' % (n, m), cs, (n - m + 2) * m * 4)); obs.append(IOb(cfg, 'quotient and remainder operators n=%d m=%d' % (n, m), ds, (n - m + 2) * m * 4))
        cs = []
        for sx, sy in SG2:
            X, Y = ('S', n, sx), ('S', m, sy); cs.append(Sh('S::compare', [X, Y], ('cmp',), fd))
            for rel in ('<', '<=', '>', '>=', '==', '!='): cs.append(Sh('S::' + rel, [X, Y], ('bool',), lambda x, y, rel=rel: (x - y, rel)))
        obs.append(IOb(cfg, 'compare n=%d m=%d' % (n, m), cs, 2))
    V0 = ('VO',)
    for n in ns:
        cs = []; F = z3.BoolVal(False)
        for sx in (0, 1):
            X = ('S', n, sx); B = z3.BoolVal(bool(sx)); nB = z3.BoolVal(not sx)
            for sm in ({}, {1: 0}):
                cs += [('S::' + nm, [O, X], lambda v, M, nB=nB: dict(out=0, words=v[1], neg=nB), sm) for nm in ('neg', '-u')] + [('S::copy', [O, X], lambda v, M, B=B: dict(out=0, words=v[1], neg=B), sm)]
            cs += [('S::' + nm, [V0, X], lambda v, M: dict(out=0, words=v[1])) for nm in ('abs', 'absolute')]
            cs.append(('S::isZero', [X], lambda v, M: dict(ret=req(v[0], [])))); cs.append(('S::isNegative', [X], lambda v, M, B=B: dict(ret=z3.And(B, z3.Not(req(v[0], []))))))
        cs += [('S::' + nm, [O, ('V', n)], lambda v, M: dict(out=0, words=v[1], neg=F)) for nm in ('ctorV', 'setV')] + [('S::set64', [O, ('raw', n), ('c', n)], lambda v, M: dict(out=0, words=v[1], neg=F))]
        obs.append(BOb(cfg, 'negation, copies, sign tests n=%d' % n, cs))
        cs = []
        for q in range(0, N + 1):
            if not th and q not in (0, 1, n - 1, n, N): continue
            for sx in (0, 1):
                X = ('S', n, sx); B = z3.BoolVal(bool(sx))
                def fl(v, M, q=q, B=B):
                    r = rshl(v[-2], q, v[-1] & 63); return dict(out=0, words=r, neg=B, pre=z3.And(z3.LShR(v[-1], 6) == q, fits(r)))
                def fr(v, M, q=q, B=B): return dict(out=0, words=rshr(v[-2], q, v[-1] & 63), neg=B, pre=z3.LShR(v[-1], 6) == q, exit=z3.And(B, z3.Not(req(v[-2], []))))
                if n + q <= N: cs += [('S::shl', [O, X, ('u64', 'k')], fl, sm) for sm in ({}, {1: 0})] + [('S::<<', [O, X, ('u64', 'k')], fl), ('S::<<=', [X, ('u64', 'k')], fl)]
                cs += [('S::shr', [O, X, ('u64', 'k')], fr, sm) for sm in ({}, {1: 0})]
        obs.append(BOb(cfg, 'shifts n=%d' % n, cs, cost=3))
    def mag(w): return z3.ZeroExt(32, z3.If(w < 0, -w, w))
    obs.append(BOb(cfg, 'construction from machine integers', [('S::ctor', [O, ('i32', 'x')], lambda v, M: dict(out=0, words=[mag(v[1])], neg=v[1] < 0)),
        ('S::set', [O, ('u64', 'x')], lambda v, M: dict(out=0, words=[v[1]], neg=z3.BoolVal(False))), ('S::seti', [O, ('u64', 'x')], lambda v, M: dict(out=0, words=[z3.If(v[1] < 0, -v[1], v[1])], neg=v[1] < 0)),
        ('S::clear', [O], lambda v, M: dict(out=0, words=[BV(0, 64)], neg=z3.BoolVal(False)))]))
    return obs

# ---- C19
def z_obs(cfg, ctx):
    th = ctx.thorough; obs = []; O = ('ZO',); N = NW
    for mn in range(1, N + 1):
        sel = th or mn <= (4 if cfg is CF[1] else 2) or mn == N - 1
        if not sel: continue
        for n in range(1, mn + 1):
            for m in range(1, mn + 1):
                if not th and mn > 4 and (n, m) not in ((mn, mn), (mn, 1), (1, mn), (1, 1)): continue
                X, Y = ('Z', n), ('Z', m); f3 = {'add': lambda *v: (v[-2] + v[-1],), 'sub': lambda *v: (v[-2] - v[-1],), 'mul': lambda *v: (v[-2] * v[-1],)}
                for op, sym in (('add', '+='), ('sub', '-='), ('mul', '*=')):
                    if op == 'mul' and n + m > N or op == 'add' and mn == N: continue
                    cs = [Sh('Z::' + op, [O, X, Y], ('mod', 0), f3[op], sm, mn) for sm in ({}, {1: 0}, {2: 0})] + [Sh('Z::' + sym, [X, Y], ('mod', 0), f3[op], None, mn)]
                    if n == m: cs += [Sh('Z::' + op, [O, X, Y], ('mod', 0), f3[op], sm, mn) for sm in ({2: 1}, {1: 0, 2: 0})] + [Sh('Z::' + sym, [X, Y], ('mod', 0), f3[op], {1: 0}, mn)]
                    obs.append(IOb(cfg, '%s n=%d m=%d modulus of %d words' % (op, n, m, mn), cs, 3))
                obs.append(IOb(cfg, 'compare n=%d m=%d modulus of %d words' % (n, m, mn), [Sh('Z::compare', [X, Y], ('cmp',), lambda x, y: (x, y), None, mn), Sh('Z::==', [X, Y], ('bool',), lambda x, y: (x - y, '=='), None, mn)]))
            X = ('Z', n); cs = [Sh('Z::' + nm, [O, X], ('mod', 0), lambda *v: (-v[-1],), sm, mn) for nm in ('neg', '-u') for sm in ({}, {1: 0})]
            cs += [Sh('Z::setZ', [O, X], ('mod', 0), lambda *v: (v[-1],), sm, mn) for sm in ({}, {1: 0})] + [Sh('Z::isZero', [X], ('bool',), lambda x: (x, '=='), None, mn)]
            obs.append(IOb(cfg, 'negation and copy n=%d modulus of %d words' % (n, mn), cs, 2))
        for n in range(1, N + 1):
            if not th and n not in (1, mn - 1, mn, mn + 1, N): continue
            cs = [Sh('Z::' + nm, [O, ('V', n)], ('mod', 0), lambda *v: (v[-1],), None, mn) for nm in ('ctorV', 'setV')] + [Sh('Z::set64', [O, ('raw', n), ('c', n)], ('mod', 0), lambda *v: (v[1],), None, mn)] if n else []
            obs.append(IOb(cfg, 'construction from %d words, modulus of %d words' % (n, mn), cs, 3))
        def fi(v, M, mn=mn):
            x = v[1]; a = z3.ZeroExt(32, z3.If(x < 0, -x, x)); big = c_vuint.rlt(M, [a])
            conc = z3.is_bv_value(M[0]); rem = z3.URem(a, M[0]) if conc else z3.BitVec('remainder', 64)
            pos = [rem] if mn == 1 else [a]
            df, b = c_vuint.rsub(M, [a])
            return dict(out=0, words=[z3.If(x < 0, w, p) for w, p in zip(df, pos + [BV(0, 64)] * mn)] , exit=z3.And(x < 0, z3.Or(x == BV(1 << 31, 32), big)),
                **(dict(rem=(a, M[0], rem), pre=z3.And(z3.ULE(rem, a), z3.ULT(rem, M[0]))) if mn == 1 else {}))
        obs.append(BOb(cfg, 'construction from int, modulus of %d words' % mn, [('Z::' + nm, [O, ('i32', 'x')], fi) for nm in ('ctor', 'set')], mn, 2))
    return obs
# ---- C19: the inversion loop
class LExec(DExec2):
    head = None
    def step(self, st):
        if st.pc == self.head:
            if not st.user.pop('resume', None): raise PathEnd('cut')
        return DExec2.step(self, st)
def loop_head(img, a):
    """the target of the only backward jump of the function at a that closes a cycle"""
    end = sorted(x for x in img.symname if x > a)[0]; back = set(); p = a; succ = {}
    while p < end:
        nx, t = img.fetch(p); m = re.match(r'j\w+\s+(?:0x)?([0-9a-f]+)', t); succ[p] = []
        if m: succ[p].append(int(m.group(1), 16))
        if not t.startswith(('jmp', 'ret')): succ[p].append(nx)
        if m and a <= int(m.group(1), 16) <= p: back.add((p, int(m.group(1), 16)))
        p = nx
    def reach(x, y):
        seen = set(); w = [x]
        while w:
            q = w.pop()
            if q == y: return True
            if q in seen: continue
            seen.add(q); w += succ.get(q, [])
        return False
    back = {t for q, t in back if reach(t, q)}
    if len(back) != 1: raise Unsupported('loop of the inversion')
    return back.pop()
class InvOb(Ob):
    """Z::inv, inverse and division for a modulus of one word: every step of the real code with the loop cut at its head.
    Invariant (inferred from the first arrival, then kept by every iteration): pairs of a residue a and an integer s on the
    stack with a x = s (mod m); coprime pairs of integers; integers at least one; residues below m.  x and m are coprime."""
    def __init__(self, cfg, name, args, den, num, same=None):
        self.cfg, self.name, self.args, self.den, self.num, self.same = cfg, name, args, den, num, same or {}
        self.key = '%s %s, modulus of one word%s' % (cfg.name, name, ' same %s' % same if same else ''); self.functions = [name]; self.cost = 6
        self.shape = [Sh(name, [tuple(('Z', mn) if a == ('Z', 1) else a for a in args)][0], ('inv', 0, den) + ((num,) if num is not None else ()), None, self.same, mn) for mn in (1, 1, 2, 3, 4)]
        self.shape = [Sh(name, list(s.args), s.kind, None, self.same, s.mn) for s in self.shape]
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = image(ctx, self.cfg); det = dict(paths=0, steps=0)
        why = self.run(img, det)
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='proved' if not why else 'open')
        if why: det['why'] = why
        return det
    def run(self, img, det):
        d = WDom(); d.pf = []; h = hooks(img); h.update(prim_hooks(img))
        ex = LExec(img, h); inv = find(img, 'ZmZ<mie::VuintT<', ', mie::VuintT<', '::inv('); ex.head = loop_head(img, inv)
        s = ex.start(d, img.entries[self.name], []); one = const(1); s.user['divs'] = ()
        def number(ad, nm):
            w = d.word(nm); s.mem[ad] = w; s.mem[ad + 8 * NW] = 1
            for k in range(1, NW): s.mem[ad + 8 * k] = d.word('junk')
            return w.p
        ma = img.syms['Zn::m'][0]; M = number(ma, 'm'); matom = next(iter(M))[0]; d.pf.append(padd(M, one, -1)); d.nz.append(M); addr = []; vals = []
        for i, a in enumerate(self.args):
            if i in self.same: addr.append(addr[self.same[i]]); vals.append(vals[self.same[i]])
            else:
                ad = A + SLOT * i; addr.append(ad)
                if len(a) > 1 or i in self.same.values(): v = number(ad, 'x%d' % i); d.pf.append(padd(padd(M, v, -1), one, -1)); vals.append(v)
                else: number(ad, 'o'); vals.append(None)
            s.r[[7, 6, 2, 1, 8, 9][i]] = addr[i]
        x = vals[self.den]; num = vals[self.num] if self.num is not None else one; d.nz.append(x)      # coprime to m > 1, so not zero
        key = lambda dd, p: frozenset(dd.res(p).items())
        def modm(dd, D):
            """D = 0 modulo m"""
            D = dd.res(D)
            if all(matom in k for k in D): return True
            if equal(dd, D): return True
            settle(dd, [a for k in D for a in k]); D = dd.res(D)
            return all(matom in k for k in D)
        def coprimes(dd, st, cop):
            """closure of the coprime pairs over the divisions of the path, and the integers known to be one"""
            cop = {frozenset(key(dd, p) for p in c) for c in cop}; ones = []
            for _ in range(4):
                for X, Y, R in st.user.get('divs', ()):
                    kx, ky, kr = key(dd, X), key(dd, Y), key(dd, R)
                    if frozenset((kx, ky)) in cop: cop.add(frozenset((kr, ky)))
            zk = [{}] + [p for p in dd.zeros]
            for c in cop:
                c = list(c) if len(c) == 2 else list(c) * 2
                for a, b in (c, c[::-1]):
                    if not a or any(key(dd, z) == a for z in zk): ones.append(dict(b))
            return cop, ones
        def slots(st):
            lo = st.r[4]; out = []
            for ad in range(lo, STACK, 8):
                if st.mem.get(ad + 8 * NW) == 1 and isinstance(st.mem.get(ad), (IW, int)): out.append(ad)
            return out
        def final(f, cop):
            dd = f.dom; o = addr[0]
            if dd.unsat([]): return None
            if not isinstance(f.load(o + 8 * NW), int) or f.load(o + 8 * NW) != 1: return 'size of the result'
            v = dd.p(f.load(o)); c, ones = coprimes(dd, f, cop)
            if not dd.unsat([padd(v, M, -1)]): return 'result not reduced'
            for T in [one] + ones:
                if modm(dd, padd(pmul(v, x), pmul(num, T), -1)): break
            else: return 'result times the divisor is not the dividend'
            if f.load(ma) is not s0[ma]: return 'modulus modified'
            return None
        s0 = dict(s.mem); start = [frozenset((frozenset(x.items()), frozenset(M.items())))]; heads = []
        cop0 = [tuple(dict(k) for k in c) for c in start]
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps; dd = f.dom
            if dd.unsat([]): continue
            if f.user['end'] == 'ret':
                w = final(f, cop0)
                if w: return w
            elif f.user['end'] == 'cut': heads.append(f)
            else: return 'entry: ends by ' + f.user['end']
        if not heads: return None
        f = heads[0]; sl = [a for a in slots(f) if all(a in slots(g) and g.r[4] == f.r[4] for g in heads)]
        regs = [v if isinstance(v, int) and all(g.r[i] == v for g in heads) and i in (3, 4, 5, 12, 13, 14, 15) else None for i, v in enumerate(f.r)]
        P = lambda g, a: g.dom.p(g.mem[a])
        inv2 = [(a, b) for a in sl for b in sl if a != b and all(modm(g.dom, padd(pmul(P(g, a), x), P(g, b), -1)) for g in heads)]
        below = [a for a in sl if all(g.dom.unsat([padd(P(g, a), M, -1)]) for g in heads)]
        pairs = []
        for a in sl:
            for b in sl:
                if a < b and all(frozenset((key(g.dom, P(g, a)), key(g.dom, P(g, b)))) in coprimes(g.dom, g, cop0)[0] for g in heads): pairs.append((a, b))
        def atleast(g, a, pr, cp):
            if g.dom.unsat([neg(P(g, a))]): return True
            # coprime to a number above one and not zero: left to the exits; the first remainder is not zero because x > 1 is coprime to m
            k = key(g.dom, P(g, a)); c, _ = coprimes(g.dom, g, cp)
            return any(k in q and any(g.dom.unsat([padd(one, dict(o), -1)]) or g.dom.unsat([padd(dict(o), one, -1), padd(one, dict(o), -1)]) and g.dom.unsat([neg(dict(o))]) for o in q if o != k) for q in c)
        pos = [a for a in sl if all(atleast(g, a, pairs, cop0) for g in heads)]
        for rnd_ in range(12):
            det['rounds'] = rnd_ + 1
            g = f.copy(); dd = g.dom; dd.sh = __import__('copy').copy(dd.sh); dd.sh.facts = []; dd.sh.known = {}; dd.zeros = []; dd.nz = [M, x]; dd.path = {}
            dd.pf = [padd(M, one, -1)] + [padd(padd(M, v, -1), one, -1) for v in vals if v is not None]
            for a, v in list(g.mem.items()):
                if g.r[4] <= a < STACK and not isinstance(v, int): g.mem[a] = dd.word('cell')
                elif g.r[4] <= a < STACK and any(q.mem.get(a) != v for q in heads): g.mem[a] = dd.word('cell')
            g.r = [v if v is not None else dd.undef('reg') for v in regs]; g.x = [(dd.undef('xmm'), dd.undef('xmm')) for _ in g.x]; g.fl = None
            at = {}
            ints = {b for _, b in inv2}
            for a in sl:
                w = dd.word('slot'); g.mem[a] = w; at[a] = w.p
            for a, b in inv2:       # s = a x modulo m: s is written as a x + k m with an arbitrary integer k
                pass
            sub = {}
            for a, b in inv2: sub.setdefault(next(iter(at[b]))[0], []).append(pmul(at[a], x))
            for a in below: dd.pf.append(padd(padd(M, at[a], -1), one, -1))
            for a in pos: dd.nz.append(at[a])
            cop = [(at[a], at[b]) for a, b in pairs]
            def repl(D):
                """s replaced by a x (modulo m)"""
                for _ in range(3):
                    n = {}
                    for k, c in D.items():
                        t = {(): c}
                        for q in k: t = pmul(t, sub[q][0] if q in sub else {(q,): 1})
                        n = padd(n, t)
                    D = n
                return D
            def modr(dd, D):
                D = dd.res(D)
                if modm(dd, D): return True
                D = repl(dd.res(D)); return all(matom in k for k in D) or modm(dd, D)
            g.user = dict(resume=True, divs=(), depth=g.user.get('depth', 0)); bad = set(); fin = None; nheads = []
            for e in ex.run(g):
                det['paths'] += 1; det['steps'] += e.steps; q = e.dom
                if q.unsat([]): continue
                if e.user['end'] == 'ret':
                    if e.load(addr[0] + 8 * NW) != 1: fin = fin or 'size of the result'; continue
                    v = q.p(e.load(addr[0])); c, ones = coprimes(q, e, cop)
                    if not q.unsat([padd(v, M, -1)]): fin = fin or 'result not reduced'; continue
                    if not any(modr(q, padd(pmul(v, x), pmul(num, T), -1)) for T in [one] + ones): fin = fin or 'result times the divisor is not the dividend'
                    if e.load(ma) is not s0[ma]: fin = 'modulus modified'
                elif e.user['end'] == 'cut':
                    nheads.append(e)
                    if any(v is not None and e.r[i] != v for i, v in enumerate(regs)): return 'registers at the loop head'
                    es = slots(e)
                    if any(a not in es for a in sl): return 'objects at the loop head'
                    bad |= {('inv', ab) for ab in inv2 if not modr(q, padd(pmul(P(e, ab[0]), x), P(e, ab[1]), -1))}
                    bad |= {('below', a) for a in below if not q.unsat([padd(P(e, a), M, -1)])}
                    cp = coprimes(q, e, cop)[0]
                    bad |= {('pair', ab) for ab in pairs if frozenset(key(q, P(e, a)) for a in ab) not in cp}
                    bad |= {('pos', a) for a in pos if not q.unsat([neg(P(e, a))])}
                else: fin = fin or 'iteration: ends by ' + e.user['end']
            if not bad:
                det['invariant'] = dict(congruences=len(inv2), coprime=len(pairs), positive=len(pos), reduced=len(below))
                if fin: return fin
                # some positive integer of the invariant gets smaller in every iteration
                if nheads and not any(all(e.dom.unsat([padd(P(e, a), at[a], -1)]) for e in nheads) for a in pos): return 'no progress'
                return None
            inv2 = [c for c in inv2 if ('inv', c) not in bad]; below = [c for c in below if ('below', c) not in bad]; pairs = [c for c in pairs if ('pair', c) not in bad]; pos = [c for c in pos if ('pos', c) not in bad]
        return 'no invariant'
    def validate(self, ctx): return self.nv(ctx, ctx.seed, 60, time.time() + 10)
    def witness(self, ctx, hints): return self.nv(ctx, ctx.seed + 5, 60000, ctx.wdeadline)
    def nv(self, ctx, seed, n, deadline):
        nat = limb.Native(ctx.exes['zm'], self.cfg); rng = random.Random('%s|%s' % (seed, self.key)); tried = 0
        try:
            while tried < n and time.time() < deadline:
                c = rng.choice(self.shape); tried += 1; r = native_one(nat, c, rng)
                if r: return dict(entry=c.name, config=self.cfg.name, shape=c.text(), **r), tried
            return None, tried
        finally: nat.close()
def inv_obs(cfg):
    O = ('ZO',); X = ('Z', 1)
    return [InvOb(cfg, 'Z::inv', [O, X], 1, None), InvOb(cfg, 'Z::inv', [O, X], 1, None, {1: 0}), InvOb(cfg, 'Z::inverse', [X], 0, None),
            InvOb(cfg, 'Z::/', [O, X, X], 2, 1), InvOb(cfg, 'Z::/=', [X, X], 1, 0)]
def obligations(prop, ctx):
    ctx.exes = build.build(['zm']); obs = []
    for cfg in CF: image(ctx, cfg); obs += s_obs(cfg, ctx) if prop == 'C18' else z_obs(cfg, ctx) + inv_obs(cfg)
    t = 'word primitives and the quotient loop replaced by their contracts (obligations of C16 and C17)'
    if prop == 'C18':
        b = 'operands of 1..9 words with either sign and any stale words beyond the size, all words symbolic; ' + ('every pair of sizes' if ctx.thorough else 'sizes up to 4 by 4 and the pairs with 5, 6, 8 and 9 words named in the keys; for divisions the pairs named in the keys') + '; products with at most 9 words; every aliasing of the arguments; any int and any 64-bit value; shift counts that fit'
        return obs, dict(bounds=b, outside='text input and output (C20); results beyond 2^576; sizes not enumerated in the quick tier', assumptions=[t])
    b = 'modulus of 1..9 words (' + ('all' if ctx.thorough else '1..4 and 8') + '), reduced operands of every size up to the size of the modulus' + ('' if ctx.thorough else ' (for 8 words: 1 and 8)') + ', all words symbolic; products with at most 9 words; sums with a modulus of at most 8 words; every aliasing; any int; inversion and division: modulus and operand of one word, any number of loop iterations (inductive), operand coprime to the modulus (larger sizes only run natively)'
    return obs, dict(bounds=b, outside='products whose operands have more than 9 words together (the program stops); text input and output', assumptions=[t])
