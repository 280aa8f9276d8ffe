"""C21: curve constants and recodings.
 - convertToBinary, convertToNAF, getContinuousVal, getGoodRepl: the templates of bn.h instantiated with a digit vector whose
   accesses are checked.  convertToNAF is cut at the start of each round of its loop: a round from an arbitrary
   digit vector (binary up to the current position, -1/0/1 above it) keeps the value and moves to a smaller position.
 - the constants: the image of the initialised process against their defining formulas, for every built-in parameter and mode."""
import random, time, re, z3
import build, limb, contracts, tower
from limb import Config, ARENA
from x86 import PathEnd, Unsupported, STACK, RET
from zbv import bv, BV, fresh, M64, ZExec
from poly import STATS
from check import Ob
from c_inv import PB, FExec
CAP = 640
V0, I0 = ARENA, ARENA + 0x4000
CALLER = (0, 1, 2, 6, 7, 8, 9, 10, 11)
def digits(s, a):
    n = s.load(a)
    if not isinstance(n, int) or n > CAP: raise Unsupported('size of the digit vector')
    return [s.load(a + 8 + 8 * i) for i in range(n)]
def sx_(v, w): return z3.SignExt(w - 64, bv(v))
def value(ds, w):
    t = BV(0, w)
    for i, v in enumerate(ds):
        if not (isinstance(v, int) and v == 0): t = t + (sx_(v, w) << (len(ds) - 1 - i))
    return t
def inset(v, *vals): return z3.Or([bv(v) == BV(c & M64, 64) for c in vals])
def ret(s, v=None):
    for i in CALLER: s.r[i] = fresh('clob')
    if v is not None: s.r[0] = v
    s.fl = None; s.pc = s.load(s.r[4]); s.r[4] += 8
def cstr(img, *pats):
    """address of the function whose demangled name matches, or None"""
    import subprocess
    if not hasattr(img, 'dem2'):
        ns = sorted({n.strip('<>') for n in img.symname.values() if '@' not in n and n.startswith('_Z')})
        o = subprocess.run(['c++filt'], input='\n'.join(ns), capture_output=True, text=True).stdout.split('\n')
        img.dem2 = dict(zip(ns, o)); img.addr2 = {n.strip('<>'): a for a, n in img.symname.items()}
    r = [img.addr2[n] for n, d in img.dem2.items() if all(p in d for p in pats)]
    return r[0] if len(r) == 1 else None
def base_hooks(img):
    h = contracts.mem_hooks(img)
    def trap(s): raise PathEnd('access outside the vector')
    h[img.byname['fv_trap']] = trap
    def copy(s):
        z, x = s.r[7], s.r[6]
        if not isinstance(z, int) or not isinstance(x, int): raise Unsupported('copy of a digit vector')
        ds = digits(s, x); wr(s, z, len(ds))
        for i, v in enumerate(ds): wr(s, z + 8 + 8 * i, v)
        ret(s)
    a = cstr(img, 'FV::fv_copy(')
    if a: h[a] = copy
    return h
def wr(s, a, v): s.mem[a] = v

class UOb(Ob):
    def __init__(self, cfg, key, cost=1): self.cfg = cfg; self.key = '%s %s' % (cfg.name, key); self.cost = cost
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = limb.image(ctx.exes, self.cfg); det = dict(paths=0, steps=0)
        why = self.run(img, det); bad = bool(why) and why.startswith('!')
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='proved' if not why else 'refuted' if bad else 'open')
        if why: det['why'] = why
        return det
    def validate(self, ctx): return native(ctx, self.cfg, self.kind, ctx.seed, 60, time.time() + 10)
    def witness(self, ctx, hints): return native(ctx, self.cfg, self.kind, ctx.seed + 3, 100000, ctx.wdeadline)

class RunOb(UOb):
    """getContinuousVal(v, pos, val): the length of a run"""
    kind = 'naf'
    def __init__(self, cfg, nmax): UOb.__init__(self, cfg, 'getContinuousVal up to %d digits' % nmax, 2); self.nmax = nmax; self.functions = ['util::getContinuousVal']
    def run(self, img, det):
        for pos in range(self.nmax):
            for val in (0, 1):
                d = PB(); ex = FExec(img, base_hooks(img)); ds = [z3.BitVec('d%d' % i, 64) for i in range(pos + 1)]
                s = ex.start(d, img.entries['u:run'], [V0, pos, val]); s.mem[V0] = pos + 1
                for i, v in enumerate(ds): s.mem[V0 + 8 + 8 * i] = v; d.pcs.append(inset(v, -1, 0, 1))
                seen = set()
                for f in ex.run(s, 200):
                    det['paths'] += 1; det['steps'] += f.steps
                    if f.user['end'] != 'ret': return '!ends by ' + f.user['end']
                    r = f.r[0]
                    if not isinstance(r, int): return 'symbolic position'
                    if r > pos or any(f.load(V0 + 8 + 8 * i) is not ds[i] for i in range(pos + 1)): return '!position %d' % r
                    claim = [v == val for v in ds[r + 1:]] + ([ds[r] != val] if r >= 2 else []) + ([z3.BoolVal(r == min(pos, 1) if pos < 2 else r >= 1)])
                    if f.dom.sat(z3.Not(z3.And(claim))) is not None: return '!run ending at %d' % r
        return None
class NafOb(UOb):
    kind = 'naf'
    def __init__(self, cfg, lo, hi):
        UOb.__init__(self, cfg, 'convertToNAF rounds at positions %d..%d' % (lo, hi), hi * hi * (hi - lo + 1) / 20000); self.lo, self.hi = lo, hi; self.functions = ['util::convertToNAF', 'util::getGoodRepl']
    def run(self, img, det):
        det['rounds'] = 0
        for pos in range(self.lo, self.hi + 1):
            w = self.one(img, pos + 1, det)
            if w: return 'size %d: %s' % (pos + 1, w)
        return None
    def one(self, img, n, det):
        """the first round of a vector of n digits, from the entry; for later rounds the digits above the position are
        arbitrary, which is what a longer vector gives: the rounds never look above the position"""
        F = cstr(img, 'getContinuousVal<FV>(')
        if F is None: raise Unsupported('no function getContinuousVal')
        h = base_hooks(img); top = dict(n=0)
        def run_(s):
            v, pos, val = s.r[7], s.r[6], s.r[2]
            val = val & 0xffffffff if isinstance(val, int) else val
            if not all(isinstance(a, int) for a in (v, pos, val)) or val not in (0, 1): raise Unsupported('arguments of getContinuousVal')
            if val == 0:
                if not s.user.pop('resume', False): s.user['pos'] = pos; s.user['vec'] = v; raise PathEnd('cut')
            if pos < 2: ret(s, pos); return
            ds = digits(s, v)
            if pos >= len(ds): raise PathEnd('access outside the vector')
            out = []
            for q in range(pos, 0, -1):
                t = s.copy(); t.dom.pcs += [bv(x) == val for x in ds[q + 1:pos + 1]] + ([bv(ds[q]) != val] if q >= 2 else [])
                # the digits are binary up to the position (a fact of the frame): put the forced values in place
                if t.dom.sat() is None: continue
                ret(t, q); out.append(t)
            if not out: raise PathEnd('infeasible')
            return out
        h[F] = run_
        d = PB(); ex = FExec(img, h); s = ex.start(d, img.entries['u:naf'], [V0, I0])
        s.mem[V0] = 3; s.mem[I0] = n; inp = [z3.BitVec('b%d' % i, 64) for i in range(n)]
        for i in range(CAP): s.mem[V0 + 8 + 8 * i] = z3.BitVec('junk', 64)
        for i, v in enumerate(inp): s.mem[I0 + 8 + 8 * i] = v; d.pcs.append(inset(v, 0, 1))
        if n: d.pcs.append(inp[0] == 1)
        fs = ex.run(s); det['paths'] += len(fs)
        if n < 2:      # nothing to do
            for f in fs:
                if f.user['end'] != 'ret': return '!ends by ' + f.user['end']
                if f.load(V0) != n or any(f.load(V0 + 8 + 8 * i) is not inp[i] for i in range(n)): return '!result of a vector of %d digits' % n
            return None
        if len(fs) != 1 or fs[0].user['end'] != 'cut': return 'entry: ' + fs[0].user['end']
        f = fs[0]
        if f.user['vec'] != V0 or f.user['pos'] != n - 1 or digits(f, V0) != inp: return 'state at the first round'
        # frame: some digits above the position, arbitrary in {-1, 0, 1}
        up = 3; N = n + up; g = f.copy(); g.dom = PB(); old = [z3.BitVec('d%d' % i, 64) for i in range(N)]
        g.mem[V0] = N
        for i, v in enumerate(old): g.mem[V0 + 8 + 8 * i] = v; g.dom.pcs.append(inset(v, 0, 1) if i < n else inset(v, -1, 0, 1))
        g.dom.pcs.append(old[0] == 1); g.user = dict(g.user, resume=True); keep = {i: v for i, v in enumerate(f.r) if i in (3, 4, 5, 12, 13, 14, 15)}
        lo = f.r[4]; cells = {a: v for a, v in f.mem.items() if lo <= a < STACK}
        for e in ex.run(g, 100000):
            det['paths'] += 1; det['steps'] += e.steps; det['rounds'] += 1; end = e.user['end']
            if end not in ('ret', 'cut'): return '!ends by ' + end
            new = digits(e, V0)
            if len(new) != N: return '!size of the result'
            ch = [i for i in range(N) if new[i] is not old[i]]
            if ch and max(ch) >= n: return '!a digit above the position changes'
            if ch:
                W = 80 + N
                a, b = ch[0], ch[-1] + 1
                claim = [value(new[a:b], W) == value(old[a:b], W)] + [inset(new[i], -1, 0, 1) for i in ch]
                if e.dom.sat(z3.Not(z3.And(claim))) is not None: return '!the value or the digit set changes'
            if end == 'cut':
                q = e.user['pos']
                if e.user['vec'] != V0 or not 0 <= q < n - 1: return 'no progress'
                if q < 1: return '!position %d' % q
                low = [i for i in ch if i <= q]
                if low and e.dom.sat(z3.Not(z3.And([inset(new[i], 0, 1) for i in low]))) is not None: return '!digits below the position'
                if 0 in ch: return '!leading digit'
                # the rest of the state is that of the first round, apart from values that are not used again
                for i, v in keep.items():
                    if isinstance(v, int) and not (isinstance(e.r[i], int)): return 'registers at the next round'
                for i in (4,):
                    if e.r[i] != keep[i]: return 'stack at the next round'
                dif = [i for i, v in keep.items() if isinstance(v, int) and e.r[i] != v and e.r[i] != q and not (v == n - 1 and e.r[i] == q)]
                # a register that differs must be dead: run the frame with it unknown
                for i in dif:
                    if i not in f.user.get('dead', ()):
                        if self.dead(ex, f, i, n): f.user['dead'] = f.user.get('dead', ()) + (i,)
                        else: return 'register %d at the next round' % i
        return None
    def dead(self, ex, f, i, n):
        """a round with the register unknown ends in the same way"""
        g = f.copy(); g.dom = PB(); g.user = dict(g.user, resume=True); old = [z3.BitVec('e%d' % k, 64) for k in range(n)]
        for k, v in enumerate(old): g.mem[V0 + 8 + 8 * k] = v; g.dom.pcs.append(inset(v, 0, 1))
        u = fresh('dead'); g.r[i] = u
        try: fs = ex.run(g, 100000)
        except Exception: return False
        for e in fs:
            used = [v for v in digits(e, V0) if not isinstance(v, int) and not any(v is o for o in old)]
            if used or any(u.eq(c) for c in e.dom.pcs if z3.is_bv(c)): return False
            if any('dead!' in str(c) for c in e.dom.pcs): return False
        return True
class BinOb(UOb):
    kind = 'bin'
    def __init__(self, cfg, lens): UOb.__init__(self, cfg, 'convertToBinary %s bits' % (lens if len(lens) < 4 else '%d..%d' % (lens[0], lens[-1])), sum(lens) / 300); self.lens = lens; self.functions = ['util::convertToBinary']
    def run(self, img, det):
        F = cstr(img, 'mie::VuintT<', '::bitLen() const')
        for L in self.lens:
            h = base_hooks(img)
            def bl(s, L=L): ret(s, L)
            if F is None: raise Unsupported('no function bitLen')
            h[F] = bl; d = PB(); ex = FExec(img, h); s = ex.start(d, img.entries['u:bin'], [V0, I0])
            nw = max(1, (L + 63) // 64); ws = [z3.BitVec('w%d' % i, 64) for i in range(nw)]; s.mem[V0] = 5
            for i in range(CAP): s.mem[V0 + 8 + 8 * i] = z3.BitVec('junk', 64)
            for i in range(9): s.mem[I0 + 8 * i] = ws[i] if i < nw else z3.BitVec('stale%d' % i, 64)
            s.mem[I0 + 72] = nw; X = z3.Concat(*reversed(ws)) if nw > 1 else ws[0]
            d.pcs.append(z3.LShR(X, L) == 0 if L < 64 * nw else z3.BoolVal(True))
            if L: d.pcs.append(z3.Extract(L - 1, L - 1, X) == 1)
            for f in ex.run(s, 4000):
                det['paths'] += 1; det['steps'] += f.steps
                if f.user['end'] != 'ret': return '!ends by ' + f.user['end']
                ds = digits(f, V0)
                if len(ds) != L: return '!%d digits for %d bits' % (len(ds), L)
                bad = [bv(v) != z3.ZeroExt(63, z3.Extract(L - 1 - i, L - 1 - i, X)) for i, v in enumerate(ds)]
                if bad and f.dom.sat(z3.Or(bad)) is not None: return '!digits of a number of %d bits' % L
        return None
class GoodOb(UOb):
    """getGoodRepl: returns one of the two expansions and says which"""
    kind = 'good'
    def __init__(self, cfg): UOb.__init__(self, cfg, 'getGoodRepl'); self.functions = ['util::getGoodRepl', 'util::getNumOfNonZeroElement']
    def run(self, img, det):
        B, N = cstr(img, 'convertToBinary<FV>('), cstr(img, 'convertToNAF<FV>(')
        if None in (B, N): raise Unsupported('functions not found')
        for n in range(0, 7):
            h = base_hooks(img); bd = [z3.BitVec('b%d' % i, 64) for i in range(n)]; nd = [z3.BitVec('n%d' % i, 64) for i in range(n)]
            def put(s, a, ds):
                wr(s, a, len(ds))
                for i, v in enumerate(ds): wr(s, a + 8 + 8 * i, v)
            def bin_(s):
                if s.r[6] != I0: raise PathEnd('converts something else')
                put(s, s.r[7], bd); ret(s)
            def naf_(s):
                ds = digits(s, s.r[6])
                if len(ds) != n or any(x is not y for x, y in zip(ds, bd)): raise PathEnd('recodes something else')
                put(s, s.r[7], nd); ret(s)
            h[B] = bin_; h[N] = naf_; d = PB(); ex = FExec(img, h); s = ex.start(d, img.entries['u:good'], [V0, I0]); s.mem[V0] = 4
            for i in range(CAP): s.mem[V0 + 8 + 8 * i] = z3.BitVec('junk', 64)
            d.pcs += [inset(v, 0, 1) for v in bd] + [inset(v, -1, 0, 1) for v in nd]
            cnt = lambda ds: z3.Sum([z3.If(v != 0, 1, 0) for v in ds]) if ds else z3.IntVal(0)
            for f in ex.run(s, 70000):
                det['paths'] += 1; det['steps'] += f.steps
                if f.user['end'] != 'ret': return '!ends by ' + f.user['end']
                r = digits(f, V0); fl = f.r[0]
                fl = fl & 255 if isinstance(fl, int) else z3.Extract(7, 0, fl)
                isn = len(r) == n and all(x is y for x, y in zip(r, nd)); isb = len(r) == n and all(x is y for x, y in zip(r, bd))
                if n and not (isn or isb): return '!result is neither expansion'
                if n == 0: isn = f.dom.sat(bv(fl, 8) == 0) is None
                if f.dom.sat(bv(fl, 8) != BV(int(isn), 8)) is not None: return '!flag'
        return None

class ParamOb(UOb):
    """the constants of the initialised process"""
    kind = 'param'
    def __init__(self, cfg): UOb.__init__(self, cfg, 'constants'); self.functions = ['Param::init']
    def run(self, img, det):
        bad = compare(lambda a, n: img.bytes(a, n), img.syms, self.cfg, det)
        return '!' + bad if bad else None
    def validate(self, ctx):
        nat = limb.Native(ctx.exes[self.cfg.variant], self.cfg)
        try:
            b = compare(nat.srv.read, nat.syms, self.cfg, {})
            return (dict(entry='Param::init', config=self.cfg.name, why=b) if b else None), 1
        finally: nat.close()
    def witness(self, ctx, hints): return self.validate(ctx)
def compare(rd, syms, cfg, det):
    p, F = cfg.p, cfg.F; z = cfg.z; out = []; T2 = tower.T2
    def eq(nm, got, want):
        """decided by the solver over the integers, as the definition reads"""
        s = z3.Solver(); s.add(z3.IntVal(got) != want); r = s.check(); STATS.q += 1; det['facts'] = det.get('facts', 0) + 1
        if r != z3.unsat: out.append('%s = %s' % (nm, hex(got)))
    txt = dict(l.split() for l in rd(*syms['constants']).decode().split('\n') if l.strip())
    Z = z3.IntVal(z); num = lambda nm: int(txt[nm], 16)
    pw = lambda c: z3.Sum([z3.IntVal(k) * z3.Product([Z] * e) if e else z3.IntVal(k) for e, k in enumerate(c)])
    eq('z', num('z'), Z); eq('p', num('p'), pw([1, 6, 24, 36, 36])); eq('r', num('r'), pw([1, 6, 18, 36, 36])); eq('t', num('t'), pw([1, 0, 6])); eq('largest_c', num('largest_c'), 6 * Z + 2)
    eq('R', num('R'), z3.IntVal(1 << 256) % p)
    b = int.from_bytes(rd(syms['Param::b'][0], 4), 'little'); eq('b', b, z3.IntVal(limb.CURVES[cfg.curve]['b']))
    def fp(nm, i=0):
        a = syms[nm][0]; v = int.from_bytes(rd(a + 32 * i, 32), 'little')
        if v >= p: out.append('%s is not reduced' % nm)
        return v * F.Ri % p
    def fp2(nm, i=0): return (fp(nm, 2 * i), fp(nm, 2 * i + 1))
    def mod(nm, e):
        """an identity modulo p"""
        s = z3.Solver(); s.add(e % p != 0); r = s.check(); STATS.q += 1; det['facts'] = det.get('facts', 0) + 1
        if r != z3.unsat: out.append(nm)
    I = z3.IntVal
    mod('half', 2 * I(fp('Param::half')) - 1); mod('i0', I(fp('Param::i0'))); mod('i1', I(fp('Param::i1')) - 1)
    xa, xb = limb.CURVES[cfg.curve]['xi']
    def m2(x, y): return (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0])
    def both(nm, x, y): mod(nm, x[0] - y[0]); mod(nm, x[1] - y[1])
    I2 = lambda c: (I(c[0]), I(c[1]))
    both('b_invxi', m2(I2(fp2('Param::b_invxi')), (I(xa), I(xb))), (I(b), I(0)))
    def pow2(x, e):
        r = (1, 0)
        for c in bin(e)[2:]:
            r = ((r[0] * r[0] - r[1] * r[1]) % p, 2 * r[0] * r[1] % p)
            if c == '1': r = ((r[0] * x[0] - r[1] * x[1]) % p, (r[0] * x[1] + r[1] * x[0]) % p)
        return r
    g = [pow2((xa, xb), (p - 1) * (i + 1) // 6) for i in range(5)]
    for i in range(5):
        G = fp2('Param::gammar', i); both('gammar[%d]' % i, I2(G), I2(g[i]))
        g2 = m2(I2(G), (I(G[0]), -I(G[1]))); both('gammar2[%d]' % i, I2(fp2('Param::gammar2', i)), g2)
        both('gammar3[%d]' % i, I2(fp2('Param::gammar3', i)), m2(I2(G), g2))
    both('W2p', I2(fp2('Param::W2p')), I2(pow2((xa, xb), (p - 1) // 3))); both('W3p', I2(fp2('Param::W3p')), I2(pow2((xa, xb), (p - 1) // 2)))
    t = pow2((xa, xb), (p * p - 1) // 6); mod('Z', I(fp('Param::Z')) - I(t[0]) * I(t[0]))
    if t[1]: out.append('xi^((p^2-1)/6)')
    for nm, want in (('Param::siTbl', abs(6 * z + 2)), ('Param::zReplTbl', abs(z))):
        if nm not in syms: continue
        a, n = syms[nm]; ds = [v - 256 if v > 127 else v for v in rd(a, n)]
        eq(nm, sum(v << (len(ds) - 1 - i) for i, v in enumerate(ds)), I(want))
        if set(ds) - {-1, 0, 1}: out.append(nm + ' digits')
        if nm == 'Param::siTbl':
            fl = rd(syms['Param::useNAF'][0], 1)[0]
            if fl != int(-1 in ds): out.append('useNAF')
    return ', '.join(out)

def native(ctx, cfg, kind, seed, n, dl):
    nat = limb.Native(ctx.exes[cfg.variant], cfg); rng = random.Random('%s|%s|%s' % (seed, cfg.name, kind)); tried = 0; rd, wrm = nat.srv.read, nat.srv.write
    def vec(a):
        k = int.from_bytes(rd(a, 8), 'little')
        if k > CAP: return None
        b = rd(a + 8, 8 * k) if k else b''; return [int.from_bytes(b[8 * i:8 * i + 8], 'little', signed=True) for i in range(k)]
    def setvec(a, ds): wrm(a, len(ds).to_bytes(8, 'little') + b''.join((v & M64).to_bytes(8, 'little') for v in ds))
    def setnum(a, x):
        k = max(1, (x.bit_length() + 63) // 64); wrm(a, b''.join((x >> 64 * i & M64 if i < k else rng.getrandbits(64)).to_bytes(8, 'little') for i in range(9)) + k.to_bytes(8, 'little'))
    try:
        while tried < n and time.time() < dl:
            tried += 1; L = tried - 1 if tried < 140 else rng.randrange(1, 500); x = 0 if L == 0 else 1 << L - 1 | rng.getrandbits(L) & (1 << L - 1) - 1
            if rng.random() < .4 and L > 1:      # runs
                x = 1 << L - 1; i = L - 2; b = rng.randrange(2)
                while i >= 0: k = rng.randrange(1, rng.choice([3, 8, 40])); x |= sum(b << j for j in range(max(0, i - k + 1), i + 1)); i -= k; b ^= 1
            for nm in {'naf': ['u:naf', 'u:naf_sv', 'u:good_sv'], 'bin': ['u:bin'], 'good': ['u:good', 'u:good_sv']}[kind]:
                if 'naf' in nm: setvec(I0, [int(c) for c in bin(x)[2:]] if x else [])
                else: setnum(I0, x)
                setvec(V0, [7, 7])
                r = nat.srv.call(nat.ent[nm], V0, I0, 0, 0, 0, 0); why = None
                if r.startswith('sig') or r == 'exc': why = 'the call ended with ' + r
                else:
                    ds = vec(V0)
                    if ds is None: why = 'no vector'
                    elif set(ds) - {-1, 0, 1} or (nm == 'u:bin' and -1 in ds): why = 'digits %s' % sorted(set(ds))
                    elif sum(v << (len(ds) - 1 - i) for i, v in enumerate(ds)) != x: why = 'the digits are an expansion of 0x%x' % sum(v << (len(ds) - 1 - i) for i, v in enumerate(ds))
                    elif 'good' in nm:
                        fl = int(r.split()[-1], 16) & 255 if re.match(r'^[0-9a-f]+$', r.split()[-1]) else 0
                        if -1 in ds and not fl or fl > 1: why = 'flag %d' % fl
                if why: return dict(entry=nm, config=cfg.name, number=hex(x), bits=L, why=why), tried
        return None, tried
    finally: nat.close()

def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []; c = Config('bn', 1, 1); T = ctx.thorough
    N = 80 if T else 40
    obs.append(RunOb(c, N)); step = [(0, 12), (13, 20), (21, 26), (27, 31), (32, 36), (37, 40)] + ([(k, k + 1) for k in range(41, 80, 2)] if T else [])
    for lo, hi in step: obs.append(NafOb(c, lo - 1 if lo == 0 else lo, min(hi, N - 1)))
    lens = list(range(0, 20)) + [31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 256, 320] if not T else list(range(0, 200)) + [255, 256, 257, 320, 576]
    for i in range(0, len(lens), 8): obs.append(BinOb(c, lens[i:i + 8]))
    obs.append(GoodOb(c))
    for cv in ('bn', 'snark3', 'snark82'):
        for m, x in ((0, 0), (0, 1), (1, 0), (1, 1)): limb.image(ctx.exes, Config(cv, m, x)); obs.append(ParamOb(Config(cv, m, x)))
    return obs, dict(bounds='recoding: every binary vector of 0..%d digits, each round of the loop from an arbitrary state (inductive over rounds); binary expansion: every number of the listed bit lengths (up to 576 bits thorough, 320 quick); getGoodRepl: vectors of up to 6 digits; constants: all three built-in parameters in all four code modes, each after one initialisation of the process' % N,
                     outside='longer vectors; a second initialisation of the same process with other parameters (the library ignores the modulus then)', assumptions=['the templates are instantiated with a checked digit vector; std::vector<signed char> is run natively'])
