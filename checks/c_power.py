"""C22: powers and square roots.  The bits of the exponent are symbolic as in C11; an element is g^k with k a polynomial over the
bits (0^0 = 1, so g may be zero).  The square root is decided by the exponent of the value it squares and compares."""
import time, random
import build, limb, ring, absdom, refpair, bits, c_mul
from absdom import FC, fn, at
from bits import Bits, BitDom, MergeExec, num, padd, froz, pnum
from limb import Config, ARENA
from check import Ob
from x86 import Unsupported, PathEnd
from poly import STATS
from ring import Un, ret
import z3
BIG = 0x8000
NC = {'Fp': 1, 'Fp2': 2, 'Fp12': 12}

def rdp(d, cs):
    """exponent of the element with these components (a constant: the pair (None, components))"""
    if cs == [1] + [0] * (len(cs) - 1): return {}
    key, sg = d.whole(cs)
    if key[0] != 'J' or set(sg) != {1}: raise Unsupported('not a power')
    return dict(key[2])
def wrp(k, n): key = ('J', 'g', froz(k)); return [FC(key, i) for i in range(n)]
def hooks(img, cfg, note):
    h = {}; absdom.hook_common(h, img, note); p = cfg.p
    def mul(n, ab):
        def f(s, d, a):
            x, y = [d.comps(s, a[i], n) for i in ab]
            if n == 1 and isinstance(x[0], int) and isinstance(y[0], int): return d.put(s, a[0], [x[0] * y[0] % p])
            d.put(s, a[0], wrp(padd(rdp(d, x), rdp(d, y)), n))
        return f
    at(h, img, ['Fp::mul', r'^Fp::mulC\('], fn(note, 'Fp::mul', mul(1, (1, 2))))
    at(h, img, ['Fp::square'], fn(note, 'Fp::square', mul(1, (1, 1))))
    at(h, img, ['Fp2::mul', r'^Fp2::mulC\('], fn(note, 'Fp2::mul', mul(2, (1, 2))))
    at(h, img, ['Fp2::square', r'^Fp2::squareC\('], fn(note, 'Fp2::square', mul(2, (1, 1))))
    at(h, img, ['Fp12::mul', r'^Fp12::mulC\('], fn(note, 'Fp12::mul', mul(12, (1, 2))))
    at(h, img, ['Fp12::square', r'^Fp12::squareC\('], fn(note, 'Fp12::square', mul(12, (0, 0))))
    c_mul.gmp_hooks(h, img)
    return h

class PowOb(Ob):
    timeout = None; cost = 3
    def __init__(self, cfg, T, kind, words, tops, pad=0):
        self.cfg, self.T, self.n, self.kind, self.words, self.tops, self.pad = cfg, T, NC[T], kind, words, tops, pad
        self.entry = 'c:power::%s_%s' % (T, kind); self.cost = 1 + words * len(tops) * 0.3
        self.key = '%s %s%s%s' % (cfg.name, self.entry, ' %d words' % words if kind in ('u64', 'mpz') else '', ' zeros above' if pad else '')
        self.functions = ['mie::power<%s>' % T]
        self.neg = False
    scal = c_mul.MulOb.scal
    def run(self, ctx, top, fixed={}, neqs=frozenset()):
        img, n = self.img, self.n; A = lambda i: ARENA + BIG * i; F = self.cfg.F
        d = BitDom(F); ex = MergeExec(img, self.h, ncomp=n, neutral=[F.R % F.p >> 64 * j & (1 << 64) - 1 for j in range(4)] + [0] * (4 * n - 4))
        d.neqs = neqs; b = [x if isinstance(x, int) else fixed.get(x[0], x) for x in self.scal(top)]; args = [A(0), A(1)]
        if self.kind == 'int': v = num(b); args.append(Bits(list(b) + [None] * 32) if isinstance(v, Bits) else v)
        elif self.kind == 'sizet': args.append(num(b))
        else: args.append(A(2))
        if self.kind == 'u64': args.append(self.words + self.pad)
        s = ex.start(d, img.entries[self.entry], args)
        for o in range(0, 384, 8): s.mem[A(0) + o] = d.undef('out')
        if self.kind in ('u64', 'mpz'):
            a = A(2) if self.kind == 'u64' else A(3)
            for i in range(self.words): s.mem[a + 8 * i] = num(b[64 * i:64 * i + 64])
            for i in range(self.words, self.words + 2): s.mem[a + 8 * i] = 0 if i < self.words + self.pad else Un('beyond')
            if self.kind == 'mpz': s.mem[A(2)] = (self.words + 1) | (self.words if top >= 0 else 0) << 32; s.mem[A(2) + 8] = a
        d.put(s, A(1), wrp({frozenset(): 1}, n))
        return ex.run(s), A(0), b, ex
    def prove(self, ctx):
        self.img = limb.image(ctx.exes, self.cfg); note = set(); q0, t0 = STATS.q, STATS.t
        self.h = hooks(self.img, self.cfg, note); det = dict(paths=0, steps=0); bad = []; merges = 0; sample = None; hints = []
        for top, fixed, neqs, (fs, zo, b, ex) in ((t,) + r for t in self.tops for r in bits.cases(lambda f, n: self.run(ctx, t, f, n))):
            merges += ex.merges; ok = 0
            for f in fs:
                det['paths'] += 1; det['steps'] += f.steps; ok += 1
                if f.user['end'] != 'ret': bad.append('leading bit %d: ended: %s' % (top, f.user['end'])); continue
                k = rdp(f.dom, f.dom.comps(f, zo, self.n))
                m = c_mul.MulOb.differ(k, pnum(b), neqs)
                if m is not None: bad.append('leading bit %d: wrong exponent' % top); m.update(fixed); hints.append((top, m))
                sample = '%s: leading bit %d: %d symbolic bits, %d branches merged' % (self.key, top, sum(not isinstance(x, int) for x in b), ex.merges)
            if not ok: bad.append('no path')
        det.update(queries=STATS.q - q0, solver_s=STATS.t - t0, lemmas=sorted(note), sample=sample, merges=merges)
        det.update(dict(status='refuted', why='; '.join(bad[:4]), hints=hints) if bad else dict(status='proved'))
        return det
    def search(self, ctx, n, deadline, seed, hints=None):
        cfg = self.cfg; rng = random.Random('%s %d' % (self.key, seed)); R = refpair.R(cfg); p = cfg.p; tried = 0
        nat = limb.Native(ctx.exes[cfg.variant], cfg); A = lambda i: ARENA + BIG * i
        try:
            while tried < n and time.time() < deadline:
                top = rng.choice(self.tops); b = self.scal(top); dens = [rng.choice([0.0, 0.5, 0.5, 1.0, 0.95, 0.05]) for _ in range(16)]
                if rng.randrange(2): dens = dens[:1] * 16
                k = sum((x if isinstance(x, int) else int(rng.random() < dens[i // 64])) << i for i, x in enumerate(b))
                m_ = rng.choice(hints) if hints and rng.randrange(4) else None
                if m_: top, k = m_[0], sum((x if isinstance(x, int) else m_[1].get(i, 0)) << i for i, x in enumerate(self.scal(m_[0])))
                x = [rng.choice([0, 1, p - 1, rng.randrange(p), rng.randrange(p)]) for _ in range(self.n)]
                nat.srv.write(A(1), b''.join((v * cfg.F.R % p).to_bytes(32, 'little') for v in x))
                words = [k >> 64 * i & (1 << 64) - 1 for i in range(self.words + self.pad)]
                W8 = lambda a, v: nat.srv.write(a, b''.join(y.to_bytes(8, 'little') for y in v))
                args = [A(0), A(1)]
                if self.kind in ('int', 'sizet'): args.append(k)
                elif self.kind == 'u64': W8(A(2), words); args += [A(2), len(words)]
                else: W8(A(3), words); W8(A(2), [(self.words + 1) | (self.words if k else 0) << 32, A(3)]); args.append(A(2))
                st = nat.srv.call(nat.ent[self.entry], *args); tried += 1; why = ''
                if not st.startswith('ret'): why = 'ended with ' + st
                else:
                    raw = [int.from_bytes(nat.srv.read(A(0) + 32 * i, 32), 'little') for i in range(self.n)]
                    o = [v * cfg.F.Ri % p for v in raw]
                    if any(v >= p for v in raw): why = 'output not reduced'
                    elif self.n == 1: want = [pow(x[0], k, p)]
                    elif self.n == 2: want = list(R.cpow2(tuple(x), k)) if k else [1, 0]
                    else: want = R.to_flat(R.pow(R.from_flat(x), k)) if k else [1] + [0] * 11
                    if not why and o != [v % p for v in want]: why = 'wrong power'
                if why: return dict(entry=self.entry, config=cfg.name, exponent=hex(k), base=list(map(hex, x)), observed=why), tried
        finally: nat.close()
        return None, tried
    def validate(self, ctx): return self.search(ctx, 5, time.time() + 6, ctx.seed)
    def witness(self, ctx, hints): return self.search(ctx, 300, ctx.wdeadline, ctx.seed + 7, hints)

class SqrtOb(Ob):
    timeout = None; cost = 3; entry = 'c:Fp::squareRoot'; n = 1
    def __init__(self, cfg, alias):
        self.cfg, self.alias = cfg, alias; self.key = '%s %s%s' % (cfg.name, self.entry, ' z=x' if alias else ''); self.functions = ['Fp::squareRoot', 'mie::power<Fp>']
    def prove(self, ctx):
        cfg = self.cfg; img = limb.image(ctx.exes, cfg); note = set(); q0, t0 = STATS.q, STATS.t; p = cfg.p
        h = hooks(img, cfg, note); A = lambda i: ARENA + BIG * i; zo = A(1) if self.alias else A(0)
        d = BitDom(cfg.F); ex = MergeExec(img, h, ncomp=1, neutral=[cfg.F.R % p >> 64 * j & (1 << 64) - 1 for j in range(4)])
        s = ex.start(d, img.entries[self.entry], [zo, A(1)])
        old = FC(('old',), 0); d.put(s, A(0), [old]); g = FC(('J', 'g', froz({frozenset(): 1})), 0); d.put(s, A(1), [g])
        det = dict(paths=0, steps=0); bad = []; seen = set()
        one = frozenset()
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps
            if f.user['end'] != 'ret': bad.append('ended: ' + f.user['end']); continue
            al = f.r[0] & 0xff if isinstance(f.r[0], int) else f.dom.extract(f.r[0], 0, 8)
            if al not in (0, 1): raise Unsupported('result')
            o = f.dom.comp(f, zo); seen.add(al)
            # what the path knows: equalities / inequalities between powers
            facts = [(k[0][1:], v) for k, v in f.dom.zf.items() if k[0][0] == 'eq']
            fe = []
            for (x, y), v in facts:
                if not (isinstance(x, FC) and isinstance(y, FC)): raise Unsupported('comparison with a constant')
                fe.append((dict(x.key[2]).get(one, 0), dict(y.key[2]).get(one, 0), v))
            if al:
                k = dict(o.key[2]).get(one, 0) if isinstance(o, FC) and o.key[0] == 'J' else None
                # y = x^k; y^2 = x follows from an equality x^a = x^b with {a, b} = {2k, 1}
                if k is None or not any(v and self.cong([(2 * k, a), (1, b)], p) or v and self.cong([(2 * k, b), (1, a)], p) for a, b, v in fe): bad.append('success without y^2 = x')
            else:
                if o != (g if self.alias else old): bad.append('output changed on failure')
                # x is no square: x^a != x^b with a - b = (p-1)/2 modulo p - 1 excludes Euler's criterion
                if not any(not v and self.cong([(a - b, (p - 1) // 2)], p) and min(a, b) > 0 for a, b, v in fe): bad.append('failure for a square')
        if seen != {0, 1}: bad.append('outcomes %s' % sorted(seen))
        det.update(queries=STATS.q - q0, solver_s=STATS.t - t0, lemmas=sorted(note), sample='%s: both outcomes tied to Euler\'s criterion' % self.key)
        det.update(dict(status='refuted', why='; '.join(bad[:4])) if bad else dict(status='proved'))
        return det
    @staticmethod
    def cong(ps, p):
        s = z3.Solver(); s.set('timeout', 10000); t0 = time.time()
        for i, (a, b) in enumerate(ps): s.add(z3.IntVal(a - b) == z3.IntVal(p - 1) * z3.Int('k%d' % i))
        r = s.check(); STATS.q += 1; STATS.t += time.time() - t0
        return r == z3.sat
    def search(self, ctx, n, deadline, seed):
        cfg = self.cfg; rng = random.Random('%s %d' % (self.key, seed)); p = cfg.p; tried = 0
        nat = limb.Native(ctx.exes[cfg.variant], cfg); A = lambda i: ARENA + BIG * i; zo = A(1) if self.alias else A(0)
        enc = lambda v: (v * cfg.F.R % p).to_bytes(32, 'little')
        try:
            while tried < n and time.time() < deadline:
                x = rng.choice([0, 1, p - 1, 4, rng.randrange(p), rng.randrange(p), rng.randrange(p) ** 2 % p]); old = x if self.alias else rng.randrange(p)
                nat.srv.write(zo, enc(old)); nat.srv.write(A(1), enc(x)); st = nat.srv.call(nat.ent[self.entry], zo, A(1)); tried += 1
                o = int.from_bytes(nat.srv.read(zo, 32), 'little'); why = ''; y = o * cfg.F.Ri % p
                if not st.startswith('ret'): why = 'ended with ' + st
                else:
                    ok = int(st.split()[1], 0) & 0xff; q = x == 0 or pow(x, (p - 1) // 2, p) == 1
                    if bool(ok) != q: why = 'wrong verdict'
                    elif ok and (y * y - x) % p or o >= p: why = 'not a square root'
                    elif not ok and y != old: why = 'output changed on failure'
                if why: return dict(entry=self.entry, config=cfg.name, x=hex(x), observed=why), tried
        finally: nat.close()
        return None, tried
    def validate(self, ctx): return self.search(ctx, 20, time.time() + 5, ctx.seed)
    def witness(self, ctx, hints): return self.search(ctx, 3000, ctx.wdeadline, ctx.seed + 7)

def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []; th = ctx.thorough
    for c in [('bn', 1, 1), ('snark3', 1, 1)] + ([('bn', 0, 0)] if th else []):
        cfg = Config(*c); ring.short(limb.image(ctx.exes, cfg))
        obs += [SqrtOb(cfg, a) for a in (False, True)]
        for T in NC:
            full = th or T == 'Fp' and c[0] == 'bn'
            t31 = [-1] + (list(range(31)) if full else [0, 1, 30]); t64 = list(range(64)) if full else [0, 1, 31, 62, 63]
            few = list(range(64)) if th else [0, 1, 31, 32, 62, 63] if full else [0, 7, 63]
            obs += [PowOb(cfg, T, 'int', 1, t31), PowOb(cfg, T, 'sizet', 1, [-1] + t64)]
            for w in range(1, 10 if th else 6 if full else 5):
                t = [-1] + t64 if w == 1 else few
                obs += [PowOb(cfg, T, 'u64', w, t), PowOb(cfg, T, 'mpz', w, t)]
                if w < 9: obs.append(PowOb(cfg, T, 'u64', w, few, 1))
    info = dict(bounds='exponents: every non-negative int, every size_t, big integers of up to %d words of 64 bits with the listed positions of the leading one in the top word, all lower bits symbolic; every base; every base-field element for the square root' % (9 if th else 5),
                outside='longer exponents; other positions of the leading one in the top word of big exponents in the quick tier; negative exponents',
                assumptions=['multiplication in F_p, F_p2 and F_p12 (C02, C05, C07)', "Euler's criterion"])
    return obs, info
