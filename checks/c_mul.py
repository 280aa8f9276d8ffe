"""C11: scalar multiplication, for every scalar of each supported type.  The bits of the scalar are symbolic (the position of the
leading one is the scenario); a branch on a bit merges its two sides; the multiplicity of a point is a polynomial over the
bits, and the group operations act on it as C10 decides them."""
import time, random
import build, limb, ring, absdom, refpair, c_line, bits
from absdom import FC, fn, at
from bits import Bits, Aff, BitDom, MergeExec, num, padd, froz, pnum
from limb import Config, ARENA
from check import Ob
from x86 import Unsupported, PathEnd
from poly import STATS
from ring import Un, ret
import z3
BIG = 0x8000

def rdpt(d, cs, n):
    """multiplicity of the point with these components"""
    if all(isinstance(c, int) and c == 0 for c in cs[2 * n:]): return {}
    key, sg = d.whole(cs)
    if key[0] != 'J' or set(sg[:n] + sg[2 * n:]) != {1} or len(set(sg[n:2 * n])) != 1: raise Unsupported('not a point')
    k = dict(key[2]); return k if sg[n] == 1 else {m: -c for m, c in k.items()}
def ptof(k, n): key = ('J', 'P', froz(k)); return [FC(key, i) for i in range(3 * n)]
def hooks(img, note):
    h = {}; absdom.hook_common(h, img, note)
    for T, n in (('Fp', 1), ('Fp2', 2)):
        rd = lambda s, d, a, n=n: rdpt(d, d.comps(s, a, 3 * n), n)
        wr = lambda s, d, a, k, n=n: d.put(s, a, ptof(k, n))
        at(h, img, [r'^ecop::ECAdd<%s>' % T], fn(note, 'ecop::ECAdd', lambda s, d, a, rd=rd, wr=wr: wr(s, d, a[0], padd(rd(s, d, a[1]), rd(s, d, a[2])))))
        at(h, img, [r'^ecop::ECDouble<%s>' % T], fn(note, 'ecop::ECDouble', lambda s, d, a, rd=rd, wr=wr: wr(s, d, a[0], {m: 2 * c for m, c in rd(s, d, a[1]).items()})))
        at(h, img, [r'^ecop::ECSub<%s>' % T], fn(note, 'ecop::ECSub', lambda s, d, a, rd=rd, wr=wr: wr(s, d, a[0], padd(rd(s, d, a[1]), rd(s, d, a[2]), -1))))
    gmp_hooks(h, img)
    return h
def gmp_hooks(h, img):
    def cmpsi(s):
        v = s.load(s.r[7] + 4, 32)
        if not (isinstance(v, int) and s.r[6] == 0): raise Unsupported('mpz comparison')
        ret(s, (1 << 64) - 1 if v >> 31 else int(v != 0))
    for nm in ('__gmpz_cmp_si', '__gmpz_cmp_ui'):
        for a in ring.plt(img, nm): h[a] = cmpsi
    for a in ring.plt(img, '__gmpz_size'):
        def sz(s):
            v = s.load(s.r[7] + 4, 32)
            if not isinstance(v, int): raise Unsupported('mpz size')
            ret(s, (1 << 32) - v if v >> 31 else v)
        h[a] = sz
    return h

class MulOb(Ob):
    timeout = None; cost = 5
    def __init__(self, cfg, E, kind, neg, words, tops, alias, pad=0):
        self.cfg, self.E, self.n, self.kind, self.neg, self.words, self.tops, self.alias, self.pad = cfg, E, 1 if E == 'Ec1' else 2, kind, neg, words, tops, alias, pad
        self.entry = 'c:%s::mul_%s' % (E, kind)
        self.key = '%s %s%s%s%s%s' % (cfg.name, self.entry, ' negative' if neg else '', ' %d words' % words if kind in ('u64', 'mpz') else '', ' zeros above' if pad else '', ' z=x' if alias else '')
        self.functions = ['%s::mul' % E, 'ecop::ScalarMult']; self.cost = 1 + words * len(tops) * 0.4
    def scal(self, top):
        """bits of the scalar with leading one at the given position of the last word (-1: the scalar zero)"""
        w = 32 if self.kind == 'int' else 64; N = w * self.words
        if top < 0: return [0] * N
        t = w * (self.words - 1) + top
        if self.kind == 'int' and top == 31: return [0] * 31 + [1]      # INT_MIN
        return [(i, True) for i in range(t)] + [1] + [0] * (N - t - 1)
    def run(self, ctx, top, fixed={}, neqs=frozenset()):
        img, h = self.img, self.h; n = self.n; A = lambda i: ARENA + BIG * i
        d = BitDom(self.cfg.F); ex = MergeExec(img, h, ncomp=3 * n)
        d.neqs = neqs; b = [x if isinstance(x, int) else fixed.get(x[0], x) for x in self.scal(top)]; zo = A(1) if self.alias else A(0)
        args = [zo, A(1)]
        if self.kind == 'int':
            v = num(b)
            if self.neg: v = -v & 0xffffffff if isinstance(v, int) else Aff(-1, v, 0, 32)
            elif isinstance(v, Bits): v = Bits(list(b) + [None] * 32)
            args.append(v)
        elif self.kind == 'sizet': args.append(num(b))
        else: args.append(A(2))
        if self.kind == 'u64': args.append(self.words + self.pad)
        s = ex.start(d, img.entries[self.entry], args)
        for o in range(0, 96 * n, 8): s.mem[A(0) + o] = d.undef('out')
        if self.kind in ('u64', 'mpz'):
            a = A(2) if self.kind == 'u64' else A(3)
            for i in range(self.words): s.mem[a + 8 * i] = num(b[64 * i:64 * i + 64])
            for i in range(self.words, self.words + 2): s.mem[a + 8 * i] = 0 if i < self.words + self.pad else Un('beyond')
            if self.kind == 'mpz':
                sz = self.words if top >= 0 else 0
                s.mem[A(2)] = (self.words + 1) | ((-sz if self.neg else sz) & 0xffffffff) << 32; s.mem[A(2) + 8] = a
        d.put(s, A(1), ptof({frozenset(): 1}, n))
        return ex.run(s), zo, b, ex
    def prove(self, ctx):
        cfg = self.cfg; self.img = limb.image(ctx.exes, cfg); note = set(); q0, t0 = STATS.q, STATS.t
        self.h = hooks(self.img, note); det = dict(paths=0, steps=0); bad = []; merges = 0; sample = None; hints = []
        for top, fixed, neqs, (fs, zo, b, ex) in ((t,) + r for t in self.tops for r in bits.cases(lambda f, n: self.run(ctx, t, f, n))):
            merges += ex.merges; ok = 0
            for f in fs:
                det['paths'] += 1; det['steps'] += f.steps; ok += 1
                if f.user['end'] != 'ret': bad.append('leading bit %d: ended: %s' % (top, f.user['end'])); continue
                k = rdpt(f.dom, f.dom.comps(f, zo, 3 * self.n), self.n)
                want = pnum(b)
                if self.neg: want = {m: -c for m, c in want.items()}
                m = self.differ(k, want, neqs)
                if m is not None: bad.append('leading bit %d: wrong multiple' % top); m.update(fixed); hints.append((top, m))
                sample = '%s: leading bit %d: %d symbolic bits, %d branches merged' % (self.key, top, sum(not isinstance(x, int) for x in b), ex.merges)
            if not ok: bad.append('no path')
        det.update(queries=STATS.q - q0, solver_s=STATS.t - t0, lemmas=sorted(note), sample=sample, merges=merges)
        det.update(dict(status='refuted', why='; '.join(bad[:4]), hints=hints) if bad else dict(status='proved'))
        return det
    @staticmethod
    def differ(a, b, neqs=()):
        """None if equal for every value of the bits (asked of z3), otherwise values of bits for which they differ"""
        if any(len(m) > 1 for m in list(a) + list(b)) or a != b:
            vs = {}
            def ex(p):
                return z3.Sum([z3.IntVal(0)] + [z3.If(z3.And([vs.setdefault(i, z3.Bool('b%d' % i)) for i in sorted(m)] + [z3.BoolVal(True)]), z3.IntVal(c), z3.IntVal(0)) for m, c in p.items()])
        else:
            vs = {}
            ex = lambda p: z3.Sum([z3.IntVal(0)] + [z3.If(vs.setdefault(min(m), z3.Bool('b%d' % min(m))), z3.IntVal(c), z3.IntVal(0)) if m else z3.IntVal(c) for m, c in p.items()])
        s = z3.Solver(); s.set('timeout', 20000); t0 = time.time(); s.add(ex(a) != ex(b))
        for N in neqs: s.add(z3.Or([vs.setdefault(i, z3.Bool('b%d' % i)) != bool(v) for i, v in sorted(N)]))
        r = s.check(); STATS.q += 1; STATS.t += time.time() - t0
        if r == z3.unknown: raise Unsupported('comparison of multiples timed out')
        if r == z3.unsat: return None
        m = s.model(); return {i: int(z3.is_true(m.eval(v, model_completion=True))) for i, v in vs.items()}
    # ---- native
    def search(self, ctx, n, deadline, seed, hints=None):
        cfg = self.cfg; rng = random.Random('%s %d' % (self.key, seed)); R = refpair.R(cfg); p = cfg.p; tried = 0; g2 = self.n == 2
        nat = limb.Native(ctx.exes[cfg.variant], cfg); m = lambda x: x * cfg.F.R % p
        tw, cv = c_line.points(cfg); A = lambda i: ARENA + BIG * i
        try:
            while tried < n and time.time() < deadline:
                top = rng.choice(self.tops); b = self.scal(top); dens = [rng.choice([0.0, 0.5, 0.5, 1.0, 0.95, 0.05]) for _ in range(16)]
                if rng.randrange(2): dens = dens[:1] * 16
                k = sum((x if isinstance(x, int) else int(rng.random() < dens[i // 64])) << i for i, x in enumerate(b))
                m_ = rng.choice(hints) if hints and rng.randrange(4) else None
                if m_: top, k = m_[0], sum((x if isinstance(x, int) else m_[1].get(i, 0)) << i for i, x in enumerate(self.scal(m_[0])))
                kk = -k if self.neg else k
                if g2: P = tuple(tuple(c.int() for c in x.c) for x in rng.choice(tw)); one, mul, sq = (1, 0), R.m2, None
                else: P = rng.choice(cv)
                inf = rng.random() < 0.05
                L = (lambda x: list(x)) if g2 else (lambda x: [x])
                M = R.m2 if g2 else (lambda x, y: x * y % p)
                z = ((rng.randrange(p), rng.randrange(1, p)) if g2 else rng.randrange(1, p)) if rng.randrange(2) else ((1, 0) if g2 else 1)
                z2 = M(z, z); w = L(M(P[0], z2)) + L(M(P[1], M(z2, z))) + L(z)
                if inf: w = w[:2 * self.n] + [0] * self.n; P = None
                wr = lambda a, v: nat.srv.write(a, b''.join(x.to_bytes(32, 'little') for x in v))
                wr(A(1), [m(x) for x in w]); zo = A(1) if self.alias else A(0)
                args = [zo, A(1)]
                words = [k >> 64 * i & (1 << 64) - 1 for i in range(self.words + self.pad)]
                W8 = lambda a, v: nat.srv.write(a, b''.join(x.to_bytes(8, 'little') for x in v))
                if self.kind == 'int': args.append(kk & 0xffffffff)
                elif self.kind == 'sizet': args.append(k)
                elif self.kind == 'u64': W8(A(2), words); args += [A(2), len(words)]
                else:
                    W8(A(3), words); sz = self.words if k else 0
                    W8(A(2), [(self.words + 1) | ((-sz if self.neg else sz) & 0xffffffff) << 32, A(3)]); args.append(A(2))
                st = nat.srv.call(nat.ent[self.entry], *args); tried += 1; why = ''
                if not st.startswith('ret'): why = 'ended with ' + st
                else:
                    raw = [int.from_bytes(nat.srv.read(zo + 32 * i, 32), 'little') for i in range(3 * self.n)]
                    if any(x >= p for x in raw): why = 'output not reduced'
                    o = [x * cfg.F.Ri % p for x in raw]; X, Y, Z = (o[:2], o[2:4], o[4:]) if g2 else o
                    want = (R.tmul if g2 else R.cmul)(P, kk) if P is not None and k else None
                    zz = any(Z) if g2 else Z
                    if want is None or not zz: 
                        if zz or want is not None: why = why or 'wrong multiple (infinity)'
                    else:
                        t = (lambda v: tuple(v)) if g2 else (lambda v: v)
                        Z = t(Z); Z2 = M(Z, Z)
                        if M(want[0], Z2) != t(X) or M(want[1], M(Z2, Z)) != t(Y): why = why or 'wrong multiple'
                if why: return dict(entry=self.entry, config=cfg.name, scalar=hex(kk), point=list(map(hex, w)), observed=why), tried
        finally: nat.close()
        return None, tried
    def validate(self, ctx): return self.search(ctx, 6, time.time() + 6, ctx.seed)
    def witness(self, ctx, hints): return self.search(ctx, 400, ctx.wdeadline, ctx.seed + 7, hints)

def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []
    th = ctx.thorough
    for c in [('bn', 1, 1), ('snark3', 1, 1)] + ([('bn', 0, 0)] if th else []):
        cfg = Config(*c); ring.short(limb.image(ctx.exes, cfg)); c_line.points(cfg)
        for E in ('Ec1', 'Ec2'):
            full = th or E == 'Ec1' and c[0] == 'bn'
            al = (False, True)
            for a in al:
                t31 = list(range(31)) if full else [0, 1, 30]; t64 = list(range(64)) if full else [0, 1, 31, 62, 63]
                few = list(range(64)) if th else [0, 1, 31, 32, 62, 63] if full else [0, 7, 63]
                obs += [MulOb(cfg, E, 'int', False, 1, [-1] + t31, a), MulOb(cfg, E, 'int', True, 1, t31 + [31], a), MulOb(cfg, E, 'sizet', False, 1, [-1] + t64, a)]
                for w in range(1, 10):
                    if w > (9 if th else 5 if full else 4) or (a and w > 2 and not th): continue
                    obs.append(MulOb(cfg, E, 'u64', False, w, ([-1] + t64) if w == 1 else few, a))
                    if w < 9 and not a: obs.append(MulOb(cfg, E, 'u64', False, w, few, a, 1))
                    for ng in (False, True): obs.append(MulOb(cfg, E, 'mpz', ng, w, (([-1] if not ng else []) + t64) if w == 1 else few, a))
    mw = 9 if th else 5
    info = dict(bounds='scalars: every int, every size_t, big integers of up to %d words of 64 bits with the listed positions of the leading one in the top word, all lower bits symbolic; every point; output distinct from or equal to the input' % mw,
                outside='longer scalars; other positions of the leading one in the top word of big integers in the quick tier',
                assumptions=['addition and doubling of points meet C10'])
    return obs, info
