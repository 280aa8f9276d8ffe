"""C15: the final exponentiation, decided for a generic nonzero element: every intermediate value is g^e with the exponent
tracked modulo p^12 - 1, the field operations acting on exponents as C07, C08 and C09 decide them."""
import time, random, math
import build, limb, ring, absdom, refpair
from absdom import Abs, FC, fn, at
from limb import Config, Spec, ARENA, SLOT
from check import Ob
from x86 import Exec, Unsupported, PathEnd
from poly import STATS
import z3

class Exp:
    """exponents modulo p^12 - 1; an element and its conjugate share the first half of their components"""
    def __init__(self, p):
        self.p = p; self.N = p ** 12 - 1; self.p6 = p ** 6
        self.cyc = (p ** 6 - 1) * (p * p + 1)
    def comps(self, e):
        e %= self.N; c = min(e, e * self.p6 % self.N)
        if e == 0: return [1] + [0] * 11
        return [FC(('g', c), i, 1 if i < 6 or c == e else -1) for i in range(12)]
    def fromc(self, d, cs):
        if all(isinstance(c, int) for c in cs):
            if cs == [1] + [0] * 11: return 0
            raise Unsupported('constant element')
        k, sg = d.whole(cs)
        if k[0] != 'g' or set(sg[:6]) != {1} or len(set(sg[6:])) != 1: raise Unsupported('not a power of g')
        return k[1] if sg[6] == 1 else k[1] * self.p6 % self.N

def hooks(img, E, note):
    """field operations of F_p12 on exponents"""
    h = {}
    rd = lambda s, d, a: E.fromc(d, d.comps(s, a, 12))
    wr = lambda s, d, a, e: d.put(s, a, E.comps(e))
    def cyc(e):
        if e % E.cyc: raise Unsupported('operand outside the cyclotomic subgroup')
        return e
    def un(f): return lambda s, d, a: wr(s, d, a[0], f(rd(s, d, a[0])))
    def bi(f): return lambda s, d, a: wr(s, d, a[0], f(rd(s, d, a[1])))
    absdom.hook_common(h, img, note)
    at(h, img, ['Fp12::mul', r'^Fp12::mulC\('], fn(note, 'Fp12::mul', lambda s, d, a: wr(s, d, a[0], rd(s, d, a[1]) + rd(s, d, a[2]))))
    at(h, img, ['Fp12::square', r'^Fp12::squareC\('], fn(note, 'Fp12::square', un(lambda e: 2 * e)))
    at(h, img, [r'^Fp12::sqru\(\)$'], fn(note, 'Fp12::sqru', un(lambda e: 2 * cyc(e))))
    at(h, img, [r'^Fp12::sqru\(Fp12&\) const'], fn(note, 'Fp12::sqru', lambda s, d, a: wr(s, d, a[1], 2 * cyc(rd(s, d, a[0])))))
    at(h, img, [r'^Fp12::inverse\('], fn(note, 'Fp12::inverse', un(lambda e: -e)))
    for n, k in (('', 1), ('2', 2), ('3', 3)):
        at(h, img, [r'^Fp12::Frobenius%s\(' % n], fn(note, 'Fp12::Frobenius' + n, lambda s, d, a, k=k: wr(s, d, a[1], rd(s, d, a[0]) * E.p ** k)))
    # compressed squaring: components 1, 2, 3, 5 of the object the first member points to
    IDX = (1, 2, 3, 5)
    def getc(s, d, z):
        cs = {i: [d.comp(s, z + 64 * i + 32 * j) for j in (0, 1)] for i in IDX}
        if all(c == 0 for v in cs.values() for c in v): return 0
        ks = {c.key if isinstance(c, FC) else None for v in cs.values() for c in v}
        if len(ks) != 1 or None in ks: raise Unsupported('not a compressed element')
        k, = ks
        if k[0] != 'g' or any(c.i != 2 * i + j for i in IDX for j, c in enumerate(cs[i])): raise Unsupported('not a compressed element')
        sa = {c.sg for i in (1, 2) for c in cs[i]}; sb = {c.sg for i in (3, 5) for c in cs[i]}
        if sa != {1} or len(sb) != 1: raise Unsupported('not a compressed element')
        return k[1] if sb == {1} else k[1] * E.p6 % E.N
    def putc(s, d, z, e):
        cs = E.comps(e)
        for i in IDX: d.put(s, z + 64 * i, cs[2 * i:2 * i + 2])
    def sqn(s, d, a, n=None):
        z = s.load(a[0]); e = cyc(getc(s, d, z)); n = (a[1] & (1 << 32) - 1) if n is None else n
        if n >= 1 << 31: n = 0
        putc(s, d, z, e * 2 ** n)
    at(h, img, ['Compress::square_n', r'^Compress::square_nC\('], fn(note, 'Compress::square_n', sqn))
    at(h, img, [r'^Compress::squareC\('], fn(note, 'Compress::squareC', lambda s, d, a: sqn(s, d, a, 1)))
    def mono(m):
        m = {k: v for k, v in m.items() if v}
        return [FC(('m', tuple(sorted(m.items()))), i) for i in (0, 1)] if m else [1, 0]
    def rdm(s, d, a):
        cs = d.comps(s, a, 2)
        if cs == [1, 0]: return {}
        k, sg = d.whole(cs)
        if k[0] != 'm' or set(sg) != {1}: raise Unsupported('not a monomial')
        return dict(k[1])
    def before(s, d, a):
        z = s.load(a[0]); e = cyc(getc(s, d, z))
        d.put(s, a[1], mono({('N', e % E.N): 1})); d.put(s, a[2], mono({('D', e % E.N): 1}))
    def after(s, d, a):
        z = s.load(a[0]); e = cyc(getc(s, d, z))
        g1 = s.load(a[0] + 8)
        if g1 != z + 4 * 64: raise Unsupported('layout of the compressed element')
        if rdm(s, d, g1) != {('N', e): 1, ('D', e): -1}: raise PathEnd('decompression from a wrong value of the missing coefficient')
        wr(s, d, z, e)
    at(h, img, [r'^Compress::decompressBeforeInv\('], fn(note, 'Compress::decompressBeforeInv', before))
    at(h, img, [r'^Compress::decompressAfterInv\('], fn(note, 'Compress::decompressAfterInv', after))
    def mmul(s, d, a):
        x, y = rdm(s, d, a[1]), rdm(s, d, a[2]); x = dict(x)
        for k, v in y.items(): x[k] = x.get(k, 0) + v
        d.put(s, a[0], mono(x))
    at(h, img, ['Fp2::mul', r'^Fp2::mulC\('], fn(note, 'Fp2::mul', mmul))
    at(h, img, [r'^Fp2::inverse\('], fn(note, 'Fp2::inverse', lambda s, d, a: d.put(s, a[0], mono({k: -v for k, v in rdm(s, d, a[0]).items()}))))
    return h

def hard(p, z):
    """exponent of the library's final exponentiation (Fuentes-Castaneda et al.): a multiple of (p^12-1)/r"""
    return (p ** 6 - 1) * (p * p + 1) * (p ** 3 * (12 * z ** 3 + 6 * z ** 2 + 4 * z - 1) + p ** 2 * (12 * z ** 3 + 6 * z ** 2 + 6 * z)
        + p * (12 * z ** 3 + 6 * z ** 2 + 4 * z) + 12 * z ** 3 + 12 * z ** 2 + 6 * z + 1)

def congruent(e, f, N):
    """x^e = x^f for every x with x^N = 1: e - f is a multiple of N (asked of z3)"""
    s = z3.Solver(); s.set('timeout', 20000); k = z3.Int('k'); t0 = time.time()
    s.add(z3.IntVal(e) - z3.IntVal(f) == z3.IntVal(N) * k)
    r = s.check(); STATS.q += 1; STATS.t += time.time() - t0
    return r == z3.sat

class ExpOb(Ob):
    """entry: (name, input object, output object, start exponent, expected exponent of the result)"""
    timeout = None; cost = 3
    def __init__(self, cfg, entry, args, src, dst, e0, kind):
        self.cfg, self.entry, self.args, self.src, self.dst, self.e0, self.kind = cfg, entry, args, src, dst, e0, kind
        self.key = '%s %s%s' % (cfg.name, entry, '' if kind in ('gen',) else ' [%s]' % kind)
        self.functions = [entry.replace('c:', '')]
        self.E = Exp(cfg.p)
    def want(self, e):
        """expected exponent (callable), '' or complaint"""
        E, c = self.E, self.cfg
        n = self.entry.split('::')[1]
        if n == 'final_exp':
            if self.kind == 'exact constant': return '' if congruent(e, self.e0 * hard(c.p, c.z), E.N) else 'the exponent is not the documented multiple of (p^12-1)/r'
            q = E.N // c.r
            if e % q: return 'the exponent is not a multiple of (p^12-1)/r'
            return '' if math.gcd(e // q, c.r) == 1 else 'the constant is not coprime to r'
        w = {'mapToCyclo': E.cyc, 'fixed_power': self.e0 * abs(c.z), 'pow_neg_t': -self.e0 * c.z}[n]
        return '' if congruent(e, w, E.N) else 'wrong exponent'
    def prove(self, ctx):
        cfg, E = self.cfg, self.E; img = limb.image(ctx.exes, cfg); note = set(); q0, t0 = STATS.q, STATS.t
        h = hooks(img, E, note); h.pop(img.entries[self.entry], None)
        a = {n: ARENA + SLOT * i for i, n in enumerate('zx')}
        d = Abs(cfg.F); ex = Exec(img, h)
        s = ex.start(d, img.entries[self.entry], [a[n] for n in self.args])
        for n in self.args:
            for o in range(0, 384, 8): s.mem[a[n] + o] = d.undef('out')
        d.put(s, a[self.src], E.comps(self.e0))
        det = dict(paths=0, steps=0); bad = []; sample = None
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps
            if f.user['end'] != 'ret': bad.append('ended: ' + f.user['end']); continue
            e = E.fromc(f.dom, f.dom.comps(f, a[self.dst], 12))
            w = self.want(e)
            if w: bad.append(w)
            sample = '%s: g^e -> g^(e * %s...)' % (self.key, str(e)[:40])
        if not det['paths']: bad.append('no path')
        det.update(queries=STATS.q - q0, solver_s=STATS.t - t0, lemmas=sorted(note), sample=sample)
        det.update(dict(status='refuted', why='; '.join(bad[:4])) if bad else dict(status='proved'))
        return det
    def search(self, ctx, n, deadline, seed):
        cfg, E = self.cfg, self.E; rng = random.Random('%s %d' % (self.key, seed)); R = refpair.R(cfg); tried = 0
        io = '+' if self.src == self.dst else ''
        sp = Spec(self.entry, ' '.join('%s%s:Fp12' % (io if nm == self.dst else '+', nm) for nm in self.args), None)
        nat = limb.Native(ctx.exes[cfg.variant], cfg); p = cfg.p
        try:
            while tried < n and time.time() < deadline:
                style = rng.randrange(6) if tried else 1
                x = [rng.randrange(p) if style < 3 or rng.randrange(3) == 0 else rng.choice([0, 0, 1, p - 1]) for _ in range(12)]
                if style == 5: x = [1] + [0] * 11
                elif style == 2 or tried in (2, 3, 4):      # sparse over F_p6, F_p4, F_p2 or F_p
                    w, r = rng.choice([(6, 1), (6, 1), (2, 2), (2, 3), (2, 1), (1, 2)]); keep = {rng.randrange(12 // w) for _ in range(r)}
                    if tried in (3, 4): w = 6; keep = {tried - 3}
                    x = [(rng.choice([v, 1, p - 1]) if style == 1 else v) if i // w in keep else 0 for i, v in enumerate([rng.randrange(1, p) for _ in x])]
                if not any(x): continue
                g = R.from_flat(x)
                if self.e0 != 1: g = R.pow(g, E.cyc)
                x = R.to_flat(g)
                vals = {self.src: [v * cfg.F.R % p for v in x]}
                if io == '' and len(self.args) > 1: pass
                (st, out), = nat.batch(sp, cfg, (), [{nm: vals.get(nm, [0] * 12) for nm, k in sp.ins()}])
                tried += 1; why = ''
                c, n_ = self.cfg, self.entry.split('::')[1]
                if st.strip('0123456789abcdef'): why = 'ended with ' + st
                else:
                    o = R.from_flat([v * cfg.F.Ri for v in out[self.dst]])
                    if n_ == 'final_exp':
                        if self.kind == 'exact constant': ok = o == R.pow(g, hard(c.p, c.z) % E.N); why = 'not the documented power'
                        else:
                            ok = R.pow(o, c.r) == R.one(); why = 'the result is not in the subgroup of order r'
                            if ok and (R.pow(g, E.N // c.r) == R.one()) != (o == R.one()): ok = False; why = 'trivial result for a nontrivial element'
                    else:
                        w = {'mapToCyclo': E.cyc, 'fixed_power': abs(c.z), 'pow_neg_t': -c.z}[n_]
                        ok = o == R.pow(g, w % E.N); why = 'not the specified power'
                    if ok: why = ''
                    elif any(v >= p for v in out[self.dst]): why = 'output not reduced'
                if why: return dict(entry=self.entry, config=cfg.name, inputs={self.src: [hex(v) for v in vals[self.src]]}, observed='%s; output %s' % (why, [hex(v) for v in out[self.dst]])), tried
        finally: nat.close()
        return None, tried
    def validate(self, ctx): return self.search(ctx, 6, time.time() + 10, ctx.seed)
    def witness(self, ctx, hints): return self.search(ctx, 2000, ctx.wdeadline, ctx.seed + 7)

def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []
    cs = [('bn', 1, 1), ('bn', 0, 0), ('snark3', 1, 1), ('snark82', 0, 0)]
    if ctx.thorough: cs = [(c, m, x) for c in ('bn', 'snark3', 'snark82') for m in (0, 1) for x in (0, 1)]
    for c in cs:
        cfg = Config(*c); ring.short(limb.image(ctx.exes, cfg)); E = Exp(cfg.p)
        obs.append(ExpOb(cfg, 'c:Fp12::final_exp', ['z'], 'z', 'z', 1, 'multiple of (p^12-1)/r'))
        obs.append(ExpOb(cfg, 'c:Fp12::mapToCyclo', ['z', 'x'], 'x', 'z', 1, 'gen'))
        if cfg.curve == 'bn': obs.append(ExpOb(cfg, 'c:Compress::fixed_power', ['z', 'x'], 'x', 'z', E.cyc, 'gen'))
        else: obs.append(ExpOb(cfg, 'c:Fp12::pow_neg_t', ['z', 'x'], 'x', 'z', E.cyc, 'gen'))
    info = dict(bounds='every nonzero element of F_p12 (generic element, exponents exact modulo p^12-1); every path', outside='the zero element',
                assumptions=['multiplication, squaring and inversion of F_p12 (C07), cyclotomic and compressed squaring (C08) and the Frobenius maps (C09) meet their specifications'])
    return obs, info
