"""C14: every pairing entry point computes the optimal ate pairing.  Points are multiples of a generic point Q of order r
(the twist Frobenius multiplies by p), a Miller variable is its divisor modulo divisors of vertical lines (whose values the
final exponentiation sends to one), and the operations act as C07, C09, C12, C13 and C15 decide them."""
import time, random
import build, limb, ring, absdom, refpair, c_line
from absdom import Abs, FC, fn, at
from limb import Config, Spec, KINDS, size, ARENA
from check import Ob
from x86 import Exec, Unsupported, PathEnd
from poly import STATS
from ring import Un, ret
import z3
HEAP = 0x30000000000
BIG = 0x8000

class Pts:
    def __init__(self, cfg): self.r, self.p = cfg.r, cfg.p
    def canon(self, k):
        k %= self.r; c = min(k, self.r - k); return c, 1 if c == k else -1
    def affine(self, nm, k):
        c, s = self.canon(k); key = ('A', nm, c)
        return [FC(key, 0), FC(key, 1), FC(key, 2, s), FC(key, 3, s)]
    def rdA(self, d, cs):
        key, sg = d.whole(cs)
        if key[0] != 'A' or sg[:2] != [1, 1] or sg[2] != sg[3]: raise Unsupported('not an affine point')
        return key[1], key[2] * sg[2] % self.r
    def hom(self, d, nm, k):
        key = d.fresh('T') + (nm, k % self.r); return [FC(key, i) for i in range(6)]
    def rdT(self, d, cs):
        if cs[4:] == [1, 0]: return self.rdA(d, cs[:4])
        key, sg = d.whole(cs)
        if key[0] != 'T' or sg[:2] != [1, 1] or sg[4:] != [1, 1] or sg[2] != sg[3]: raise Unsupported('not a homogeneous point')
        return key[2], key[3] * sg[2] % self.r
    def rdP(self, d, cs):
        key, sg = d.whole(cs)
        if key[0] != 'P' or sg[0] != 1 or sg[1] != 1: raise Unsupported('not the evaluation point')
        return key[1]
    # divisors modulo verticals: (A) = -(-A)
    def div(self, items):
        r = {}
        for (P, nm, k), c in items:
            k, s = self.canon(k)
            if k == 0: continue
            r[P, nm, k] = r.get((P, nm, k), 0) + s * c
        return tuple(sorted((k, c) for k, c in r.items() if c))
    def add(self, *ds): return self.div([x for d in ds for x in d])
    def mul(self, d, n): return self.div([(k, c * n) for k, c in d])
    def tangent(self, P, nm, k): return self.div([((P, nm, k), 2), ((P, nm, 2 * k), -1)])
    def chord(self, P, nm, a, b):
        if (a - b) % self.r == 0 or (a + b) % self.r == 0: raise Unsupported('chord through equal or opposite points')
        return self.div([((P, nm, a), 1), ((P, nm, b), 1), ((P, nm, a + b), -1)])
    def expected(self, cfg, P, nm):
        n = 6 * cfg.z + 2; p = cfg.p
        return self.div([((P, nm, 1), n), ((P, nm, p), 1), ((P, nm, -p * p), 1), ((P, nm, n + p - p * p), -1)])

def hooks(img, cfg, S, note):
    h = {}; absdom.hook_common(h, img, note); p = cfg.p
    rdA = lambda s, d, a: S.rdA(d, d.comps(s, a, 4))
    rdT = lambda s, d, a: S.rdT(d, d.comps(s, a, 6))
    rdP = lambda s, d, a: S.rdP(d, d.comps(s, a, 2))
    def rdl(s, d, a, tag='l'):
        key, sg = d.whole(d.comps(s, a, 6))
        if key[0] != tag or set(sg) != {1}: raise Unsupported('not a line value')
        return key[2]
    def wrl(s, d, a, div, tag='l'): key = d.fresh(tag) + (div,); d.put(s, a, [FC(key, i) for i in range(6)])
    def rdf(s, d, a):
        cs = d.comps(s, a, 12)
        if cs == [1] + [0] * 11: return ()
        key, sg = d.whole(cs)
        if key[0] != 'f' or set(sg[:6]) != {1} or len(set(sg[6:])) != 1: raise Unsupported('not a Miller value')
        return S.mul(key[2], sg[6])
    def wrf(s, d, a, div): key = d.fresh('f') + (div,); d.put(s, a, [FC(key, i) for i in range(12)])
    def step(dbl, withP):
        def f(s, d, a):
            l, T = a[0], a[1]; nm, k = rdT(s, d, T)
            P = rdP(s, d, a[2 if dbl else 3]) if withP else '*'
            if dbl: dv, k2 = S.tangent(P, nm, k), 2 * k
            else:
                nm2, j = rdA(s, d, a[2])
                if nm2 != nm: raise Unsupported('points of different groups')
                dv, k2 = S.chord(P, nm, k, j), k + j
            wrl(s, d, l, dv, 'l' if withP else 'l0'); d.put(s, T, S.hom(d, nm, k2))
        return f
    at(h, img, ['Fp6::pointDblLineEval', r'^Fp6::pointDblLineEvalC\('], fn(note, 'Fp6::pointDblLineEval', step(True, True)))
    at(h, img, ['Fp6::pointDblLineEvalWithoutP', r'^Fp6::pointDblLineEvalWithoutPC\('], fn(note, 'Fp6::pointDblLineEvalWithoutP', step(True, False)))
    at(h, img, [r'^Fp6::pointAddLineEval\('], fn(note, 'Fp6::pointAddLineEval', step(False, True)))
    at(h, img, [r'^Fp6::pointAddLineEvalWithoutP\('], fn(note, 'Fp6::pointAddLineEvalWithoutP', step(False, False)))
    def setP(s, d, a):
        P = rdP(s, d, a[1]); wrl(s, d, a[0], S.div([((P,) + k[1:], c) for k, c in rdl(s, d, a[0], 'l0')]))
    at(h, img, [r'^Fp6::mulFp6_24_Fp_01\('], fn(note, 'Fp6::mulFp6_24_Fp_01', setP))
    at(h, img, ['Fp12::mul', r'^Fp12::mulC\('], fn(note, 'Fp12::mul', lambda s, d, a: wrf(s, d, a[0], S.add(rdf(s, d, a[1]), rdf(s, d, a[2])))))
    at(h, img, ['Fp12::square', r'^Fp12::squareC\('], fn(note, 'Fp12::square', lambda s, d, a: wrf(s, d, a[0], S.mul(rdf(s, d, a[0]), 2))))
    at(h, img, [r'^Fp12::inverse\('], fn(note, 'Fp12::inverse', lambda s, d, a: wrf(s, d, a[0], S.mul(rdf(s, d, a[0]), -1))))
    at(h, img, ['Fp12Dbl::mul_Fp2_024', r'^Fp12::Dbl::mul_Fp2_024C\('], fn(note, 'Fp12::Dbl::mul_Fp2_024', lambda s, d, a: wrf(s, d, a[0], S.add(rdf(s, d, a[0]), rdl(s, d, a[1])))))
    at(h, img, [r'^Fp12::Dbl::mul_Fp2_024_Fp2_024\('], fn(note, 'Fp12::Dbl::mul_Fp2_024_Fp2_024', lambda s, d, a: wrf(s, d, a[0], S.add(rdl(s, d, a[1]), rdl(s, d, a[2])))))
    def fe(s, d, a): key = ('E', rdf(s, d, a[0])); d.put(s, a[0], [FC(key, i) for i in range(12)])
    at(h, img, [r'^Fp12::final_exp\('], fn(note, 'Fp12::final_exp', fe))
    for n in (1, 2, 8):
        def fr(s, d, a, n=n): nm, k = rdA(s, d, a[1]); d.put(s, a[0], S.affine(nm, k * p ** n))
        at(h, img, [r'^ecop::FrobEndOnTwist_%d<' % n], fn(note, 'FrobEndOnTwist_%d' % n, fr))
    def norm(n):
        def f(s, d, a):
            cs = d.comps(s, a[1], 3 * n); z = cs[2 * n:]
            one, zero = [1] + [0] * (n - 1), [0] * n
            if z == zero: d.put(s, a[0] + 64 * n, zero); return
            if z == one: d.put(s, a[0], cs); return
            key, sg = d.whole(cs)
            if key[0] != 'J' or set(sg) != {1}: raise Unsupported('not a Jacobian point')
            d.put(s, a[0], (S.affine(key[1], 1) if n == 2 else [FC(('P', key[1]), 0), FC(('P', key[1]), 1)]) + one)
        return f
    at(h, img, [r'^ecop::NormalizeJac<Fp2>'], fn(note, 'NormalizeJac', norm(2)))
    at(h, img, [r'^ecop::NormalizeJac<Fp>'], fn(note, 'NormalizeJac', norm(1)))
    for E, n in (('Ec2', 2), ('Ec1', 1)):
        at(h, img, [r'^%s::normalize\(' % E], fn(note, 'EcT::normalize', lambda s, d, a, n=n: norm(n)(s, d, [a[0], a[0]])))
    # heap
    def new(s):
        n = s.r[7]
        if not isinstance(n, int) or n > 1 << 20: raise Unsupported('allocation size')
        a = s.user.get('heap', HEAP); s.user['heap'] = a + n + 64 & ~63
        for o in range(0, n + 7, 8): s.mem.setdefault(a + o, s.dom.undef('heap'))
        ret(s, a)
    for a in ring.plt(img, '_Znwm'): h[a] = new
    for nm in ('_ZdlPv', '_ZdlPvm'):
        for a in ring.plt(img, nm): h[a] = ret
    return h

class Jd(Abs):
    """zero and one tests of a Jacobian Z that is neither"""
    def setz(self, k, v):
        if not Abs.setz(self, k, v): return False
        for grp in self.nonzero.get('excl', ()):
            if all(self.zf.get(x) for x in grp): return False
        return True

REP = {'aff': ('affine', 'affine'), 'jac': ('Jacobian', 'Jacobian')}
class PairOb(Ob):
    timeout = None; cost = 4
    def __init__(self, cfg, entry, scn):
        """scn: '' (two affine points) or (kind of Q, kind of P) with kinds 'jac','one','inf'"""
        self.cfg, self.entry, self.scn = cfg, entry, scn
        self.key = '%s %s%s' % (cfg.name, entry, ' Q:%s P:%s' % scn if scn else '')
        self.functions = [entry.replace('c:', '')]; self.S = Pts(cfg)
    def point(self, d, nm, kind, n):
        """words of a point given in representation kind over F_p^n"""
        S = self.S
        aff = (S.affine(nm, 1) if n == 2 else [FC(('P', nm), 0), FC(('P', nm), 1)])
        one = [1] + [0] * (n - 1)
        if kind == 'aff': return aff
        if kind == 'one': return aff + one
        if kind == 'inf': return [FC(('junk', nm), i) for i in range(2 * n)] + [0] * n
        key = ('J', nm)
        zs = [(key, 2 * n + i) for i in range(n)]
        d.nonzero[key] = [[2 * n + i for i in range(n)]]
        d.nonzero.setdefault('excl', []).append([(('eq', FC(key, 2 * n), 1), 0)] + [(z, True) and z for z in zs[1:]])
        return [FC(key, i) for i in range(3 * n)]
    def prove(self, ctx):
        cfg, S = self.cfg, self.S; img = limb.image(ctx.exes, cfg); note = set(); q0, t0 = STATS.q, STATS.t
        h = hooks(img, cfg, S, note)
        det = dict(paths=0, steps=0); bad = []; sample = None
        A = lambda i: ARENA + BIG * i
        fin = lambda d, s, a: self.result(d, s, a)
        if self.entry == 'c:pre+miller' or self.entry == 'c:pre+miller2':
            fs = self.premiller(img, h, note, self.entry.endswith('2'))
        else:
            d = Jd(cfg.F); ex = Exec(img, h)
            s = ex.start(d, img.entries[self.entry], [A(0), A(1), A(2)])
            for o in range(0, 384, 8): s.mem[A(0) + o] = d.undef('out')
            kq, kp = self.scn or ('aff', 'aff')
            d.put(s, A(1), self.point(d, 'Q', kq, 2)); d.put(s, A(2), self.point(d, 'P', kp, 1))
            fs = ex.run(s)
        for f in fs:
            det['paths'] += 1; det['steps'] += f.steps
            if f.user['end'] != 'ret': bad.append('ended: ' + f.user['end']); continue
            cs = f.dom.comps(f, A(0), 12)
            if self.scn and 'inf' in self.scn:
                if cs != [1] + [0] * 11: bad.append('the pairing with infinity is not one')
                continue
            key, sg = f.dom.whole(cs)
            want = S.expected(cfg, 'P', 'Q')
            if self.entry.endswith('miller2'): want = S.add(want, S.expected(cfg, 'P2', 'Q2'))
            if key[0] == 'f': got = S.mul(key[2], sg[6])
            elif key[0] == 'E': got = key[1]
            else: bad.append('result is not a Miller value'); continue
            if (key[0] == 'E') != (not self.entry.startswith('c:pre')): bad.append('final exponentiation missing or repeated'); continue
            if not self.same(got, want): bad.append('wrong divisor: %s instead of %s' % (str([(k[2] if k[2] < 1 << 40 else '..', c) for k, c in got])[:120], str([(k[2] if k[2] < 1 << 40 else '..', c) for k, c in want])[:120]))
            sample = '%s: divisor has %d terms, coefficient of Q is %d' % (self.key, len(got), dict(got).get(('P', 'Q', 1), 0))
        if not det['paths']: bad.append('no path')
        det.update(queries=STATS.q - q0, solver_s=STATS.t - t0, lemmas=sorted(note), sample=sample)
        det.update(dict(status='refuted', why='; '.join(bad[:4])) if bad else dict(status='proved'))
        return det
    def same(self, a, b):
        """equality of the two divisors as functions of the multiplicity of every point (asked of z3)"""
        pts = sorted({k for k, _ in a} | {k for k, _ in b}, key=str); a, b = dict(a), dict(b)
        s = z3.Solver(); t0 = time.time(); i = z3.Int('i')
        ex = lambda d: z3.Sum([z3.IntVal(0)] + [z3.If(i == j, z3.IntVal(d.get(k, 0)), z3.IntVal(0)) for j, k in enumerate(pts)])
        s.add(i >= 0, i < len(pts), ex(a) != ex(b)); r = s.check(); STATS.q += 1; STATS.t += time.time() - t0
        return r == z3.unsat
    def premiller(self, img, h, note, two):
        cfg = self.cfg; A = lambda i: ARENA + BIG * i; d = Jd(cfg.F); ex = Exec(img, h); steps = 0
        co = []; kq = self.scn[0]
        outs = []
        def pre(nm):
            r = []
            s = ex.start(d, img.entries['c:precomputeG2'], [A(0), A(4), A(5), A(6)])
            for o in range(0, BIG, 8): s.mem[A(0) + o] = d.undef('out')
            for o in range(0, 192, 8): s.mem[A(4) + o] = d.undef('out')
            s.mem[A(6)] = d.undef('n'); d.put(s, A(5), self.point(d, nm, kq, 2))
            fs = ex.run(s)
            for f in fs:
                if f.user['end'] != 'ret': return None, f
                n = f.load(A(6))
                if not isinstance(n, int) or n > 200: raise Unsupported('number of coefficients')
                if f.dom.comps(f, A(4), 6) != self.S.affine(nm, 1) + [1, 0]: f.user['end'] = 'the normalised point is wrong'; return None, f
                r.append([f.dom.comps(f, A(0) + 192 * i, 6) for i in range(n)])
            if not r or any(len(x) != len(r[0]) for x in r): raise Unsupported('paths disagree on the coefficients')
            return r[0], fs[0]
        names = [('Q', 'P'), ('Q2', 'P2')][:2 if two else 1]
        cs = []
        for q, p in names:
            c, f = pre(q)
            if c is None: return [f]
            cs.append(c); steps += f.steps
        n = len(cs[0])
        args = [A(0), A(1), n, A(3)] if not two else [A(0), A(1), A(3), A(2), A(4), n]
        s = ex.start(d, img.entries['c:millerLoop2' if two else 'c:millerLoop'], args)
        for o in range(0, 384, 8): s.mem[A(0) + o] = d.undef('out')
        for j, c in enumerate(cs):
            for i, x in enumerate(c): d.put(s, A(1 + j) + 192 * i, x)
        for j, (q, p) in enumerate(names): d.put(s, A(3 + j), self.point(d, p, 'aff', 1))
        fs = ex.run(s)
        for f in fs: f.steps += steps
        return fs
    # ---- native
    def search(self, ctx, n, deadline, seed):
        cfg = self.cfg; rng = random.Random('%s %d' % (self.key, seed)); R = refpair.R(cfg); tried = 0; p = cfg.p
        nat = limb.Native(ctx.exes[cfg.variant], cfg); m = lambda x: x * cfg.F.R % p
        tw, cv = c_line.points(cfg)
        A = lambda i: ARENA + BIG * i
        def pt(kind, g2):
            """affine value and flat words of its representation"""
            if g2:
                t = rng.choice(tw); Q = tuple(tuple(c.int() for c in x.c) for x in t); Q = R.tmul(R.g2(Q), rng.randrange(1, cfg.r))
                if kind == 'inf': return None, [rng.randrange(p) for _ in range(4)] + [0, 0]
                if kind == 'aff': return Q, [*Q[0], *Q[1]]
                z = (1, 0) if kind == 'one' else (rng.choice([0, 1, rng.randrange(p)]), rng.randrange(1, p)) if rng.randrange(2) else (rng.randrange(2, p), 0)
                z2 = R.m2(z, z); return Q, [*R.m2(Q[0], z2), *R.m2(Q[1], R.m2(z2, z)), *z]
            P = R.cmul(rng.choice(cv), rng.randrange(1, cfg.r))
            if kind == 'inf': return None, [rng.randrange(p), rng.randrange(p), 0]
            if kind == 'aff': return P, list(P)
            z = 1 if kind == 'one' else rng.randrange(2, p)
            return P, [P[0] * z * z % p, P[1] * z ** 3 % p, z]
        wr = lambda a, v: nat.srv.write(a, b''.join(m(x).to_bytes(32, 'little') for x in v))
        rd = lambda a, k: [int.from_bytes(nat.srv.read(a + 32 * i, 32), 'little') for i in range(k)]
        try:
            while tried < n and time.time() < deadline:
                kq, kp = self.scn or ('aff', 'aff'); ins = []
                two = self.entry.endswith('miller2'); pre = self.entry.startswith('c:pre')
                for _ in range(2 if two else 1): ins.append((pt(kq, True), pt(kp, False)))
                st = 'ret'
                if pre:
                    for j, ((Q, wq), (P, wp)) in enumerate(ins):
                        wr(A(5), wq); st = nat.srv.call(nat.ent['c:precomputeG2'], A(1 + j), A(7), A(5), A(6))
                        if not st.startswith('ret'): break
                        k = int.from_bytes(nat.srv.read(A(6), 8), 'little'); wr(A(3 + j), wp)
                    if st.startswith('ret'):
                        st = nat.srv.call(nat.ent['c:millerLoop2'], A(0), A(1), A(3), A(2), A(4), k) if two else nat.srv.call(nat.ent['c:millerLoop'], A(0), A(1), k, A(3))
                else:
                    (Q, wq), (P, wp) = ins[0]; wr(A(1), wq); wr(A(2), wp); st = nat.srv.call(nat.ent[self.entry], A(0), A(1), A(2))
                tried += 1; why = ''
                if not st.startswith('ret'): why = 'ended with ' + st
                else:
                    raw = rd(A(0), 12); o = R.from_flat([x * cfg.F.Ri for x in raw]); want = R.one()
                    if pre:
                        o = R.pow(o, R.expo())
                    for (Q, _), (P, _) in ins: want = R.m12(want, R.pairing(Q, P))
                    if o != want: why = 'not the optimal ate pairing value'
                    elif any(x >= p for x in raw): why = 'output not reduced'
                if why: return dict(entry=self.entry, config=cfg.name, inputs=[[list(map(hex, wq)), list(map(hex, wp))] for (Q, wq), (P, wp) in ins], observed=why), tried
        finally: nat.close()
        return None, tried
    def validate(self, ctx): return self.search(ctx, 2, time.time() + 15, ctx.seed)
    def witness(self, ctx, hints): return self.search(ctx, 200, ctx.wdeadline, ctx.seed + 7)

def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []
    cs = [('bn', 1, 1), ('bn', 0, 0), ('snark3', 1, 1), ('snark82', 0, 0)]
    if ctx.thorough: cs = [(c, m, x) for c in ('bn', 'snark3', 'snark82') for m in (0, 1) for x in (0, 1)]
    for c in cs:
        cfg = Config(*c); ring.short(limb.image(ctx.exes, cfg)); c_line.points(cfg)
        obs.append(PairOb(cfg, 'c:pairing', ''))
        ks = ('jac', 'one', 'inf')
        for q in ks:
            for p in ks:
                if not ctx.thorough and c[1] == 0 and q != 'jac' and p != 'jac': continue
                obs += [PairOb(cfg, 'c:pairingJac', (q, p)), PairOb(cfg, 'c:pairingEc', (q, p))]
        for q in ('jac', 'one'):
            obs += [PairOb(cfg, 'c:pre+miller', (q, 'aff')), PairOb(cfg, 'c:pre+miller2', (q, 'aff'))]
    info = dict(bounds='every point of order r in every coordinate representation (Z zero, one, or anything else); every path; the complete Miller loop', outside='points outside the subgroups of order r',
                assumptions=['line steps (C13), multiplication in F_p12 (C07), twist Frobenius (C09), normalisation (C12) and the final exponentiation (C15) meet their specifications',
                             'the twist Frobenius acts on the order-r subgroup as multiplication by p; factors in F_p6 and powers of w vanish under the final exponentiation'])
    return obs, info
