"""C05-C09: field-level obligations (inversion, equality and zero tests, Frobenius maps, decompression)
decided on the compiled C++ code over atoms of F_p or of F_p2, for every operand."""
import time, random
import build, limb, ring, tower, solve, specs_field as sf
from limb import Config, Spec, KINDS, size, ARENA, SLOT
from tower import T2, T6, T12
from check import Ob
from x86 import Exec, Unsupported
from c_field import pick
from poly import STATS
from c_curve import same

NCOMP = {'Fp': 1, 'Fp2': 2, 'Fp6': 6, 'Fp12': 12}
def build_any(k, cs, ext):
    """nested value from a flat list (ext: one element per Fp2)"""
    if not ext or k == 'Fp': return limb.build_value(k, cs)
    if k in ('Fp2',): return cs[0]
    if k == 'Fp6': return T6(*cs)
    if k == 'Fp12': return T12(T6(*cs[:3]), T6(*cs[3:]))
    return list(cs)
def flatv(v):
    if isinstance(v, (list, tuple)): return [q for x in v for q in flatv(x)]
    if isinstance(v, tower.Tup): return [q for x in v.c for q in flatv(x)]
    return [v]

class Sym:
    """judgements on symbolic values of one finished path"""
    def __init__(self, F, d, ext): self.F, self.d, self.ext = F, d, ext
    def one(self): return self.d.C.el(1)
    def eq(self, a, b):
        a, b = flatv(a), flatv(b)
        return all(same(self.d, self.el(x), self.el(y)) for x, y in zip(a, b))
    def el(self, x): return x if isinstance(x, ring.Q) else self.d.C.el(x.int() if isinstance(x, tower.El) else x)
    def zero(self, a):
        """True / False / None"""
        ks = []
        for x in flatv(a):
            x = self.el(x)
            if self.ext:
                k = self.d.known(x)
                if k is None:
                    cs = [self.d.known(ring.Comp(x, i)) for i in (0, 1)]
                    k = False if False in cs else True if cs == [True, True] else None
            else: k = self.d.known(x)
            ks.append(k)
        return False if False in ks else True if all(k is True for k in ks) else None
class Con:
    """the same judgements on concrete values"""
    def __init__(self, F): self.F, self.ext = F, False
    def eq(self, a, b): return all(x == y for x, y in zip(flatv(a), flatv(b)))
    def zero(self, a): return all(x.zero() for x in flatv(a))

class RingSpec:
    """sig as in limb.Spec; post(J, env, out, ret) -> '' or what is wrong, J judging equality; env/out: object -> value"""
    def __init__(self, name, sig, post, ext=False, alias=(), ints=None, ret=False, zeroinv='end', note='', rnd=None, cost=1):
        self.spec = Spec(name, sig, None, alias, ints=ints); self.name = name
        self.post, self.ext, self.alias, self.ret, self.zeroinv, self.note, self.rnd, self.cost = post, ext, alias, ret, zeroinv, note, rnd, cost

class RingSpecOb(Ob):
    def __init__(self, cfg, rs, alias=(), lemmas=None):
        self.cfg, self.rs, self.alias, self.lemmas, self.cost = cfg, rs, alias, lemmas, rs.cost
        self.entry = rs.name
        self.key = '%s %s%s%s' % (cfg.name, rs.name, ' ' + '='.join(alias[0]) if alias else '', ' [' + rs.note + ']' if rs.note else '')
        self.functions = [rs.name.replace('c:', '')]
    def prove(self, ctx):
        cfg, rs, sp = self.cfg, self.rs, self.rs.spec
        img = limb.image(ctx.exes, cfg); note = set(); C = ring.Ctx(cfg.F, rs.ext)
        h = ring.hooks(img, cfg, C, self.lemmas(cfg), note, skip=(self.entry,), zeroinv=rs.zeroinv)
        addr = limb.layout(sp, self.alias); q0, t0 = STATS.q, STATS.t
        d = ring.Ring(C); ex = Exec(img, h)
        s = ex.start(d, img.entries[self.entry], [addr[n] if k in KINDS else sp.ints[n] for n, k, m in sp.args])
        for n, k in sp.outs():
            for o in range(0, size(k), 8): s.mem[addr[n] + o] = d.undef('out')
        env = {}; at = {}; fixed = rs.rnd(random.Random(1), cfg) if rs.rnd else {}; atoms = {}; hints = []
        for n, k in sp.ins():
            key = (addr[n], k)
            if key not in at:
                m = len(KINDS[k]) // 2 if rs.ext and k != 'Fp' else len(KINDS[k])
                a0 = len(C.names); at[key] = build_any(k, [C.atom('%s%d' % (n, i)) for i in range(m)], rs.ext)
                if n not in fixed: atoms.update({a0 + i: (n, i) for i in range(m)})
            env[n] = at[key]; d.write_obj(s, addr[n], env[n])
        s.writes.clear()
        det = dict(paths=0, steps=0); bad = []; sample = None
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps; d = f.dom; J = Sym(cfg.F, d, rs.ext); J.end = f.user['end']
            tail = '; path: ' + '; '.join(d.log[-3:]) if d.log else ''
            if J.end != 'ret':
                why = self.rs.post(J, env, None, None) if J.end == 'inverse of zero' else 'ended: ' + J.end
            else:
                ret = None
                if rs.ret:
                    ret = f.r[0] if isinstance(f.r[0], int) else d.extract(f.r[0], 0, 8)
                    if not isinstance(ret, int): bad.append('result not determined'); continue
                    ret &= 255
                out = {}
                for n, k in sp.outs():
                    v = d.read_obj(f, addr[n], k); out[n] = build_any(k, flatv(v), rs.ext)
                nenv = {n: build_any(k, [d.norm(x) for x in flatv(env[n])], rs.ext) for n, k in sp.ins()}
                why = rs.post(J, nenv, out, ret)
                if not why and not sample: sample = '%s: %s' % (self.key, (str(flatv(list(out.values())[0])[0]) if out else 'returns %s' % ret)[:140])
            if why:
                bad.append(why + tail); fs = solve.facts(d, atoms)
                if fs[0] and len(hints) < 40: hints.append(fs)
        if not det['paths']: bad.append('no path')
        det.update(queries=STATS.q - q0, solver_s=STATS.t - t0, lemmas=sorted(note), sample=sample)
        det.update(dict(status='refuted', why='; '.join(bad[:4]), hints=(hints, atoms)) if bad else dict(status='proved'))
        return det
    def search(self, ctx, n, deadline, seed, hints=None):
        rng = random.Random('%s %d' % (self.key, seed)); cfg, rs, sp = self.cfg, self.rs, self.rs.spec; F = cfg.F
        nat = limb.Native(ctx.exes[cfg.variant], cfg); tried = 0; addr = limb.layout(sp, self.alias); K = solve.Fq(cfg.p, rs.ext)
        def draw():
            done = {}; env = {}; style = rng.randrange(4); prev = None
            if rs.rnd: env = rs.rnd(rng, cfg)
            for nm, k in sp.ins():
                if nm in env: done[addr[nm]] = env[nm]; continue
                if addr[nm] not in done:
                    m = len(KINDS[k])
                    f = lambda: rng.choice([rng.randrange(cfg.p), rng.randrange(cfg.p), 1, cfg.p - 1, rng.randrange(cfg.p)])
                    v = [0 if style and rng.randrange(4) < style else f() for _ in range(m)]
                    if prev is not None and len(prev) == m and rng.randrange(3):
                        v = list(prev); j = rng.randrange(m + 1)
                        if j < m: v[j] = f()
                    done[addr[nm]] = prev = v
                env[nm] = done[addr[nm]]
            if hints and hints[0] and rng.randrange(4):
                fs = rng.choice(hints[0]); w = 2 if rs.ext else 1; val = {}
                for a, (nm, i) in hints[1].items(): val[a] = tuple((env[nm][i * w:i * w + w] + [0])[:2])
                if solve.satisfy(K, fs, val, list(hints[1]), rng):
                    env = {nm: list(v) for nm, v in env.items()}
                    for a, (nm, i) in hints[1].items(): env[nm][i * w:i * w + w] = val[a][:w]
                    for nm in env:
                        for o in env:
                            if addr[o] == addr[nm] and any(o == t[0] for t in hints[1].values()): env[nm] = env[o]
            return {nm: [x * F.R % cfg.p for x in v] for nm, v in env.items()}
        try:
            while tried < n and time.time() < deadline:
                cases = [draw() for _ in range(min(64, n))]
                for vals, (st, out) in zip(cases, nat.batch(sp, cfg, self.alias, cases)):
                    tried += 1; why = ''
                    if st.strip('0123456789abcdef'): why = 'ended with ' + st
                    elif any(x >= cfg.p for v in out.values() for x in v): why = 'output not reduced'
                    else:
                        un = lambda k, v: limb.build_value(k, [F.el(x * F.Ri) for x in v])
                        env = {nm: un(k, vals[nm]) for nm, k in sp.ins()}; o = {nm: un(k, out[nm]) for nm, k in sp.outs()}
                        J = Con(F); J.end = 'ret'
                        why = rs.post(J, env, o, int(st, 16) & 255)
                    if why: return dict(entry=self.entry, config=cfg.name, alias=list(self.alias), inputs={k: [hex(x) for x in w] for k, w in vals.items()},
                                        observed='%s; output %s' % (why, {k: [hex(x) for x in w] for k, w in out.items()})), tried
        finally: nat.close()
        return None, tried
    def validate(self, ctx): return self.search(ctx, 64, time.time() + 20, ctx.seed)
    def witness(self, ctx, hints): return self.search(ctx, 40000, ctx.wdeadline, ctx.seed + 7, hints)

# ---- postconditions
def norm_of(x, F):
    """norm to the field of the atoms (zero iff x is zero)"""
    if isinstance(x, T12): a, b = x.c; return norm_of(a * a - (b * b).mulv(), F)
    if isinstance(x, T6):
        a, b, c = x.c
        A = a * a - (b * c).mulxi(); B = (c * c).mulxi() - a * b; C = b * b - a * c
        return norm_of(a * A + (c * B).mulxi() + (b * C).mulxi(), F)
    if isinstance(x, T2): return x.c[0] * x.c[0] + x.c[1] * x.c[1]
    return x
def unit(J, x):
    """the one of the type of x"""
    z = x - x; c = flatv(z); one = J.one() if isinstance(J, Sym) else J.F.el(1)
    c = [c[0] + one] + c[1:]
    return T12(T6(*c[:3]), T6(*c[3:])) if len(c) == 6 and isinstance(x, T12) else T6(*c) if len(c) == 3 and isinstance(x, T6) else limb.build_value({1: 'Fp', 2: 'Fp2', 6: 'Fp6', 12: 'Fp12'}[len(c)], c) if len(c) > 1 or not isinstance(x, ring.Q) else c[0]
def inverse_post(J, env, out, ret):
    x = env['z'] if 'x' not in env else env['x']
    if out is None:    # the code inverted a base-field zero: only for x = 0
        return '' if J.d.known(norm_of(x, J.F)) is True else 'a nonzero operand is inverted through the inverse of zero'
    if isinstance(J, Con) and J.zero(x): return ''
    z = out['z']
    if isinstance(J, Sym) and J.zero(x) is True: return ''
    return '' if J.eq(z * x, unit(J, x)) else 'x times its inverse is not one'
def eq_post(val):
    """val: returned value when the operands are equal"""
    def f(J, env, out, ret):
        x, y = flatv(env['x']), flatv(env['y']) if 'y' in env else None
        k = J.zero([a - b for a, b in zip(x, y)] if y else x)
        if k is None: return 'returns %d although the operands are not distinguished' % ret
        return '' if ret == (val if k else 1 - val) else 'returns %d for %s operands' % (ret, ('equal' if k else 'different') if y else ('zero' if k else 'nonzero'))
    return f
def spec_post(fn):
    def f(J, env, out, ret):
        if out is None: return 'ended: inverse of zero'
        want = fn(J.F, env)
        for n in want:
            if not J.eq(out[n], want[n]): return 'wrong value of ' + n
        return ''
    return f

# ---- Frobenius
_fp = {}
def fpow(F, e):
    if (F.p, e) not in _fp: _fp[F.p, e] = fpow_(F, e)
    return _fp[F.p, e]
def fpow_(F, e):
    """xi^e as a constant"""
    r = T2(F.el(1), F.el(0)); b = tower.xi2(F)
    while e:
        if e & 1: r = r * b
        b = b * b; e >>= 1
    return r
def kc(F, x):
    return x
def frob(k):
    def f(F, env):
        x = env['x']; p = F.p; q = p ** k; c = flatv(x)
        cs = [T2(c[2 * i], c[2 * i + 1]) for i in range(6)]
        pos = [0, 2, 4, 1, 3, 5]          # exponent of w of each Fp2 coefficient
        r = []
        for z, i in zip(cs, pos):
            g = fpow(F, i * (q - 1) // 6)
            r.append((z.conj() if k & 1 else z) * g)
        return {'z': T12(T6(*r[:3]), T6(*r[3:]))}
    return f
def frobtwist(k):
    """psi o pi_p^k o psi^-1 on the twist: (x, y) -> (x^(p^k) xi^((p^k-1)/3), y^(p^k) xi^((p^k-1)/2))"""
    def f(F, env):
        x, y = env['x']; q = F.p ** k
        if k & 1: x, y = x.conj(), y.conj()
        return {'z': [x * fpow(F, (q - 1) // 3), y * fpow(F, (q - 1) // 2)]}
    return f

# ---- decompression (Karabina)
def decompress(J, env, out, ret):
    if out is None: return 'ended: inverse of zero'
    F = J.F; g = flatv(env['x'])
    if len(g) == 12: g = [T2(g[2 * i], g[2 * i + 1]) for i in range(6)]
    _, g4, g3, g2, _, g5 = g
    z = out['z']; o = flatv(z)
    if len(o) == 12: o = [T2(o[2 * i], o[2 * i + 1]) for i in range(6)]
    k = J.zero([g2])
    if k is None: return 'the case g2 = 0 is not distinguished'
    for i in (1, 2, 3, 5):
        if not J.eq(o[i], g[i]): return 'the compressed coefficient %d changed' % i
    g0, g1 = o[0], o[4]
    if not k: bad = not J.eq(g1 * g2 * 4, (g5 * g5).mulxi() + g4 * g4 * 3 - g3 * 2)
    else:
        k3 = J.zero([g3])
        if k3 is None: return 'the case g2 = g3 = 0 is not distinguished'
        bad = not J.eq(g1, g1 - g1) if k3 else not J.eq(g1 * g3, g4 * g5 * 2)
    if bad: return 'wrong g1'
    one = J.one() if isinstance(J, Sym) else T2(F.el(1), F.el(0))
    if not J.eq(g0, (g1 * g1 * 2 - g3 * g4 * 3 + g2 * g5).mulxi() + one): return 'wrong g0'
    return ''

INV = {'C05': [('c:Fp2::inverse', 'Fp2', False)], 'C06': [('c:Fp6::inverse', 'Fp6', True)], 'C07': [('c:Fp12::inverse', 'Fp12', True)]}
LV = {'C05': 'Fp2', 'C06': 'Fp6', 'C07': 'Fp12'}
def specs(prop, cfg):
    r = []
    if prop in INV:
        for n, k, ext in INV[prop]: r.append(RingSpec(n, '+z:' + k, inverse_post, ext, cost=5))
        k = LV[prop]
        r.append(RingSpec('c:%s::isZero' % k, '=x:' + k, eq_post(1), ret=True))
        r.append(RingSpec('c:%s::op==' % k, '=x:%s =y:%s' % (k, k), eq_post(1), ret=True, alias=[('xy',)]))
        if k == 'Fp2': r.append(RingSpec('c:%s::op!=' % k, '=x:%s =y:%s' % (k, k), eq_post(0), ret=True, alias=[('xy',)]))
    if prop == 'C09':
        for i, n in ((1, ''), (2, '2'), (3, '3')):
            r.append(RingSpec('c:Fp12::Frobenius' + n, 'z:Fp12 =x:Fp12', spec_post(frob(i)), alias=[('zx',)]))
        for i in (1, 2, 8):
            if cfg.curve == 'bn' or i != 8: r.append(RingSpec('c:Frob%d' % i, 'z:P2_2 =x:P2_2', spec_post(frobtwist(i)), alias=[('zx',)] if i == 1 or cfg.curve == 'bn' else []))
    if prop == 'C08':
        r.append(RingSpec('c:Compress::decompress', 'z:Fp12 =x:Fp12', decompress, ext=True, alias=[('zx',)], zeroinv='zero', cost=3))
    return r
LEMB = {'C05': pick('fp', 'fpmul'), 'C06': pick('fp', 'fpmul', 'fp2'), 'C07': pick('fp', 'fpmul', 'fp2', 'fp6'), 'C08': pick('fp', 'fpmul', 'fp2'), 'C09': pick('fp', 'fpmul', 'fp2')}
def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []
    for c in ('bn', 'snark3'):
        cfg = Config(c, 1, 1); ring.short(limb.image(ctx.exes, cfg))
        for rs in specs(prop, cfg):
            for al in [()] + list(rs.alias): obs.append(RingSpecOb(cfg, rs, al, LEMB[prop]))
    info = dict(bounds='field level: every operand (all components free), every path; branches on zero or equality decide both ways',
                outside='', assumptions=['base field operations meet their specifications (decided by C01-C07)'])
    return obs, info
