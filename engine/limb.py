"""Limb-level obligations: execute one routine of the compiled/generated machine code
symbolically (domain poly.Poly) and decide, for all operand values in the stated ranges and a
given aliasing pattern, that every output component equals the specified field value and is
within its range.  Also: concrete reference evaluation and native replay of the same spec."""
import random, time, traceback
from image import Image
from x86 import Exec, State, PathEnd, Unsupported, STACK, RET
import poly, tower
from poly import Poly, STATS
from tower import El, Field, make, NCOMP

ARENA = 0x10000000000
SLOT = 0x4000
CURVES = {
    'bn': dict(z=-((1 << 62) + (1 << 55) + 1), xi=(1, 1), b=2),
    'snark3': dict(z=4965661367192848881, xi=(9, 1), b=3),
    'snark82': dict(z=4965661367192848881, xi=(9, 1), b=82),
}
for _c in CURVES.values():
    _z = _c['z']
    _c['p'] = 36*_z**4 + 36*_z**3 + 24*_z**2 + 6*_z + 1
    _c['r'] = 36*_z**4 + 36*_z**3 + 18*_z**2 + 6*_z + 1
    _c['t'] = 6*_z**2 + 1

class Config:
    """one build/initialisation of the library"""
    def __init__(self, curve, mode, mulx):
        self.curve, self.mode, self.mulx = curve, mode, mulx
        c = CURVES[curve]
        self.p, self.r, self.z, self.t, self.b = c['p'], c['r'], c['z'], c['t'], c['b']
        self.F = Field(c['p'], c['xi'], curve)
        self.variant = 'bn' if curve == 'bn' else 'bnsnark'
        self.args = [mode, mulx] + ([c['b']] if curve != 'bn' else [])
        self.name = '%s/%s/%s' % (curve, {0: 'linear', 1: 'interleaved', -1: 'auto'}[mode], 'mulx' if mulx else 'mul')
    def __repr__(self): return self.name

_images = {}
def image(exes, cfg):
    k = cfg.name
    if k not in _images: _images[k] = Image(exes[cfg.variant], cfg.args)
    return _images[k]

# ---- object kinds: list of component kinds ('F' 4 words reduced, 'D' 8 words below 2^256 p, 'U4'/'U8' plain integers)
KINDS = {'Fp': ['F'], 'Fp2': ['F'] * 2, 'Fp6': ['F'] * 6, 'Fp12': ['F'] * 12,
         'FpDbl': ['D'], 'Fp2Dbl': ['D'] * 2, 'Fp6Dbl': ['D'] * 6, 'U4': ['U4'], 'U8': ['U8'],
         'Fp2U': ['U4'] * 2, 'Fp2DU': ['U8'] * 2, 'Ec1': ['F'] * 3, 'Ec2': ['F'] * 6, 'P2_1': ['F'] * 2, 'P2_2': ['F'] * 4, 'Fp2x2': ['F'] * 4, 'Fp2x3': ['F'] * 6}
CW = {'F': 4, 'D': 8, 'U4': 4, 'U8': 8}
def size(kind): return sum(CW[c] for c in KINDS[kind]) * 8

def build_value(kind, comps):
    """reference object from component values"""
    if kind in ('FpDbl', 'U4', 'U8'): return comps[0]
    if kind in ('Fp2Dbl', 'Fp2U', 'Fp2DU'): return tower.T2(*comps)
    if kind == 'Fp6Dbl': return make('Fp6', comps)
    if kind in NCOMP: return make(kind, comps)
    if kind in ('Ec1', 'P2_1'): return list(comps)
    if kind in ('Ec2', 'P2_2', 'Fp2x2', 'Fp2x3'): return [tower.T2(*comps[i:i+2]) for i in range(0, len(comps), 2)]
    raise ValueError(kind)
def flat(v):
    if isinstance(v, (list, tuple)): return [q for x in v for q in flat(x)]
    if isinstance(v, int): return [v]
    if isinstance(v, tower.Tup): return [q for x in v.c for q in flat(x)]
    return [v]

class Spec:
    """name: entry point.  objs: ordered argument objects 'z:Fp2' (out), 'x:Fp2' (in), '+z:Fp2' (in/out).
    fn(F, env) -> {out: value} over reference values.  alias: allowed alias groups.
    hi: {obj: [per-component exclusive upper bounds as multiples, callables of p]}; ohi likewise for outputs."""
    def __init__(self, name, sig, fn, alias=(), hi=None, ohi=None, ints=None, loose=False, pre=None, note='', asraw=False, draw=None, free=()):
        self.draw, self.free = draw, free
        self.name, self.fn, self.alias, self.note = name, fn, list(alias), note
        self.args = []
        for t in sig.split():
            n, k = t.split(':')
            mode = 'out'
            if n[0] == '+': mode, n = 'io', n[1:]
            elif n[0] == '=': mode, n = 'in', n[1:]
            self.args.append((n, k, mode))
        self.hi, self.ohi, self.ints, self.loose, self.pre, self.asraw = hi or {}, ohi or {}, ints or {}, loose, pre, asraw
    def ins(self): return [(n, k) for n, k, m in self.args if m != 'out' and k in KINDS]
    def outs(self): return [(n, k) for n, k, m in self.args if m != 'in' and k in KINDS]
    def patterns(self):
        return [()] + self.alias
    def bound(self, p, n, k, i, out=False):
        """exclusive upper bound of component i of object n"""
        t = (self.ohi if out else self.hi).get(n)
        if t is not None:
            b = t[i] if isinstance(t, list) else t
            return b(p) if callable(b) else b
        c = KINDS[k][i]
        return {'F': p, 'D': p << 256, 'U4': 1 << 256, 'U8': 1 << 512}[c]

def layout(spec, alias):
    """object -> address; alias is a tuple of groups such as ('zx',)"""
    addr = {}
    for i, (n, k, m) in enumerate(spec.args):
        if k in KINDS: addr[n] = ARENA + SLOT * i
    for g in alias:
        for n in g[1:]: addr[n] = addr[g[0]]
    return addr
def leader(alias, n):
    for g in alias:
        if n in g: return g[0] if False else min(g)
    return n

def run_symbolic(img, cfg, spec, alias, deadline=None, hooks=None):
    """returns (ok, detail dict)"""
    p, F = cfg.p, cfg.F
    d = Poly(p); ex = Exec(img, hooks)
    q0, t0, u0 = STATS.q, STATS.t, STATS.unk; w0 = time.time()
    addr = layout(spec, alias)
    env_blocks = {}; mem = {}
    done = {}
    inatoms = []
    for n, k in spec.outs():
        for o in range(0, size(k), 8): mem[addr[n] + o] = d.undef('out_%s' % n)
    for n, k in spec.ins():
        key = (addr[n], k)
        if key in done: env_blocks[n] = done[key]; continue
        comps = []; o = addr[n]
        for i, c in enumerate(KINDS[k]):
            X, ws = d.block('%s%d' % (n, i), CW[c], spec.bound(p, n, k, i) - 1)
            inatoms.append(X)
            for w in ws: mem[o] = w; o += 8
            comps.append((X, c))
        env_blocks[n] = done[key] = comps
    args = []
    for n, k, m in spec.args:
        args.append(addr[n] if k in KINDS else spec.ints[n])
    s = ex.start(d, img.entries[spec.name], args)
    s.mem.update(mem)
    det = dict(paths=0)
    fails = []
    if deadline: ex.trace = _deadline(deadline)
    fin = ex.run(s)
    # reference
    exact = any(c[0] == 'U' for n, k in spec.outs() for c in KINDS[k])
    def val(X, c):
        if exact or c[0] == 'U': return ExactPoly({(X,): 1})
        return El(F, {(X,): F.Ri if c == 'F' else F.Ri * F.Ri % p})
    env = {n: build_value(k, [val(*b) for b in env_blocks[n]]) for n, k in spec.ins()}
    want = spec.fn(F, env) if not exact else spec.fn(None, env)
    terms = 0; det['templates'] = []
    for f in fin:
        det['paths'] += 1; nf = len(fails)
        if f.user['end'] != 'ret': fails.append(('end', f.user['end'], None)); continue
        dd = f.dom
        for n, k in spec.outs():
            o = addr[n]; exp = flat(want[n])
            for i, c in enumerate(KINDS[k]):
                ws = [f.load(o + 8 * j) for j in range(CW[c])]; o += 8 * CW[c]
                if exp[i] is None: continue
                cls, e, hi, X = dd.value(ws)
                tag = '%s[%d]' % (n, i)
                if exact:
                    # equality modulo 2^(64 n): both sides lie in [0, 2^(64 n)) by construction of the words
                    g = dd.reduce(poly.padd(e, _ep(exp[i]), -1)); M = 1 << 64 * CW[c]
                    if any(v.denominator != 1 or v.numerator % M for v in g.values()): fails.append(('value', tag, None))
                    continue
                if cls is None:
                    fails.append(('undetermined', tag, str([x[0] for x in dd.events[-2:]]))); continue
                sc = F.Ri if c == 'F' else F.Ri * F.Ri % p
                got = {m: v * sc % p for m, v in cls.items() if v * sc % p}
                terms += len(got)
                w = exp[i] if isinstance(exp[i], El) else F.el(exp[i])
                if got != w.d:
                    # facts of this path (for example: the operand is zero) may be needed
                    df = poly.pmod(dd.reduce(poly.padd(got, w.d, -1)), p)
                    if df and dd.zcls: df = poly.pdivmany(df, dd.zcls, p)
                    if df:
                        fails.append(('value', tag, None)); continue
                    w = El(F, got)
                B = spec.bound(p, n, k, i, True)
                if hi is None or hi >= B:
                    t = dd.blockval(ws)
                    ok, m = dd.prove([(poly.padd(t, poly.const(B), -1), 'ge')])
                    if not ok: fails.append(('range', tag, None)); continue
                if not confirm(p, got, w.d): fails.append(('value', tag, 'z3'))
        if len(fails) > nf and len(det['templates']) < 40:
            t = template(f.dom, env_blocks, spec, p)
            if t is not None and t not in det['templates']: det['templates'].append(t)
    det.update(steps=sum(f.steps for f in fin), queries=STATS.q - q0, solver_s=round(STATS.t - t0, 3), unknown=STATS.unk - u0,
               wall=round(time.time() - w0, 2), terms=terms, atoms=max((len(f.dom.hi) for f in fin), default=0))
    if not fin: fails.append(('end', 'no path', None))
    return not fails, fails, det

def template(d, blocks, spec, p):
    """what the conditions of a path say about the operands: words that are determined (by a constant or by other words)
    and field equations; used to build concrete operands that follow the path"""
    own = {}
    for n, k in spec.ins():
        for i, (X, c) in enumerate(blocks[n]):
            g = d.group.get(X, (X,))
            own[X] = (n, i, -1)
            for j, w in enumerate(g[1:]): own[w] = (n, i, j)
    forced = []
    for a, (n, i, j) in own.items():
        if j < 0: continue
        e = d.elim.get(a)
        if e is None: continue
        e = d.reduce({(a,): 1})
        if all(len(m) <= 1 and (not m or m[0] in own) for m in e):
            X = blocks[n][i][0]
            if any(m and own[m[0]][:2] == (n, i) for m in e) : continue   # the definition of the words themselves
            forced.append(((n, i, j), [(own[m[0]] if m else None, int(c)) for m, c in e.items()]))
    whole = []
    for n, k in spec.ins():
        for i, (X, c) in enumerate(blocks[n]):
            e = d.reduce({(X,): 1})
            if e != {(X,): 1} and all(len(m) <= 1 and (not m or m[0] in own) for m in e):
                whole.append(((n, i, -1), [(own[m[0]] if m else None, int(c)) for m, c in e.items()]))
    eqs = [[(tuple(own[a] for a in m), int(c)) for m, c in z.items()] for z in d.zcls if all(a in own for m in z for a in m)]
    if not (forced or whole or eqs): return None
    return dict(forced=forced, whole=whole, eqs=eqs)
def apply_template(t, vals, spec, cfg, alias, rng):
    """operands that follow the template, starting from drawn ones (None if it does not apply)"""
    p = cfg.p; addr = layout(spec, alias); vals = {n: list(v) for n, v in vals.items()}
    ok = lambda k: not spec.draw or k[0] in spec.free
    def get(k):
        v = vals[k[0]][k[1]]
        return v if k[2] < 0 else v >> 64 * k[2] & (1 << 64) - 1
    def put(k, v):
        if not ok(k): return
        old = vals[k[0]][k[1]]
        if k[2] >= 0: v = old & ~(((1 << 64) - 1) << 64 * k[2]) | (v & (1 << 64) - 1) << 64 * k[2]
        for n in vals:
            if addr[n] == addr[k[0]]: vals[n][k[1]] = v
    for rnd in range(2):
        for k, e in t['whole'] + t['forced']:
            put(k, sum(c * (get(s) if s else 1) for s, c in e))
        for z in t['eqs']:
            # an operand that occurs to degree one (a square root for degree two), not fixed otherwise
            cand = sorted({a for m, c in z for a in m if ok(a)}); rng.shuffle(cand)
            for a in cand:
                co = [0, 0, 0]
                for m, c in z:
                    dg = sum(x == a for x in m); v = c
                    for x in m:
                        if x != a: v = v * get(x) % p
                    if dg > 2: break
                    co[dg] += v
                else:
                    c0, c1, c2 = (x % p for x in co)
                    if c2 == 0 and c1: put(a, -c0 * pow(c1, -1, p) % p); break
                    if c2:
                        D = (c1 * c1 - 4 * c0 * c2) % p; r = pow(D, (p + 1) // 4, p)
                        if r * r % p == D: put(a, (r * rng.choice([1, -1]) - c1) * pow(2 * c2, -1, p) % p); break
    for n, k in spec.ins():
        for i in range(len(KINDS[k])):
            if not 0 <= vals[n][i] < spec.bound(p, n, k, i): return None
    return vals

def _deadline(t):
    n = [0]
    def tr(s, pc, text):
        n[0] += 1
        if n[0] & 63 == 0 and time.time() > t: raise Unsupported('time limit')
    return tr

class ExactPoly:
    """integer polynomial for the exact (unreduced) routines"""
    def comps(self): return [self]
    def __init__(self, d): self.d = d if isinstance(d, dict) else ({(): d} if d else {})
    def __add__(self, o): return ExactPoly(poly.padd(self.d, _ep(o)))
    __radd__ = __add__
    def __sub__(self, o): return ExactPoly(poly.padd(self.d, _ep(o), -1))
    def __rsub__(self, o): return ExactPoly(poly.padd(_ep(o), self.d, -1))
    def __mul__(self, o): return ExactPoly(poly.pmul(self.d, _ep(o)))
    __rmul__ = __mul__
def _ep(o): return o.d if isinstance(o, ExactPoly) else ({(): o} if o else {})

import z3
def confirm(p, got, want, limit=60):
    """final identity, asked of z3 over the integers when it is small enough: sum(got)-sum(want) = p*K has no
    counterexample.  Larger identities are decided by the ring normal form alone (got == want term by term)."""
    if len(got) > limit: return got == want
    vs = {}
    def v(a): return vs.setdefault(a, z3.Int('a%s' % (a,)))
    def ex(d):
        t = []
        for m, c in d.items():
            e = z3.IntVal(c)
            for a in m: e = e * v(a)
            t.append(e)
        return z3.Sum(t) if t else z3.IntVal(0)
    s = z3.Solver(); s.set('timeout', 10000)
    t0 = time.time()
    s.add(z3.simplify(ex(got) - ex(want), som=True) != 0)
    r = s.check(); STATS.q += 1; STATS.t += time.time() - t0
    return r == z3.unsat

# ---- concrete side -------------------------------------------------------------------------
def words(v, n): return v.to_bytes(8 * n, 'little')
def pool(bound, rng, special):
    """boundary-heavy random value below bound"""
    k = rng.randrange(10)
    nb = (bound - 1).bit_length(); nw = (nb + 63) // 64
    if k == 0: v = rng.choice(special)
    elif k == 1: v = bound - 1 - rng.choice([0, 1, 2, 3, rng.getrandbits(64), rng.getrandbits(128)])
    elif k == 2: v = rng.choice([0, 1, 2, 3])
    elif k <= 6:
        v = 0
        for i in range(nw): v |= rng.choice([0, 0, 1, (1 << 64) - 1, (1 << 64) - 1, (1 << 64) - 2, 1 << 63, (1 << 63) - 1, rng.getrandbits(64)]) << (64 * i)
        v &= (1 << nb) - 1
    else: v = rng.randrange(bound)
    if v < 0 or v >= bound: v = v % bound
    return v
def specials(p):
    R = 1 << 256
    s = []
    for b in (p, R % p, pow(R, 2, p), pow(R, -1, p), p >> 1, (p + 1) // 2, p >> 2, R - p, 2 * p, 3 * p, p & ((1 << 64) - 1), p & ((1 << 128) - 1), p & ((1 << 192) - 1), 1 << 64, 1 << 128, 1 << 192, 1 << 255,
              p << 256, (p << 256) >> 1, (p << 256) >> 2, (p << 256) >> 3, p * p, R, p << 64, p << 128, p << 192):
        for dlt in (-2, -1, 0, 1, 2):
            if b + dlt >= 0: s.append(b + dlt)
    return s
def draw(spec, cfg, alias, rng, sp):
    """input object -> list of component ints"""
    addr = layout(spec, alias); done = {}; out = {}
    style = rng.randrange(8)
    def one(b):
        if style == 0: return b - 1 - rng.choice([0, 0, 1, 2, rng.getrandbits(64), rng.getrandbits(128), rng.getrandbits(240)]) % b
        if style == 1: return rng.choice([0, 1, b - 1, b >> 1, rng.randrange(b)])
        if style == 2: return rng.randrange(b)
        return pool(b, rng, sp)
    for n, k in spec.ins():
        key = addr[n]
        if spec.draw and key not in done: done[key] = spec.draw(rng, cfg, n)
        if key not in done:
            m = len(KINDS[k]); v = done[key] = [one(spec.bound(cfg.p, n, k, i)) for i in range(m)]
            if m > 1 and rng.randrange(3) == 0:         # blocks that are zero, or equal to another block of this or an earlier operand
                w = rng.choice([q for q in (1, 2, 6) if m % q == 0 and q < m] + [1]); zero = rng.randrange(2)
                for i in range(0, m, w):
                    if rng.randrange(2): continue
                    src = [0] * w
                    if not zero:
                        o = rng.choice([x for x in done.values() if len(x) >= w]); j = rng.randrange(0, len(o) - w + 1, w); src = o[j:j + w]
                    if all(x < spec.bound(cfg.p, n, k, i + q) for q, x in enumerate(src)): v[i:i + w] = src
        out[n] = done[key]
    return out
def reference(spec, cfg, vals):
    """expected raw output components; D/loose components are residues"""
    F = cfg.F; p = cfg.p; env = {}
    exact = any(c[0] == 'U' for n, k in spec.outs() for c in KINDS[k])
    for n, k in spec.ins():
        cs = []
        for v, c in zip(vals[n], KINDS[k]):
            if exact or c[0] == 'U': cs.append(v)
            elif c == 'F': cs.append(F.el(v * F.Ri))
            else: cs.append(F.el(v * F.Ri * F.Ri))
        env[n] = build_value(k, cs)
    want = spec.fn(None if exact else F, env)
    out = {}
    for n, k in spec.outs():
        r = []
        for e, c in zip(flat(want[n]), KINDS[k]):
            if exact or e is None: r.append(e)
            else:
                e = e.int() if isinstance(e, El) else e % p
                r.append(e * F.R % p if c == 'F' else e * F.R * F.R % p)
        out[n] = r
    return out
class Native:
    def __init__(self, exe, cfg):
        from image import Server
        self.srv = Server(exe, cfg.args); self.ent, self.syms = self.srv.table()
    def close(self): self.srv.close()
    def batch(self, spec, cfg, alias, cases, chunk=400):
        addr = layout(spec, alias)
        seen = []; segs = []
        for n, k in spec.ins():
            if addr[n] not in seen: seen.append(addr[n]); segs.append((n, k))
        outs = spec.outs()
        a = [addr[n] if k in KINDS else spec.ints[n] for n, k, m in spec.args]
        a = (a + [0] * 6)[:6]
        res = []
        for c0 in range(0, len(cases), chunk):
            cs = cases[c0:c0 + chunk]
            data = b''.join(b''.join(words(v, CW[c]) for n, k in segs for v, c in zip(case[n], KINDS[k])) for case in cs)
            line = 'b %x %s %d %s %d %s %d %s' % (self.ent[spec.name], ' '.join('%x' % (x & (1 << 64) - 1) for x in a),
                len(segs), ' '.join('%x %d' % (addr[n], size(k)) for n, k in segs),
                len(outs), ' '.join('%x %d' % (addr[n], size(k)) for n, k in outs), len(cs), data.hex())
            for r in self.srv.cmd(line).split():
                st, h = r.split(':'); b = bytes.fromhex(h); o = 0; out = {}
                for n, k in outs:
                    v = []
                    for c in KINDS[k]: v.append(int.from_bytes(b[o:o + 8 * CW[c]], 'little')); o += 8 * CW[c]
                    out[n] = v
                res.append((st, out))
        return res
def mismatch(spec, cfg, vals, st, out):
    if st.startswith('sig') or st == 'exc': return 'the call ended with ' + st
    want = reference(spec, cfg, vals)
    for n, k in spec.outs():
        for i, c in enumerate(KINDS[k]):
            g, w = out[n][i], want[n][i]
            if w is None: continue
            if c[0] == 'U':
                w %= 1 << 64 * CW[c]
                if g != w: return '%s[%d] is 0x%x, should be 0x%x' % (n, i, g, w)
                continue
            B = spec.bound(cfg.p, n, k, i, True)
            if g >= B: return '%s[%d] = 0x%x is not below its bound 0x%x' % (n, i, g, B)
            if (g - w) % cfg.p: return '%s[%d] = 0x%x is not congruent to 0x%x' % (n, i, g, w)
    return None
def search(exe, cfg, spec, alias, seed, n, deadline, extra=(), templates=()):
    """concrete counterexample, replayed natively"""
    rng = random.Random('%s|%s|%s|%s' % (seed, cfg.name, spec.name, alias)); sp = specials(cfg.p)
    nat = Native(exe, cfg); tried = 0
    try:
        todo = list(extra)
        while tried < n and time.time() < deadline:
            cases = todo or [draw(spec, cfg, alias, rng, sp) for _ in range(min(400, n - tried))]
            todo = []
            if templates:
                cs = [apply_template(rng.choice(templates), c, spec, cfg, alias, rng) if rng.randrange(4) else c for c in cases]
                cases = [c for c in cs if c] or cases
            for vals, (st, out) in zip(cases, nat.batch(spec, cfg, alias, cases)):
                tried += 1
                m = mismatch(spec, cfg, vals, st, out)
                if m: return dict(inputs={k: ['0x%x' % x for x in v] for k, v in vals.items()}, observed=m), tried
    finally: nat.close()
    return None, tried
