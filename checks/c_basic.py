"""Conversions, comparisons, predicates and copies of the field and point classes (part of C01, C02, C05-C07, C12, C23).
Words are bit vectors; Montgomery multiplication and negation are uninterpreted functions on 256-bit values, so the code has to
apply them to the right operands; both sides of every branch on data are merged."""
import random, time, z3
import build, limb, contracts, ring
from limb import ARENA, Config
from x86 import PathEnd, Unsupported
from zbv import ZB, ZExec, bv, BV, fresh, M64
from poly import STATS
from check import Ob
from c_util import cstr
S = 0x1000
MUL = z3.Function('montmul', z3.BitVecSort(256), z3.BitVecSort(256), z3.BitVecSort(256))
NEG = z3.Function('negmod', z3.BitVecSort(256), z3.BitVecSort(256))
PROD = z3.Function('product', z3.BitVecSort(256), z3.BitVecSort(256), z3.BitVecSort(512))
REM = z3.Function('remainder', z3.BitVecSort(512), z3.BitVecSort(256), z3.BitVecSort(256))
def cat(ws): return z3.Concat([bv(w) for w in reversed(ws)]) if len(ws) > 1 else bv(ws[0])
def split(v, n=4): return [z3.Extract(64 * i + 63, 64 * i, v) for i in range(n)]
def sim(e): return z3.simplify(e) if z3.is_expr(e) else e
class K:
    """the functions of the specification, symbolic or on numbers"""
    def __init__(self, cfg): self.cfg = cfg; self.p = cfg.p
    def mul(self, a, b):
        a, b = sim(a), sim(b)
        if z3.is_bv_value(a) and z3.is_bv_value(b): return BV(a.as_long() * b.as_long() * self.cfg.F.Ri % self.p, 256)
        return MUL(a, b)
    def neg(self, a):
        a = sim(a)
        return BV(-a.as_long() % self.p, 256) if z3.is_bv_value(a) else NEG(a)
    def ofint(self, x):
        """the element with the signed 32-bit value x"""
        R2 = BV(self.cfg.F.R ** 2 % self.p, 256); m = z3.SignExt(224, x)
        x = sim(x)
        if z3.is_bv_value(x): return BV(x.as_signed_long() * self.cfg.F.R % self.p, 256)
        return z3.If(x == 0, BV(0, 256), z3.If(x == 1, BV(self.cfg.F.R % self.p, 256), z3.If(x > 0, MUL(m, R2), NEG(MUL(-m, R2)))))
    def to_mont(self, x):
        """x R mod p by big integers"""
        x = sim(x); R = self.cfg.F.R % self.p
        if z3.is_bv_value(x): return BV(x.as_long() * R % self.p, 256)
        return REM(PROD(x, BV(R, 256)), BV(self.p, 256))
    def zero(self, ws): return z3.And([bv(w) == 0 for w in ws])
    def eq(self, a, b): return z3.And([bv(x) == bv(y) for x, y in zip(a, b)])

class C:
    """args: ('o', words) output, ('i', words) operand, ('io', words), ('n',) a signed int; fn(k, v) -> dict(out={i: words}, flag=bool, ret=word,
    sgn=(lt, eq) sign of an int, throws=UF flag); valid: a call of isValid is answered by a free boolean"""
    def __init__(self, name, args, fn, same=None, valid=False, vu=False): self.name, self.args, self.fn, self.same, self.valid, self.vu = name, args, fn, same or {}, valid, vu

class BasicOb(Ob):
    timeout = 60
    def __init__(self, cfg, c):
        self.cfg, self.c = cfg, c; self.entry = c.name; self.cost = 1
        self.key = '%s %s [bits]%s%s' % (cfg.name, c.name, ' %d words' % c.args[1][1] if c.vu else '', ' same %s' % c.same if c.same else ''); self.functions = [c.name[2:]]
    def hooks(self, img, note):
        h = contracts.mem_hooks(img)
        rd = lambda s, a: cat([s.load(a + 8 * i) for i in range(4)])
        def ret(s):
            for i in (0, 1, 2, 6, 7, 8, 9, 10, 11): s.r[i] = fresh('clob')
            for i in range(len(s.x)): s.x[i] = (fresh('clob'), fresh('clob'))
            s.fl = None; s.pc = s.load(s.r[4]); s.r[4] += 8
        def st(s, z, v):
            for i, w in enumerate(split(v)): s.store(z + 8 * i, sim(w))
        def mul(s): note.add('Fp::mul'); z, x, y = s.r[7], s.r[6], s.r[2]; st(s, z, MUL(rd(s, x), rd(s, y))); ret(s)
        def neg(s): note.add('Fp::neg'); z, x = s.r[7], s.r[6]; st(s, z, NEG(rd(s, x))); ret(s)
        h[img.entries['Fp::mul']] = mul; h[img.entries['Fp::neg']] = neg
        def die(why):
            def f(s): raise PathEnd(why)
            return f
        for n in ('__cxa_throw', '__cxa_allocate_exception'):
            for a in ring.plt(img, n): h[a] = die('throw')
        if self.c.valid:
            cstr(img, '?')
            for n, d in img.dem2.items():
                if '::isValid() const' in d and ('EcT' in d or 'Ec' in d) and not d.startswith('J::'):
                    def f(s): note.add('isValid'); v = z3.BitVec('isvalid', 64); a = s.r[7]; ret(s); s.r[0] = v & 1; s.user['va'] = a
                    h[img.addr2[n]] = f
        if self.c.vu: self.vuint(img, h, note, ret)
        return h
    def vuint(self, img, h, note, ret):
        import c_vuint
        hv = c_vuint.hooks(img)
        for nm in ('memmove', 'memcpy'):
            for a in ring.plt(img, nm): h[a] = hv[a]
        cstr(img, '?')
        def num(s, a, n):
            k = s.load(a + 72)
            if not isinstance(k, int): ks = s.dom.values(k); k = ks[0] if len(ks) == 1 else None
            if not isinstance(k, int) or k > n: raise Unsupported('size of a big integer')
            return cat([s.load(a + 8 * i) if i < k else 0 for i in range(n)])
        def vmul(s):
            note.add('Vuint::mul'); z, x, y = s.r[7], s.r[6], s.r[2]; a, b = sim(num(s, x, 4)), sim(num(s, y, 4))
            if z3.is_bv_value(a): a, b = b, a
            for i, w in enumerate(split(PROD(a, b), 8)): s.store(z + 8 * i, w)
            s.store(z + 72, 8); ret(s)
        def vdiv(s):
            note.add('Vuint::div'); q, r, x, y = s.r[7], s.r[6], s.r[2], s.r[1]
            if not (isinstance(q, int) and q == 0): raise Unsupported('quotient wanted')
            ws = split(REM(num(s, x, 8), num(s, y, 4))); n = BV(1, 64)
            for i in (1, 2, 3): n = z3.If(ws[i] != 0, BV(i + 1, 64), n)
            for i, w in enumerate(ws): s.store(r + 8 * i, z3.If(z3.UGT(n, i), w, fresh('above')))
            s.store(r + 72, n); ret(s); s.r[0] = 1
        for n, d in img.dem2.items():
            if d.startswith('mie::VuintT<') and '>::mul(mie::VuintT' in d: h[img.addr2[n]] = vmul
            if d.startswith('mie::VuintT<') and '>::div(mie::VuintT' in d: h[img.addr2[n]] = vdiv
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = limb.image(ctx.exes, self.cfg); det = dict(paths=0, steps=0); note = set()
        why = self.run(img, det, note)
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, lemmas=sorted(note), status='proved' if not why else 'refuted')
        if why: det['why'] = why[:200]
        return det
    def run(self, img, det, note):
        c = self.c; h = self.hooks(img, note); d = ZB(); d.qfbv = False; ex = ZExec(img, h); s = ex.start(d, img.entries[c.name], [])
        vals, addr = [], []
        for i, (a, reg) in enumerate(zip(c.args, (7, 6, 2, 1))):
            if a[0] == 'c': vals.append(None); addr.append(None); s.r[reg] = a[1]; continue
            if a[0] == 'n': v = z3.BitVec('n%d' % i, 32); vals.append(v); addr.append(None); s.r[reg] = z3.Concat(z3.BitVec('hi%d' % i, 32), v); continue
            if i in c.same: j = c.same[i]; addr.append(addr[j]); vals.append(vals[j]); s.r[reg] = addr[j]; continue
            ad = ARENA + S * i; addr.append(ad); s.r[reg] = ad
            ws = [z3.BitVec('%s%d_%d' % ('x' if a[0] != 'o' else 'junk', i, k), 64) for k in range(a[1])]
            for k, w in enumerate(ws): s.mem[ad + 8 * k] = w
            if c.vu and a[0] == 'i' and a[1] > 1: d.pcs.append(ws[-1] != 0)
            vals.append(ws if a[0] != 'o' else None)
        inw = dict(s.mem); k = K(self.cfg); exp = c.fn(k, vals); outs = {addr[i] for i in exp.get('out', {})}
        n = 0
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps; end = f.user['end']; viol = []
            if end == 'throw' and c.valid: viol.append(('exception for a valid point', z3.BitVec('isvalid', 64) & 1 == 1))
            elif end != 'ret': raise Unsupported('ends by ' + end)
            else:
                n += 1
                if c.valid:
                    if f.user.get('va', addr[0]) != addr[0]: return 'validity of another object'
                    if c.valid == 'yes':
                        viol.append(('invalid point accepted', z3.BitVec('isvalid', 64) & 1 == 0))
                for i, ws in exp.get('out', {}).items():
                    for j, w in enumerate(ws):
                        if w is not None: viol.append(('word %d of argument %d' % (j, i), bv(f.load(addr[i] + 8 * j)) != bv(w)))
                if 'flag' in exp: viol.append(('returned flag', (z3.Extract(7, 0, bv(f.r[0])) == 1) != exp['flag'])); viol.append(('returned flag', z3.UGT(z3.Extract(7, 0, bv(f.r[0])), 1)))
                if 'ret' in exp: viol.append(('returned value', bv(f.r[0]) != bv(exp['ret'])))
                if 'sgn' in exp:
                    lt, eq = exp['sgn']; r = z3.Extract(31, 0, bv(f.r[0])); viol.append(('returned order', z3.Not(z3.If(lt, r < 0, z3.If(eq, r == 0, r > 0)))))
                for i, a in enumerate(c.args):
                    if a[0] == 'i' and addr[i] not in outs:
                        for j in range(a[1]): viol.append(('operand %d changed' % i, bv(f.mem[addr[i] + 8 * j]) != bv(inw[addr[i] + 8 * j])))
            viol = [v for v in viol if not z3.is_false(z3.simplify(v[1]))]
            if viol:
                m = f.dom.sat(z3.Or([v for _, v in viol]))
                if m is not None:
                    low = [z3.ULT(cat(v[j:j + 4]), BV(self.cfg.p, 256)) for a, v in zip(c.args, vals) if v is not None and a[0] in ('i', 'io') and a[1] >= 4 and not c.vu for j in range(0, a[1] // 4 * 4, 4)]
                    vs = z3.Or([v for _, v in viol])
                    try: mm = f.dom.sat(vs, *low)
                    except Unsupported: mm = None
                    def ev(x): return (mm or m).eval(x, model_completion=True).as_long()
                    det['hints'] = [{i: [ev(w) for w in v] if isinstance(v, list) else ev(v) for i, v in enumerate(vals) if v is not None and i not in c.same}]
                    return next((nm for nm, v in viol if z3.is_true(m.eval(v, model_completion=True))), viol[0][0])
        if not n: return 'never returns'
        return None
    # ---- native
    def validate(self, ctx): return self.native(ctx, ctx.seed, 60, time.time() + 10)
    def witness(self, ctx, hints): return self.native(ctx, ctx.seed + 3, 20000, ctx.wdeadline, hints)
    def native(self, ctx, seed, n, deadline, hints=None):
        c = self.c; nat = limb.Native(ctx.exes[self.cfg.variant], self.cfg); rng = random.Random('%s|%s' % (seed, self.key)); p = self.cfg.p; tried = 0; k = K(self.cfg)
        W = lambda ws: b''.join((w & M64).to_bytes(8, 'little') for w in ws)
        pool = [0, 1, 2, p - 1, p - 2, self.cfg.F.R % p, self.cfg.F.R ** 2 % p, 1 << 64, 1 << 192, (1 << 253), 1 << 128, (1 << 64) - 1]
        if any(a[0] == 'n' for a in c.args): pool = [x * self.cfg.F.R % p for x in (0, 1, 2, -1, -2, 3, 5, 2**31 - 1, -2**31, -2**31 + 1)]
        try:
            while tried < n and time.time() < deadline:
                vals, addr, args, prev, sent = [], [], [], None, {}
                hint = hints[0] if hints and (tried == 0 or rng.random() < .2) else {}
                for i, a in enumerate(c.args):
                    if a[0] == 'n':
                        v = hint[i] - (hint[i] >> 31 << 32) if i in hint and tried < 50 else rng.choice([0, 1, 2, -1, -2, 3, 5, 2**31 - 1, -2**31, -2**31 + 1, 65536, rng.randrange(-2**31, 2**31), rng.randrange(-100, 100)]); vals.append(BV(v, 32)); addr.append(None); args.append(v & 0xffffffff | rng.getrandbits(32) << 32); continue
                    if a[0] == 'c': vals.append(None); addr.append(None); args.append(a[1]); continue
                    if i in c.same: j = c.same[i]; addr.append(addr[j]); vals.append(vals[j]); args.append(addr[j]); continue
                    ad = ARENA + S * i; addr.append(ad); args.append(ad)
                    if a[0] == 'o': vals.append(None); ws = [rng.getrandbits(64) for _ in range(a[1])]; nat.srv.write(ad, W(ws)); continue
                    ws = []
                    zero = rng.random() < .2
                    if a[1] < 4: ws = [rng.choice([0, 1, M64, rng.getrandbits(64)]) for _ in range(a[1])]
                    for _ in range(a[1] // 4):
                        x = 0 if zero or rng.random() < .2 else rng.choice(pool) if rng.random() < .5 else rng.randrange(p); ws += [x >> 64 * j & M64 for j in range(4)]
                    if zero and rng.random() < .7: ws[rng.randrange(len(ws))] = rng.choice([1, 1 << rng.randrange(60), 1 << 61 if p >> 253 else 1])
                    if prev and len(prev) == len(ws) and rng.random() < .6:
                        ws = list(prev)
                        if rng.random() < .6:
                            b = rng.randrange(len(ws) // 4) * 4; j = rng.randrange(4); ws[b + j] ^= 1 << rng.randrange(60)
                            if sum(x << 64 * q for q, x in enumerate(ws[b:b + 4])) >= p: ws = list(prev)
                    if i in hint and (tried == 0 or rng.random() < .6):
                        ws = list(hint[i])
                        if not c.vu and any(sum(x << 64 * q for q, x in enumerate(ws[j:j + 4])) >= p for j in range(0, len(ws) - 3, 4)): ws = [x & (1 << 60) - 1 if k_ % 4 == 3 else x for k_, x in enumerate(ws)]
                    prev = ws; vals.append([BV(w, 64) for w in ws]); nat.srv.write(ad, W(ws)); sent[i] = ws
                st = nat.srv.call(nat.ent[c.name], *args); tried += 1; exp = c.fn(k, vals); why = ''; isv = None
                if c.valid: isv = self.valid_native([w for i in sorted(sent) for w in sent[i]])
                if c.valid == 'yes' and not isv:
                    if st.startswith('ret'): why = 'an invalid point is accepted'
                elif not st.startswith('ret'): why = 'ended with ' + st
                else:
                    r = int(st.split()[1], 16) if len(st.split()) > 1 else 0
                    for i, ws in exp.get('out', {}).items():
                        raw = nat.srv.read(addr[i], 8 * len(ws))
                        for j, w in enumerate(ws):
                            if w is not None and int.from_bytes(raw[8 * j:8 * j + 8], 'little') != sim(bv(w)).as_long(): why = why or 'word %d of argument %d is wrong' % (j, i)
                    if 'flag' in exp and (r & 255) != int(z3.is_true(sim(exp['flag']))): why = 'returned %d' % (r & 255)
                    if 'ret' in exp and r != sim(bv(exp['ret'])).as_long(): why = 'returned %#x' % r
                    if 'sgn' in exp:
                        lt, eq = exp['sgn']; v = r & 0xffffffff; v -= (v >> 31) << 32; w = -1 if z3.is_true(sim(lt)) else 0 if z3.is_true(sim(eq)) else 1
                        if (v > 0) - (v < 0) != w: why = 'returned %d' % v
                if why: return dict(entry=c.name, config=self.cfg.name, same={str(a): b for a, b in c.same.items()}, inputs={str(i): [hex(w) for w in ws] for i, ws in sent.items()}, ints=[v.as_signed_long() for v, a in zip(vals, c.args) if a[0] == 'n'], observed=why), tried
            return None, tried
        finally: nat.close()
    def valid_native(self, ws):
        p, F = self.cfg.p, self.cfg.F; e = [sum(w << 64 * j for j, w in enumerate(ws[i:i + 4])) * F.Ri % p for i in range(0, len(ws), 4)]
        ext = len(e) in (4, 6) and 'Ec2' in self.c.name
        from c_curve import Curve
        b = Curve(self.cfg, True).b.c if ext else None
        if not ext:
            x, y, z = (e + [1])[:3]
            return z == 0 or (y * y - x ** 3 - self.cfg.b * pow(z, 6, p)) % p == 0
        import refpair
        R = refpair.R(self.cfg); m = R.m2
        x, y = tuple(e[:2]), tuple(e[2:4]); z = tuple(e[4:6]) if len(e) == 6 else (1, 0)
        if not any(z): return True
        z2 = m(z, z); z6 = m(z2, m(z2, z2)); bb = tuple(c.int() for c in b); x3 = m(x, m(x, x)); y2 = m(y, y); bz = m(bb, z6)
        return all((y2[i] - x3[i] - bz[i]) % p == 0 for i in (0, 1))

def fq(T): return {'Fp': 4, 'Fp2': 8, 'Fp6': 24, 'Fp12': 48, 'FpDbl': 8, 'Ec1': 12, 'Ec2': 24}[T]
def lowfirst(ws, n): return list(ws) + [BV(0, 64)] * (n - len(ws))
def c_clear(T): return C('c:%s::clear' % T, [('o', fq(T))], lambda k, v: dict(out={0: [BV(0, 64)] * fq(T)}))
def c_int(T, name=None): return C(name or 'c:%s::set_int' % T, [('o', fq(T)), ('n',)], lambda k, v: dict(out={0: lowfirst(split(k.ofint(v[1])), fq(T))}))
def c_zero(T): return C('c:%s::isZero' % T, [('i', fq(T))], lambda k, v: dict(flag=k.zero(v[0])))
def c_eq(T, op='op=='):
    f = lambda k, v: dict(flag=k.eq(v[0], v[1]) if op == 'op==' else z3.Not(k.eq(v[0], v[1])))
    a = [('i', fq(T)), ('i', fq(T))]
    return [C('c:%s::%s' % (T, op), a, f), C('c:%s::%s' % (T, op), a, f, {1: 0})]
def c_set(T, n, name, valid):
    one = lambda k: split(BV(k.cfg.F.R % k.p, 256)) + [BV(0, 64)] * (fq(T) // 3 - 4)
    w = fq(T) // 3
    return C(name, [('o', fq(T))] + [('i', w)] * n, lambda k, v: dict(out={0: [x for q in v[1:] for x in q] + (one(k) if n == 2 else [])}), valid=valid)
def rlt(xs, ys):
    e = z3.BoolVal(False)
    for a, b in zip(xs, ys): e = z3.If(bv(a) == bv(b), e, z3.ULT(bv(a), bv(b)))
    return e
def low(k, x): return split(k.mul(cat(x), BV(1, 256)))
def c_get():
    def f(k, v):
        ws = low(k, v[1]); n = BV(1, 64)
        for i in (1, 2, 3): n = z3.If(ws[i] != 0, BV(i + 1, 64), n)
        return dict(out={0: ws + [n]})
    def ob(k, v):       # only the words below the reported size are written
        d = f(k, v); return dict(size=d['out'][0][4], out=d['out'])
    return C('c:Fp::get', [('io', 5), ('i', 4)], lambda k, v: (lambda d: dict(out={0: [z3.If(z3.UGT(d['size'], i), w, bv(v[0][i])) for i, w in enumerate(d['out'][0][:4])] + [d['size']]}))(ob(k, v)))
def shr(n): return lambda k, v: dict(out={0: split(z3.LShR(cat(v[1]), n))})
def cases(prop):
    r = []
    if prop == 'C01':
        r += [c_clear('Fp'), c_zero('Fp')] + c_eq('Fp') + c_eq('Fp', 'op!=')
        r += [C('c:Fp::compare', [('i', 4), ('i', 4)], lambda k, v: dict(sgn=(rlt(v[0], v[1]), k.eq(v[0], v[1])))),
              C('c:Fp::compare', [('i', 4), ('i', 4)], lambda k, v: dict(sgn=(rlt(v[0], v[1]), k.eq(v[0], v[1]))), {1: 0})]
        for n in (1, 2):
            for sm in ({}, {1: 0}): r.append(C('Fp::shr%d' % n, [('io' if sm else 'o', 4), ('i', 4)], shr(n), sm))
    if prop == 'C02':
        r += [c_int('Fp'), C('c:Fp::getLow', [('i', 4)], lambda k, v: dict(ret=low(k, v[0])[0])), C('c:Fp::isOdd', [('i', 4)], lambda k, v: dict(flag=z3.Extract(0, 0, low(k, v[0])[0]) == 1)),
              C('c:Fp::op==int', [('i', 4), ('n',)], lambda k, v: dict(flag=k.eq(v[0], split(k.ofint(v[1]))))), c_get()]
        for n in (1, 2, 3, 4): r.append(C('c:Fp::set_Vuint', [('o', 4), ('i', n), ('c', n)], lambda k, v: dict(out={0: split(k.to_mont(cat(list(v[1]) + [0] * (4 - len(v[1])))))}), vu=True))
    if prop == 'C04': r += c_eq('FpDbl')
    if prop == 'C05': r += [c_clear('Fp2'), c_int('Fp2'), c_zero('Fp2')] + c_eq('Fp2') + c_eq('Fp2', 'op!=')
    if prop == 'C06': r += [c_int('Fp6'), c_zero('Fp6')] + c_eq('Fp6')
    if prop == 'C07': r += [c_int('Fp12'), c_zero('Fp12')] + c_eq('Fp12')
    if prop == 'C12':
        for T in ('Ec1', 'Ec2'): r += [c_clear(T), c_set(T, 2, 'c:%s::set2' % T, 'yes'), c_set(T, 3, 'c:%s::set3' % T, 'yes'), c_set(T, 2, 'c:%s::set2nv' % T, False)]
    return r
def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []
    for c in [('bn', 1, 1), ('snark3', 1, 1)] + ([('bn', 0, 0), ('snark82', 0, 1)] if ctx.thorough else []):
        cfg = Config(*c); limb.image(ctx.exes, cfg); obs += [BasicOb(cfg, x) for x in cases(prop)]
    return obs, dict(bounds='conversions, comparisons, predicates and copies: every operand word', outside='', assumptions=[])

# ---------------- C23
def java(cfg):
    r = []
    for T in ('Fp', 'Fp2', 'Fp12'): r += [c_int(T)] + c_eq(T)
    r += [c_int('Fp', 'j:Fp::set'), C('j:Fp2::ctor_ii', [('o', 8), ('n',), ('n',)], lambda k, v: dict(out={0: split(k.ofint(v[1])) + split(k.ofint(v[2]))})),
          C('j:Fp2::ctor_ff', [('o', 8), ('i', 4), ('i', 4)], lambda k, v: dict(out={0: v[1] + v[2]}))]
    at = lambda o: (lambda k, v: dict(ret=BV(ARENA + o, 64)))
    r += [C('j:Fp2::getA', [('i', 8)], at(0)), C('j:Fp2::getB', [('i', 8)], at(32))]
    for T in ('Fp', 'Fp2', 'Fp12', 'Ec1', 'Ec2'): r.append(C('j:%s::copy' % T, [('o', fq(T)), ('i', fq(T))], lambda k, v: dict(out={0: v[1]})))
    for T in ('Ec1', 'Ec2'):
        w = fq(T) // 3
        r += [c_clear(T), C('j:%s::ctor' % T, [('o', 3 * w)], lambda k, v, w=w: dict(out={0: [None] * 2 * w + [BV(0, 64)] * w}))]
        r += [c_set(T, 2, 'c:%s::set2' % T, 'yes'), c_set(T, 3, 'c:%s::set3' % T, 'yes'), c_set(T, 2, 'j:%s::ctor2' % T, 'yes'), c_set(T, 3, 'j:%s::ctor3' % T, 'yes')]
        r += [C('j:%s::get%s' % (T, n), [('i', 3 * w)], at(8 * w * i)) for i, n in enumerate('XYZ')]
    obs = [BasicOb(cfg, c) for c in r]
    I = lambda f: f
    for op in ('add', 'sub', 'mul', 'mod', 'copy', 'equals', 'compareTo', 'ctor_int', 'set'):
        obs.append(MpzOb(cfg, op))
        if op in ('add', 'sub', 'mul', 'mod', 'equals', 'compareTo'): obs.append(MpzOb(cfg, op, True))
    obs.append(ParamR(cfg))
    return obs

class MpzOb(Ob):
    """the wrapped big integers: which GMP function is applied to which operands"""
    timeout = 60; cost = 1
    def __init__(self, cfg, op, same=False):
        self.cfg, self.op, self.same = cfg, op, same; self.entry = 'j:Mpz::' + op; self.key = '%s %s%s' % (cfg.name, self.entry, ' z=x' if same else ''); self.functions = ['Mpz::' + op]
    def hooks(self, img, note):
        h = contracts.mem_hooks(img); TREM = z3.Function('tdiv_r', z3.IntSort(), z3.IntSort(), z3.IntSort())
        def val(s, a):
            v = s.user.get(('mpz', a))
            if v is None: raise Unsupported('unknown big integer')
            return v
        def ret(s, v=None):
            for i in (0, 1, 2, 6, 7, 8, 9, 10, 11): s.r[i] = fresh('clob')
            if v is not None: s.r[0] = v
            s.fl = None; s.pc = s.load(s.r[4]); s.r[4] += 8
        def bin_(f):
            def g(s): s.user[('mpz', s.r[7])] = f(val(s, s.r[6]), val(s, s.r[2])); ret(s)
            return g
        def set_(s): s.user[('mpz', s.r[7])] = val(s, s.r[6]); ret(s)
        def seti(s):
            v = bv(s.r[6]); s.user[('mpz', s.r[7])] = z3.BV2Int(v, True); ret(s)
        def setu(s): s.user[('mpz', s.r[7])] = z3.BV2Int(bv(s.r[6])); ret(s)
        def init(s): s.user[('mpz', s.r[7])] = z3.IntVal(0); ret(s)
        def cmp_(s):
            a, b = val(s, s.r[7]), val(s, s.r[6]); r = fresh('cmp', 32); ret(s, z3.ZeroExt(32, r))
            s.dom.qfbv = False; s.dom.pcs.append(z3.And((r < 0) == (a < b), (r == 0) == (a == b)))
        T = {'add': bin_(lambda a, b: a + b), 'sub': bin_(lambda a, b: a - b), 'mul': bin_(lambda a, b: a * b), 'tdiv_r': bin_(TREM), 'set': set_, 'init_set': set_, 'set_si': seti, 'init_set_si': seti, 'set_ui': setu, 'init_set_ui': setu, 'init': init, 'cmp': cmp_}
        for n, f in T.items():
            for a in ring.plt(img, '__gmpz_' + n):
                def g(s, f=f, n=n): note.add('mpz_' + n); return f(s)
                h[a] = g
        self.TREM = TREM
        return h
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = limb.image(ctx.exes, self.cfg); det = dict(paths=0, steps=0); note = set(); h = self.hooks(img, note)
        d = ZB(); d.qfbv = False; ex = ZExec(img, h); s = ex.start(d, img.entries[self.entry], []); A0, A1 = ARENA, ARENA if self.same else ARENA + S
        a = z3.Int('a'); b = a if self.same else z3.Int('b'); n = z3.BitVec('n', 32); s.r[7] = A0; s.r[6] = A1; bad = None
        for i in (A0, A1):
            s.mem[i] = z3.BitVec('hd%d' % (i != A0), 64); s.mem[i + 8] = z3.BitVec('ptr%d' % (i != A0), 64)
        isint = self.op in ('ctor_int', 'set')
        if isint: s.r[6] = z3.Concat(z3.BitVec('hi', 32), n)
        new = self.op in ('copy', 'ctor_int')
        if not new: s.user[('mpz', A0)] = a
        if not isint: s.user[('mpz', A1)] = b
        want = {'add': a + b, 'sub': a - b, 'mul': a * b, 'mod': self.TREM(a, b), 'copy': b, 'ctor_int': z3.BV2Int(n, True), 'set': z3.BV2Int(n, True)}.get(self.op)
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps
            if f.user['end'] != 'ret': bad = 'ends by ' + f.user['end']; break
            if want is not None:
                v = f.user.get(('mpz', A0))
                if v is None: bad = 'the result is not set'; break
                v, w = z3.simplify(v), z3.simplify(want)
                if not v.eq(w) and f.dom.sat(v != w) is not None: bad = 'value'; break
            if not isint and not self.same and not f.user[('mpz', A1)].eq(b): bad = 'the operand changes'; break
            if self.op == 'equals': viol = (z3.Extract(7, 0, bv(f.r[0])) == 1) != (a == b)
            elif self.op == 'compareTo': r = z3.Extract(31, 0, bv(f.r[0])); viol = z3.Not(z3.And((r < 0) == (a < b), (r == 0) == (a == b)))
            else: continue
            if f.dom.sat(viol) is not None: bad = 'returned value'; break
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='refuted' if bad else 'proved', lemmas=sorted(note))
        if bad: det['why'] = bad
        return det
    def validate(self, ctx): return self.native(ctx, ctx.seed, 60, time.time() + 8)
    def witness(self, ctx, hints): return self.native(ctx, ctx.seed + 5, 5000, ctx.wdeadline)
    def native(self, ctx, seed, n, deadline):
        nat = limb.Native(ctx.exes[self.cfg.variant], self.cfg); rng = random.Random('%s|%s' % (seed, self.key)); tried = 0; B = 4096
        def put(a, v):
            ws = []; x = abs(v)
            while x: ws.append(x & M64); x >>= 64
            nat.srv.write(a + 0x100, b''.join(w.to_bytes(8, 'little') for w in ws + [rng.getrandbits(64)] * (64 - len(ws))))
            nat.srv.write(a, (64 | ((-len(ws) if v < 0 else len(ws)) & 0xffffffff) << 32).to_bytes(8, 'little') + (a + 0x100).to_bytes(8, 'little'))
        def get(a):
            raw = nat.srv.read(a, 16); sz = int.from_bytes(raw[4:8], 'little', signed=True); d = int.from_bytes(raw[8:16], 'little')
            v = int.from_bytes(nat.srv.read(d, 8 * abs(sz)), 'little') if sz else 0
            return -v if sz < 0 else v
        try:
            while tried < n and time.time() < deadline:
                num = lambda: rng.choice([1, -1]) * rng.choice([0, 1, 2, 3, rng.getrandbits(10), rng.getrandbits(64), rng.getrandbits(200), 1 << 64, (1 << 64) - 1])
                A0, A1 = ARENA, ARENA if self.same else ARENA + S; a, b = num(), num(); k = rng.choice([0, 1, -1, 2**31 - 1, -2**31, rng.randrange(-2**31, 2**31)])
                if self.same: b = a
                elif rng.random() < .3: b = rng.choice([a, -a])
                if self.op == 'mod' and b == 0: continue
                isint = self.op in ('ctor_int', 'set')
                if self.op not in ('copy', 'ctor_int'): put(A0, a)
                else: nat.srv.write(A0, bytes(16))
                if not isint and not self.same: put(A1, b)
                st = nat.srv.call(nat.ent[self.entry], A0, k & 0xffffffff if isint else A1); tried += 1; why = ''
                if not st.startswith('ret'): why = 'ended with ' + st
                else:
                    r = int(st.split()[1], 16) if len(st.split()) > 1 else 0
                    if self.op == 'equals': ok = (r & 255) == int(a == b)
                    elif self.op == 'compareTo': v = r & 0xffffffff; v -= (v >> 31) << 32; ok = (v > 0) - (v < 0) == (a > b) - (a < b)
                    else:
                        rem = lambda: (abs(a) % abs(b)) * (-1 if a < 0 else 1)
                        w = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'mod': rem, 'copy': lambda: b, 'ctor_int': lambda: k, 'set': lambda: k}[self.op](); ok = get(A0) == w
                    if not ok: why = 'wrong result'
                if why: return dict(entry=self.entry, config=self.cfg.name, inputs=[str(a), str(b), k], same=self.same, observed=why), tried
            return None, tried
        finally: nat.close()
class ParamR(Ob):
    timeout = 30; cost = 1
    def __init__(self, cfg): self.cfg = cfg; self.key = cfg.name + ' GetParamR'; self.functions = ['GetParamR']
    def prove(self, ctx):
        v, t = self.native_value(ctx); q = STATS.q; s = z3.Solver(); s.add(z3.IntVal(v) != z3.IntVal(self.cfg.r)); STATS.q += 1
        return dict(status='proved' if s.check() == z3.unsat else 'refuted', queries=1, paths=1)
    def native_value(self, ctx):
        nat = limb.Native(ctx.exes[self.cfg.variant], self.cfg)
        try: a, n = nat.syms['javaR']; return int(nat.srv.read(a, n).decode(), 16), 1
        finally: nat.close()
    def validate(self, ctx):
        v, n = self.native_value(ctx)
        return (None if v == self.cfg.r else dict(entry='GetParamR', config=self.cfg.name, observed='%#x is not the group order %#x' % (v, self.cfg.r))), n
    def witness(self, ctx, hints): return self.validate(ctx)
