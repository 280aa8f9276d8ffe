"""C24: what the generated routines write, and what they leave unchanged.

Operand words are opaque (any value), pointers are symbolic bases with exact offsets, control data, the initial
registers and the stack are exact.  A branch whose condition depends on operand words is followed both ways; states that meet again
at such a branch are joined (words that differ become opaque), so loops reach a fixed point.  On each path z3 decides,
for arbitrary bases, that no store leaves the output object or the routine's own frame and that
every callee-saved register, the stack pointer and the return address are those of the caller."""
import time, random
import build, limb, z3
from limb import Config, ARENA, SLOT, KINDS, size
from x86 import Exec, Flags, Part, PathEnd, Unsupported, STACK, RET, CALLEE, R64, REGS
from poly import Cond, STATS
from check import Ob

class Un:
    """any 64-bit (or narrower) value"""
    def __repr__(self): return 'Un'
    def __eq__(self, o): return isinstance(o, Un)
    def __hash__(self): return 1
UN = Un()
class Tok:
    """the value a register held at entry"""
    def __init__(self, nm): self.nm = nm
    def __eq__(self, o): return isinstance(o, Tok) and o.nm == self.nm
    def __hash__(self): return hash(self.nm)
class Ptr:
    def __init__(self, base, off): self.base, self.off = base, off
    def __eq__(self, o): return isinstance(o, Ptr) and (o.base, o.off) == (self.base, self.off)
    def __hash__(self): return hash((self.base, self.off))
def sg(v): v &= (1 << 64) - 1; return v - (1 << 64) if v >> 63 else v

class Frame:
    def __init__(self, bases, cells):
        self.bases, self.cells = bases, cells       # base name -> address used as its key; base -> size
        self.bad = []; self.stores = set()
    def rd(self, v): return v
    def undef(self, nm): return Tok(nm[4:]) if nm.startswith('reg_') else UN
    def on_store(self, s, a, v):
        if STACK - 0x200000 <= a < STACK + 0x1000 and a < s.r[4] - 128: s.user['redzone'] = a
    def flag_dead(self, c): pass
    def un(self, *a): return UN
    bitnot = shl = shr = sar = rol = shld = shrd = extract = extract2 = insert = insert_any = zext = zext_to = sext_to = mullo = un
    mask = b2v = ite = bt = packed = un
    def logic(self, k, a, b, w): return UN
    def shift_cf(self, *a): return UN
    def addc(self, a, b, cin, w):
        if isinstance(cin, int) and cin == 0:
            if isinstance(a, int): a, b = b, a
            if isinstance(a, (Ptr, Tok)) and isinstance(b, int):
                if b == 0: return a, UN
                if isinstance(a, Ptr) and w == 64: return Ptr(a.base, a.off + sg(b)), UN
        return UN, UN
    def add(self, a, b, w): return self.addc(a, b, 0, w)[0]
    def subb(self, a, b, cin, w):
        if isinstance(cin, int) and cin == 0:
            if isinstance(a, Ptr) and isinstance(b, int) and w == 64: return Ptr(a.base, a.off - sg(b)), UN
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base: return (a.off - b.off) & (1 << 64) - 1, int(a.off < b.off)
        return UN, UN
    def mul(self, a, b, w): return UN, UN
    imul_full = mul
    def div(self, s, hi, lo, b, w): return UN, UN
    idiv = div
    def bitscan(self, *a): return UN
    def cond(self, *a): return Cond('any', None)
    zero = sign = cf_bool = fl_fcmp = bor = cond
    def signed(self, f, cc): return Cond('any', None)
    def bnot(self, c): return (not c) if isinstance(c, bool) else c
    def ite(self, c, a, b, w, st=None): return a if a == b else UN
    def decide(self, c): return None
    def assume(self, c, v, s): return True
    def concretize(self, s, t): raise Unsupported('jump to an operand-dependent address')
    def fpop(self, *a): raise Unsupported('floating point')
    def sym_load(self, s, a, n):
        if isinstance(a, Ptr): return s.load(self.bases[a.base] + a.off, n)
        return (UN, UN) if n == 128 else UN
    def sym_store(self, s, a, v, n):
        if not isinstance(a, Ptr): raise Unsupported('store at an operand-dependent address')
        s.user['st'] = s.user['st'] | {(a.base, a.off, n // 8)}
        s.store(self.bases[a.base] + a.off, v, n)

def leq(a, b): return b == UN and isinstance(b, Un) or type(a) is type(b) and a == b
def jn(a, b): return a if type(a) is type(b) and a == b else UN
class JoinExec(Exec):
    merging = True
    """joins states at branches on operand-dependent conditions"""
    def __init__(self, *a, **k): Exec.__init__(self, *a, **k); self.seen = {}; self.joins = 0
    def branch(self, s, c, at, af):
        if isinstance(c, bool): s.pc = at if c else af; return None
        key = (at, af, s.r[4])
        o = self.seen.get(key)
        if o is not None:
            def mv(t, a):
                v = t.mem.get(a)
                if v is None:
                    v = s.img.u64(a)
                    if v is None: v = UN
                return v
            ks = set(o.mem) | set(s.mem)
            sub = all(leq(x, y) for x, y in zip(s.r, o.r)) and all(leq(p, q) for x, y in zip(s.x, o.x) for p, q in zip(x, y)) and \
                s.writes <= o.writes and s.user['st'] <= o.user['st'] and all(leq(mv(s, a), mv(o, a)) for a in ks)
            if sub: raise PathEnd('infeasible')          # covered by a state already explored
            self.joins += 1
            for a in ks: s.mem[a] = jn(mv(s, a), mv(o, a))
            s.r = [jn(x, y) for x, y in zip(s.r, o.r)]
            s.x = [tuple(jn(p, q) for p, q in zip(x, y)) for x, y in zip(s.x, o.x)]
            s.writes |= o.writes; s.user['st'] = s.user['st'] | o.user['st']
            s.fl = Flags('x', 64, UN, UN, UN, UN)
        self.seen[key] = s.copy()
        s2 = s.copy(); s.pc = at; s2.pc = af
        return [s, s2]

# ---- signatures: (argument name, size in bytes or None for an integer, in/out/io); integers given
N9 = 9
def sigs(cfg):
    import specs_field as sf, c_line
    r = {}
    for g in ('fp', 'fpmul', 'fpdbl', 'fp2', 'fp2dbl', 'fp6', 'fp12'):
        for sp in getattr(sf, g)(cfg):
            if sp.name.startswith('c:'): continue
            r[sp.name] = [(n, size(k) if k in KINDS else None, m) for n, k, m in sp.args]
    for sp in c_line.specs(cfg):
        if not sp.name.startswith('c:'): r[sp.name] = [(n, size(k), m) for n, k, m in sp.args]
    r['Fp::shr1'] = r['Fp::shr2'] = [('z', 32, 'out'), ('x', 32, 'in')]
    r['Fp::preInv'] = [('z', 32, 'out'), ('x', 32, 'in')]
    r['Compress::square_n'] = [('c', 48, 'in'), ('n', None, None)]
    return r
def zsigs(n):
    w = 8 * n
    return {'zm::addN': [('z', w, 'out'), ('x', w, 'in'), ('y', w, 'in'), ('n', None, n)],
            'zm::add1': [('z', w, 'out'), ('x', w, 'in'), ('n', None, n), ('y', None, 'any')],
            'zm::subN': [('z', w, 'out'), ('x', w, 'in'), ('y', w, 'in'), ('n', None, n)],
            'zm::mul1': [('z', w + 8, 'out'), ('x', w, 'in'), ('n', None, n), ('y', None, 'any')],
            'zm::div1': [('z', w, 'out'), ('x', w, 'in'), ('n', None, n), ('y', None, 'any')],
            'zm::mod1': [('x', w, 'in'), ('n', None, n), ('y', None, 'any')]}
NOALIAS = ('Fp2Dbl::mulOpt1', 'Fp2Dbl::mulOpt2', 'Fp2Dbl::square', 'Fp2Dbl::mod', 'FpDbl::mul', 'FpDbl::mod', 'Fp6Dbl::mul')
def aliases(name, sig):
    """which arguments share their object with the first one"""
    out = [()]
    if name in NOALIAS or name.startswith('zm::mul1') or name.startswith('Fp6::pointDbl'): return out
    z = next((a for a in sig if a[2] in ('out', 'io')), None)
    if z is None: return out
    same = [a[0] for a in sig if a[2] == 'in' and a[1] == z[1] and a is not z]
    for m in range(1, 1 << len(same)): out.append(tuple(same[i] for i in range(len(same)) if m >> i & 1))
    if len(same) == 2: out.append(('=',))        # the two inputs coincide
    return out

class FrameOb(Ob):
    def __init__(self, cfg, name, sig, tag=''):
        self.cfg, self.name, self.sig = cfg, name, sig
        self.key = '%s %s%s' % (cfg.name, name, tag); self.functions = [name]
        self.cost = 3 if 'Fp6' in name or 'Fp12' in name else 1
    # ---- one aliasing pattern
    def place(self, al):
        at = {}; i = 0
        for n, sz, m in self.sig:
            if sz is None: continue
            at[n] = n
            if n in al: at[n] = self.sig[0][0]
        if al == ('=',):
            ins = [n for n, sz, m in self.sig if sz is not None and m == 'in']; at[ins[1]] = ins[0]
        return at
    def one(self, img, al, det):
        at = self.place(al); bases = {}; cells = {}; wr = {}
        for i, (n, sz, m) in enumerate(self.sig):
            if sz is None: continue
            b = at[n]; bases.setdefault(b, ARENA + SLOT * i); cells[b] = max(cells.get(b, 0), sz)
            if m in ('out', 'io'): wr[b] = max(wr.get(b, 0), sz)
        comp = self.name.startswith('Compress')
        if comp: bases['Z'] = ARENA + SLOT * 8; cells['Z'] = 384; wr['Z'] = 384
        d = Frame(bases, cells); ex = JoinExec(img)
        ex.max_steps = 400000
        s = ex.start(d, img.entries[self.name], [])
        for (n, sz, m), r in zip(self.sig, [7, 6, 2, 1, 8, 9]):
            s.r[r] = Ptr(at[n], 0) if sz is not None else m if isinstance(m, int) else UN
        for b, a in bases.items():
            for o in range(-64, cells[b] + 64, 8): s.mem[a + o] = UN
        if comp:
            for o, off in zip(range(0, 48, 8), (0, 4 * 64, 3 * 64, 2 * 64, 1 * 64, 5 * 64)): s.mem[bases['c'] + o] = Ptr('Z', off)
        s.user['st'] = frozenset(); before = set(s.writes)
        toks = dict(s.user['callee'])
        fin = ex.run(s)
        det['joins'] = det.get('joins', 0) + ex.joins
        bad = []
        if not fin: raise Unsupported('no path returns')
        for t in fin:
            det['paths'] += 1; det['steps'] += t.steps
            if t.user['end'] != 'ret': raise Unsupported('path ends: ' + t.user['end'])
            bad += self.decide(t, bases, cells, wr, toks, img)
        return bad
    def decide(self, t, bases, cells, wr, toks, img):
        """z3: can a store of this path leave the permitted areas, or a register differ from the caller's value?"""
        V = z3.Int
        so = z3.Solver(); so.set('timeout', 20000); b = {n: V('base_' + n) for n in bases}; sp = V('rsp'); I = z3.IntVal
        areas = [(b[n], cells[n]) for n in bases]; stk = (sp - 0x20000, 0x20000 + 4096)
        absolute = any(not STACK - 0x200000 <= a < STACK + 0x1000 and not any(0 <= a - v + 64 < cells[n] + 128 for n, v in bases.items()) for a in t.writes)
        fixed = [(I(x[0]), len(x[1])) for x in img.regions if not bases_in(x, bases)] if absolute else []
        # addresses are below 2^47 and offsets far smaller than 2^20, so address arithmetic does not wrap
        for base, n in areas + [stk]: so.add(base <= (1 << 47) - n, base >= 1 << 20)
        al = areas + [stk]
        for i in range(len(al)):
            for j in range(i): so.add(z3.Or(al[i][0] + al[i][1] <= al[j][0], al[j][0] + al[j][1] <= al[i][0]))
            for f in fixed: so.add(z3.Or(al[i][0] + al[i][1] <= f[0], f[0] + f[1] <= al[i][0]))
        viol = []; names = []
        def outside(a, n):
            """[a, a+n) is not inside a writable object nor below the return address"""
            ok = [z3.And(a >= b[w], a + n <= b[w] + wr[w]) for w in wr] + [z3.And(a >= stk[0], a + n <= sp)]
            return z3.Not(z3.Or(ok))
        for base, off, n in sorted(t.user['st']):
            viol.append(outside(b[base] + off, n))
            if abs(off) >= 1 << 20: raise Unsupported('offset'); names.append('store at %s%+d' % (base, off))
        keys = set(range(0))
        for n, a in bases.items(): keys |= set(range(a - 64, a + cells[n] + 64, 8))
        for a in sorted(t.writes):
            if a in keys: continue
            # a concrete address: the stack, or something absolute
            x = sp + (a - (STACK - 8)) if STACK - 0x200000 <= a < STACK + 0x1000 else I(a)
            viol.append(outside(x, 8)); names.append('store at %s' % ('stack %+d' % (a - STACK + 8) if STACK - 0x200000 <= a < STACK + 0x1000 else hex(a)))
        fresh = [0]
        def term(v):
            if isinstance(v, int): return I(v)
            if isinstance(v, Tok): return V('reg_' + v.nm)
            if isinstance(v, Ptr): return b[v.base] + v.off
            fresh[0] += 1; return V('any_%d' % fresh[0])
        for r in CALLEE: viol.append(term(t.r[REGS[r][0]]) != term(toks[r])); names.append('register ' + r)
        viol.append(term(t.r[4]) != I(STACK) if isinstance(t.r[4], int) else z3.BoolVal(True)); names.append('stack pointer')
        if 'redzone' in t.user: viol.append(z3.BoolVal(True)); names.append('store below the red zone')
        so.add(z3.Or(viol)); t0 = time.time(); r = so.check(); STATS.q += 1; STATS.t += time.time() - t0
        if r == z3.unsat: return []
        if r != z3.sat: STATS.unk += 1; raise Unsupported('solver')
        m = so.model()
        return [n for n, v in zip(names, viol) if z3.is_true(m.eval(v, model_completion=True))][:4]
    def prove(self, ctx):
        img = limb.image(ctx.exes, self.cfg); q, t, u = STATS.q, STATS.t, STATS.unk
        det = dict(paths=0, steps=0); bad = []
        for al in aliases(self.name, self.sig):
            bad += [(al, x) for x in self.one(img, al, det)]
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='refuted' if bad else 'proved')
        if bad: det['why'] = str(bad[:4])
        else: det['sample'] = dict(entry=self.name, config=self.cfg.name, patterns=len(aliases(self.name, self.sig)), paths=det['paths'])
        return det
    # ---- native
    def validate(self, ctx): return self.native(ctx, ctx.seed, 12, time.time() + 15)
    def witness(self, ctx, hints): return self.native(ctx, ctx.seed + 5, 100000, ctx.wdeadline)
    def operand(self, rng, cfg, n):
        """bytes of an object: a multiple of 32 bytes is a sequence of reduced (or, for double width, bounded) elements"""
        if n % 32: return b''.join(rng.choice([0, 1, (1 << 64) - 1, rng.getrandbits(64)]).to_bytes(8, 'little') for _ in range(n // 8))
        dbl = 'Dbl' in self.name and n >= 64 and not any(x in self.name for x in ('mul', 'square', 'mod'))
        p = cfg.p; v = b''
        w = 64 if dbl or self.name in ('Fp2Dbl::mod', 'FpDbl::mod', 'Fp2Dbl::mul_xi') else 32
        bound = p << 256 if w == 64 else p
        sp = limb.specials(p)
        while len(v) < n: v += limb.pool(bound, rng, sp).to_bytes(w, 'little')
        return v[:n]
    def native(self, ctx, seed, count, deadline):
        cfg = self.cfg; rng = random.Random('%s|%s' % (seed, self.key)); nat = limb.Native(ctx.exes[cfg.variant], cfg); tried = 0
        img_ent = nat.ent; fn = img_ent[self.name]; S = 0x2000
        try:
            codes = [(e & ~0xfff) for n, e in img_ent.items() if n[:2] not in ('c:', 'u:', 'j:')]
            lo = min(c for c in codes if abs(c - fn) < 1 << 20); hi = max(c for c in codes if abs(c - fn) < 1 << 20) + 0x800
            jit = (lo, hi - lo)
            tables = [(a, n) for nm, (a, n) in nat.syms.items() if n and nm != 'Param::siTbl']
            snap = lambda: [nat.srv.read(*jit)] + [nat.srv.read(a, n) for a, n in tables]
            base = snap()
            pats = aliases(self.name, self.sig)
            while tried < count and time.time() < deadline:
                al = pats[tried % len(pats)]; at = self.place(al)
                fill = bytes(rng.getrandbits(8) for _ in range(64)) * (S * 10 // 64); mem = bytearray(fill); pos = {}; args = []; ok = []
                for i, (n, sz, m) in enumerate(self.sig):
                    if sz is None: args.append(m if isinstance(m, int) else rng.choice([1, 3, (1 << 64) - 1, rng.getrandbits(64) | 1]) if n != 'n' else rng.randrange(0, 4)); continue
                    o = pos.setdefault(at[n], S * i + 512)
                    args.append(ARENA + o)
                    if m != 'out' and at[n] == n: mem[o:o + sz] = self.operand(rng, cfg, sz)
                    if m in ('out', 'io'): ok.append((o, sz))
                if self.name == 'Fp::preInv':
                    o = pos[at['x']]; mem[o:o + 32] = (rng.randrange(1, cfg.p)).to_bytes(32, 'little') if not any(mem[o:o + 32]) else mem[o:o + 32]
                if self.name.startswith('Compress'):
                    o = S * 8 + 512; mem[o:o + 384] = b''.join(self.operand(rng, cfg, 32) for _ in range(12)); ok.append((o, 384))
                    for k, off in enumerate((0, 4 * 64, 3 * 64, 2 * 64, 64, 5 * 64)): mem[pos['c'] + 8 * k:pos['c'] + 8 * k + 8] = (ARENA + o + off).to_bytes(8, 'little')
                nat.srv.write(ARENA, mem)
                r = nat.srv.cmd('C %x %s' % (fn, ' '.join('%x' % a for a in (args + [0] * 6)[:6]))).split()
                tried += 1
                inp = dict(pattern=al, args=['0x%x' % a for a in args])
                for n, sz, m in self.sig:
                    if sz is not None and m != 'out': inp[n] = bytes(mem[pos[at[n]]:pos[at[n]] + sz]).hex()
                def wit(x): return dict(entry=self.name, config=cfg.name, inputs=inp, observed=x)
                if r[0] != 'ret': return wit('the call ended with ' + ' '.join(r)), tried
                if int(r[2], 16): return wit('callee-saved registers changed: ' + ', '.join(c for k, c in enumerate(CALLEE) if int(r[2], 16) >> k & 1)), tried
                if r[3] != '0': return wit('the stack pointer is off by %s' % r[3]), tried
                if r[4] != '0': return wit('%s words of the caller\'s frame overwritten' % r[4]), tried
                after = nat.srv.read(ARENA, len(mem))
                if after != bytes(mem):
                    for k in range(0, len(mem), 8):
                        if after[k:k + 8] != mem[k:k + 8] and not any(o <= k and k + 8 <= o + sz for o, sz in ok):
                            return wit('memory outside the output was written (offset 0x%x of the arena; objects at %s)' % (k, {n: hex(o) for n, o in pos.items()})), tried
                now = snap()
                if now != base: return wit('generated code or library tables were modified'), tried
            return None, tried
        finally: nat.close()

def bases_in(region, bases): return any(region[0] <= a < region[0] + len(region[1]) for a in bases.values())

def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []
    cs = [Config(c, m, x) for c in ('bn', 'snark3') for m in (0, 1) for x in (0, 1)]
    for i, cfg in enumerate(cs):
        img = limb.image(ctx.exes, cfg); sg_ = sigs(cfg)
        for name in img.entries:
            if name[:2] in ('c:', 'u:', 'j:') or name.startswith('zm::'): continue
            if name in sg_: obs.append(FrameOb(cfg, name, sg_[name]))
            else: raise RuntimeError('no signature for ' + name)
        if i == 0 or ctx.thorough:
            for n in range(1, N9 + 1):
                for name, sg in zsigs(n).items(): obs.append(FrameOb(cfg, name, sg, ' n=%d' % n))
    info = dict(bounds='every generated pairing routine and big-integer primitive; operand words arbitrary; all aliasing patterns of equal-sized operands; object and stack bases arbitrary disjoint addresses; the number of words of the big-integer primitives 1..9 (the capacity); loop counts of Compress::square_n and of the inversion arbitrary (fixed point)',
                outside='partially overlapping operands; the direction flag, x87 and vector control state (the code has no instruction that writes them: any such instruction makes the obligation undecided)',
                assumptions=['x86-64 semantics of the modelled instructions (engine/x86.py)', 'objdump disassembly', 'the code does not compare or subtract pointers to different objects (such a value is treated as arbitrary)'])
    return obs, info
