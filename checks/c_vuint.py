"""C16: unsigned big integers.  Sizes are concrete, words are bit vectors, both with the portable and with the generated
word primitives; products in the limb domain (exact integer identities)."""
import time, random, z3
import build, limb, contracts, ring
from image import Image
from x86 import PathEnd, Unsupported, STACK
from zbv import ZB, ZExec, bv, BV, fresh, M64
from idom import IDom, IExec, IW, padd, pmul, path_words, Follow
from poly import STATS
from check import Ob

A = limb.ARENA; SLOT = 0x1000; NW = 9; WIDE = 64 * 20
class ZCfg:
    curve = 'zm'; variant = 'zm'
    def __init__(self, mode): self.mode = mode; self.args = [mode]; self.name = ('portable', 'generated')[mode]
CF = [ZCfg(0), ZCfg(1)]
_img = {}
def image(ctx, cfg):
    if cfg.name not in _img: _img[cfg.name] = Image(ctx.exes['zm'], cfg.args)
    return _img[cfg.name]
def hooks(img):
    h = contracts.mem_hooks(img)
    def die(why):
        def f(s): raise PathEnd(why)
        return f
    def ret(s, v):
        s.r[0] = v; s.pc = s.load(s.r[4]); s.r[4] += 8
    old = {}
    def move(s):
        d, f, n = (s.dom.rd(s.r[i]) for i in (7, 6, 2))
        if isinstance(n, int) or not isinstance(d, int) or not isinstance(f, int): return old['m'](s)
        vs = s.dom.values(n, 40)
        if not vs: raise PathEnd('infeasible')
        if any(v & 7 for v in vs) or d & 7 or f & 7: raise Unsupported('memmove shape')
        # the source may end before the largest size: a word is read only when some size covers it
        w = []
        for o in range(0, max(vs), 8):
            try: w.append(s.load(f + o))
            except Unsupported: w.append(fresh('beyond'))
        for o, x in zip(range(0, max(vs), 8), w):
            if o + 8 <= min(vs): s.store(d + o, x)
            else: s.store(d + o, z3.If(z3.UGT(n, o), bv(x), bv(s.load(d + o))))
        ret(s, d)
    for nm in ('memmove', 'memcpy'):
        for a in ring.plt(img, nm): old['m'] = h[a]; h[a] = move
    # building the message of an error
    for a, n in img.symname.items():
        n = n.strip('<>')
        if n.startswith('_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEC') or '__printf_chk@' in n or n.split('@')[0] in ('_ZNSaIcEC1Ev', '_ZNSaIcED1Ev', '_ZNSt15__new_allocatorIcED2Ev', '_ZNSt15__new_allocatorIcED1Ev', 'puts', 'drv_print'):
            h[a] = lambda s: ret(s, s.r[7])
    for a, n in img.symname.items():
        if 'errExit' in n and 'plt' not in n: h[a] = die('exit')
        if 'drv_exit' in n: h[a] = die('exit')
    for n in ('__cxa_throw', '__cxa_allocate_exception'):
        for a in ring.plt(img, n): h[a] = die('throw')
    return h
# ---- objects
def put_v(s, a, n, nm, canon=True, val=None):
    """a canonical number of n words at address a; returns the words"""
    ws = []
    for i in range(NW):
        w = z3.BitVec('%s%d' % (nm, i), 64); s.mem[a + 8 * i] = w
        if i < n: ws.append(w)
    s.mem[a + 8 * NW] = n
    if canon and n > 1: s.dom.pcs.append(ws[-1] != 0)
    return ws
def put_junk(s, a, nm):
    for i in range(NW): s.mem[a + 8 * i] = fresh(nm)
    sz = fresh(nm + 'size'); s.mem[a + 8 * NW] = sz; s.dom.pcs.append(z3.And(z3.UGE(sz, 1), z3.ULE(sz, NW)))
def Z(xs, i): return bv(xs[i]) if 0 <= i < len(xs) else BV(0, 64)
def radd(xs, ys, c=None):
    """words of the sum, the last one the carry"""
    out = []; c = BV(0, 1) if c is None else c
    for i in range(max(len(xs), len(ys))):
        s = z3.ZeroExt(1, Z(xs, i)) + z3.ZeroExt(1, Z(ys, i)) + z3.ZeroExt(64, c)
        out.append(z3.Extract(63, 0, s)); c = z3.Extract(64, 64, s)
    return out + [z3.ZeroExt(63, c)]
def rsub(xs, ys):
    """words of the difference and the borrow"""
    out = []; c = BV(0, 1)
    for i in range(max(len(xs), len(ys))):
        s = z3.ZeroExt(1, Z(xs, i)) - z3.ZeroExt(1, Z(ys, i)) - z3.ZeroExt(64, c)
        out.append(z3.Extract(63, 0, s)); c = z3.Extract(64, 64, s)
    return out, c
def rshl(xs, q, b):
    o = lambda i: z3.If(b == 0, Z(xs, i), (Z(xs, i) << b) | z3.LShR(Z(xs, i - 1), 64 - b))
    return [BV(0, 64)] * q + [o(i) for i in range(len(xs) + 1)]
def rshr(xs, q, b):
    n = max(len(xs) - q, 1)
    return [z3.If(b == 0, Z(xs, i + q), z3.LShR(Z(xs, i + q), b) | (Z(xs, i + q + 1) << (64 - b))) for i in range(n)]
def rlt(xs, ys):
    e = z3.BoolVal(False)
    for i in range(max(len(xs), len(ys))): e = z3.If(Z(xs, i) == Z(ys, i), e, z3.ULT(Z(xs, i), Z(ys, i)))
    return e
def req(xs, ys): return z3.And([Z(xs, i) == Z(ys, i) for i in range(max(len(xs), len(ys)))])
def wnum(ws): return sum(z3.simplify(bv(w)).as_long() << 64 * i for i, w in enumerate(ws))
def csize(r):
    e = BV(1, 64)
    for i in range(1, len(r)): e = z3.If(Z(r, i) != 0, BV(i + 1, 64), e)
    return e
def is_value(s, a, r):
    """the object at a is the canonical form of the number with the words r"""
    sz = bv(s.load(a + 8 * NW)); c = [sz == csize(r)]
    for i in range(NW):
        w = bv(s.load(a + 8 * i)); e = Z(r, i)
        c.append(z3.Or(z3.ULE(sz, i), w == e) if i else w == e)
    return c
def fits(r): return z3.And([Z(r, i) == 0 for i in range(NW, len(r))]) if len(r) > NW else z3.BoolVal(True)

class Case:
    """one concrete shape of one entry.  args: list of ('in', n) / ('out',) / ('io', n) / ('u64', name) / ('u32', name) / ('c', value); same: {i: j}
    argument i is the same object as j.  fn(v): v = values of the arguments (wide bit vectors, or None) ->
    dict(out={i: wide value}, upto=words, ret=64-bit expression or None, exit=condition under which it must not return)"""
    def __init__(self, name, args, fn, same=None): self.name, self.args, self.fn, self.same = name, args, fn, same or {}
    def text(self): return ' '.join('x'.join(map(str, a)) for a in self.args) + (' same %s' % self.same if self.same else '')

def setup(s, case):
    vals = []; regs = []; addr = []; words = []
    for i, a in enumerate(case.args):
        if a[0] in ('in', 'io', 'out'):
            if i in case.same: j = case.same[i]; addr.append(addr[j]); vals.append(vals[j]); words.append(words[j]); regs.append(addr[j]); continue
            ad = A + SLOT * i; addr.append(ad); regs.append(ad)
            if a[0] == 'out' and not any(j == i for j in case.same.values()): put_junk(s, ad, 'o%d_' % i); vals.append(None); words.append(None)
            else:
                n = a[1] if a[0] != 'out' else next(case.args[k][1] for k, j in case.same.items() if j == i)
                ws = put_v(s, ad, n, 'x%d_' % i); vals.append(ws); words.append(ws)
        elif a[0] in ('u64', 'u32'):
            v = z3.BitVec(a[1], 64); addr.append(None)
            if a[0] == 'u32': v = z3.ZeroExt(32, z3.BitVec(a[1], 32))
            vals.append(v); words.append([v]); regs.append(v)
        elif a[0] == 'ro' or a[0] == 'raw64' and i in case.same:
            if i in case.same: j = case.same[i]; addr.append(addr[j]); vals.append(vals[j]); words.append(words[j]); regs.append(addr[j]); continue
            ad = A + SLOT * i; addr.append(ad); regs.append(ad); ws = []
            for k in range(a[1]): w = z3.BitVec('r%d_%d' % (i, k), 64); s.mem[ad + 8 * k] = w; ws.append(w)
            m = next((case.args[k][1] for k, j in case.same.items() if j == i), None)
            vals.append(ws[:m] if m is not None else None); words.append(ws)
        elif a[0] == 'raw64' or a[0] == 'raw32':
            ad = A + SLOT * i; addr.append(ad); regs.append(ad); ws = []
            nw = a[1] if a[0] == 'raw64' else (a[1] + 1) // 2
            for k in range(nw): w = z3.BitVec('r%d_%d' % (i, k), 64); s.mem[ad + 8 * k] = w; ws.append(w)
            if a[0] == 'raw32' and a[1] & 1: ws[-1] = z3.ZeroExt(32, z3.Extract(31, 0, ws[-1]))
            vals.append(ws); words.append(ws)
        else: addr.append(None); vals.append(a[1]); words.append(None); regs.append(a[1] & M64)
    return vals, words, regs, addr

def outs(e): return list(e.get('out', {})) + list(e.get('raw', {}))
class VOb(Ob):
    def __init__(self, cfg, key, cases, cost=1):
        self.cfg, self.cases, self.cost = cfg, cases, cost; self.key = '%s %s' % (cfg.name, key)
        self.functions = sorted({c.name for c in cases})
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = image(ctx, self.cfg); h = hooks(img); det = dict(paths=0, steps=0); bad = None
        for c in self.cases:
            bad = self.one(img, h, c, det)
            if bad: break
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='refuted' if bad else 'proved', shapes=len(self.cases))
        if bad: det['why'] = str(bad[0])[:200]; det['hints'] = [bad[1]]
        return det
    def one(self, img, h, c, det):
        d = ZB(); ex = ZExec(img, h); s = ex.start(d, img.entries[c.name], [])
        vals, words, regs, addr = setup(s, c)
        for r, v in zip([7, 6, 2, 1, 8, 9], regs): s.r[r] = v
        exp = c.fn(vals); inw = {a: w for a, w in s.mem.items()}
        if exp.get('pre') is not None: s.dom.pcs.append(exp['pre'])
        fin = ex.run(s); base = len(s.dom.pcs)
        det['joins'] = det.get('joins', 0) + ex.joins
        exitc = exp.get('exit')
        for f in fin:
            det['paths'] += 1; det['steps'] += f.steps; end = f.user['end']
            if end in ('exit', 'throw'):
                viol = [(end, z3.Not(exitc) if exitc is not None else z3.BoolVal(True))]
            elif end != 'ret': raise Unsupported('path ends: ' + end)
            else:
                viol = []
                if exitc is not None: viol.append(('no error', exitc))
                for i, r in exp.get('out', {}).items():
                    viol += [('argument %d' % i, z3.Not(e)) for e in is_value(f, addr[i], r)]
                for i, r in exp.get('raw', {}).items():
                    viol += [('word %d of argument %d' % (k, i), bv(f.load(addr[i] + 8 * k)) != bv(w)) for k, w in enumerate(r)]
                if exp.get('ret') is not None: viol.append(('returned value', bv(f.r[0]) != bv(exp['ret'])))
                if exp.get('sign') is not None: viol.append(('sign of the result', z3.Not(exp['sign'](z3.Extract(31, 0, bv(f.r[0]))))))
                if exp.get('eax') is not None: viol.append(('returned value', z3.Extract(7, 0, bv(f.r[0])) != z3.Extract(7, 0, bv(exp['eax']))))
                for i, a in enumerate(c.args):      # inputs that are not outputs stay
                    if addr[i] is not None and a[0] != 'out' and not any(addr[i] == addr[j] for j in outs(exp)):
                        for k in range(NW + 1):
                            o = addr[i] + 8 * k
                            if o in inw and f.mem[o] is not inw[o]: viol.append(('operand %d changed' % i, bv(f.mem[o]) != bv(inw[o])))
            viol = [v for v in viol if not z3.is_false(z3.simplify(v[1]))]
            if viol:
                m = f.dom.sat(z3.Or([v for _, v in viol]))
                if m is not None:
                    nm = next((n for n, v in viol if z3.is_true(m.eval(v, model_completion=True))), '?')
                    md = {str(x): m[x].as_long() for x in m if hasattr(m[x], 'as_long')}
                    return '%s %s: %s' % (c.name, c.text(), nm), (self.cases.index(c), md)
        return None
    # ---- native
    def validate(self, ctx): return self.native(ctx, ctx.seed, 40, time.time() + 15, None)
    def witness(self, ctx, hints): return self.native(ctx, ctx.seed + 3, 60000, ctx.wdeadline, hints)
    def native(self, ctx, seed, n, deadline, hints):
        nat = limb.Native(ctx.exes['zm'], self.cfg); rng = random.Random('%s|%s' % (seed, self.key)); tried = 0
        try:
            todo = []
            for c, md in hints or []:
                if 'forced' not in md: todo.append((self.cases[c], md))
            while tried < n and time.time() < deadline:
                if hints and not todo and isinstance(hints[0][1].get('forced'), dict) and rng.randrange(2):
                    i, h = rng.choice(hints); c, md = self.cases[i], Follow(h, rng)
                else: c, md = todo.pop(0) if todo else (self.cases[tried % len(self.cases)] if tried < len(self.cases) else rng.choice(self.cases), None)
                r = native_case(nat, c, rng, md); tried += 1
                if r: return dict(entry=c.name, config=self.cfg.name, shape=c.text(), **r), tried
            return None, tried
        finally: nat.close()
def word(rng): return rng.choice([0, 0, 1, M64, M64, M64 - 1, 1 << 63, (1 << 63) - 1, rng.getrandbits(64), rng.getrandbits(64), (1 << rng.randrange(65)) - 1 & M64, M64 << rng.randrange(64) & M64])
def native_case(nat, c, rng, md):
    """random (or given) operands of the shape; compares with the specification evaluated on them"""
    fo = md if isinstance(md, Follow) else Follow(None, rng); md = {} if fo is md else md or {}
    vals = []; args = []; addr = []; mem = {}
    def W(nm): return md[nm] if nm in md else word(rng)
    prev = []
    for i, a in enumerate(c.args):
        if a[0] in ('in', 'io', 'out'):
            if i in c.same: j = c.same[i]; addr.append(addr[j]); vals.append(vals[j]); args.append(args[j]); continue
            ad = A + SLOT * i; addr.append(ad); args.append(ad)
            n = a[1] if a[0] != 'out' else next((c.args[k][1] for k, j in c.same.items() if j == i), None)
            ws = [W('x%d_%d' % (i, k)) for k in range(NW)]
            if n is None: mem[ad] = ws + [rng.randrange(1, NW + 1)]; vals.append(None); continue
            if prev and rng.random() < .4:      # operands sharing their leading or trailing words
                p = rng.choice(prev)
                for k in range(n):
                    if rng.random() < .8 and k < len(p) and 'x%d_%d' % (i, k) not in md: ws[k] = p[k]
            ws[:n] = fo.words(['x%d_%d' % (i, k) for k in range(n)], ws[:n])
            if n > 1 and ws[n - 1] == 0: ws[n - 1] = rng.choice([1, M64, 1 << 63])
            prev.append(ws[:n])
            mem[ad] = ws + [n]; vals.append(ws[:n])
        elif a[0] in ('u64', 'u32'):
            v = fo.words([a[1]], [md.get(a[1], word(rng))])[0] & (M64 if a[0] == 'u64' else M64 >> 32); vals.append(v); args.append(v); addr.append(None)
        elif i in c.same: j = c.same[i]; addr.append(addr[j]); vals.append(vals[j]); args.append(args[j])
        elif a[0] == 'ro':
            ad = A + SLOT * i; addr.append(ad); args.append(ad); ws = [W('r%d_%d' % (i, k)) for k in range(a[1])]; mem[ad] = ws
            m = next((c.args[k][1] for k, j in c.same.items() if j == i), None); vals.append(ws[:m] if m is not None else None)
        elif a[0] in ('raw64', 'raw32'):
            ad = A + SLOT * i; addr.append(ad); args.append(ad); nw = a[1] if a[0] == 'raw64' else (a[1] + 1) // 2
            ws = fo.words(['x%d_%d' % (i, k) for k in range(nw)], [W('r%d_%d' % (i, k)) for k in range(nw)]); mem[ad] = ws
            v = sum(w << 64 * k for k, w in enumerate(ws)); v &= (1 << (64 if a[0] == 'raw64' else 32) * a[1]) - 1; vals.append([v >> 64 * k & M64 for k in range(nw)])
        else: vals.append(a[1]); args.append(a[1] & M64); addr.append(None)
    zv = [None if v is None else v if c.args[i][0] == 'c' else BV(v, 64) if isinstance(v, int) else [BV(w, 64) for w in v] for i, v in enumerate(vals)]
    e = c.fn(zv); ev = lambda x: z3.simplify(x)
    if e.get('pre') is not None and z3.is_false(ev(e['pre'])): return None
    for ad, ws in mem.items(): nat.srv.write(ad, b''.join(w.to_bytes(8, 'little') for w in ws))
    r = nat.srv.call(nat.ent[c.name], *args).split()
    inp = dict(args=['0x%x' % a for a in args], values=[None if v is None else hex(v) if isinstance(v, int) else hex(sum(w << 64 * k for k, w in enumerate(v))) for v in vals])
    def wit(x): return dict(inputs=inp, observed=x)
    died = r[0] == 'exc' or r[0] == 'sig' and r[1] == '99'
    want = e.get('exit'); want = want is not None and z3.is_true(ev(want))
    if r[0] == 'sig' and r[1] != '99': return wit('the call ended with signal ' + r[1])
    if died != want: return wit('the call %s' % ('reported an error' if died else 'returned although an error is due'))
    if died: return None
    ret = int(r[1], 16)
    if e.get('ret') is not None:
        w = ev(bv(e['ret'])).as_long()
        if ret != w: return wit('returned 0x%x, should be 0x%x' % (ret, w))
    if e.get('eax') is not None and ret & 255 != ev(bv(e['eax'])).as_long() & 255: return wit('returned 0x%x' % ret)
    if e.get('sign') is not None and not z3.is_true(ev(e['sign'](BV(ret & 0xffffffff, 32)))): return wit('returned %d' % (ret if ret < 1 << 63 else ret - (1 << 64)))
    for i, x in e.get('out', {}).items():
        w = wnum(x); got = nat.srv.read(addr[i], 8 * NW + 8); sz = int.from_bytes(got[72:80], 'little')
        if not 1 <= sz <= NW or sz > 1 and not any(got[8 * sz - 8:8 * sz]): return wit('result %d is not canonical: size %d' % (i, sz))
        g = int.from_bytes(got[:8 * sz], 'little')
        if g != w: return wit('result is 0x%x, should be 0x%x' % (g, w))
    for i, x in e.get('raw', {}).items():
        w = wnum(x); g = int.from_bytes(nat.srv.read(addr[i], 8 * len(x)), 'little')
        if g != w: return wit('result is 0x%x, should be 0x%x' % (g, w))
    for i, a in enumerate(c.args):
        if addr[i] is not None and not any(addr[i] == addr[j] for j in outs(e)) and addr[i] in mem and a[0] != 'out':
            n = 8 * len(mem[addr[i]])
            if nat.srv.read(addr[i], n) != b''.join(w.to_bytes(8, 'little') for w in mem[addr[i]]): return wit('operand %d was modified' % i)
    return None

# ---- the operations
def cmp3(x, y): return lambda r: z3.If(rlt(x, y), r < 0, z3.If(req(x, y), r == 0, r > 0))
def blen(xs):
    e = BV(0, 64)
    for i, x in enumerate(xs):
        for b in range(64): e = z3.If(z3.Extract(b, b, bv(x)) == 1, BV(64 * i + b + 1, 64), e)
    return e
def pickw(xs, i):
    e = BV(0, 64)
    for k, x in enumerate(xs): e = z3.If(i == k, bv(x), e)
    return e
def b01(c): return z3.If(c, BV(1, 64), BV(0, 64))
def bin_cases(name, ns, fn, io=False):
    """(n, m, aliasing) -> cases of z = x op y, or of z op= x"""
    out = []
    for n, m in ns:
        if io: out.append(Case(name, [('io', n), ('in', m)], fn))
        else:
            for same in ({}, {1: 0}, {2: 0}): out.append(Case(name, [('out',), ('in', n), ('in', m)], fn, same))
    return out
def same_cases(name, n, fn, io=False):
    if io: return [Case(name, [('io', n), ('in', n)], fn, {1: 0})]
    return [Case(name, [('out',), ('in', n), ('in', n)], fn, {2: 1}), Case(name, [('out',), ('in', n), ('in', n)], fn, {1: 0, 2: 0})]
def f_add(v): r = radd(v[-2], v[-1]); return dict(out={0: r}, pre=fits(r))
def f_sub(v): r, b = rsub(v[-2], v[-1]); return dict(out={0: r}, exit=b == 1)
def f_add32(v): r = radd(v[-2], [v[-1]]); return dict(out={0: r}, pre=fits(r))
def p_addN(v): r = radd(v[1], v[2]); return dict(raw={0: r[:-1]}, eax=r[-1])
def p_subN(v): r, b = rsub(v[1], v[2]); return dict(raw={0: r}, eax=z3.ZeroExt(63, b))
def p_add1(v): r = radd(v[1], [v[3]]); return dict(raw={0: r[:-1]}, eax=r[-1])
def p_sub1(v): r, b = rsub(v[1], [v[3]]); return dict(raw={0: r}, eax=z3.ZeroExt(63, b))
def rmul(xs, ys):
    x = wnum(xs) * wnum(ys); return [BV(x >> 64 * i & M64, 64) for i in range(len(xs) + len(ys))]
def p_mul1(v): return dict(raw={0: rmul(v[1], [v[3]])})
def f_mul1(v): return dict(out={0: rmul(v[1], [v[2]])})
def f_mul(v): return dict(out={0: rmul(v[-2], v[-1])})
class MOb(VOb):
    """products: exact identity of the words over the integers"""
    cur = None
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = image(ctx, self.cfg); det = dict(paths=0, steps=0); bad = None; notes = set()
        for c in self.cases:
            bad = self.one(img, c, det, notes)
            if bad: break
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='refuted' if bad else 'proved', shapes=len(self.cases), contracts=sorted(notes))
        if bad: det['why'] = bad[:200]; det['hints'] = [(self.cases.index(c), path_words(self.cur, r'x\d+_\d+|[a-z]'))] if self.cur else []
        return det
    def one(self, img, c, det, notes):
        d = IDom(); h = hooks(img); h.update(int_hooks(img, notes)); ex = IExec(img, h); s = ex.start(d, img.entries[c.name], [])
        vals = []; addr = []; prim = c.name.startswith('zm::')
        for i, a in enumerate(c.args):
            if i in c.same: j = c.same[i]; addr.append(addr[j]); vals.append(vals[j]); v = addr[j]
            elif a[0] == 'u64': w = d.word(a[1]); vals.append(w.p); addr.append(None); v = w
            elif a[0] == 'c': vals.append(a[1]); addr.append(None); v = a[1]
            else:
                ad = v = A + SLOT * i; n = a[1] if a[0] in ('in', 'io', 'raw64') else next((c.args[k][1] for k, j in c.same.items() if j == i), 0); tot = {}
                for k in range(NW if a[0] in ('in', 'io', 'out') else a[1]):
                    w = d.word('x%d_%d' % (i, k)); s.mem[ad + 8 * k] = w
                    if k < n: tot = padd(tot, w.p, 1 << 64 * k); top = w
                if a[0] in ('in', 'io', 'out'):
                    s.mem[ad + 8 * NW] = n or 3
                    if n > 1: d.nz.append(top.p)
                vals.append(tot); addr.append(ad)
            s.r[[7, 6, 2, 1, 8, 9][i]] = v
        inp = dict(s.mem); xs = [i for i, a in enumerate(c.args) if a[0] in ('in', 'io', 'raw64', 'u64')]
        want = pmul(vals[xs[0]], vals[xs[1]])
        fin = ex.run(s); det['joins'] = det.get('joins', 0) + ex.joins
        nn = [1 if c.args[i][0] == 'u64' else c.args[i][1] for i in xs]; T = sum(nn)
        for f in fin:
            det['paths'] += 1; det['steps'] += f.steps
            if f.user['end'] != 'ret': return '%s %s: ends by %s' % (c.name, c.text(), f.user['end'])
            dd = self.cur = f.dom; nz = {frozenset(dd.res(p).items()) for p in dd.nz}
            sz = T if prim else f.load(addr[0] + 8 * NW)
            if not isinstance(sz, int) or not 1 <= sz <= NW + 1: return '%s: size of the result is not determined' % c.name
            got = {}
            for k in range(sz): got = padd(got, dd.p(f.load(addr[0] + 8 * k)), 1 << 64 * k)
            if not prim:
                top = f.load(addr[0] + 8 * sz - 8)
                if sz > 1 and not (isinstance(top, int) and top) and frozenset(dd.res(dd.p(top)).items()) not in nz and not dd.positive(top): return '%s %s: leading zero word' % (c.name, c.text())
            D = padd(want, got, -1)
            if not (sz >= T and dd.equal_mod(D, T)) and not dd.equal(D): return '%s %s: value' % (c.name, c.text())
            for i, a in enumerate(c.args):
                if addr[i] is not None and addr[i] != addr[0]:
                    for k in range(NW + 1):
                        if addr[i] + 8 * k in inp and f.mem[addr[i] + 8 * k] is not inp[addr[i] + 8 * k]: return '%s: operand %d modified' % (c.name, i)
        return None
def int_hooks(img, notes):
    """contract of addN (decided by the obligations zm::addN): exact sum with a final carry"""
    def addN(s):
        d = s.dom; o, x, y, n = (s.r[i] for i in (7, 6, 2, 1))
        if not all(isinstance(v, int) for v in (o, x, y, n)) or not 1 <= n <= NW: raise Unsupported('addN shape')
        for q in (x, y):
            if q != o and abs(q - o) < 8 * n: raise Unsupported('addN overlap')
        X, Y = ([s.load(q + 8 * k) for k in range(n)] for q in (x, y)); tot = {}; hi = 0
        for k in range(n): tot = padd(padd(tot, d.p(X[k]), 1 << 64 * k), d.p(Y[k]), 1 << 64 * k); hi += d.hi(X[k]) + d.hi(Y[k]) << 64 * k
        c = d.bitatom(); ws = [d.word('s') for _ in range(1, n)]; w0 = padd(tot, c, -(1 << 64 * n))
        for k, w in enumerate(ws): w0 = padd(w0, w.p, -(1 << 64 * k + 64))
        d.wordfact(w0); ws = [d.mk(w0, M64)] + ws
        for k, w in enumerate(ws): s.store(o + 8 * k, w)
        notes.add('addN'); s.r[0] = d.mk(c, 1)
        for i in (1, 2, 6, 7, 8, 9, 10, 11): s.r[i] = d.undef('clob')
        s.fl = None; s.pc = s.load(s.r[4]); s.r[4] += 8
    return {img.entries['zm::addN']: addN}
def obs_for(cfg, ctx):
    th = ctx.thorough; obs = []; N = NW
    al = range(1, N + 1)
    def add(key, cases, cost=1): obs.append(VOb(cfg, key, cases, cost))
    for n in al:
        ns = [(n, m) for m in al if th or m in (1, 2, n - 1, n, n + 1, N)]; sel = th or n in (1, 2, 4, N)
        for nm in ('V::add', 'V::+')[:1 + sel]: add('%s n=%d' % (nm, n), bin_cases(nm, ns, f_add) + same_cases(nm, n, f_add), 3)
        add('V::+= n=%d' % n, bin_cases('V::+=', ns, f_add, True) + same_cases('V::+=', n, f_add, True), 2)
        for nm in ('V::sub', 'V::-')[:1 + sel]: add('%s n=%d' % (nm, n), bin_cases(nm, ns, f_sub) + same_cases(nm, n, f_sub), 3)
        add('V::-= n=%d' % n, bin_cases('V::-=', ns, f_sub, True) + same_cases('V::-=', n, f_sub, True), 2)
        add('V::add32 n=%d' % n, [Case('V::add32', [('out',), ('in', n), ('u32', 'y')], f_add32, sm) for sm in ({}, {1: 0})] + [Case('V::+=32', [('io', n), ('u32', 'y')], f_add32)])
        cs = []
        for m in al:
            cs.append(Case('V::compare', [('in', n), ('in', m)], lambda v: dict(sign=cmp3(v[0], v[1]))))
            for nm, f in (('<', lambda lt, x, y: lt(x, y)), ('<=', lambda lt, x, y: z3.Not(lt(y, x))), ('>', lambda lt, x, y: lt(y, x)), ('>=', lambda lt, x, y: z3.Not(lt(x, y))), ('==', lambda lt, x, y: req(x, y)), ('!=', lambda lt, x, y: z3.Not(req(x, y)))):
                cs.append(Case('V::' + nm, [('in', n), ('in', m)], lambda v, f=f: dict(ret=b01(f(rlt, v[0], v[1])))))
        add('compare n=%d' % n, cs, 2)
        add('bitLen n=%d' % n, [Case('V::bitLen', [('in', n)], lambda v: dict(ret=blen(v[0]))), Case('V::isZero', [('in', n)], lambda v: dict(eax=b01(req(v[0], []))))])
        add('testBit n=%d' % n, [Case('V::testBit', [('in', n), ('u64', 'i')], lambda v: dict(eax=z3.LShR(pickw(v[0], z3.LShR(v[1], 6)), v[1] & 63) & 1)),
                                 Case('V::at', [('in', n), ('u64', 'i')], lambda v, n=n: dict(ret=pickw(v[0], v[1])))])
        add('copy n=%d' % n, [Case(nm, [('out',), ('in', n)], lambda v: dict(out={0: v[1]}), sm) for nm in ('V::copy', 'V::copyctor') for sm in ({}, {1: 0}) if not (sm and 'ctor' in nm)] +
            [Case('V::set64', [('out',), ('raw64', n), ('c', n)], lambda v: dict(out={0: v[1]})), Case('V::set32', [('out',), ('raw32', 2 * n), ('c', 2 * n)], lambda v: dict(out={0: v[1]})),
             Case('V::set32', [('out',), ('raw32', 2 * n - 1), ('c', 2 * n - 1)], lambda v: dict(out={0: v[1]}))])
        # shifts: the word part concrete, the bit part symbolic
        for nm, left in (('shl', True), ('shr', False), ('<<', True), ('>>', False), ('<<=', True), ('>>=', False)):
            if not sel and nm not in ('shl', 'shr'): continue
            cs = []; io = nm.endswith('=')
            for q in range(0, N + 1):
                if left and n + q > N or not th and q not in (0, 1, 2, n - 1, n, N): continue
                def f(v, q=q, left=left, n=n):
                    b = v[-1] & 63; r = rshl(v[-2], q, b) if left else rshr(v[-2], q, b)
                    return dict(out={0: r}, pre=z3.And(z3.LShR(v[-1], 6) == q, fits(r)))
                for sm in ({}, {1: 0}) if not io else ({},):
                    cs.append(Case('V::' + nm, [('io', n), ('u64', 'k')] if io else [('out',), ('in', n), ('u64', 'k')], f, sm))
            add('V::%s n=%d' % (nm, n), cs, 3)
    # the word primitives
    for n in al:
        R = ('raw64', n); S2 = ({}, {1: 0}, {2: 0}, {1: 0, 2: 0}, {2: 1})
        add('zm::addN n=%d' % n, [Case('zm::addN', [('ro', n), R, R, ('c', n)], p_addN, sm) for sm in S2])
        add('zm::subN n=%d' % n, [Case('zm::subN', [('ro', n), R, R, ('c', n)], p_subN, sm) for sm in S2])
        add('zm::add1 n=%d' % n, [Case('zm::add1', [('ro', n), R, ('c', n), ('u64', 'y')], p_add1, sm) for sm in ({}, {1: 0})])
        add('zm::sub1 n=%d' % n, [Case('zm::sub1', [('ro', n), R, ('c', n), ('u64', 'y')], p_sub1, sm) for sm in ({}, {1: 0})])
        obs.append(MOb(cfg, 'zm::mul1 n=%d' % n, [Case('zm::mul1', [('ro', n + 1), R, ('c', n), ('u64', 'y')], p_mul1, sm) for sm in ({}, {1: 0})], 1))
        if n < N: obs.append(MOb(cfg, 'V::mul1 n=%d' % n, [Case('V::mul1', [('out',), ('in', n), ('u64', 'y')], f_mul1, sm) for sm in ({}, {1: 0})], 1))
        for m in range(1, N + 1 - n):
            cs = [Case(nm, [('out',), ('in', n), ('in', m)], f_mul, sm) for nm in ('V::mul', 'V::*') for sm in ({}, {1: 0}, {2: 0})] + [Case('V::*=', [('io', n), ('in', m)], f_mul)]
            if n == m: cs += [Case('V::mul', [('out',), ('in', n), ('in', n)], f_mul, sm) for sm in ({2: 1}, {1: 0, 2: 0})] + [Case('V::*=', [('io', n), ('in', n)], f_mul, {1: 0})]
            obs.append(MOb(cfg, 'mul n=%d m=%d' % (n, m), cs, 2))
    one = lambda v: dict(out={0: [v[1]]})
    add('set', [Case(nm, [('out',), ('u64', 'x')], one) for nm in ('V::set', 'V::ctor')] + [Case('V::clear', [('out',)], lambda v: dict(out={0: [BV(0, 64)]})),
         Case('V::set64', [('out',), ('raw64', 0), ('c', 0)], lambda v: dict(out={0: [BV(0, 64)]})), Case('V::set32', [('out',), ('raw32', 0), ('c', 0)], lambda v: dict(out={0: [BV(0, 64)]}))])
    return obs
def obligations(prop, ctx):
    ctx.exes = build.build(['zm']); obs = []
    for cfg in CF: image(ctx, cfg); obs += obs_for(cfg, ctx)
    info = dict(bounds='numbers of 1 to 9 words (the capacity, 576 bits), every value of the words (canonical operands: no leading zero word); products with up to 9 words in total; every shift count; results overlapping operands in every way the interface allows; portable and generated word primitives' + ('' if ctx.thorough else '; quick: operand sizes m in 1, 2, n-1, n, n+1, 9, operators for n in 1, 2, 4, 9'),
                outside='results beyond the capacity (the library stops the program), non-canonical operands, the 32-bit build', assumptions=['memcpy and memmove copy', 'printing the message of an error has no other effect'])
    return obs, info
