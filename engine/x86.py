"""Symbolic executor for x86-64 machine code (the compiled library and the code it
generates at run time).  Values are Python ints (concrete) or domain objects; every
operation on a non-concrete value is delegated to a domain (bv.BV or poly.Poly).

Memory is word granular: 8-byte cells keyed by aligned address on top of the
initialised process image.  Anything the executor cannot represent raises
Unsupported, which a check must report as undecided - never as success."""
import re

M64 = (1 << 64) - 1
class Unsupported(Exception): pass
class Part:
    """bits under the mask m known, the rest undefined or unrepresentable"""
    __slots__ = ('v', 'm')
    def __init__(self, v, m): self.v, self.m = v, m
class PathEnd(Exception):
    def __init__(self, why): self.why = why

R64 = ['rax','rcx','rdx','rbx','rsp','rbp','rsi','rdi','r8','r9','r10','r11','r12','r13','r14','r15']
REGS = {}
for i, r in enumerate(R64):
    REGS[r] = (i, 64, 0)
    if i < 8:
        n = r[1:]
        REGS['e' + n] = (i, 32, 0); REGS[n] = (i, 16, 0)
        if n[1] == 'x': REGS[n[0] + 'l'] = (i, 8, 0); REGS[n[0] + 'h'] = (i, 8, 8)
        else: REGS[n + 'l'] = (i, 8, 0)
    else:
        REGS[r + 'd'] = (i, 32, 0); REGS[r + 'w'] = (i, 16, 0); REGS[r + 'b'] = (i, 8, 0)
SIZES = {'QWORD': 64, 'DWORD': 32, 'WORD': 16, 'BYTE': 8, 'XMMWORD': 128, 'TBYTE': 80}
CALLEE = ['rbx','rbp','r12','r13','r14','r15']
RET = 0x7fee0000dead0
STACK = 0x7fee00100000

def parse_op(t):
    t = t.strip()
    if t in REGS: return ('r',) + REGS[t]
    if t.startswith('xmm'): return ('x', int(t[3:]))
    m = re.match(r'(?:(\w+) PTR )?(?:(\w\w):)?\[(.*)\]$', t)
    if m:
        if m.group(2) and m.group(2) not in ('ds', 'cs', 'ss', 'es'):
            seg = m.group(2)
        else: seg = None
        base = idx = None; scale = 1; disp = 0
        for s, part in re.findall(r'([+-]?)([^+-]+)', m.group(3)):
            sg = -1 if s == '-' else 1
            if '*' in part:
                r, k = part.split('*')
                if r == 'riz': continue
                idx, scale = REGS[r][0], int(k)
            elif part in REGS:
                if base is None: base = REGS[part][0]
                else: idx, scale = REGS[part][0], 1
            elif part == 'rip': base = 'rip'
            else: disp += sg * int(part, 0)
        return ('m', SIZES.get(m.group(1), None), base, idx, scale, disp, seg)
    m = re.match(r'(?:(\w+) PTR )?(\w\w):(0x[0-9a-f]+)$', t)
    if m: return ('m', SIZES.get(m.group(1), None), None, None, 1, int(m.group(3), 16), m.group(2) if m.group(2) not in ('ds','cs','ss','es') else None)
    m = re.match(r'(-?(?:0x)?[0-9a-f]+)(?: <.*>)?$', t)
    if m:
        v = m.group(1)
        return ('i', int(v, 16) if v.lower().lstrip('-').startswith('0x') or re.search('[a-f]', v) else int(v))
    raise Unsupported('operand ' + t)

def split_ops(s):
    out, d, cur = [], 0, ''
    for ch in s:
        if ch == '[': d += 1
        if ch == ']': d -= 1
        if ch == ',' and d == 0: out.append(cur); cur = ''
        else: cur += ch
    if cur.strip(): out.append(cur)
    return out

_cache = {}
def decode(text):
    c = _cache.get(text)
    if c is None:
        t = re.sub(r'^(data16|cs|ds|notrack|bnd)\s+(?=\S)', '', text)
        t = re.sub(r'^(data16|cs|ds|notrack|bnd)\s+(?=\S)', '', t)
        t = re.sub(r'^(rep|repz|repnz|lock)\s+', r'\1_', t)
        p = t.split(None, 1)
        mn = p[0]
        if mn.startswith('nop') or mn.startswith('endbr') or mn == 'xchg' and len(p) > 1 and p[1].replace(' ', '') == 'ax,ax':
            c = ('nop', [])
        elif mn[0] == 'j' or mn == 'call':
            a = p[1].split('<')[0].strip() if len(p) > 1 else ''
            if re.match(r'^(0x)?[0-9a-f]+$', a) and a not in REGS: c = (mn, [('i', int(a, 16))])
            else: c = (mn, [parse_op(a)])
        else:
            try: c = (mn, [parse_op(x) for x in split_ops(p[1])] if len(p) > 1 else [])
            except Unsupported as e: c = ('?' + text, [])
        _cache[text] = c
    return c

class Flags:
    """Arithmetic flags of the last flag-writing instruction, kept lazily."""
    __slots__ = ('kind', 'w', 'a', 'b', 'res', 'cf', 'of')
    def __init__(self, kind, w, a, b, res, cf, of=None):
        self.kind, self.w, self.a, self.b, self.res, self.cf, self.of = kind, w, a, b, res, cf, of

class State:
    def __init__(self, img, dom):
        self.img, self.dom = img, dom
        self.r = [0] * 16
        self.x = [(0, 0)] * 16
        self.fl = None
        self.mem = {}
        self.pc = 0
        self.steps = 0
        self.path = []
        self.forks = {}
        self.user = {}
        self.calls = []
        self.writes = set()
    def copy(self):
        s = State.__new__(State)
        s.img = self.img; s.dom = self.dom.clone() if hasattr(self.dom, 'clone') else self.dom
        s.r = list(self.r); s.x = list(self.x); s.fl = self.fl; s.mem = dict(self.mem)
        s.pc = self.pc; s.steps = self.steps; s.path = list(self.path); s.user = dict(self.user)
        s.calls = list(self.calls); s.writes = set(self.writes); s.forks = dict(self.forks)
        return s
    # ---- memory
    def ldw(self, a):
        v = self.mem.get(a)
        if v is None:
            v = self.img.u64(a)
            if v is None:
                if STACK - 0x200000 <= a < STACK + 0x1000: v = self.dom.undef('stk')
                else: raise PathEnd('load outside mapped memory 0x%x' % a)
                self.mem[a] = v
        return v
    def load(self, a, n=64):
        if not isinstance(a, int): return self.dom.sym_load(self, a, n)
        a &= M64
        o = a & 7
        if n == 64 and o == 0: return self.dom.rd(self.ldw(a))
        if n == 128: return (self.load(a, 64), self.load(a + 8, 64))
        lo = self.dom.rd(self.ldw(a - o))
        if o * 8 + n <= 64:
            if isinstance(lo, int): return (lo >> (o * 8)) & ((1 << n) - 1)
            return self.dom.extract(lo, o * 8, n)
        hi = self.dom.rd(self.ldw(a - o + 8))
        if isinstance(lo, int) and isinstance(hi, int): return ((lo | hi << 64) >> (o * 8)) & ((1 << n) - 1)
        return self.dom.extract2(lo, hi, o * 8, n)
    def store(self, a, v, n=64):
        if not isinstance(a, int): return self.dom.sym_store(self, a, v, n)
        a &= M64
        if n == 128:
            self.store(a, v[0], 64); self.store(a + 8, v[1], 64); return
        o = a & 7
        if not (STACK - 0x200000 <= a < STACK + 0x1000) and self.img.region(a) is None and (a - o) not in self.mem:
            raise PathEnd('store outside mapped memory 0x%x' % a)
        self.writes.add(a - o)
        if n == 64 and o == 0:
            self.mem[a] = v
            self.dom.on_store(self, a, v)
            return
        w = a - o
        if o * 8 + n <= 64:
            old = self.ldw(w)
            if isinstance(old, int) and isinstance(v, int):
                m = ((1 << n) - 1) << (o * 8)
                self.mem[w] = (old & ~m) | ((v << (o * 8)) & m)
            else: self.mem[w] = self.dom.insert(old, v, o * 8, n)
            return
        n1 = 64 - o * 8
        if isinstance(v, int):
            v1, v2 = v & ((1 << n1) - 1), v >> n1
        else:
            v1, v2 = self.dom.extract(v, 0, n1), self.dom.extract(v, n1, n - n1)
        o1, o2 = self.ldw(w), self.ldw(w + 8)
        self.mem[w] = self.dom.insert_any(o1, v1, o * 8, n1)
        self.mem[w + 8] = self.dom.insert_any(o2, v2, 0, n - n1)
        self.writes.add(w + 8)
    # ---- operands
    def ea(self, op, nxt):
        _, _, base, idx, scale, disp, seg = op
        if seg is not None:
            if seg == 'fs': return 0x7fee80000000 + disp
            raise Unsupported('segment')
        v = disp
        if base == 'rip':
            v += nxt
        elif base is not None:
            b = self.dom.rd(self.r[base])
            v = v + b if isinstance(b, int) else self.dom.add(b, v & M64, 64)
        if idx is not None:
            i = self.dom.rd(self.r[idx])
            if isinstance(i, int) and isinstance(v, int): v += i * scale
            else:
                t = i * scale & M64 if isinstance(i, int) else self.dom.shl(i, {1:0,2:1,4:2,8:3}[scale], 64)
                v = self.dom.add(v & M64 if isinstance(v, int) else v, t, 64)
        return v & M64 if isinstance(v, int) else v
    def get(self, op, nxt, n=None):
        k = op[0]
        if k == 'r':
            v = self.dom.rd(self.r[op[1]])
            if op[2] == 64: return v
            if isinstance(v, int): return (v >> op[3]) & ((1 << op[2]) - 1)
            return self.dom.extract(v, op[3], op[2])
        if k == 'i': return op[1] & ((1 << (n or 64)) - 1)
        if k == 'm': return self.load(self.ea(op, nxt), op[1] or n or 64)
        if k == 'x': return self.x[op[1]]
        raise Unsupported('get')
    def put(self, op, v, nxt, n=None):
        k = op[0]
        if k == 'r':
            w = op[2]
            if w == 64: self.r[op[1]] = v
            elif w == 32: self.r[op[1]] = v if isinstance(v, int) else self.dom.zext(v, 32)
            else:
                old = self.dom.rd(self.r[op[1]])
                if isinstance(old, int) and isinstance(v, int):
                    m = ((1 << w) - 1) << op[3]
                    self.r[op[1]] = (old & ~m) | ((v << op[3]) & m)
                else: self.r[op[1]] = self.dom.insert(old, v, op[3], w)
        elif k == 'm': self.store(self.ea(op, nxt), v, op[1] or n or 64)
        elif k == 'x': self.x[op[1]] = v
        else: raise Unsupported('put')
    def width(self, op):
        return op[2] if op[0] == 'r' else op[1] if op[0] == 'm' else None
    # ---- flags
    def carry_unused(self):
        """the carry flag is overwritten, or the routine returns, before anything reads it"""
        pc = self.pc
        for _ in range(40):
            ent = self.img.fetch(pc)
            if ent is None: return False
            nxt, (mn, ops) = ent[0], decode(ent[1])
            if mn in ('mov', 'lea', 'movq', 'movaps', 'movups', 'movdqa', 'movdqu', 'nop', 'push', 'pop', 'mulx', 'movzx', 'movabs', 'not', 'inc', 'dec', 'rorx', 'shlx', 'shrx'): pc = nxt
            elif mn in ('ret', 'call'): return True
            elif mn == 'jmp' and ops[0][0] == 'i': pc = ops[0][1]
            else: return mn in ('add', 'sub', 'xor', 'and', 'or', 'test', 'cmp', 'mul', 'imul', 'shl', 'shr', 'sar', 'shrd', 'shld', 'neg')
        return False
    def setfl(self, f):
        o = self.fl
        if o is not None and o.cf is not None and not isinstance(o.cf, (int, bool)):
            self.dom.flag_dead(o.cf)
        self.fl = f
    def cond(self, cc):
        """Truth value of a condition code: bool or a domain condition."""
        cc = {'z':'e','nz':'ne','c':'b','nae':'b','nc':'ae','nb':'ae','na':'be','nbe':'a','nge':'l','nl':'ge','ng':'le','nle':'g','pe':'p','po':'np'}.get(cc, cc)
        neg = {'ne':'e','ae':'b','a':'be','ge':'l','g':'le','ns':'s','no':'o','np':'p'}
        if cc in neg: return self.dom.bnot(self.cond(neg[cc]))
        f = self.fl
        if f is None: raise Unsupported('flags undefined')
        d = self.dom
        if cc == 'b': return self.getcf()
        if f.kind == 'fcmp':
            if cc == 'e': return d.fl_fcmp(f, 'e')
            if cc == 'be': return d.fl_fcmp(f, 'be')
            if cc == 'p': return d.fl_fcmp(f, 'p')
            raise Unsupported('fcmp ' + cc)
        if cc == 'e':
            if isinstance(f.res, int): return (f.res & ((1 << f.w) - 1)) == 0
            return d.zero(f)
        if cc == 'be':
            p, q = self.getcf(), self.cond('e')
            if p is True or q is True: return True
            if p is False: return q
            if q is False: return p
            return d.bor(p, q)
        if cc == 's':
            if isinstance(f.res, int): return bool(f.res >> (f.w - 1) & 1)
            return d.sign(f)
        if cc in ('o', 'l', 'le'):
            if all(isinstance(v, int) for v in (f.a, f.b, f.res) if v is not None):
                w = f.w
                sg = lambda v: v >> (w - 1) & 1
                if f.kind in ('sub', 'cmp'): of = sg(f.a) != sg(f.b) and sg(f.res) != sg(f.a)
                elif f.kind == 'add': of = sg(f.a) == sg(f.b) and sg(f.res) != sg(f.a)
                elif f.kind == 'logic': of = False
                elif f.of is not None: of = f.of
                else: raise Unsupported('of')
                if cc == 'o': return of
                lt = of != bool(sg(f.res))
                return lt if cc == 'l' else (lt or f.res == 0)
            return d.signed(f, cc)
        raise Unsupported('cond ' + cc)
    def getcf(self):
        c = self.fl.cf
        if c is None: raise Unsupported('cf undefined')
        if isinstance(c, (int, bool)): return bool(c)
        return self.dom.cf_bool(c)

class Exec:
    merging = False
    def __init__(self, img, hooks=None, max_steps=2000000, trace=None):
        self.img = img; self.hooks = hooks or {}; self.max_steps = max_steps; self.trace = trace
    def start(self, dom, fn, args, stack=STACK):
        s = State(self.img, dom)
        s.r = [dom.undef('reg_' + R64[i]) for i in range(16)]
        s.user['callee'] = {r: s.r[REGS[r][0]] for r in CALLEE}
        s.r[4] = stack - 8
        s.mem[stack - 8] = RET
        for i, a in enumerate(args): s.r[[7, 6, 2, 1, 8, 9][i]] = a
        s.pc = fn
        return s
    def run(self, s, on_fork=None):
        """Runs to completion; returns the list of finished states."""
        work, done = [s], []
        while work:
            st = work.pop()
            try:
                while st.pc != RET:
                    nx = self.step(st)
                    if nx is not None:
                        work.extend(nx[1:]); st = nx[0]
                st.user['end'] = 'ret'
                if st.fl is not None and st.fl.cf is not None and not isinstance(st.fl.cf, (int, bool)): st.dom.flag_dead(st.fl.cf)
            except PathEnd as e:
                st.user['end'] = e.why
                if e.why == 'infeasible': continue
            done.append(st)
        return done
    def branch(self, st, c, a_true, a_false):
        if isinstance(c, bool):
            st.pc = a_true if c else a_false
            return None
        outs = []
        t = st.dom.decide(c)          # True/False/None
        if t is not None:
            st.pc = a_true if t else a_false
            return None
        s2 = st.copy()
        ok1 = st.dom.assume(c, True, st)
        ok2 = s2.dom.assume(c, False, s2)
        if ok1: st.pc = a_true; st.path.append((st.steps, True)); outs.append(st)
        if ok2: s2.pc = a_false; s2.path.append((s2.steps, False)); outs.append(s2)
        if not outs: raise PathEnd('infeasible')
        return outs
    def step(self, s):
        pc = s.pc
        h = self.hooks.get(pc)
        if h is not None:
            r = h(s)
            if r != 'continue': return r
        ent = self.img.fetch(pc)
        if ent is None: raise PathEnd('bad fetch 0x%x' % pc)
        nxt, text = ent
        mn, ops = decode(text)
        s.steps += 1
        if s.steps > self.max_steps: raise PathEnd('step limit')
        if self.trace: self.trace(s, pc, text)
        s.pc = nxt
        f = OPS.get(mn)
        try:
            if f is not None: return f(self, s, mn, ops, nxt)
            if mn[0] == 'j': return self.branch(s, s.cond(mn[1:]), ops[0][1], nxt)
            if mn.startswith('cmov'): return op_cmov(self, s, mn, ops, nxt)
            if mn.startswith('set'): return op_set(self, s, mn, ops, nxt)
            raise Unsupported('instruction ' + text + ' at %x' % pc)
        except Exception as e:
            cases = getattr(e, 'cases', None)
            if cases is None: raise
            outs = []
            for c in cases:
                s2 = s.copy(); s2.pc = pc; s2.steps -= 1
                if c(s2) is not False: outs.append(s2)
            if not outs: raise PathEnd('infeasible')
            return outs

OPS = {}
def op(*names):
    def deco(f):
        for n in names: OPS[n] = f
        return f
    return deco
def both(a, b): return isinstance(a, int) and isinstance(b, int)
def sx(v, w): return v - (1 << w) if v >> (w - 1) & 1 else v

@op('nop')
def _(e, s, mn, o, nxt): pass
@op('mov', 'movabs')
def _(e, s, mn, o, nxt):
    n = s.width(o[0]) or s.width(o[1])
    s.put(o[0], s.get(o[1], nxt, n), nxt, n)
@op('lea')
def _(e, s, mn, o, nxt):
    v = s.ea(o[1], nxt); w = o[0][2]
    if w < 64: v = v & ((1 << w) - 1) if isinstance(v, int) else s.dom.extract(v, 0, w)
    s.put(o[0], v, nxt)
@op('movzx')
def _(e, s, mn, o, nxt):
    v = s.get(o[1], nxt); w = s.width(o[1])
    if not isinstance(v, int): v = s.dom.zext_to(v, w, o[0][2])
    s.put(o[0], v, nxt)
@op('movsx', 'movsxd')
def _(e, s, mn, o, nxt):
    v = s.get(o[1], nxt); w = s.width(o[1])
    if isinstance(v, int): v = sx(v, w) & ((1 << o[0][2]) - 1)
    else: v = s.dom.sext_to(v, w, o[0][2])
    s.put(o[0], v, nxt)
@op('cdqe')
def _(e, s, mn, o, nxt):
    v = s.get(('r', 0, 32, 0), nxt)
    s.r[0] = sx(v, 32) & M64 if isinstance(v, int) else s.dom.sext_to(v, 32, 64)
@op('cqo')
def _(e, s, mn, o, nxt):
    v = s.dom.rd(s.r[0])
    s.r[2] = (M64 if v >> 63 else 0) if isinstance(v, int) else s.dom.sar(v, 63, 64)
@op('cdq')
def _(e, s, mn, o, nxt):
    v = s.get(('r', 0, 32, 0), nxt)
    v = (0xffffffff if v >> 31 else 0) if isinstance(v, int) else s.dom.sar(v, 31, 32)
    s.put(('r', 2, 32, 0), v, nxt)
@op('push')
def _(e, s, mn, o, nxt):
    v = s.get(o[0], nxt); s.r[4] -= 8; s.store(s.r[4], v)
@op('pop')
def _(e, s, mn, o, nxt):
    v = s.load(s.r[4]); s.r[4] += 8; s.put(o[0], v, nxt)
@op('leave')
def _(e, s, mn, o, nxt):
    s.r[4] = s.r[5]; s.r[5] = s.load(s.r[4]); s.r[4] += 8
@op('call')
def _(e, s, mn, o, nxt):
    t = o[0][1] if o[0][0] == 'i' else s.get(o[0], nxt)
    if not isinstance(t, int): raise Unsupported('symbolic call')
    s.r[4] -= 8; s.store(s.r[4], nxt); s.pc = t
@op('ret')
def _(e, s, mn, o, nxt):
    t = s.load(s.r[4]); s.r[4] += 8
    if not isinstance(t, int): raise PathEnd('return address overwritten')
    s.pc = t
@op('jmp')
def _(e, s, mn, o, nxt):
    t = o[0][1] if o[0][0] == 'i' else s.get(o[0], nxt)
    if not isinstance(t, int):
        outs = s.dom.concretize(s, t)
        res = []
        for st, v in outs: st.pc = v; res.append(st)
        return res
    s.pc = t

def arith_add(s, a, b, cin, w):
    """returns res, cf"""
    if both(a, b) and isinstance(cin, (int, bool)):
        r = a + b + int(cin); return r & ((1 << w) - 1), r >> w
    return s.dom.addc(a, b, cin, w)
def arith_sub(s, a, b, cin, w):
    if both(a, b) and isinstance(cin, (int, bool)):
        r = a - b - int(cin); return r & ((1 << w) - 1), int(r < 0)
    return s.dom.subb(a, b, cin, w)
def rawcf(s, consume=True):
    f = s.fl
    if f is None or f.cf is None: raise Unsupported('cf undefined')
    return f.cf
@op('add', 'adc')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[0], nxt, w); b = s.get(o[1], nxt, w)
    cin = rawcf(s) if mn == 'adc' else 0
    r, c = arith_add(s, a, b, cin, w)
    kind = 'add' if mn == 'add' else 'adc'
    s.put(o[0], r, nxt, w); s.setfl(Flags(kind, w, a, b, r, c))
@op('sub', 'sbb', 'cmp')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]) or s.width(o[1]); 
    if mn == 'sub' and o[0] == o[1]:
        s.put(o[0], 0, nxt, w); s.setfl(Flags('sub', w, 0, 0, 0, 0)); return
    if mn == 'sbb' and o[0] == o[1] and o[0][0] == 'r':
        c = rawcf(s)
        if not isinstance(c, (int, bool)):
            r = s.dom.mask(s.dom.cf_bool(c), w)
            s.put(o[0], r, nxt, w)
            s.setfl(Flags('mask', w, None, None, r, s.fl.cf)); return
        a = b = 0
    else: a = s.get(o[0], nxt, w); b = s.get(o[1], nxt, w)
    cin = rawcf(s) if mn == 'sbb' else 0
    r, c = arith_sub(s, a, b, cin, w)
    if mn != 'cmp': s.put(o[0], r, nxt, w)
    s.setfl(Flags('sub' if mn != 'sbb' else 'sbb', w, a, b, r, c))
@op('inc', 'dec')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[0], nxt)
    cf = s.fl.cf if s.fl else None
    r, _c = (arith_add if mn == 'inc' else arith_sub)(s, a, 1, 0, w)
    s.put(o[0], r, nxt); s.fl = Flags('add' if mn == 'inc' else 'sub', w, a, 1, r, cf)
@op('neg')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[0], nxt)
    r, c = arith_sub(s, 0, a, 0, w)
    s.put(o[0], r, nxt); s.setfl(Flags('sub', w, 0, a, r, c))
@op('not')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[0], nxt)
    s.put(o[0], a ^ ((1 << w) - 1) if isinstance(a, int) else s.dom.bitnot(a, w), nxt)
@op('and', 'or', 'xor', 'test')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]) or s.width(o[1]); 
    if mn == 'xor' and o[0] == o[1]: a = b = 0
    else: a = s.get(o[0], nxt, w); b = s.get(o[1], nxt, w)
    if both(a, b): r = {'and': a & b, 'test': a & b, 'or': a | b, 'xor': a ^ b}[mn]
    elif mn in ('and', 'test') and o[0] == o[1]: r = a
    elif mn == 'or' and o[0] == o[1]: r = a
    else: r = s.dom.logic({'test': 'and'}.get(mn, mn), a, b, w)
    if mn != 'test': s.put(o[0], r, nxt, w)
    s.setfl(Flags('logic', w, r, 0, r, 0, False))
@op('shl', 'shr', 'sar', 'sal')
def _(e, s, mn, o, nxt):
    settle(s)
    w = s.width(o[0]); a = s.get(o[0], nxt)
    k = s.get(o[1], nxt, 8) if len(o) > 1 else 1
    if isinstance(k, int):
        k &= 63 if w == 64 else 31
        if k == 0: return
    if both(a, k):
        if mn in ('shl', 'sal'): r = (a << k) & ((1 << w) - 1); c = (a << k) >> w & 1
        elif mn == 'shr': r = a >> k; c = a >> (k - 1) & 1
        else: r = (sx(a, w) >> k) & ((1 << w) - 1); c = sx(a, w) >> (k - 1) & 1
        s.put(o[0], r, nxt); s.setfl(Flags('shift', w, None, None, r, c)); return
    if not isinstance(k, int): k = s.dom.logic('and', k, 63 if w == 64 else 31, 8)
    f = {'shl': s.dom.shl, 'sal': s.dom.shl, 'shr': s.dom.shr, 'sar': s.dom.sar}[mn]
    r = f(a, k, w)
    s.put(o[0], r, nxt)
    s.setfl(Flags('shift', w, None, None, r, s.dom.shift_cf(mn, a, k, w)))
@op('rol', 'ror')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[0], nxt); k = s.get(o[1], nxt, 8) if len(o) > 1 else 1
    if not isinstance(k, int): raise Unsupported('rot')
    k %= w
    if mn == 'ror': k = (w - k) % w
    if isinstance(a, int): r = ((a << k) | (a >> (w - k))) & ((1 << w) - 1)
    else: r = s.dom.rol(a, k, w)
    s.put(o[0], r, nxt); s.setfl(Flags('shift', w, None, None, r, None))
def settle(s):
    f = s.fl
    if f is not None and f.cf is not None and not isinstance(f.cf, (int, bool)): s.dom.flag_dead(f.cf)
@op('shrd', 'shld')
def _(e, s, mn, o, nxt):
    settle(s)
    w = s.width(o[0]); a = s.get(o[0], nxt); b = s.get(o[1], nxt); k = s.get(o[2], nxt, 8)
    if isinstance(k, int):
        k &= 63
        if k == 0: return
    if both(a, b) and isinstance(k, int):
        if mn == 'shrd': r = (((b << w) | a) >> k) & ((1 << w) - 1)
        else: r = ((((a << w) | b) << k) >> w) & ((1 << w) - 1)
    else: r = s.dom.shrd(a, b, k, w) if mn == 'shrd' else s.dom.shld(a, b, k, w)
    s.put(o[0], r, nxt); s.setfl(Flags('shift', w, None, None, r, None))
@op('shrx', 'shlx', 'sarx')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[1], nxt, w); k = s.get(o[2], nxt)
    if not isinstance(k, int): raise Unsupported(mn)
    k &= w - 1
    if isinstance(a, int): r = {'shrx': a >> k, 'shlx': a << k & ((1 << w) - 1), 'sarx': sx(a, w) >> k & ((1 << w) - 1)}[mn]
    else: r = {'shrx': s.dom.shr, 'shlx': s.dom.shl, 'sarx': s.dom.sar}[mn](a, k, w)
    s.put(o[0], r, nxt)
def domul(s, a, b, w):
    if both(a, b): r = a * b; return r & ((1 << w) - 1), r >> w
    return s.dom.mul(a, b, w)
@op('mul')
def _(e, s, mn, o, nxt):
    w = s.width(o[0])
    if w not in (64, 32): raise Unsupported('mul8')
    a = s.get(('r', 0, w, 0), nxt); b = s.get(o[0], nxt)
    lo, hi = domul(s, a, b, w)
    s.put(('r', 0, w, 0), lo, nxt); s.put(('r', 2, w, 0), hi, nxt)
    s.setfl(Flags('mul', w, None, None, None, (int(hi != 0) if isinstance(hi, int) else None)))
    if not isinstance(hi, int): s.fl.kind = 'mulhi'; s.fl.res = None; s.fl.b = hi
    elif True: s.fl.of = hi != 0
@op('mulx')
def _(e, s, mn, o, nxt):
    a = s.dom.rd(s.r[2]); b = s.get(o[2], nxt); lo, hi = domul(s, a, b, 64)
    s.put(o[1], lo, nxt); s.put(o[0], hi, nxt)
@op('imul')
def _(e, s, mn, o, nxt):
    w = s.width(o[0])
    if len(o) == 1:
        a = s.get(('r', 0, w, 0), nxt); b = s.get(o[0], nxt)
        if not both(a, b): lo, hi = s.dom.imul_full(a, b, w)
        else:
            p = sx(a, w) * sx(b, w); lo, hi = p & ((1 << w) - 1), (p >> w) & ((1 << w) - 1)
        s.put(('r', 0, w, 0), lo, nxt); s.put(('r', 2, w, 0), hi, nxt); s.setfl(Flags('mul', w, None, None, None, None)); return
    a = s.get(o[0], nxt) if len(o) == 2 else s.get(o[1], nxt, w)
    b = s.get(o[-1], nxt, w)
    if both(a, b): r = (a * b) & ((1 << w) - 1)
    else: r = s.dom.mullo(a, b, w)
    s.put(o[0], r, nxt); s.setfl(Flags('mul', w, None, None, None, None))
@op('div')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); b = s.get(o[0], nxt); lo = s.get(('r', 0, w, 0), nxt); hi = s.get(('r', 2, w, 0), nxt)
    if both(lo, hi) and isinstance(b, int):
        n = lo | hi << w
        if b == 0 or n // b >> w: raise PathEnd('divide error')
        q, r = n // b, n % b
    else: q, r = s.dom.div(s, hi, lo, b, w)
    s.put(('r', 0, w, 0), q, nxt); s.put(('r', 2, w, 0), r, nxt); s.setfl(Flags('mul', w, None, None, None, None))
@op('idiv')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); b = s.get(o[0], nxt); lo = s.get(('r', 0, w, 0), nxt); hi = s.get(('r', 2, w, 0), nxt)
    if not (both(lo, hi) and isinstance(b, int)): q, r = s.dom.idiv(s, hi, lo, b, w)
    else:
        n = sx(lo | hi << w, 2 * w); d = sx(b, w)
        if d == 0: raise PathEnd('divide error')
        q = abs(n) // abs(d); q = -q if (n < 0) != (d < 0) else q; r = n - q * d
        q &= (1 << w) - 1; r &= (1 << w) - 1
    s.put(('r', 0, w, 0), q, nxt); s.put(('r', 2, w, 0), r, nxt); s.setfl(Flags('mul', w, None, None, None, None))
@op('xchg')
def _(e, s, mn, o, nxt):
    a = s.get(o[0], nxt); b = s.get(o[1], nxt); s.put(o[0], b, nxt); s.put(o[1], a, nxt)
def op_cmov(e, s, mn, o, nxt):
    c = s.cond(mn[4:]); w = s.width(o[0])
    new = s.get(o[1], nxt, w); old = s.get(o[0], nxt)
    if isinstance(c, bool): return s.put(o[0], new if c else old, nxt)
    try: v = s.dom.ite(c, new, old, w, s)
    except Unsupported as err:
        if getattr(err, 'cases', None) is not None: raise
        return both_ways(e, s, c, lambda t, x: t.put(o[0], new if x else old, nxt), err)
    s.put(o[0], v, nxt)
def op_set(e, s, mn, o, nxt):
    c = s.cond(mn[3:])
    if isinstance(c, bool): return s.put(o[0], int(c), nxt, 8)
    try: v = s.dom.b2v(c, 8)
    except Unsupported as err:
        if getattr(err, 'cases', None) is not None: raise
        return both_ways(e, s, c, lambda t, x: t.put(o[0], int(x), nxt, 8), err)
    s.put(o[0], v, nxt, 8)
def both_ways(e, s, c, put, err):
    """a selection the domain cannot express as a value: one path per outcome, as for a branch"""
    if e.merging: raise err
    t = s.dom.decide(c)
    if t is not None: put(s, t); return None
    outs = e.branch(s, c, s.pc, s.pc) or [s]
    for i, x in enumerate(outs): put(x, x.path[-1][1])
    return outs
@op('stc')
def _(e, s, mn, o, nxt): s.fl = Flags('x', 64, None, None, None, 1)
@op('clc')
def _(e, s, mn, o, nxt): s.fl = Flags('x', 64, None, None, None, 0)
@op('cld')
def _(e, s, mn, o, nxt): pass
@op('bt')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[0], nxt); k = s.get(o[1], nxt, w)
    if both(a, k): c = a >> (k & (w - 1)) & 1
    else: c = s.dom.bt(a, k, w)
    s.setfl(Flags('x', w, None, None, None, c))
@op('bsr', 'lzcnt', 'bsf', 'tzcnt')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[1], nxt, w)
    if not isinstance(a, int): r = s.dom.bitscan(s, mn, a, w)
    elif mn == 'bsr': r = a.bit_length() - 1 if a else s.get(o[0], nxt)
    elif mn == 'lzcnt': r = w - a.bit_length()
    elif mn == 'bsf': r = (a & -a).bit_length() - 1 if a else s.get(o[0], nxt)
    else: r = (a & -a).bit_length() - 1 if a else w
    s.put(o[0], r, nxt); s.setfl(Flags('x', w, None, None, a, None))
@op('bswap')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[0], nxt)
    if not isinstance(a, int): raise Unsupported('bswap')
    s.put(o[0], int.from_bytes(a.to_bytes(w // 8, 'little'), 'big'), nxt)
@op('xadd')
def _(e, s, mn, o, nxt):
    w = s.width(o[0]); a = s.get(o[0], nxt); b = s.get(o[1], nxt); r, c = arith_add(s, a, b, 0, w)
    s.put(o[1], a, nxt); s.put(o[0], r, nxt); s.setfl(Flags('add', w, a, b, r, c))
# ---- SSE moves (data movement only) and the few packed ops the code uses
@op('movq')
def _(e, s, mn, o, nxt):
    if o[0][0] == 'x':
        v = s.x[o[1][1]][0] if o[1][0] == 'x' else s.get(o[1], nxt, 64); s.x[o[0][1]] = (v, 0)
    else: s.put(o[0], s.x[o[1][1]][0], nxt, 64)
@op('movd')
def _(e, s, mn, o, nxt):
    if o[0][0] == 'x':
        v = s.get(o[1], nxt, 32); s.x[o[0][1]] = (v if isinstance(v, int) else s.dom.zext(v, 32), 0)
    else:
        v = s.x[o[1][1]][0]; s.put(o[0], v & 0xffffffff if isinstance(v, int) else s.dom.extract(v, 0, 32), nxt, 32)
@op('movdqa', 'movdqu', 'movaps', 'movups', 'movapd', 'movupd', 'lddqu')
def _(e, s, mn, o, nxt):
    if mn in ('movdqa', 'movaps', 'movapd'):
        for q in o:
            if q[0] == 'm':
                a = s.ea(q, nxt)
                if isinstance(a, int) and a & 15: raise PathEnd('misaligned SSE access')
    s.put(o[0], s.get(o[1], nxt, 128), nxt, 128)
@op('movhps', 'movhpd')
def _(e, s, mn, o, nxt):
    if o[0][0] == 'x': s.x[o[0][1]] = (s.x[o[0][1]][0], s.get(o[1], nxt, 64))
    else: s.put(o[0], s.x[o[1][1]][1], nxt, 64)
@op('movlps', 'movlpd')
def _(e, s, mn, o, nxt):
    if o[0][0] == 'x': s.x[o[0][1]] = (s.get(o[1], nxt, 64), s.x[o[0][1]][1])
    else: s.put(o[0], s.x[o[1][1]][0], nxt, 64)
@op('movsd', 'movss')
def _(e, s, mn, o, nxt):
    n = 64 if mn == 'movsd' else 32
    if o[0][0] == 'x':
        if o[1][0] == 'x': s.x[o[0][1]] = (s.x[o[1][1]][0], s.x[o[0][1]][1])
        else: s.x[o[0][1]] = (s.get(o[1], nxt, n), 0)
    else: s.put(o[0], s.x[o[1][1]][0], nxt, n)
@op('punpcklqdq', 'unpcklpd')
def _(e, s, mn, o, nxt):
    b = s.get(o[1], nxt, 128); s.x[o[0][1]] = (s.x[o[0][1]][0], b[0])
@op('punpckhqdq', 'unpckhpd')
def _(e, s, mn, o, nxt):
    b = s.get(o[1], nxt, 128); s.x[o[0][1]] = (s.x[o[0][1]][1], b[1])
@op('pinsrq')
def _(e, s, mn, o, nxt):
    x = list(s.x[o[0][1]]); x[o[2][1] & 1] = s.get(o[1], nxt, 64); s.x[o[0][1]] = tuple(x)
@op('pextrq')
def _(e, s, mn, o, nxt): s.put(o[0], s.x[o[1][1]][o[2][1] & 1], nxt, 64)
@op('pxor', 'xorps', 'xorpd', 'por', 'pand', 'orps', 'andps', 'andpd', 'orpd')
def _(e, s, mn, o, nxt):
    if o[0] == o[1] and 'xor' in mn: s.x[o[0][1]] = (0, 0); return
    a = s.x[o[0][1]]; b = s.get(o[1], nxt, 128)
    k = 'xor' if 'xor' in mn else 'or' if 'or' in mn else 'and'
    s.x[o[0][1]] = tuple(({'xor': p ^ q, 'or': p | q, 'and': p & q}[k] if both(p, q) else s.dom.logic(k, p, q, 64)) for p, q in zip(a, b))
def packed(w, f):
    def g(e, s, mn, o, nxt):
        a = s.x[o[0][1]]; b = s.get(o[1], nxt, 128); out = []
        for p, q in zip(a, b):
            if not both(p, q):
                if p == 0 and isinstance(p, int) and mn.startswith('padd'): out.append(q); continue
                if isinstance(q, int) and q == 0: out.append(p); continue
                if w == 64 : out.append((s.dom.addc if mn[1] == 'a' else s.dom.subb)(p, q, 0, 64)[0]); continue
                out.append(s.dom.packed(mn, p, q, w)); continue
            r = 0
            for i in range(0, 64, w):
                m = (1 << w) - 1
                r |= (f(p >> i & m, q >> i & m) & m) << i
            out.append(r)
        s.x[o[0][1]] = tuple(out)
    return g
OPS['paddd'] = packed(32, lambda a, b: a + b)
OPS['paddq'] = packed(64, lambda a, b: a + b)
OPS['psubd'] = packed(32, lambda a, b: a - b)
OPS['psubq'] = packed(64, lambda a, b: a - b)
@op('pshufd')
def _(e, s, mn, o, nxt):
    a = s.get(o[1], nxt, 128); k = o[2][1]
    if k == 0x4e: s.x[o[0][1]] = (a[1], a[0]); return
    if k == 0x44: s.x[o[0][1]] = (a[0], a[0]); return
    if k == 0xee: s.x[o[0][1]] = (a[1], a[1]); return
    if both(*a):
        d = [a[0] & 0xffffffff, a[0] >> 32, a[1] & 0xffffffff, a[1] >> 32]
        r = [d[k >> (2 * i) & 3] for i in range(4)]
        s.x[o[0][1]] = (r[0] | r[1] << 32, r[2] | r[3] << 32); return
    raise Unsupported('pshufd')
# ---- scalar double arithmetic is delegated to the domain
@op('cvtsi2sd', 'cvttsd2si', 'addsd', 'subsd', 'mulsd', 'divsd', 'comisd', 'ucomisd', 'sqrtsd')
def _(e, s, mn, o, nxt): return s.dom.fpop(e, s, mn, o, nxt)
@op('rep_stos', 'rep_movs')
def _(e, s, mn, o, nxt): return op_rep(s, mn, o)
def op_rep(s, mn, o):
    n = s.dom.rd(s.r[1])
    if not isinstance(n, int): raise Unsupported('rep count')
    w = s.width(o[0]) // 8
    for i in range(n):
        if 'stos' in mn: v = s.get(('r', 0, w * 8, 0), 0)
        else: v = s.load(s.r[6], w * 8); s.r[6] += w
        s.store(s.r[7], v, w * 8); s.r[7] += w
    s.r[1] = 0
@op('ud2', 'hlt')
def _(e, s, mn, o, nxt): raise PathEnd('trap')
