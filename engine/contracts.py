"""Assume-guarantee: a call to a routine whose specification is itself an obligation (a lemma decided by the
check of another property, or of the same one) is replaced by that specification: the operands must be in
the specified ranges and aliasing pattern, and the results become fresh numbers of the specified range
and residue class."""
import limb
from limb import KINDS, CW, size, build_value, flat
from x86 import Unsupported, PathEnd
from tower import El
ARGR = [7, 6, 2, 1, 8, 9]
CALLER = [0, 1, 2, 6, 7, 8, 9, 10, 11]

def contract(cfg, specs, note):
    """specs: Specs with the same entry point, tried in order (weakest preconditions last)"""
    F, p = cfg.F, cfg.p
    def hook(s):
        d = s.dom; why = None
        for sp in specs:
            r = apply(s, d, sp)
            if r is True:
                note.add('%s%s' % (sp.name, ' [%s]' % sp.note if sp.note else '')); break
            why = r
        else:
            note.add('(inlined) %s: %s' % (specs[0].name, why)); return 'continue'
        for i in CALLER: s.r[i] = d.undef('clob')
        s.setfl(None)
        s.pc = s.load(s.r[4]); s.r[4] += 8
    def apply(s, d, sp):
        addr = {}
        for i, (n, k, m) in enumerate(sp.args):
            v = d.rd(s.r[ARGR[i]])
            if k in KINDS:
                if not isinstance(v, int): return 'symbolic pointer'
                addr[n] = v
            elif n in sp.ints and v != sp.ints[n]: return 'integer argument'
        objs = [(n, k) for n, k, m in sp.args if k in KINDS]
        # aliasing: equal pointers must form an allowed pattern, partial overlap is not covered
        groups = {}
        for n, k in objs: groups.setdefault(addr[n], []).append(n)
        outs = {n for n, k in sp.outs()}
        for i, (n, k) in enumerate(objs):
            for m, k2 in objs[i + 1:]:
                a, b = addr[n], addr[m]
                if a != b and a < b + size(k2) and b < a + size(k) and (n in outs or m in outs): return 'partial overlap %s %s' % (n, m)
        pat = {frozenset(g) for g in groups.values() if len(g) > 1 and any(n in outs for n in g)}
        if pat:
            ok = False
            for al in sp.patterns():
                full = {frozenset(g) for g in al if set(g) & outs}
                if full == pat: ok = True
            if not ok: return 'aliasing %s' % [sorted(x) for x in pat]
        env = {}
        for n, k in sp.ins():
            comps = []; o = addr[n]
            for i, c in enumerate(KINDS[k]):
                ws = [s.load(o + 8 * j) for j in range(CW[c])]; o += 8 * CW[c]
                if all(isinstance(w, int) for w in ws):
                    v = sum(w << 64 * j for j, w in enumerate(ws)); cls = {(): v % p} if v % p else {}; hi = v
                else:
                    cls, e, hi, X = d.value(ws)
                    if cls is None: return 'value of %s[%d] is not determined' % (n, i)
                B = sp.bound(p, n, k, i)
                if hi is None or hi >= B:
                    ok, m = d.prove([(limb.poly.padd(d.blockval(ws), limb.poly.const(B), -1), 'ge')]) if c[0] != 'x' else (False, None)
                    if not ok: return 'range of %s[%d]' % (n, i)
                sc = F.Ri if c == 'F' else F.Ri * F.Ri % p
                comps.append(El(F, {m: v * sc % p for m, v in cls.items()}))
            env[n] = build_value(k, comps)
        want = sp.fn(F, env)
        for n, k in sp.outs():
            o = addr[n]
            for i, (c, e) in enumerate(zip(KINDS[k], flat(want[n]))):
                if not isinstance(e, El): e = F.el(e)
                sc = F.R if c == 'F' else F.R * F.R % p
                cls = {m: v * sc % p for m, v in e.d.items()}
                hi = sp.bound(p, n, k, i, True) - 1
                if not cls and c == 'F' and hi < p: ws = [0] * CW[c]
                elif list(cls) == [()] and c == 'F' and hi < p: ws = [cls[()] >> 64 * j & (1 << 64) - 1 for j in range(4)]
                else: X, ws = d.block('C', CW[c], hi, cls=cls)
                for w in ws: s.mem[o] = w; s.writes.add(o); o += 8
        return True
    return hook

def hooks(img, cfg, specs, note, skip=()):
    by = {}
    for sp in specs:
        if sp.name in skip: continue
        by.setdefault(img.entries[sp.name], []).append(sp)
    return {a: contract(cfg, v, note) for a, v in by.items()}

def mem_hooks(img):
    """memmove / memcpy / memset of a concrete size through the PLT"""
    h = {}
    def plt(nm): return [a for a, n in img.symname.items() if n.strip('<>').split('@')[0] == nm and '@plt' in n]
    def ret(s, v):
        s.r[0] = v; s.pc = s.load(s.r[4]); s.r[4] += 8
    def move(s):
        d, f, n = (s.dom.rd(s.r[i]) for i in (7, 6, 2))
        if not all(isinstance(x, int) for x in (d, f, n)) or d & 7 or f & 7 or n & 7: raise Unsupported('memmove shape')
        vs = [s.load(f + o) for o in range(0, n, 8)]
        for o, v in zip(range(0, n, 8), vs): s.store(d + o, v)
        ret(s, d)
    def mset(s):
        d, f, n = (s.dom.rd(s.r[i]) for i in (7, 6, 2))
        if not all(isinstance(x, int) for x in (d, f, n)) or d & 7 or n & 7: raise Unsupported('memset shape')
        b = (f & 255) * 0x0101010101010101
        for o in range(0, n, 8): s.store(d + o, b)
        ret(s, d)
    for a in plt('memmove') + plt('memcpy'): h[a] = move
    for a in plt('memset'): h[a] = mset
    return h
