"""C03: inversion and division in the prime field.
 - preInv (generated code): the loop is cut at its head; one iteration from an arbitrary state (u, v, r, s, k) is shown to be one
   of the four transitions of the binary algorithm over the integers, with no overflow of the 256-bit words; the invariants
   that make the result right are then statements over the integers about these transitions.
 - the wrappers inv, inverse, / and /=: with preInv and the multiplication replaced by their contracts, including
   the address of the entry of the table of powers of two for every step count the loop can produce."""
import random, re, time, z3
import build, limb
from limb import Config, ARENA, SLOT
from x86 import Exec, PathEnd, Unsupported, STACK, RET, decode
from zbv import ZB, BV, bv, fresh, M64
from poly import STATS
from check import Ob
import contracts

class PB(ZB):
    """with lane-wise additions"""
    def packed(self, mn, a, b, w):
        if mn[:4] not in ('padd', 'psub'): raise Unsupported(mn)
        a, b = bv(a), bv(b); e = [z3.Extract(i + w - 1, i, a) + z3.Extract(i + w - 1, i, b) if mn[:4] == 'padd' else z3.Extract(i + w - 1, i, a) - z3.Extract(i + w - 1, i, b) for i in range(64 - w, -1, -w)]
        return z3.simplify(z3.Concat(*e) if len(e) > 1 else e[0])
class FExec(Exec):
    """plain forking; stops at the loop head"""
    head = None
    def branch(self, st, c, a_true, a_false):
        if not isinstance(c, bool):
            t = st.dom.decide(c); c = t if t is not None else c
        if isinstance(c, bool): st.pc = a_true if c else a_false; return None
        s2 = st.copy(); st.dom.pcs.append(c); s2.dom.pcs.append(z3.Not(c)); st.pc = a_true; s2.pc = a_false
        return [st, s2]
    def run(self, s, limit=64):
        work = [s]; done = []
        while work:
            st = work.pop()
            try:
                while st.pc != RET:
                    if st.pc == self.head:
                        if st.user.pop('resume', False): pass
                        else: raise PathEnd('cut')
                    nx = self.step(st)
                    if nx is not None: work += nx[1:]; st = nx[0]
                st.user['end'] = 'ret'
            except PathEnd as e:
                st.user['end'] = e.why
                if e.why == 'infeasible': continue
            done.append(st)
            if len(done) > limit: raise Unsupported('too many paths')
        return done
def heads(img, a):
    """targets of the edges that close a cycle in the flow graph of the routine at a, without entering its calls"""
    succ = {}; work = [a]
    while work:
        p = work.pop()
        if p in succ: continue
        e = img.fetch(p)
        if e is None: succ[p] = []; continue
        nx, t = e; mn, o = decode(t)
        if mn.startswith('ret') or t.startswith('repz ret'): succ[p] = []
        elif mn == 'jmp': succ[p] = [o[0][1]] if o[0][0] == 'i' else []
        elif mn[0] == 'j': succ[p] = [o[0][1], nx]
        else: succ[p] = [nx]
        work += succ[p]
        if len(succ) > 4000: raise Unsupported('flow graph')
    color = {}; out = set(); st = [(a, iter(succ[a]))]; color[a] = 1
    while st:
        p, it = st[-1]
        for q in it:
            c = color.get(q)
            if c == 1: out.add(q)
            elif c is None: color[q] = 1; st.append((q, iter(succ.get(q, [])))); break
        else: color[p] = 2; st.pop()
    return out

def cat(ws): return z3.simplify(z3.Concat(*[bv(w) for w in reversed(ws)]))
def lemma(hyps, claim, det, to=60000):
    s = z3.Solver(); s.set('timeout', to); s.add(hyps); s.add(z3.Not(claim)); t = time.time(); r = s.check()
    STATS.q += 1; STATS.t += time.time() - t; det['lemmas'] = det.get('lemmas', 0) + 1
    if r == z3.unknown: STATS.unk += 1
    return r == z3.unsat

class PreOb(Ob):
    """Fp::preInv"""
    def __init__(self, cfg): self.cfg = cfg; self.key = '%s Fp::preInv' % cfg.name; self.functions = ['Fp::preInv']; self.cost = 3
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = limb.image(ctx.exes, self.cfg); det = dict(paths=0, steps=0)
        why = self.run(img, det)
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='proved' if not why else 'open')
        if why: det['why'] = why
        return det
    def run(self, img, det):
        p = self.cfg.p; ra, xa = ARENA, ARENA + SLOT; P = BV(p, 256)
        e = img.entries['Fp::preInv']; hs = heads(img, e)
        if len(hs) != 1: return 'the routine has %d loops' % len(hs)
        ex = FExec(img, {}); ex.head = hs.pop(); d = PB()
        s = ex.start(d, e, [ra, xa]); xs = [z3.BitVec('x%d' % i, 64) for i in range(4)]; X = cat(xs)
        for i in range(4): s.mem[xa + 8 * i] = xs[i]; s.mem[ra + 8 * i] = z3.BitVec('junk%d' % i, 64)
        d.pcs.append(z3.ULT(X, P)); first = []
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps
            if f.user['end'] != 'cut': return 'entry: ' + f.user['end']
            first.append(f)
        if len(first) != 1: return 'entry forks'
        f = first[0]; lay = self.layout(f, xs, p)
        get, put = self.get, self.put
        # the base of the induction
        st0 = {n: cat([get(f, c) for c in lay[n]]) for n in 'uvrs'}
        for n, v in (('u', P), ('v', X), ('r', BV(0, 256)), ('s', BV(1, 256))):
            if f.dom.sat(st0[n] != v) is not None: return 'initial value of ' + n
        kk = lambda g: g.x[lay['k']]
        if kk(f) != (0, 0): return 'initial step count'
        # one iteration
        g = f.copy(); g.dom = PB(); keep = {i: v for i, v in enumerate(f.r) if isinstance(v, int) and i in (3, 4, 5, 12, 13, 14, 15)}
        used = {c for n in 'uvrs' for c in lay[n]}
        g.r = [v if i == 4 else fresh('r') for i, v in enumerate(g.r)]
        ones = [i for i, v in enumerate(f.x) if v == (1, 0) and i != lay['k']]
        g.x = [v if i in ones else (fresh('x'), fresh('x')) for i, v in enumerate(g.x)]
        base = {a: v for a, v in f.mem.items() if f.r[4] <= a < STACK and a not in {c[1] for c in used if c[0] == 'm'}}
        V = {}
        for n in 'uvrs':
            ws = [z3.BitVec('%s%d' % (n, i), 64) for i in range(4)]; V[n] = cat(ws)
            for c, w in zip(lay[n], ws): put(g, c, w)
        K = z3.BitVec('k', 64); g.x[lay['k']] = (K, 0); u, v, r, t = V['u'], V['v'], V['r'], V['s']
        g.dom.pcs += [z3.ULE(u, P), u != 0, z3.ULT(v, P), z3.ULE(r, BV(2 * p, 256)), z3.ULE(t, P), z3.Or(v == 0, z3.ULE(r, P)), z3.ULE(K, 508), z3.Or(v == 0, z3.ULE(K, 507))]
        g.user = dict(g.user, resume=True); g.fl = None; W = lambda a: z3.ZeroExt(8, a)
        det['iterations'] = 0; exits = 0; kinds = set()
        for h in ex.run(g):
            det['paths'] += 1; det['steps'] += h.steps; dd = h.dom
            if h.user['end'] == 'ret':
                exits += 1
                if dd.sat(v != 0) is not None: return 'the loop ends before v is zero'
                c = cat([h.load(ra + 8 * i) for i in range(4)]); C = W(c)
                if dd.sat(z3.Not(C == 2 * BV(p, 264) - W(r))) is not None and dd.sat(z3.Not(z3.Or(C == BV(p, 264) - W(r), C == 2 * BV(p, 264) - W(r)))) is not None: return 'result is not 2p - r (or p - r)'
                kr = h.r[0]
                if dd.sat(z3.Extract(31, 0, bv(kr)) != z3.Extract(31, 0, K)) is not None: return 'returned step count'
                continue
            if h.user['end'] != 'cut': return 'iteration: ' + h.user['end']
            if dd.sat() is None: continue
            det['iterations'] += 1
            if h.r[4] != f.r[4]: return 'stack pointer at the loop head'
            for a, w in base.items():
                if h.load(a) is not w and not (isinstance(w, int) and h.load(a) == w): return 'a saved value changes'
            for i in ones:
                if h.x[i] != (1, 0): return 'a constant changes'
            k2 = kk(h)
            if dd.sat(z3.Or(bv(k2[0]) != K + 1, bv(k2[1]) != 0)) is not None: return 'step count'
            n = {q: W(cat([get(h, c) for c in lay[q]])) for q in 'uvrs'}; U, Vv, R, S = map(W, (u, v, r, t))
            tr = [('T1', [U == 2 * n['u'], n['v'] == Vv, n['s'] == 2 * S, n['r'] == R]),
                  ('T2', [Vv == 2 * n['v'], n['u'] == U, n['r'] == 2 * R, n['s'] == S]),
                  ('T3', [Vv == U + 2 * n['v'], n['u'] == U, n['s'] == S + R, n['r'] == 2 * R]),
                  ('T4', [U == Vv + 2 * n['u'], n['v'] == Vv, n['r'] == R + S, n['s'] == 2 * S])]
            ok = False
            for nm, eqs in tr:
                if dd.sat(z3.Not(z3.And(eqs))) is None: ok = nm; break
            if not ok: return 'an iteration is none of the four transitions'
            if dd.sat(v == 0) is not None: return 'an iteration with v = 0'
            if ok == 'T4' and dd.sat(u == v) is not None: return 'u can become zero'
            kinds.add(ok)
        if not exits: return 'no exit'
        det['transitions'] = sorted(kinds)
        return self.integers(p, det)
    def integers(self, p, det):
        """the invariants over the integers; x in [1, p), p prime"""
        u, v, r, s, K, x, m, n, u2, v2, r2, s2, K2 = z3.Ints('u v r s K x m n u2 v2 r2 s2 K2'); PP = z3.IntVal(p); Q = z3.Int('p')
        T = {'T1': [u == 2 * u2, v2 == v, s2 == 2 * s, r2 == r], 'T2': [v == 2 * v2, u2 == u, r2 == 2 * r, s2 == s],
             'T3': [v == u + 2 * v2, u2 == u, s2 == s + r, r2 == 2 * r], 'T4': [u == v + 2 * u2, v2 == v, r2 == r + s, s2 == 2 * s]}
        for nm in T:
            sub = [(u, 2 * u2 if nm == 'T1' else u2 if nm != 'T4' else v2 + 2 * u2), (v, 2 * v2 if nm == 'T2' else u2 + 2 * v2 if nm == 'T3' else v2)]
            new = {'T1': [(r2, r), (s2, 2 * s)], 'T2': [(r2, 2 * r), (s2, s)], 'T3': [(r2, 2 * r), (s2, s + r)], 'T4': [(r2, r + s), (s2, 2 * s)]}[nm]
            S = lambda e: z3.simplify(z3.substitute(e, *(sub + new)), som=True)
            # exact identities: u s + v r, and the two congruences (x r + u 2^k and x s - v 2^k are kept up to a factor two, k + 1)
            z = [u2 * s2 + v2 * r2 - (u * s + v * r)]
            A, B, A2, B2 = x * r + u * K, x * s - v * K, x * r2 + u2 * 2 * K, x * s2 - v2 * 2 * K
            want = {'T1': (A, 2 * B), 'T2': (2 * A, B), 'T3': (2 * A, A + B), 'T4': (A + B, 2 * B)}[nm]
            z += [A2 - want[0], B2 - want[1]]
            for e in z:
                if not lemma([], S(e) == 0, det): return '%s: an identity of the transition fails' % nm
            # u v at least halves while v is not zero:  2 u2 v2 <= u v
            if not lemma([u2 >= 1, v2 >= 0], S(u * v - 2 * u2 * v2) >= 0, det): return nm + ': u v does not halve'
            # v stays below p, u positive and at most p
            if not lemma(T[nm] + [u >= 1, u <= PP, v >= 1, v < PP, u2 >= 0, v2 >= 0] + ([u != v] if nm == 'T4' else []), z3.And(v2 < PP, u2 <= PP, u2 >= 1), det): return nm + ': range'
            # when v becomes zero: u = v before, so u < p
            if not lemma(T[nm] + [u >= 1, u <= PP, v >= 1, v < PP, u2 >= 1, v2 == 0], u2 < PP, det): return nm + ': end of the loop'
        # from u s + v r = p with u >= 1, r, s >= 0: s <= p, and r <= p while v >= 1
        a, b, c = z3.Ints('a b c')
        if not lemma([u >= 1, v >= 0, r >= 0, s >= 0, u * s + v * r == Q, s > Q], z3.BoolVal(False), det): return 's <= p'
        if not lemma([u >= 1, v >= 1, r >= 0, s >= 0, u * s + v * r == Q, r > Q], z3.BoolVal(False), det): return 'r <= p'
        # so after the last step r2 <= 2p: it is 2r or r + s with r, s <= p
        if not lemma([r >= 0, r <= Q, s >= 0, s <= Q], z3.And(2 * r <= 2 * Q, r + s <= 2 * Q), det): return 'r at the end'
        # 2^k <= u v 2^k <= p x < p^2 < 2^508 while v >= 1
        if not p * p < 1 << 508: return 'p^2 < 2^508'
        if not lemma([K >= 1, u >= 1, v >= 1, u * v * K <= Q, Q < z3.IntVal(1 << 508)], K < z3.IntVal(1 << 508), det): return 'step count'
        # v = 0: u s = p, u < p, p prime: u = 1 (x = 0: no step at all, r = 0)
        if not is_prime(p): return 'p is not prime'
        return None
    def layout(self, f, xs, p):
        """where the loop keeps its variables: u and v by their values on arrival, r and s by the known places"""
        R = {n: i for i, n in enumerate(('rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'))}; sp = f.r[4]
        def reg(test):
            c = [i for i in range(16) if i != 4 and test(f.r[i])]
            if len(c) != 1: raise Unsupported('variables of the loop')
            return ('r', c[0])
        u = [reg(lambda v, i=i: isinstance(v, int) and v == p >> 64 * i & M64) for i in range(4)]
        v = [reg(lambda v, i=i: not isinstance(v, int) and v.eq(xs[i])) for i in range(4)]
        s0 = reg(lambda v: isinstance(v, int) and v == 1)
        return dict(u=u, v=v, s=[s0, ('r', 15), ('r', R['rbp']), ('r', R['rbx'])], r=[('m', sp), ('m', sp + 8), ('r', R['rax']), ('r', R['rdi'])], k=4)
    def get(self, st, c): return st.r[c[1]] if c[0] == 'r' else st.load(c[1])
    def put(self, st, c, v):
        if c[0] == 'r': st.r[c[1]] = v
        else: st.mem[c[1]] = v
    def validate(self, ctx): return self.nv(ctx, ctx.seed, 400, time.time() + 10)
    def witness(self, ctx, hints): return self.nv(ctx, ctx.seed + 5, 400000, ctx.wdeadline)
    def nv(self, ctx, seed, n, dl):
        def judge(p, a, o, k, ret):
            x, = a; c = o[0]
            if not 0 <= ret <= 508: return 'step count %d' % ret
            if c > 2 * p: return 'result 0x%x above 2p' % c
            if (x * c - (pow(2, ret, p) if x else 0)) % p: return 'x times the result 0x%x is not 2^%d' % (c, ret)
        return native(ctx, self.cfg, 'Fp::preInv', ['o', 'x'], {}, seed, n, dl, judge)
def is_prime(n):
    import sympy
    return bool(sympy.isprime(n))

class WrapOb(Ob):
    def __init__(self, cfg, name, args, want, same):
        self.cfg, self.name, self.args, self.want, self.same = cfg, name, args, want, same
        self.key = '%s %s%s' % (cfg.name, name, ' same %s' % same if same else ''); self.functions = [name.replace('c:', '')]; self.cost = 1
    def prove(self, ctx):
        q, t, u = STATS.q, STATS.t, STATS.unk; img = limb.image(ctx.exes, self.cfg); det = dict(paths=0, steps=0)
        why = self.run(img, det)
        det.update(queries=STATS.q - q, solver_s=STATS.t - t, unknown=STATS.unk - u, status='proved' if not why else 'open')
        if why: det['why'] = why
        return det
    def run(self, img, det):
        p, F = self.cfg.p, self.cfg.F; d = ZB(); val = {}       # word tuple (ids of z3 terms) -> field value as exponents of x, y (Montgomery)
        addr = [ARENA + SLOT * self.same.get(i, i) for i in range(len(self.args))]; tbls = []
        def key(ws): return tuple(w if isinstance(w, int) else w.get_id() for w in ws)
        keepalive = []
        def put(s, a, nm, value):
            ws = [fresh(nm) for _ in range(4)]; keepalive.append(ws); val[key(ws)] = value
            for i, w in enumerate(ws): s.store(a + 8 * i, w)
            return ws
        def get(s, a):
            ws = [s.load(a + 8 * i) for i in range(4)]; v = val.get(key(ws))
            if v is None: raise Unsupported('operand of unknown value')
            return v
        def ret(s, v=None):
            for i in (0, 1, 2, 6, 7, 8, 9, 10, 11): s.r[i] = fresh('clob')
            if v is not None: s.r[0] = v
            s.x = [(fresh('x'), fresh('x')) for _ in s.x]; s.fl = None; s.pc = s.load(s.r[4]); s.r[4] += 8
        # a value is ('num', {var: exponent}, steps): product of the variables times 2^steps, as a field element; pre: not yet scaled
        def pre(s):
            o, x = s.r[7], s.r[6]
            if not all(isinstance(a, int) for a in (o, x)): raise Unsupported('preInv operands')
            v = get(s, x)
            if v[0] != 'el': raise Unsupported('preInv of an unscaled value')
            K = fresh('k'); s.dom.pcs.append(z3.ULE(K, 508)); put(s, o, 'c', ('pre', v, K)); ret(s, K)
        def mul(s):
            o, x, y = s.r[7], s.r[6], s.r[2]
            if not isinstance(o, int): raise Unsupported('place of a product')
            t = [a if isinstance(a, int) else None for a in (x, y)]
            if None in t:
                e, other = (x, y) if t[0] is None else (y, x)
                if not isinstance(other, int): raise Unsupported('two table operands')
                v = get(s, other)
                if v[0] != 'pre': raise Unsupported('a table entry times a scaled value')
                K = v[2]; b = z3.simplify(z3.substitute(bv(e), (K, BV(0, 64))))
                if not z3.is_bv_value(b): raise Unsupported('table address')
                b = b.as_long()
                if s.dom.sat(e != b + 32 * K) is not None: s.user['bad'] = 'the table entry does not belong to the step count'; raise PathEnd('bad')
                tbls.append(b); w = ('el', {a: -c for a, c in v[1][1].items()})
            else:
                a, c = get(s, x), get(s, y)
                if a[0] != 'el' or c[0] != 'el': raise Unsupported('product of an unscaled value')
                w = dict(a[1])
                for n, k in c[1].items(): w[n] = w.get(n, 0) + k
                w = ('el', {n: k for n, k in w.items() if k})
            put(s, o, 'm', w); ret(s)
        h = contracts.mem_hooks(img); h[img.entries['Fp::preInv']] = pre; h[img.entries['Fp::mul']] = mul
        ex = FExec(img, h); s = ex.start(d, img.entries[self.name], [])
        for i, a in enumerate(self.args):
            s.r[[7, 6, 2][i]] = addr[i]
            if i in self.same: continue
            for j in range(4): s.mem[addr[i] + 8 * j] = 0
            users = [j for j in range(len(self.args)) if addr[j] == addr[i]]
            put(s, addr[i], 'a', ('el', {'abc'[i]: 1} if any(self.args[j] != 'o' for j in users) else ('junk',)))
        s0 = dict(s.mem); want = {}
        for i, e in self.want.items(): n = 'abc'[self.same.get(i, i)]; want[n] = want.get(n, 0) + e
        want = {n: k for n, k in want.items() if k}
        for f in ex.run(s):
            det['paths'] += 1; det['steps'] += f.steps
            if f.user['end'] != 'ret': return f.user.get('bad') or 'ends by ' + f.user['end']
            v = get(f, addr[0])
            if v[0] != 'el' or v[1] != want:
                return 'the result is not the specified product'
            for i, a in enumerate(addr):
                if a != addr[0] and any(f.load(a + 8 * j) is not s0[a + 8 * j] for j in range(4)): return 'operand modified'
        for b in set(tbls):
            for k in range(509):
                e = sum(img.u64(b + 32 * k + 8 * j) << 64 * j for j in range(4))
                if e >= p or (e * pow(2, k, p) - pow(F.R, 3, p)) % p: return 'entry %d of the table is not 2^-%d' % (k, k)
        det['table entries'] = 509 * len(set(tbls))
        return None
    def validate(self, ctx): return self.nv(ctx, ctx.seed, 200, time.time() + 10)
    def witness(self, ctx, hints): return self.nv(ctx, ctx.seed + 5, 400000, ctx.wdeadline)
    def nv(self, ctx, seed, n, dl):
        F = self.cfg.F; want = self.want; p = self.cfg.p
        def judge(p, a, o, k, ret):
            w = 1; full = [None] * len(self.args); j = 0
            for i, t in enumerate(self.args):
                if t != 'o': full[i] = a[j]; j += 1
            for i, e in want.items(): w = w * pow(full[i] * F.Ri, e % (p - 1) if e < 0 else e, p) % p if full[i] or e > 0 else 0
            w = w * F.R % p
            if o[0] != w: return 'result 0x%x, should be 0x%x' % (o[0], w)
        return native(ctx, self.cfg, self.name, self.args, self.same, seed, n, dl, judge)
def native(ctx, cfg, name, args, same, seed, n, dl, judge):
    nat = limb.Native(ctx.exes[cfg.variant], cfg); rng = random.Random('%s|%s|%s|%s' % (seed, cfg.name, name, same)); p = cfg.p; tried = 0
    sp = [0, 1, 2, 3, p - 1, p - 2, (p + 1) // 2, (p - 1) // 2, cfg.F.R, p // 3] + [1 << i for i in range(0, 254, 7)] + [p - (1 << i) for i in range(0, 250, 11)] + [(1 << i) - 1 for i in range(64, 254, 63)]
    addr = [ARENA + SLOT * same.get(i, i) for i in range(len(args))]
    def long():
        """an operand with many steps: run the binary algorithm backwards from the end with steps that keep v and u large"""
        return rng.choice([pow(2, rng.randrange(1, 508), p), p - pow(2, rng.randrange(1, 508), p), pow(pow(2, rng.randrange(1, 508), p), -1, p), p - pow(pow(2, rng.randrange(1, 508), p), -1, p)])
    try:
        i = 0
        while tried < n and time.time() < dl:
            def draw():
                c = rng.random()
                return rng.choice(sp) if c < .3 else long() if c < .6 else rng.randrange(1 << rng.randrange(1, 254)) % p if c < .8 else rng.randrange(p)
            vals = {}; ins = []
            for j, t in enumerate(args):
                a = addr[j]
                if a not in vals: vals[a] = (sp[i] if i < len(sp) and t != 'o' else draw()); nat.srv.write(a, vals[a].to_bytes(32, 'little'))
                if t != 'o': ins.append(vals[a])
            i += 1; tried += 1
            r = nat.srv.call(nat.ent[name], *addr)
            if r.startswith('sig') or r == 'exc': why = 'the call ended with ' + r; out = [0]
            else:
                out = [int.from_bytes(nat.srv.read(addr[0], 32), 'little')]
                w = r.split(); ret = int(w[-1], 16) if len(w) and re.match(r'^[0-9a-f]+$', w[-1]) else 0
                why = judge(p, ins, out, None, ret & 0xffffffff)
                if not why:
                    for j, a in enumerate(addr):
                        if a != addr[0] and int.from_bytes(nat.srv.read(a, 32), 'little') != vals[a]: why = 'operand modified'
            if why: return dict(entry=name, config=cfg.name, alias=same, inputs=[hex(v) for v in ins], why=why), tried
        return None, tried
    finally: nat.close()

def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []
    cfgs = [Config(c, m, x) for c in ('bn', 'snark3') for m in (0, 1) for x in (0, 1)] if ctx.thorough else [Config('bn', 1, 1), Config('bn', 0, 0), Config('snark3', 1, 1), Config('snark3', 0, 0)]
    if ctx.thorough: cfgs += [Config('snark82', 1, 1), Config('snark82', 0, 0)]
    for c in cfgs:
        limb.image(ctx.exes, c); obs.append(PreOb(c))
        for nm, args, want, sames in (('c:Fp::inv', ['o', 'x'], {1: -1}, [{}, {1: 0}]), ('c:Fp::inverse', ['x'], {0: -1}, [{}]),
                                      ('c:Fp::op/', ['o', 'x', 'y'], {1: 1, 2: -1}, [{}, {1: 0}, {2: 0}, {2: 1}, {1: 0, 2: 0}]), ('c:Fp::op/=', ['x', 'y'], {0: 1, 1: -1}, [{}, {1: 0}])):
            for s in sames: obs.append(WrapOb(c, nm, args, want, s))
    return obs, dict(bounds='every operand in [0, p); any number of iterations of the loop (inductive), at most 508 of them; every aliasing of the arguments; every entry of the table that can be used',
                     outside='the C++ loop compiled when MIE_USE_X64ASM is not defined (not part of the build)',
                     assumptions=['p is prime (tested)', 'integer lemmas about the four transitions are decided by the solver; their composition over the iterations (sums of step counts, products of the factors 2, u divides p at the end) is the induction stated in DESIGN.md',
                                  'Fp::mul replaced by its contract (C02, first operand up to 4p)'])
