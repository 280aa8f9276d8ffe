"""C10, C12: the group law, normalisation, equality and validity of points, for every point in every Jacobian
(or homogeneous) representation, over F_p and over F_p2, at field level."""
import time, random
import build, limb, ring, tower, solve, specs_field as sf
from limb import Config, Spec, KINDS, size, ARENA, SLOT
from check import Ob
from x86 import Exec, Unsupported
from c_field import pick
from poly import STATS
import z3

LEM = pick('fp', 'fpmul', 'fp2')
def frac_pt(C, x, y): return ('aff', x, C.el(1), y, C.el(1))

# ---- scenarios: how the operands relate.  Each returns (operands as affine or infinity, facts)
class Scn:
    def __init__(self, name, ops, nz, expect): self.name, self.ops, self.nz, self.expect = name, ops, nz, expect

def law_add(C, P, Q):
    """group-law sum of two affine points whose relation is fixed by the scenario; fractions (xn, xd, yn, yd)"""
    if P is None: return None if Q is None else (Q[0], C.el(1), Q[1], C.el(1))
    if Q is None: return (P[0], C.el(1), P[1], C.el(1))
    (x1, y1), (x2, y2) = P, Q
    if x1 == x2:
        if y1 == -y2: return None
        n, d = x1 * x1 * 3, y1 * 2
    else: n, d = y2 - y1, x2 - x1
    xn = n * n - (x1 + x2) * d * d; xd = d * d           # x3 = xn / xd
    yn = n * (x1 * xd - xn) - y1 * xd * d; yd = xd * d      # y3 = s (x1 - x3) - y1
    return (xn, xd, yn, yd)
def neg(P): return None if P is None else (P[0], -P[1])
def law_neg(C, P): return None if P is None else (P[0], C.el(1), -P[1], C.el(1))

def scenarios(C, kind):
    """kind: 'add','sub' (two operands) or 'dbl','neg' (one)"""
    x1, y1, x2, y2 = (C.atom(n) for n in ('x1', 'y1', 'x2', 'y2'))
    P = (x1, y1)
    if kind in ('dbl', 'neg'):
        f = (lambda a: law_add(C, a, a)) if kind == 'dbl' else (lambda a: law_neg(C, a))
        return [Scn('finite', [P], [y1], f(P)), Scn('infinity', [None], [], f(None))]
    s = (lambda q: q) if kind == 'add' else neg
    r = []
    for nm, p, q, nz in (('distinct x', P, (x2, y2), [x2 - x1, y1, y2]), ('equal', P, (x1, y1), [y1]), ('opposite', P, (x1, -y1), [y1]),
                         ('P infinity', None, P, [y1]), ('Q infinity', P, None, [y1]), ('both infinity', None, None, [])):
        r.append(Scn(nm, [p, q], nz, law_add(C, p, s(q))))
    return r

class RingOb(Ob):
    """executes one entry point for every scenario and representation; check(state, ...) decides the outcome"""
    timeout = None
    def start(self, ctx, cfg, ext, extra=()):
        self.img = limb.image(ctx.exes, cfg); self.note = set()
        self.C = ring.Ctx(cfg.F, ext)
        self.h = ring.hooks(self.img, cfg, self.C, LEM(cfg), self.note)
        self.h.pop(self.img.entries[self.entry], None)
    def exec_(self, args, setup, ret=None):
        d = ring.Ring(self.C)
        ex = Exec(self.img, self.h)
        s = ex.start(d, self.img.entries[self.entry], args)
        setup(s, d)
        return ex.run(s)
def confirm(C, a, b):
    """a == b asked of z3 as well when the polynomials are small"""
    if len(a.d) > 40 or len(b.d) > 40: return True
    vs = {}
    def ex(q):
        t = []
        for m, c in q.d.items():
            e = z3.IntVal(c)
            for x in m: e = e * vs.setdefault(x, z3.Int('v%d' % (x + 1)))
            t.append(e)
        return z3.Sum(t) if t else z3.IntVal(0)
    s = z3.Solver(); s.set('timeout', 5000); t0 = time.time()
    s.add(z3.simplify(ex(a) - ex(b), som=True) != 0); r = s.check(); STATS.q += 1; STATS.t += time.time() - t0
    return r == z3.unsat
def same(d, a, b):
    a, b = d.norm(a), d.norm(b)
    return a.d == b.d and confirm(d.C, a, b)
def jac(C, P, lam, junk):
    if P is None: return [junk[0], junk[1], C.el(0)]
    return [P[0] * lam * lam, P[1] * lam * lam * lam, lam]
def point_ok(d, out, exp):
    """out: Jacobian triple (elements); exp: None or fractions; returns '' or what is wrong"""
    X, Y, Z = [d.norm(e) for e in out]
    k = d.known(Z)
    if exp is None: return '' if k is True else 'Z is not zero for infinity'
    if k is not False: return 'Z may be zero for a finite result' if k is None else 'Z is zero for a finite result'
    xn, xd, yn, yd = exp
    if not same(d, X * xd, Z * Z * xn): return 'x coordinate'
    if not same(d, Y * yd, Z * Z * Z * yn): return 'y coordinate'
    return ''

class LawOb(RingOb):
    def __init__(self, cfg, E, op, alias):
        self.cfg, self.E, self.op, self.alias = cfg, E, op, alias
        self.entry = 'c:%s::%s' % (E, op)
        self.kind = {'add': 'add', 'op+': 'add', 'op+=': 'add', 'sub': 'sub', 'op-': 'sub', 'op-=': 'sub', 'dbl': 'dbl', 'neg': 'neg'}[op]
        self.inplace = op.endswith('=')
        self.key = '%s %s::%s%s' % (cfg.name, E, op, ' ' + '='.join(alias) if alias else '')
        self.functions = ['%s::%s' % (E, op)]
    def names(self):
        if self.inplace: return ['z', 'x'], ['z', 'x']          # args, operands
        if self.kind in ('dbl', 'neg'): return ['z', 'x'], ['x']
        return ['z', 'x', 'y'], ['x', 'y']
    def addr(self):
        args, ops = self.names(); a = {n: ARENA + SLOT * i for i, n in enumerate(args)}
        for n in self.alias[1:]: a[n] = a[self.alias[0]]
        return a
    def prove(self, ctx):
        ext = self.E == 'Ec2'; self.start(ctx, self.cfg, ext); C = self.C
        q0, t0 = STATS.q, STATS.t
        args, ops = self.names(); addr = self.addr(); K = 'Ec2' if ext else 'Ec1'
        det = dict(paths=0, steps=0); bad = []; samples = []; hints = []
        for sc in scenarios(C, self.kind):
            same_obj = len(ops) == 2 and addr[ops[0]] == addr[ops[1]]
            if same_obj and sc.name not in ('equal', 'both infinity'): continue
            lam = [C.atom('l1'), C.atom('l2')]
            junk = [C.atom('j%d' % i) for i in range(4)]
            def setup(s, d):
                for f in sc.nz: d.set_nonzero(f)
                for l in lam: d.set_nonzero(l)
                for n in args:
                    for o in range(0, size(K), 8): s.mem.setdefault(addr[n] + o, d.undef('out'))
                for i, (n, P) in enumerate(zip(ops, sc.ops)):
                    if same_obj and i: continue
                    d.write_obj(s, addr[n], jac(C, P, lam[i], junk[2 * i:2 * i + 2]))
            for f in self.exec_([addr[n] for n in args], setup):
                det['paths'] += 1; det['steps'] += f.steps
                if f.user['end'] != 'ret': bad.append((sc.name, 'ended: %s' % f.user['end'])); continue
                d = f.dom; z = addr['z']
                if sc.expect is None:
                    Z = f.dom.read_obj(f, z + 2 * size(K) // 3, 'Fp2' if ext else 'Fp'); why = point_ok(d, (C.el(0), C.el(0), Z), None)
                else: why = point_ok(d, d.read_obj(f, z, K), sc.expect)
                if why:
                    bad.append((sc.name, why + ('; path: ' + '; '.join(d.log[-3:]) if d.log else '')))
                    if len(hints) < 40: hints.append((sc.name, solve.facts(d, set(range(len(C.names)))), list(C.names)))
                elif len(samples) < 1: samples.append('%s %s: Z3 = %s' % (self.key, sc.name, str(d.read_obj(f, z + 2 * size(K) // 3, 'Fp2' if ext else 'Fp'))[:120]))
        if not det['paths']: bad.append(('', 'no path'))
        det.update(queries=STATS.q - q0, solver_s=STATS.t - t0, lemmas=sorted(self.note), sample=samples[0] if samples else None)
        if bad: det.update(status='refuted', why='; '.join('%s: %s' % b for b in bad[:4]), hints=hints)
        else: det['status'] = 'proved'
        return det
    # ---- native runs
    def search(self, ctx, n, deadline, seed, hints=None):
        rng = random.Random('%s %d' % (self.key, seed)); cfg = self.cfg; F = cfg.F; ext = self.E == 'Ec2'
        G = Curve(cfg, ext); args, ops = self.names(); addr = self.addr(); K = 'Ec2' if ext else 'Ec1'
        nat = limb.Native(ctx.exes[cfg.variant], cfg); tried = 0
        same_obj = len(ops) == 2 and addr[ops[0]] == addr[ops[1]]
        def sp(): return Spec(self.entry, ' '.join(('+' if m == 'z' and m in ops else '=' if m in ops else '') + m + ':' + K for m in args), None, [])
        try:
            while tried < n and time.time() < deadline:
                cases = []
                for _ in range(24):
                    P = None if rng.randrange(6) == 0 else G.rand(rng)
                    Q = rng.choice([None, P, P, G.neg(P), G.neg(P), G.rand(rng), G.rand(rng), G.rand(rng), G.phi(P, rng)])
                    if same_obj: Q = P
                    v = {}; pts = [P, Q][:len(ops)]
                    h = self.follow(G, rng, rng.choice(hints)) if hints and rng.randrange(4) else None
                    if h: pts, v = h[0][:len(ops)], dict(zip(ops, h[1]))
                    else:
                        lam = None
                        if P is not None and rng.randrange(3) == 0:      # representations that share coordinates
                            lam = G.rnd(rng)
                            if lam.zero(): lam = None
                        for i, (m, p) in enumerate(zip(ops, pts)):
                            v[m] = G.raw(p, rng, lam if lam is None or not i else lam * rng.choice([1, -1] + G.rt + [-r for r in G.rt]))
                    if same_obj: v[ops[1]] = v[ops[0]]
                    cases.append((pts, v))
                al = (self.alias,) if self.alias else ()
                for (pts, v), (st, out) in zip(cases, nat.batch(sp(), cfg, al, [c[1] for c in cases])):
                    tried += 1
                    exp = {'add': lambda: G.add(pts[0], pts[1]), 'sub': lambda: G.add(pts[0], G.neg(pts[1])), 'dbl': lambda: G.add(pts[0], pts[0]), 'neg': lambda: G.neg(pts[0])}[self.kind]()
                    why = 'ended with ' + st if not st.strip('0123456789abcdef') == '' else G.differs(out['z'], exp)
                    if why: return dict(entry=self.entry, config=cfg.name, alias=list(self.alias), inputs={k: [hex(x) for x in w] for k, w in v.items()}, observed=why), tried
        finally: nat.close()
        return None, tried
    def validate(self, ctx): return self.search(ctx, 72, time.time() + 20, ctx.seed)
    def witness(self, ctx, hints): return self.search(ctx, 40000, ctx.wdeadline, ctx.seed + 7, hints)
    def follow(self, G, rng, hint):
        """points in the representation that a failing path asks for"""
        nm, fs, names = hint; el = lambda v: tower.T2(G.F.el(v[0]), G.F.el(v[1])) if G.ext else G.F.el(v[0])
        tup = lambda e: tuple([c.int() for c in e.comps()] + [0])[:2]
        K = solve.Fq(G.p, G.ext); val = {}; ix = {}
        for i, n in enumerate(names): ix.setdefault(n, i); val[i] = K.rnd(rng) if rng.randrange(3) else rng.choice([(1, 0), (G.p - 1, 0), (0, 0)])
        for l in ('l1', 'l2'):
            if l in ix and val[ix[l]] == (0, 0): val[ix[l]] = (1, 0)
        pts = {}
        for k in '12':
            if 'x' + k in ix: P = G.rand(rng); val[ix['x' + k]], val[ix['y' + k]] = tup(P[0]), tup(P[1])
        inv = dict(fs[1])
        for a in list(val):
            if a in inv and a > inv[a]: val.pop(a)       # the value of an inverse follows its atom
        def fix(a, val):
            n = names[a]
            if n[0] == 'l': return val[a] != (0, 0)
            if n[0] == 'x':
                y = G.sqrt(el(val[a]) * el(val[a]) * el(val[a]) + G.b)
                if y is None: return False
                val[ix['y' + n[1]]] = tup(rng.choice([y, -y]))
            if n[0] == 'y':
                y = el(val[a]); x = K.root([tup(G.b - y * y), (0, 0), (0, 0), (1, 0)], rng)
                if x is None: return False
                val[ix['x' + n[1]]] = x
            return True
        used = {x if x in val else inv.get(x) for q, i in fs[0] for m in q for x in m}
        # the representation is free: ask it first, then the points
        order = [ix[n] for n in ('l1', 'l2', 'j0', 'j1', 'j2', 'j3') if n in ix and ix[n] in used] or [ix[n] for n in ('x1', 'y1', 'x2', 'y2') if n in ix]
        if not solve.satisfy(K, fs, val, order, rng, fix):
            if not solve.satisfy(K, fs, val, [i for i in val], rng, fix): return None
        pt = lambda k: (el(val[ix['x' + k]]), el(val[ix['y' + k]]))
        P = pt('1')
        if nm == 'distinct x':
            Q = pt('2')
            if P[0] == Q[0]: return None
        elif nm == 'opposite': Q = G.neg(P)
        else: Q = P
        if nm in ('P infinity', 'both infinity', 'infinity'): P, Q = None, (None if nm != 'P infinity' else Q)
        if nm == 'Q infinity': Q = None
        v = []
        for i, R in enumerate((P, Q)):
            if R is None: v.append(G.mont(el(val[ix['j%d' % (2 * i)]])) + G.mont(el(val[ix['j%d' % (2 * i + 1)]])) + G.mont(G.el(0)))
            else: v.append(G.raw(R, rng, el(val[ix['l%d' % (i + 1)]])))
        return [P, Q], v

class Curve:
    """reference points of the curve (or of the twist) with concrete coordinates"""
    def __init__(self, cfg, ext):
        self.cfg, self.F, self.p, self.ext = cfg, cfg.F, cfg.p, ext
        F = cfg.F
        self.b = (tower.xi2(F).inv() * cfg.b) if ext else F.el(cfg.b)
        self.rt = self.cube_roots()
    def el(self, v): return tower.T2(self.F.el(v), self.F.el(0)) if self.ext else self.F.el(v)
    def cube_roots(self):
        p = self.p; s = self.sqrt1((p - 3) % p)
        return [(s - 1) * pow(2, -1, p) % p, (-s - 1) * pow(2, -1, p) % p]
    def sqrt1(self, a):
        p = self.p; r = pow(a, (p + 1) // 4, p); return r if r * r % p == a % p else None
    def sqrt(self, a):
        if not self.ext:
            r = self.sqrt1(a.int()); return None if r is None else self.F.el(r)
        p = self.p; x, y = a.c[0].int(), a.c[1].int()
        n = self.sqrt1((x * x + y * y) % p)
        if n is None: return None
        for s in (n, -n):
            t = self.sqrt1((x + s) * pow(2, -1, p) % p)
            if t:
                r = tower.T2(self.F.el(t), self.F.el(y * pow(2 * t, -1, p)))
                if r * r == a: return r
        if y == 0:
            t = self.sqrt1(-x % p)
            if t is not None: return tower.T2(self.F.el(0), self.F.el(t))
        return None
    def rnd(self, rng):
        f = lambda: self.F.el(rng.choice([rng.randrange(self.p), rng.randrange(self.p), rng.randrange(1, 5), self.p - rng.randrange(1, 5)]))
        return tower.T2(f(), rng.choice([f, f, f, lambda: self.F.el(0)])()) if self.ext else f()
    def rand(self, rng):
        while True:
            x = self.rnd(rng); y = self.sqrt(x * x * x + self.b)
            if y is not None: return (x, rng.choice([y, -y]))
    def phi(self, P, rng):
        """same y, different x"""
        return None if P is None else (P[0] * rng.choice(self.rt), P[1])
    def neg(self, P): return None if P is None else (P[0], -P[1])
    def add(self, P, Q):
        if P is None: return Q
        if Q is None: return P
        (x1, y1), (x2, y2) = P, Q
        if x1 == x2:
            if not y1 == y2: return None
            s = x1 * x1 * 3 * (y1 + y1).inv()
        else: s = (y2 - y1) * (x2 - x1).inv()
        x3 = s * s - x1 - x2
        return (x3, s * (x1 - x3) - y1)
    def mulp(self, P, n):
        if n < 0: return self.mulp(self.neg(P), -n)
        r = None
        for bit in bin(n)[2:]:
            r = self.add(r, r)
            if bit == '1': r = self.add(r, P)
        return r
    def mont(self, x): return [e.int() * self.F.R % self.p for e in x.comps()]
    def raw(self, P, rng, lam=None):
        if lam is None:
            lam = self.el(rng.choice([1, 1, -1])) if rng.randrange(3) == 0 else self.rnd(rng)
            if self.ext and rng.randrange(8) == 0: lam = tower.T2(self.F.el(0), self.F.el(rng.randrange(1, self.p)))
        if P is None:
            j = rng.randrange(3)
            a = [self.el(0)] * 2 if j == 0 else [self.rnd(rng), self.rnd(rng)]
            return self.mont(a[0]) + self.mont(a[1]) + self.mont(self.el(0))
        return self.mont(P[0] * lam * lam) + self.mont(P[1] * lam * lam * lam) + self.mont(lam)
    def parse(self, ws):
        if any(w >= self.p for w in ws): return None
        es = [self.F.el(w * self.F.Ri) for w in ws]
        return [tower.T2(es[i], es[i + 1]) for i in range(0, len(es), 2)] if self.ext else es
    def differs(self, ws, exp):
        v = self.parse(ws)
        if exp is None:
            z = ws[-2:] if self.ext else ws[-1:]
            return '' if not any(z) else 'Z is nonzero although the result is the point at infinity'
        if v is None: return 'coordinate not reduced: %s' % [hex(w) for w in ws]
        X, Y, Z = v
        if Z.zero(): return 'Z is zero although the result is finite'
        if not (X == Z * Z * exp[0] and Y == Z * Z * Z * exp[1]): return 'wrong point %s' % [hex(w) for w in ws]
        return ''

# ---------------- C12
class PredOb(RingOb):
    """normalisation and predicates; table of cases (operands, facts, expectation on the final state)"""
    def __init__(self, cfg, E, op, alias=()):
        self.cfg, self.E, self.op, self.alias = cfg, E, op, alias
        self.entry = 'c:%s::%s' % (E, op)
        self.key = '%s %s::%s%s' % (cfg.name, E, op, ' ' + '='.join(alias) if alias else ''); self.functions = ['%s::%s' % (E, op)]
    def table(self, C):
        """(name, operands [triples], nonzero facts, expected return or None, expected output triple or None)"""
        op = self.op; el = C.el
        x, y, l, x2, y2, l2, j0, j1, j2, j3 = (C.atom(n) for n in ('x', 'y', 'l', 'x2', 'y2', 'l2', 'j0', 'j1', 'j2', 'j3'))
        b = C.k(self.cfg.b) if not C.ext else C.k(*[e.int() for e in Curve(self.cfg, True).b.c])
        J = lambda x, y, l: [x * l * l, y * l * l * l, l]
        H = lambda x, y, l: [x * l, y * l, l]
        inf = [j0, j1, el(0)]; inf2 = [j2, j3, el(0)]
        if op in ('normalize', 'NormalizeJac'):
            return [('finite', [J(x, y, l)], [l], None, [x, y, el(1)]), ('infinity', [inf], [], None, [None, None, el(0)])]
        if op == 'NormalizeHom': return [('finite', [H(x, y, l)], [l], None, [x, y, el(1)]), ('infinity', [inf], [], None, [None, None, el(0)])]
        if op == 'isZero': return [('finite', [J(x, y, l)], [l], 0, None), ('infinity', [inf], [], 1, None)]
        if op in ('op==', 'op!='):
            e = 1 if op == 'op==' else 0
            r = [('both infinity', [inf, inf2], [], e, None), ('first infinity', [inf, J(x, y, l)], [l], 1 - e, None), ('second infinity', [J(x, y, l), inf], [l], 1 - e, None),
                 ('same point', [J(x, y, l), J(x, y, l2)], [l, l2], e, None), ('different x', [J(x, y, l), J(x2, y2, l2)], [l, l2, x2 - x], 1 - e, None),
                 ('same x, different y', [J(x, y, l), J(x, y2, l2)], [l, l2, y2 - y], 1 - e, None)]
            return r
        if op == 'isValid':
            return [('finite', [[x, y, l]], [l], y * y - x * x * x - b * l.pw(6), None), ('infinity', [inf], [], 1, None)]
        if op == 'isOnHom2': return [('affine', [[x, y]], [], y * y - x * x * x - b, None)]
        if op == 'isOnHom3': return [('finite', [[x, y, l]], [l], y * y * l - x * x * x - b * l.pw(3), None), ('infinity', [inf], [], 1, None)]
        raise KeyError(op)
    def prove(self, ctx):
        ext = self.E == 'Ec2'; self.start(ctx, self.cfg, ext); C = self.C
        q0, t0 = STATS.q, STATS.t; K = self.E; w = 64 if ext else 32
        det = dict(paths=0, steps=0); bad = []; sample = None; hints = []
        for nm, opsv, nz, eret, eout in self.table(C):
            A = [ARENA + SLOT * i for i in range(3)]
            outp = self.op.startswith('Normalize')
            args = A[:len(opsv)] if not outp else ([A[0], A[1]] if not self.alias else [A[1], A[1]])
            def setup(s, d):
                for f in nz: d.set_nonzero(f)
                if outp:
                    for o in range(0, 3 * w, 8): s.mem[args[0] + o] = d.undef('out')
                for i, v in enumerate(opsv): d.write_obj(s, args[1] if outp else args[i], v)
            for f in self.exec_(args, setup):
                det['paths'] += 1; det['steps'] += f.steps; d = f.dom
                why = self.judge(f, d, args, w, eret, eout)
                if why:
                    bad.append((nm, why))
                    if len(hints) < 40: hints.append((solve.facts(d, set(range(len(C.names)))), [[dict(e.d) for e in v] for v in opsv], len(C.names)))
                else: sample = sample or '%s %s: %s' % (self.key, nm, '; '.join(d.log[-2:]))
        if not det['paths']: bad.append(('', 'no path'))
        det.update(queries=STATS.q - q0, solver_s=STATS.t - t0, lemmas=sorted(self.note), sample=sample)
        if bad: det.update(status='refuted', why='; '.join('%s: %s' % x for x in bad[:4]), hints=hints)
        else: det['status'] = 'proved'
        return det
    def judge(self, f, d, args, w, eret, eout):
        if f.user['end'] != 'ret': return 'ended: %s' % f.user['end']
        if eret is not None:
            r = d.extract(f.r[0], 0, 8) if not isinstance(f.r[0], int) else f.r[0]
            if not isinstance(r, int): return 'result not determined'
            r &= 255
            if isinstance(eret, int):
                if r != eret: return 'returns %d; path: %s' % (r, '; '.join(d.log[-3:]))
            else:
                k = d.known(eret)
                if k is not bool(r): return 'returns %d although the equation is %s; path: %s' % (r, {True: 'satisfied', False: 'violated', None: 'not decided'}[k], '; '.join(d.log[-3:]))
        if eout is not None:
            got = [d.read_obj(f, args[0] + i * w, 'Fp2' if w == 64 else 'Fp') for i in range(3) if eout[i] is not None]
            if not all(same(d, g, e) for g, e in zip(got, [e for e in eout if e is not None])): return 'wrong coordinates; path: %s' % '; '.join(d.log[-3:])
        return ''
    def follow(self, G, rng, hint):
        """operands for a failing path: concrete triples"""
        fs, opsv, n = hint; K = solve.Fq(G.p, G.ext); inv = dict(fs[1])
        el = lambda v: tower.T2(G.F.el(v[0]), G.F.el(v[1])) if G.ext else G.F.el(v[0])
        val = {i: K.rnd(rng) if rng.randrange(3) else rng.choice([(1, 0), (G.p - 1, 0)]) for i in range(n) if not (i in inv and i > inv[i])}
        if not solve.satisfy(K, fs, val, list(val), rng): return None
        try: return [[el(solve.value(K, q, val, inv)) for q in v] for v in opsv]
        except ValueError: return None
    def search(self, ctx, n, deadline, seed, hints=None):
        rng = random.Random('%s %d' % (self.key, seed)); cfg = self.cfg; F = cfg.F; ext = self.E == 'Ec2'
        G = Curve(cfg, ext); K = self.E; op = self.op; tried = 0
        nat = limb.Native(ctx.exes[cfg.variant], cfg)
        K2 = 'P2_2' if ext else 'P2_1'
        two = op in ('op==', 'op!='); outp = op.startswith('Normalize')
        sig = {'normalize': '+z:%s' % K, 'isOnHom2': '=x:%s' % K2}.get(op, 'z:%s =x:%s' % (K, K) if outp else '=x:%s =y:%s' % (K, K) if two else '=x:%s' % K)
        spec = Spec(self.entry, sig, None, [])
        al = (('z', 'x'),) if self.alias else ()
        def hom(P):
            if P is None: return G.raw(None, rng)
            l = G.el(rng.choice([1, 1, -1])) if rng.randrange(3) == 0 else G.rnd(rng)
            return G.mont(P[0] * l) + G.mont(P[1] * l) + G.mont(l)
        try:
            while tried < n and time.time() < deadline:
                cases = []
                for _ in range(24):
                    P = None if rng.randrange(6) == 0 and op != 'isOnHom2' else G.rand(rng)
                    if rng.randrange(3) == 0 and P is not None: P = rng.choice([(G.rnd(rng), P[1]), (P[0], P[1] + rng.choice([G.el(1), G.rnd(rng)])), (G.rnd(rng), G.rnd(rng)), (P[1], P[0])])
                    h = 'Hom' in op
                    v = {}
                    nm = 'z' if op == 'normalize' else 'x'
                    v[nm] = hom(P) if h else G.raw(P, rng)
                    if op == 'isOnHom2': v['x'] = G.mont(P[0]) + G.mont(P[1])
                    Q = None
                    t = self.follow(G, rng, rng.choice(hints)) if hints and rng.randrange(4) else None
                    if t:
                        ps = []
                        for o in t:
                            if len(o) == 2: ps.append((o[0], o[1])); continue
                            if o[2].zero(): ps.append(None); continue
                            i = o[2].inv(); ps.append((o[0] * i, o[1] * i) if h else (o[0] * i * i, o[1] * i * i * i))
                        P = ps[0]; v[nm] = [c for e in t[0] for c in G.mont(e)]
                        if two: Q = ps[1]; v['y'] = [c for e in t[1] for c in G.mont(e)]
                        cases.append((P, Q, v)); continue
                    if two:
                        Q = rng.choice([None, P, P, G.neg(P), G.rand(rng), G.phi(P, rng)])
                        v['y'] = G.raw(Q, rng)
                    cases.append((P, Q, v))
                for (P, Q, v), (st, out) in zip(cases, nat.batch(spec, cfg, al, [c[2] for c in cases])):
                    tried += 1; why = ''
                    if st.strip('0123456789abcdef'): why = 'ended with ' + st
                    elif op in ('normalize', 'NormalizeJac', 'NormalizeHom'):
                        e = (G.mont(P[0]) + G.mont(P[1]) + G.mont(G.el(1))) if P is not None else None
                        if e is not None and out['z'] != e: why = 'normalised to %s' % [hex(x) for x in out['z']]
                        if e is None and any(out['z'][-(2 if ext else 1):]): why = 'infinity got a nonzero Z'
                    else:
                        eq = P is not None and (P[1] * P[1] == P[0] * P[0] * P[0] + G.b)
                        same_ = (P is None) == (Q is None) and (P is None or (P[0] == Q[0] and P[1] == Q[1]))
                        e = {'isZero': P is None, 'op==': same_, 'op!=': not same_}.get(op, P is None or eq)
                        if int(st, 16) & 255 != int(e): why = 'returned %d, should be %d' % (int(st, 16) & 255, int(e))
                    if why: return dict(entry=self.entry, config=cfg.name, inputs={k: [hex(x) for x in w] for k, w in v.items()}, observed=why), tried
        finally: nat.close()
        return None, tried
    def validate(self, ctx): return self.search(ctx, 72, time.time() + 20, ctx.seed)
    def witness(self, ctx, hints): return self.search(ctx, 40000, ctx.wdeadline, ctx.seed + 7, hints)

def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark']); obs = []
    for c in ('bn', 'snark3', 'snark82'):
        cfg = Config(c, 1, 1); limb.image(ctx.exes, cfg); ring.short(limb.image(ctx.exes, cfg))
        for E in ('Ec1', 'Ec2'):
            if prop == 'C10':
                for op in ('add', 'sub', 'op+', 'op-'):
                    for al in ((), ('z', 'x'), ('z', 'y'), ('x', 'y'), ('z', 'x', 'y')): obs.append(LawOb(cfg, E, op, al))
                for op in ('dbl', 'neg', 'op+=', 'op-='):
                    for al in ((), ('z', 'x')): obs.append(LawOb(cfg, E, op, al))
            else:
                for op in ('normalize', 'isZero', 'op==', 'op!=', 'isValid', 'isOnHom2', 'isOnHom3'): obs.append(PredOb(cfg, E, op))
                for op in ('NormalizeJac', 'NormalizeHom'):
                    for al in ((), ('z', 'x')): obs.append(PredOb(cfg, E, op, al))
    info = dict(bounds='every operand, in every representation (x l^2, y l^3, l) with l != 0 or (any, any, 0); all paths; scenarios: distinct x, equal, opposite, infinity in each place; the three built-in curves; K = F_p and F_p2',
                outside='operands that are not points of the curve for add/sub/dbl (normalisation, equality and validity quantify over all triples); the code-generation mode enters only through the field operations, decided in C01-C06',
                assumptions=['field operations meet their specifications (decided by C01, C02, C03, C05)', 'no point of order two (curve and twist have odd order for the built-in parameters)', 'x86-64 semantics of the modelled instructions'])
    return obs, info
