"""C13: the doubling and addition steps of the Miller loop at limb level, and the identities that make their
formulas the group law and the tangent / chord line."""
import random, time
import build, limb, tower, ring, c_field, specs_field as sf
from limb import Config, Spec
from tower import T2, T6
from check import Ob
from c_field import LimbOb, pick
from poly import STATS

LEM = pick('fp', 'fpmul', 'fpdbl', 'fp2', 'fp2dbl')
def bprime(cfg):
    """b / xi, the twist coefficient"""
    a, b = cfg.F.xi; p = cfg.p; n = pow(a * a + b * b, -1, p) * cfg.b
    return a * n % p, -b * n % p
def k2(F, c): return T2(F.el(c[0]), F.el(c[1]))

def dbl_formula(X, Y, Z, bp):
    """E' : y^2 = x^3 + bp, homogeneous; the line through (x, y) tangent at R is a + b y + c x"""
    e = Z * Z * bp * 3; g = e * 3; A = Y * Y
    return (e - A), -(Y * Z * 2), X * X * 3, [X * Y * (A - g) * 2, (A + g) * (A + g) - e * e * 12, A * Y * Z * 8]
def add_formula(X, Y, Z, x, y):
    t1 = X - Z * x; t2 = Y - Z * y; t3 = t1 * t1; t5 = t3 * t1; t4 = t2 * t2 * Z + t5 - X * t3 * 2
    return t2 * x - t1 * y, t1, -t2, [t1 * t4, t2 * (X * t3 - t4) - t5 * Y, t5 * Z]
def half(v, k): return v * pow(pow(2, k), -1, v.c[0].F.p) if hasattr(v, 'c') else v

def specs(cfg):
    F, p = cfg.F, cfg.p
    def dbl(withP):
        def f(F, e):
            X, Y, Z = e['R']; bp = k2(F, bprime(cfg)); a, b, c, R = dbl_formula(X, Y, Z, bp)
            q = pow(4, -1, p)
            if withP: b, c = b * e['P'][1], c * e['P'][0]
            # the code returns the point divided by 4
            return {'l': T6(a.mulxi(), b, c), 'R': [R[0] * q, R[1] * q, R[2] * q]}
        return f
    def add(withP):
        def f(F, e):
            X, Y, Z = e['R']; x, y = e['Q']; a, b, c, R = add_formula(X, Y, Z, x, y)
            if withP: b, c = b * e['P'][1], c * e['P'][0]
            return {'l': T6(a.mulxi(), b, c), 'R': R}
        return f
    loose = {'l': [p, p, p, p, 3 * p, 3 * p]}
    dr = lambda rng, cfg, n: draw(rng, cfg, n)
    r = []
    for pre in ('', 'c:'):
        s = 'C' if pre else ''
        r += [Spec(pre + 'Fp6::pointDblLineEval' + s, 'l:Fp6 +R:Ec2 =P:P2_1', dbl(True), draw=dr, free=('P',)),
              Spec(pre + 'Fp6::pointDblLineEvalWithoutP' + s, 'l:Fp6 +R:Ec2', dbl(False), ohi=loose, draw=dr)]
    r += [Spec('c:Fp6::pointAddLineEval', 'l:Fp6 +R:Ec2 =Q:P2_2 =P:P2_1', add(True), draw=dr, free=('P',)),
          Spec('c:Fp6::pointAddLineEvalWithoutP', 'l:Fp6 +R:Ec2 =Q:P2_2', add(False), draw=dr)]
    return r

# ---- genuine operands: points of the twist (R homogeneous with a random scale), points of the curve
_pts = {}
def points(cfg):
    if cfg.curve in _pts: return _pts[cfg.curve]
    rng = random.Random(5); F, p = cfg.F, cfg.p; bp = k2(F, bprime(cfg)); tw = []; cv = []
    while len(tw) < 6:
        x = T2(F.el(rng.randrange(p)), F.el(rng.randrange(p)))
        y = sqrt2(F, x * x * x + bp)
        if y is not None: tw.append((x, y))
    for _ in range(4):
        x, y = tw[-1]; l = x * x * 3 * (y * 2).inv(); x3 = l * l - x * 2; tw.append((x3, l * (x - x3) - y))
    while len(cv) < 6:
        x = rng.randrange(p); y = (x ** 3 + cfg.b) % p; s = pow(y, (p + 1) // 4, p)
        if s * s % p == y: cv.append((x, s))
    _pts[cfg.curve] = tw, cv
    return tw, cv
def sqrt2(F, a):
    """square root in F_p2 or None (p = 3 mod 4)"""
    p = F.p; a1 = sf.tpow(a, (p - 3) // 4); al = a1 * a1 * a; x0 = a1 * a
    if al == T2(F.el(-1), F.el(0)): x = T2(F.el(0), F.el(1)) * x0
    else: x = sf.tpow(al + T2(F.el(1), F.el(0)), (p - 1) // 2) * x0
    return x if x * x == a else None
def draw(rng, cfg, n):
    tw, cv = points(cfg); F = cfg.F; m = lambda e: e.int() * F.R % cfg.p
    if n == 'P':
        x, y = rng.choice(cv); y = y if rng.randrange(2) else cfg.p - y
        return [x * F.R % cfg.p, y * F.R % cfg.p]
    # R and Q are different points and not opposite
    x, y = rng.choice(tw[:5] if n == 'R' else tw[5:])
    if rng.randrange(2): y = -y
    if n == 'Q': return [m(e) for t in (x, y) for e in t.c]
    k = rng.randrange(4)
    z = T2(F.el(1), F.el(0)) if k == 0 else T2(F.el(rng.randrange(cfg.p)), F.el(0)) if k == 1 else T2(F.el(rng.choice([0, 1, cfg.p - 1, rng.getrandbits(20)])), F.el(rng.randrange(1, cfg.p)))
    if z == T2(F.el(0), F.el(0)): z = T2(F.el(1), F.el(0))
    return [m(e) for t in (x * z, y * z, z) for e in t.c]

class FormulaOb(Ob):
    """the formulas used as specification are the group law and the tangent / chord (identities over any field, by normal form)"""
    cost = 1; timeout = None
    def __init__(self, cfg, kind): self.cfg, self.kind = cfg, kind; self.key = '%s %s step: group law and line' % (cfg.curve, kind); self.functions = []
    def prove(self, ctx):
        import z3
        q0, t0 = STATS.q, STATS.t; C = ring.Ctx(self.cfg.F, True); bad = []
        x, y, z, u, v, px, py = (C.atom(n) for n in 'x y z u v xp yp'.split()); bp = C.k(*bprime(self.cfg))
        d = ring.Ring(C); d.set_zero(y * y - x * x * x - bp)
        import c_curve
        # R = (x z, y z, z)
        if self.kind == 'doubling':
            a, b, c, R = dbl_formula(x * z, y * z, z, bp); l = x * x * 3; ld = y * 2
            exp = c_curve.law_add(C, (x, y), (x, y))
        else:
            d.set_zero(v * v - u * u * u - bp)
            a, b, c, R = add_formula(x * z, y * z, z, u, v); l = v - y; ld = u - x
            exp = c_curve.law_add(C, (x, y), (u, v))
        xn, xd, yn, yd = exp
        for nm, e in (('x', R[0] * xd - R[2] * xn), ('y', R[1] * yd - R[2] * yn)):
            if d.norm(e).d: bad.append(('group law', nm))
        # line: yp - y - l/ld (xp - x), proportional to a + b yp + c xp
        # (line) * ld: ld yp - l xp + (l x - ld y)
        for nm, e in (('y:x', b * -l - c * ld), ('y:1', b * (l * x - ld * y) - a * ld)):
            if d.norm(e).d: bad.append(('line', nm))
        s = z3.Solver(); s.add(z3.BoolVal(bool(bad))); s.check(); STATS.q += 1
        r = dict(paths=1, steps=0, queries=STATS.q - q0, solver_s=STATS.t - t0, status='proved' if not bad else 'open', why=str(bad))
        return r
    def validate(self, ctx): return None, 0
    def witness(self, ctx, hints): return None, 0

def configs(ctx):
    cs = [('bn', 1, 1), ('bn', 0, 0), ('snark3', 1, 1), ('snark82', 0, 0)]
    if ctx.thorough: cs = [(c, m, x) for c in ('bn', 'snark3', 'snark82') for m in (0, 1) for x in (0, 1)]
    return [Config(*c) for c in cs]
def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark'])
    obs = []
    for cfg in configs(ctx):
        limb.image(ctx.exes, cfg)
        for sp in specs(cfg): obs.append(LimbOb(cfg, sp, (), 30, lemmas=LEM))
    for c in ('bn', 'snark3', 'snark82'):
        for k in ('doubling', 'addition'): obs.append(FormulaOb(Config(c, 1, 1), k))
    info = dict(bounds='all field values of the running point, the affine point and the evaluation point; all paths; one step', outside='R = +-Q in the addition step and points at infinity (excluded by the Miller loop)',
                assumptions=['the field-operation specifications decided in C01, C02, C04, C05', 'x86-64 semantics of the modelled instructions', 'the dumped process image is the state user calls see'])
    return obs, info
