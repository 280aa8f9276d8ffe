"""Specifications of the field, extension-field and double-width operations (limb level).
Groups: property id -> list of Spec.  Everything is stated over reference values (tower.py)."""
from limb import Spec
import tower
from tower import T2, T6, T12, make

BIN = [('zx',), ('zy',), ('xy',), ('zxy',)]
UN = [('zx',)]
add = lambda F, e: {'z': e['x'] + e['y']}
sub = lambda F, e: {'z': e['x'] - e['y']}
mul = lambda F, e: {'z': e['x'] * e['y']}
neg = lambda F, e: {'z': -e['x']}
sq = lambda F, e: {'z': e['x'] * e['x']}
ident = lambda F, e: {'z': e['x']}
iadd = lambda F, e: {'z': e['z'] + e['x']}
isub = lambda F, e: {'z': e['z'] - e['x']}
imul = lambda F, e: {'z': e['z'] * e['x']}
half = lambda F, e: {'z': e['x'] * pow(2, -1, F.p)}
quarter = lambda F, e: {'z': e['x'] * pow(4, -1, F.p)}
def mulxi(F, e): return {'z': e['x'].mulxi()}

def b(name, k, fn, alias=BIN, **kw): return Spec(name, 'z:%s =x:%s =y:%s' % (k, k, k), fn, alias, **kw)
def u(name, k, fn, alias=UN, **kw): return Spec(name, 'z:%s =x:%s' % (k, k), fn, alias, **kw)
def a(name, k, fn, **kw): return Spec(name, '+z:%s =x:%s' % (k, k), fn, [('zx',)], **kw)

def fp(cfg):
    return [b('Fp::add', 'Fp', add), b('Fp::sub', 'Fp', sub), u('Fp::neg', 'Fp', neg),
            u('c:Fp::divBy2', 'Fp', half), u('c:Fp::divBy4', 'Fp', quarter),
            Spec('c:Fp::_3z_add_2xC', '+z:Fp =x:Fp', lambda F, e: {'z': e['z'] * 2 + e['x'] * 3}),
            Spec('c:Fp::_2z_add_3x', '+z:Fp =x:Fp', lambda F, e: {'z': e['z'] * 2 + e['x'] * 3}),
            a('c:Fp::op+=', 'Fp', iadd), a('c:Fp::op-=', 'Fp', isub), b('c:Fp::op+', 'Fp', add), b('c:Fp::op-', 'Fp', sub), u('c:Fp::opneg', 'Fp', neg),
            Spec('Fp::addNC', 'z:U4 =x:Fp =y:Fp', add, BIN), Spec('Fp::subNC', 'z:U4 =x:Fp =y:Fp', sub, BIN)]
def fpmul(cfg):
    w = lambda p: 4 * p
    return [b('Fp::mul', 'Fp', mul), b('Fp::mul', 'Fp', mul, alias=[('zx',)], hi={'x': w}, note='x<4p'),
            u('c:Fp::square', 'Fp', sq), a('c:Fp::op*=', 'Fp', imul), b('c:Fp::op*', 'Fp', mul),
            u('c:Fp::toMont', 'Fp', lambda F, e: {'z': e['x'] * F.R}),
            u('c:Fp::fromMont', 'Fp', lambda F, e: {'z': e['x'] * F.Ri})]
def fpdbl(cfg):
    D = 'FpDbl'
    return [b('FpDbl::add', D, add), b('FpDbl::sub', D, sub), u('FpDbl::neg', D, neg),
            Spec('FpDbl::addNC', 'z:U8 =x:FpDbl =y:FpDbl', add, BIN), Spec('FpDbl::subNC', 'z:U8 =x:FpDbl =y:FpDbl', sub, BIN),
            Spec('FpDbl::mul', 'z:U8 =x:U4 =y:U4', mul, [('xy',)]),
            Spec('FpDbl::mod', 'z:Fp =x:FpDbl', ident, [('zx',)]),
            a('c:FpDbl::op+=', D, iadd), a('c:FpDbl::op-=', D, isub), u('c:FpDbl::opneg', D, neg),
            Spec('c:FpDbl::subOpt1', 'z:FpDbl =x:FpDbl =y:FpDbl', sub, [('xy',)], hi={'x': lambda p: (p << 256) // 2, 'y': lambda p: (p << 256) // 2})]
def fp2(cfg):
    k = 'Fp2'; F2 = tower.T2
    nn = [] if cfg.curve != 'bn' else []
    s = [b('Fp2::add', k, add), b('Fp2::sub', k, sub), b('Fp2::mul', k, mul), u('Fp2::square', k, sq), u('Fp2::mul_xi', k, mulxi, alias=[]),
         Spec('Fp2::mul_Fp_0', 'z:Fp2 =x:Fp2 =y:Fp', lambda F, e: {'z': e['x'] * e['y']}, UN),
         Spec('Fp2::mul_Fp_0', 'z:Fp2 =x:Fp2 =y:Fp', lambda F, e: {'z': e['x'] * e['y']}, UN, hi={'x': lambda p: 4 * p}, note='x<4p'),
         u('Fp2::divBy2', k, half),
         b('c:Fp2::addC', k, add), b('c:Fp2::subC', k, sub), u('c:Fp2::neg', k, neg), b('c:Fp2::mulC', k, mul), u('c:Fp2::squareC', k, sq),
         u('c:Fp2::mul_xiC', k, mulxi, alias=[]), u('c:Fp2::divBy2C', k, half), u('c:Fp2::divBy4', k, quarter),
         Spec('c:Fp2::mul_Fp_0C', 'z:Fp2 =x:Fp2 =y:Fp', lambda F, e: {'z': e['x'] * e['y']}, UN),
         Spec('c:Fp2::mul_Fp_1', '+z:Fp2 =y:Fp', lambda F, e: {'z': e['z'] * T2(F.el(0), e['y'])}),
         Spec('c:Fp2::mul_x', '+z:Fp2', lambda F, e: {'z': e['z'] * T2(F.el(0), F.el(1))}),
         a('c:Fp2::op+=', k, iadd), a('c:Fp2::op-=', k, isub), a('c:Fp2::op*=', k, imul), b('c:Fp2::op+', k, add), b('c:Fp2::op-', k, sub), b('c:Fp2::op*', k, mul), u('c:Fp2::opneg', k, neg)]
    s += [Spec('Fp2::addNC', 'z:Fp2U =x:Fp2 =y:Fp2', add, BIN), Spec('Fp2::subNC', 'z:Fp2U =x:Fp2 =y:Fp2', sub, BIN),
          Spec('c:Fp2::addNC_C', 'z:Fp2U =x:Fp2 =y:Fp2', add, BIN), Spec('c:Fp2::subNC_C', 'z:Fp2U =x:Fp2 =y:Fp2', sub, BIN)]
    return s
def fp2dbl(cfg):
    D = 'Fp2Dbl'
    m = 'z:Fp2Dbl =x:Fp2 =y:Fp2'
    s = [b('Fp2Dbl::add', D, add), b('Fp2Dbl::sub', D, sub), u('Fp2Dbl::neg', D, neg), u('Fp2Dbl::mul_xi', D, mulxi, alias=[]),
         Spec('Fp2Dbl::addNC', 'z:Fp2DU =x:Fp2Dbl =y:Fp2Dbl', add, BIN), Spec('Fp2Dbl::subNC', 'z:Fp2DU =x:Fp2Dbl =y:Fp2Dbl', sub, BIN),
         Spec('Fp2Dbl::mulOpt1', m, mul, [('xy',)]), Spec('Fp2Dbl::mulOpt2', m, mul, [('xy',)]),
         Spec('Fp2Dbl::square', 'z:Fp2Dbl =x:Fp2', sq), Spec('Fp2Dbl::mod', 'z:Fp2 =x:Fp2Dbl', ident, [('zx',)]),
         b('c:Fp2Dbl::addC', D, add), b('c:Fp2Dbl::subC', D, sub), u('c:Fp2Dbl::negC', D, neg), u('c:Fp2Dbl::mul_xiC', D, mulxi, alias=[]),
         Spec('c:Fp2Dbl::mulOpt1C', m, mul, [('xy',)]), Spec('c:Fp2Dbl::mulOpt2C', m, mul, [('xy',)]),
         Spec('c:Fp2Dbl::squareC', 'z:Fp2Dbl =x:Fp2', sq), Spec('c:Fp2Dbl::modC', 'z:Fp2 =x:Fp2Dbl', ident),
         Spec('c:Fp2Dbl::addNC_C', 'z:Fp2DU =x:Fp2Dbl =y:Fp2Dbl', add, BIN), Spec('c:Fp2Dbl::subNC_C', 'z:Fp2DU =x:Fp2Dbl =y:Fp2Dbl', sub, BIN)]
    return s
def fp6(cfg):
    k = 'Fp6'; D = 'Fp6Dbl'
    return [b('Fp6::add', k, add), b('Fp6::sub', k, sub), b('Fp6::mul', k, mul),
            b('c:Fp6::addC', k, add), b('c:Fp6::subC', k, sub), u('c:Fp6::neg', k, neg), b('c:Fp6::mulC', k, mul), u('c:Fp6::square', k, sq, alias=[]),
            Spec('c:Fp6::mul_Fp_b', '+z:Fp6 =y:Fp', lambda F, e: {'z': T6(e['z'].c[0], e['z'].c[1] * e['y'], e['z'].c[2])}),
            Spec('c:Fp6::mul_Fp_c', '+z:Fp6 =y:Fp', lambda F, e: {'z': T6(e['z'].c[0], e['z'].c[1], e['z'].c[2] * e['y'])}),
            Spec('c:Fp6::mulFp6_24_Fp_01', '+z:Fp6 =y:P2_1', lambda F, e: {'z': T6(e['z'].c[0], e['z'].c[1] * e['y'][1], e['z'].c[2] * e['y'][0])}),
            a('c:Fp6::op+=', k, iadd), a('c:Fp6::op-=', k, isub), a('c:Fp6::op*=', k, imul), u('c:Fp6::opneg', k, neg),
            Spec('Fp6Dbl::mul', 'z:Fp6Dbl =x:Fp6 =y:Fp6', mul, [('xy',)]), Spec('c:Fp6Dbl::mulC', 'z:Fp6Dbl =x:Fp6 =y:Fp6', mul, [('xy',)]),
            Spec('c:Fp6Dbl::mod', 'z:Fp6 =x:Fp6Dbl', ident), b('c:Fp6Dbl::add', D, add), b('c:Fp6Dbl::sub', D, sub), u('c:Fp6Dbl::neg', D, neg)]
def sparse(F, x):
    z = T2(F.el(0), F.el(0))
    return T12(T6(x.c[0], z, x.c[2]), T6(z, x.c[1], z))
def fp12(cfg):
    k = 'Fp12'
    return [b('Fp12::mul', k, mul), Spec('Fp12::square', '+z:Fp12', lambda F, e: {'z': e['z'] * e['z']}),
            b('c:Fp12::add', k, add), b('c:Fp12::sub', k, sub), u('c:Fp12::neg', k, neg), b('c:Fp12::mulC', k, mul), Spec('c:Fp12::squareC', '+z:Fp12', lambda F, e: {'z': e['z'] * e['z']}),
            a('c:Fp12::op*=', k, imul), b('c:Fp12::op*', k, mul), a('c:Fp12::op+=', k, iadd), a('c:Fp12::op-=', k, isub),
            Spec('Fp12Dbl::mul_Fp2_024', '+z:Fp12 =x:Fp6', lambda F, e: {'z': e['z'] * sparse(F, e['x'])}),
            Spec('c:Fp12Dbl::mul_Fp2_024C', '+z:Fp12 =x:Fp6', lambda F, e: {'z': e['z'] * sparse(F, e['x'])}),
            Spec('c:Fp12Dbl::mul_Fp2_024_Fp2_024', 'z:Fp12 =x:Fp6 =y:Fp6', lambda F, e: {'z': sparse(F, e['x']) * sparse(F, e['y'])}, [('xy',)])]

# ---- cyclotomic subgroup (order dividing p^4 - p^2 + 1)
def gs_square(x):
    """Granger-Scott: with x = a + b w + c w^2 over F_p4 = Fp2[y], y = w^3: x^2 = (3a^2 - 2a~) + (3y c^2 + 2b~) w + (3b^2 - 2c~) w^2"""
    g0, g4, g3 = x.c[0].c; g2, g1, g5 = x.c[1].c
    a0, a1 = g0 * g0 + (g1 * g1).mulxi(), g0 * g1 * 2
    b0, b1 = g2 * g2 + (g3 * g3).mulxi(), g2 * g3 * 2
    c0, c1 = g4 * g4 + (g5 * g5).mulxi(), g4 * g5 * 2
    return T12(T6(a0 * 3 - g0 * 2, b0 * 3 - g4 * 2, c0 * 3 - g3 * 2), T6(c1.mulxi() * 3 + g2 * 2, a1 * 3 + g1 * 2, b1 * 3 + g5 * 2))
def cp_square(x, n=1):
    """the same on the compressed coordinates (g2, g3, g4, g5); the other two are not defined"""
    for _ in range(n):
        z = T2(x.c[0].c[1].F.el(0), x.c[0].c[1].F.el(0))
        y = gs_square(T12(T6(z, x.c[0].c[1], x.c[0].c[2]), T6(x.c[1].c[0], z, x.c[1].c[2])))
        x = y
    no = T2(None, None)
    return T12(T6(no, x.c[0].c[1], x.c[0].c[2]), T6(x.c[1].c[0], no, x.c[1].c[2]))
def cyclo(cfg, nmax=1):
    rnd = lambda rng, cfg, n: cyclo_draw(cfg, rng)
    r = [Spec('c:Fp12::sqru', '+z:Fp12', lambda F, e: {'z': gs_square(e['z'])}, draw=rnd), Spec('c:Fp12::sqru2', 'z:Fp12 =x:Fp12', lambda F, e: {'z': gs_square(e['x'])}, [('zx',)], draw=rnd),
         Spec('c:Compress::squareC', 'z:Fp12 =x:Fp12', lambda F, e: {'z': cp_square(e['x'])}, [('zx',)], draw=rnd)]
    for n in range(nmax + 1):
        f = lambda F, e, n=n: {'z': cp_square(e['x'], n)}
        r += [Spec('c:Compress::square_n', 'z:Fp12 =x:Fp12 n:int', f, [('zx',)], ints={'n': n}, note='n=%d' % n, draw=rnd), Spec('c:Compress::square_nC', 'z:Fp12 =x:Fp12 n:int', f, [('zx',)], ints={'n': n}, note='n=%d' % n, draw=rnd)]
    return r
_cyc = {}
def cyclo_pool(cfg):
    """elements of the cyclotomic subgroup: random ones, the identity, and ones with g2 = 0"""
    if cfg.curve in _cyc: return _cyc[cfg.curve]
    import random
    rng = random.Random(cfg.curve); F = cfg.F; p = cfg.p; one = F.el(1); zero = F.el(0)
    def T(cs): return make('Fp12', [F.el(c) for c in cs])
    def easy(x):      # x^((p^6-1)(p^2+1))
        f = x.conj() * x.inv()
        return frob2(F, f) * f
    r = [T([1] + [0] * 11)]
    for _ in range(6): r.append(easy(T([rng.randrange(p) for _ in range(12)])))
    r.append(easy(T([rng.randrange(4) for _ in range(12)])))
    xi = tower.xi2(F); q = p * p
    k = 0
    while k < 3:
        t = T2(F.el(rng.randrange(p)), F.el(rng.randrange(p)))
        n = (t * t * t + xi * t * 3) * 8; d = xi * (t * t * 3 + xi); d = d * (t * t * 3 + xi) * (t * t * 3 + xi)
        g5 = cbrt(F, n * d.inv())
        if g5 is None: continue
        g4 = t * g5; g3 = (g4 * g4 * 3 + xi * g5 * g5) * pow(2, -1, p)
        g1 = g4 * g5 * 2 * g3.inv(); g0 = (g1 * g1 * 2 - g3 * g4 * 3).mulxi() + T2(one, zero)
        x = T12(T6(g0, g4, g3), T6(T2(zero, zero), g1, g5))
        assert x * gs_square(x) == gs_square(x) * x and x * x == gs_square(x), 'cyclotomic element'
        r.append(x); k += 1
    _cyc[cfg.curve] = r
    return r
def frob2(F, x):
    p = F.p; q = p * p; cs = [c for s in x.c for c in s.c]; pos = [0, 2, 4, 1, 3, 5]
    r = [c * tpow(tower.xi2(F), i * (q - 1) // 6) for c, i in zip(cs, pos)]
    return T12(T6(*r[:3]), T6(*r[3:]))
def tpow(b, e):
    r = None
    while e:
        if e & 1: r = b if r is None else r * b
        b = b * b; e >>= 1
    return r if r is not None else b.__class__(*[b.F.el(1)] + [b.F.el(0)] * (len(b.c) - 1))
def cbrt(F, a):
    """cube root in F_p2 or None"""
    q = F.p * F.p; m = q - 1; s = 0
    while m % 3 == 0: m //= 3; s += 1
    one = T2(F.el(1), F.el(0))
    if not tpow(a, (q - 1) // 3) == one: return None
    g = tower.xi2(F); c = tpow(g, m)             # xi is no cube
    x = tpow(a, pow(3, -1, m)); e = x * x * x * a.inv()  # of order dividing 3^(s-1)
    w = one; 
    for k in range(3 ** s):
        if w * w * w * e == one: return x * w
        w = w * c
    return None
def cyclo_draw(cfg, rng):
    x = rng.choice(cyclo_pool(cfg)); 
    k = rng.randrange(5)
    if k == 0: x = x.conj()
    elif k == 1: x = x * rng.choice(cyclo_pool(cfg))
    elif k == 2: x = gs_square(x)
    return [c.int() * cfg.F.R % cfg.p for c in x.comps()]
