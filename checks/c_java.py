"""C23: the classes offered to Java.  The driver exposes their methods under the entry names of the operations they
wrap, so the specifications of C05-C07, C10-C12, C14 and C22 decide them; big integers by a trace of the GMP calls."""
import random, time, re
import build, limb, specs_field as sf, c_field, c_curve, c_mul, c_power, c_pair, c_line, c_basic, ring, contracts
from limb import ARENA
from x86 import PathEnd, Unsupported
from zbv import ZB, ZExec, bv, BV, fresh
import z3
from poly import STATS
from check import Ob

class JConfig(limb.Config):
    def __init__(self, mode, mulx):
        limb.Config.__init__(self, 'bn', mode, mulx)
        self.variant = 'java'; self.name = 'java/' + self.name
NAMES = {'C05': ['c:Fp::op+=', 'c:Fp::op-=', 'c:Fp::op*=', 'c:Fp2::op+=', 'c:Fp2::op-=', 'c:Fp2::op*='], 'C07': ['c:Fp12::op+=', 'c:Fp12::op-=', 'c:Fp12::op*=']}

def obligations(prop, ctx):
    ctx.exes = build.build(['java']); obs = []; th = ctx.thorough
    for mx in [(1, 1)] + ([(0, 0)] if th else []):
        cfg = JConfig(*mx); img = limb.image(ctx.exes, cfg); ring.short(img); c_line.points(cfg)
        for P, gs in (('C05', ('fp', 'fpmul', 'fp2')), ('C07', ('fp12',))):
            for g in gs:
                for sp in getattr(sf, g)(cfg):
                    if sp.name not in NAMES[P]: continue
                    for al in sp.patterns(): obs.append(c_field.LimbOb(cfg, sp, al, 60 if 'Fp12' in sp.name else 5, lemmas=c_field.LEMMAS[P]))
        for E in ('Ec1', 'Ec2'):
            for op in ('dbl', 'neg', 'op+=', 'op-='):
                for al in ((), ('z', 'x')): obs.append(c_curve.LawOb(cfg, E, op, al))
            for op in ('isZero', 'op==', 'isValid'): obs.append(c_curve.PredOb(cfg, E, op))
            for a in (False, True):
                t64 = list(range(64)) if th or E == 'Ec1' else [0, 1, 31, 62, 63]; few = [0, 7, 63]
                for w in range(1, 6 if th else 5):
                    if a and w > 2 and not th: continue
                    for ng in (False, True): obs.append(c_mul.MulOb(cfg, E, 'mpz', ng, w, (([-1] if not ng else []) + t64) if w == 1 else few, a))
        for T in c_power.NC:
            for w in range(1, 6 if th else 5): obs.append(c_power.PowOb(cfg, T, 'mpz', w, [-1, 0, 1, 31, 62, 63] if w == 1 else [0, 7, 63]))
        ks = ('jac', 'one', 'inf')
        obs += [c_pair.PairOb(cfg, 'c:pairingEc', (q, p)) for q in ks for p in ks]
        obs += c_basic.java(cfg)
    info = dict(bounds='every operand of every listed method; every path; exponents and scalars of up to %d words of 64 bits as in C11 and C22' % (5 if th else 4),
                outside='methods taking or returning strings; the generated glue between Java and C++; the arithmetic of GMP itself',
                assumptions=['field, curve and pairing operations under the wrappers meet their specifications (C01-C15, C22)', 'GMP computes what its functions are documented to compute'])
    return obs, info
