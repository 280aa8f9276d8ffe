"""C01, C02, C04, C05, C06, C07: field, double-width and tower arithmetic at limb level."""
import time
import build, limb, specs_field as sf
from limb import Config, Spec, KINDS, CW
from check import Ob
import contracts

class LimbOb(Ob):
    def __init__(self, cfg, spec, alias, cost=1, nval=48, lemmas=None):
        self.lemmas = lemmas
        self.cfg, self.spec, self.alias, self.cost, self.nval = cfg, spec, alias, cost, nval
        self.key = '%s %s%s%s' % (cfg.name, spec.name, ' ' + '='.join(alias[0]) if alias else '', ' [' + spec.note + ']' if spec.note else '')
        self.functions = [spec.name.replace('c:', '')]
    def prove(self, ctx):
        img = limb.image(ctx.exes, self.cfg); note = set()
        hooks = contracts.mem_hooks(img)
        if self.lemmas: hooks.update(contracts.hooks(img, self.cfg, self.lemmas(self.cfg), note, skip=(self.spec.name,)))
        hooks.pop(img.entries[self.spec.name], None)
        ok, fails, det = limb.run_symbolic(img, self.cfg, self.spec, self.alias, hooks=hooks)
        d = dict(det, lemmas=sorted(note)); d.pop('wall', None); tm = d.pop('templates', [])
        if ok: d['status'] = 'proved'
        else:
            d['status'] = 'refuted' if any(f[0] in ('value', 'range', 'end') for f in fails) else 'open'
            d['why'] = '; '.join('%s %s' % (f[0], f[1]) for f in fails[:4]); d['hints'] = tm
        return d
    def validate(self, ctx):
        w, n = limb.search(ctx.exes[self.cfg.variant], self.cfg, self.spec, self.alias, ctx.seed, self.nval, time.time() + 20)
        return self.wrap(w), n
    def witness(self, ctx, hints):
        w, n = limb.search(ctx.exes[self.cfg.variant], self.cfg, self.spec, self.alias, ctx.seed + 7, 400000, ctx.wdeadline, templates=hints or ())
        return self.wrap(w), n
    def wrap(self, w):
        if not w: return None
        return dict(entry=self.spec.name, config=self.cfg.name, alias=list(self.alias), **w)

GROUPS = {'C01': ['fp'], 'C02': ['fpmul'], 'C04': ['fpdbl', 'fp2dbl'], 'C05': ['fp2'], 'C06': ['fp6'], 'C07': ['fp12'], 'C08': ['cyclo']}
COST = {'Fp12': 60, 'Fp12Dbl': 50, 'Fp6': 20, 'Fp6Dbl': 20, 'Fp2Dbl': 5, 'Fp2': 5, 'Compress': 40}
def pick(*groups, dbl=False):
    def f(cfg):
        r = []
        for g in groups:
            for sp in getattr(sf, g)(cfg):
                ks = [c for n, k in sp.outs() for c in KINDS[k]]
                if sp.name.startswith('c:') or any(c[0] == 'U' for c in ks): continue
                if any(c == 'D' for c in ks) and not dbl and '::neg' not in sp.name: continue
                if any(CW[c] == 4 and c[0] == 'U' for n, k in sp.ins() for c in KINDS[k]): continue
                r.append(sp)
        return r
    return f
LEMMAS = {'C05': pick('fp', 'fpmul', 'fpdbl'), 'C04': pick('fpdbl'), 'C06': pick('fp', 'fpmul', 'fpdbl', 'fp2', 'fp2dbl'),
          'C08': pick('fp', 'fpmul', 'fpdbl', 'fp2', 'fp2dbl'),
          'C07': pick('fp', 'fpmul', 'fpdbl', 'fp2', 'fp2dbl', 'fp6', dbl=True)}
def configs(ctx):
    if ctx.thorough: return [Config(c, m, x) for c in ('bn', 'snark3') for m in (0, 1) for x in (0, 1)]
    return [Config(c, m, x) for c in ('bn', 'snark3') for m, x in ((1, 1), (0, 0))]
def obligations(prop, ctx):
    ctx.exes = build.build(['bn', 'bnsnark'])
    obs = []
    for cfg in configs(ctx):
        limb.image(ctx.exes, cfg)
        for g in GROUPS[prop]:
            for sp in (sf.cyclo(cfg, 3 if ctx.thorough else 1) if g == 'cyclo' else getattr(sf, g)(cfg)):
                heavy = ('mul' in sp.name or 'square' in sp.name) and ('Fp6' in sp.name or 'Fp12' in sp.name)
                for al in sp.patterns():
                    if al and heavy and not ctx.thorough and cfg.name != 'bn/interleaved/mulx': continue
                    n = sp.name.replace('c:', '').split('::')[0]
                    obs.append(LimbOb(cfg, sp, al, COST.get(n, 1) * (3 if heavy else 1),
                                       lemmas=LEMMAS.get(prop) if sp.name.startswith('c:') or prop in ('C07', 'C08') else None))
    info = dict(bounds='all values of every operand in its stated range (Fp: [0,p); FpDbl: [0,2^256 p); U: unreduced); all paths of the routine (no unrolling needed: fixed-size code); one call',
                outside='operands outside the stated ranges; aliasing patterns outside those listed; CPU behaviour beyond the modelled x86-64 instructions',
                assumptions=['x86-64 semantics of the modelled instructions (engine/x86.py)', 'process image dumped after Param::init is the state user calls see', 'objdump disassembly'])
    return obs, info
