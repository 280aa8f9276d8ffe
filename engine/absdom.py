"""Opaque-object domain: registers, control and addresses are concrete; every limb of a field element in memory is
a token naming the object it belongs to, the component and the limb.  Copies move tokens; the group operations are
replaced by their specifications (decided by other checks), which read and write whole objects.  What the
object *is* (an exponent of a generic group element, a divisor, a multiple of a point) is the business of the check."""
import re
import ring
from ring import Wd, Un, ret, find, plt, plt_throw
from x86 import Unsupported, PathEnd, Part, Exec
from poly import Cond, Fork

class FC:
    """component i of the object with the given key, possibly negated"""
    __slots__ = ('key', 'i', 'sg')
    def __init__(self, key, i, sg=1): self.key, self.i, self.sg = key, i, sg
    def __eq__(self, o): return isinstance(o, FC) and (self.key, self.i, self.sg) == (o.key, o.i, o.sg)
    def __hash__(self): return hash((self.key, self.i, self.sg))
    def __repr__(self): return '%s%s[%d]' % ('-' if self.sg < 0 else '', self.key, self.i)

class Abs:
    def __init__(self, F):
        self.F, self.p = F, F.p
        self.n = [0]                 # fresh ids, shared between clones
        self.zf = {}                 # (key, i) -> is that component zero
        self.nonzero = {}            # key -> list of groups of components, each not all zero
        self.info = {}               # key -> anything
        self.log = []
    def clone(self):
        d = self.__class__.__new__(self.__class__); d.__dict__.update(self.__dict__)
        d.zf = dict(self.zf); d.info = dict(self.info); d.log = list(self.log)
        return d
    def fresh(self, tag): self.n[0] += 1; return (tag, self.n[0])
    # ---- executor interface
    def rd(self, v): return v
    def undef(self, nm): return Un(nm)
    def on_store(self, st, a, v): pass
    def flag_dead(self, c): pass
    logic = ring.Ring.logic
    subb = ring.Ring.subb
    insert = ring.Ring.insert
    insert_any = ring.Ring.insert
    extract = ring.Ring.extract
    zext = ring.Ring.zext
    def zext_to(self, v, w, to): return self.zext(v, w)
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('operation ' + n)
    def zero(self, f):
        v = f.res
        if isinstance(v, ring.OrT):
            vs = {}
            for w in v.ws: vs.setdefault((w.v.key, w.v.i), set()).add(w.i)
            if all(len(s) == 4 for s in vs.values()): return Cond('allzero', list(vs))
        raise Unsupported('zero test of %s' % type(v).__name__)
    def bnot(self, c): return (not c) if isinstance(c, bool) else Cond(c.kind, c.a, not c.neg)
    def known(self, k):
        if k in self.zf: return self.zf[k]
        return None
    def decide(self, c):
        ks = [self.known(k) for k in c.a]
        if any(k is False for k in ks): return c.neg
        if all(k is True for k in ks): return not c.neg
        for k in c.a:       # a whole group known not to vanish
            for g in self.nonzero.get(k[0], ()):
                if all((k[0], i) in c.a for i in g): return c.neg
        return None
    def setz(self, k, v):
        if k in self.zf: return self.zf[k] == v
        self.zf[k] = v; self.log.append('%s[%d] %s 0' % (k[0], k[1], '=' if v else '!='))
        return not any(all(self.zf.get((k[0], i)) for i in g) for g in self.nonzero.get(k[0], ()))
    def assume(self, c, val, st):
        for k in c.a:
            if self.known(k) is None: raise Fork([lambda s2, v=v, k=k: s2.dom.setz(k, v) for v in (True, False)])
        raise Unsupported('assume')
    def b2v(self, c, w):
        t = self.decide(c)
        if t is not None: return int(t)
        self.assume(c, True, None)
    def ite(self, c, a, b, w, st=None):
        t = self.decide(c)
        if t is None: self.assume(c, True, None)
        return a if t else b
    # ---- components in memory
    def comp(self, s, a):
        ws = [s.load(a + 8 * j) for j in range(4)]
        if all(isinstance(w, int) for w in ws): return sum(w << 64 * j for j, w in enumerate(ws)) * self.F.Ri % self.p
        if all(isinstance(w, Wd) for w in ws) and [w.i for w in ws] == [0, 1, 2, 3] and all(w.v == ws[0].v for w in ws): return ws[0].v
        raise Unsupported('not a component')
    def comps(self, s, a, n): return [self.comp(s, a + 32 * i) for i in range(n)]
    def put(self, s, a, cs):
        for c in cs:
            for j in range(4):
                s.mem[a] = (c * self.F.R % self.p >> 64 * j & (1 << 64) - 1) if isinstance(c, int) else Wd(c, j)
                s.writes.add(a); a += 8
    def whole(self, cs, base=0):
        """(key, signs) when the components are those of one object, in order"""
        if not all(isinstance(c, FC) for c in cs) or any(c.key != cs[0].key or c.i != base + i for i, c in enumerate(cs)):
            raise Unsupported('not one object')
        return cs[0].key, [c.sg for c in cs]

def fn(note, name, body):
    """a hook that runs body(s, dom, args) and returns to the caller; body may return a value"""
    def h(s):
        v = body(s, s.dom, [s.r[i] for i in ring.ARGR])
        note.add(name)
        ret(s, v)
    return h
def at(h, img, pats, f):
    """installs the hook at every function matching one of the patterns (regex) or entry names"""
    n = 0
    for p in pats:
        if p in img.entries: h[img.entries[p]] = f; n += 1
        elif p.startswith('^'):
            for a in find(img, p): h[a] = f; n += 1
    return n
def hook_common(h, img, note):
    """negation of one base-field component; memory functions; throws"""
    import contracts
    def neg(s, d, a):
        c = d.comp(s, a[1])
        d.put(s, a[0], [FC(c.key, c.i, -c.sg) if isinstance(c, FC) else -c % d.p])
    at(h, img, ['Fp::neg'], fn(note, 'Fp::neg', neg))
    def cmp_(s):
        d = s.dom; x, y = d.comp(s, s.r[7]), d.comp(s, s.r[6])
        if isinstance(x, int) and isinstance(y, int): return ret(s, 0 if x == y else 1)
        if isinstance(x, int): x, y = y, x
        if x == y: return ret(s, 0)
        if y != 0:
            k = (('eq', x, y), 0)
        else: k = (x.key, x.i)
        v = d.known(k)
        if v is None:
            outs = []
            for b in (True, False):
                t = s.copy()
                if t.dom.setz(k, b): outs.append(t)
            return outs
        note.add('Fp::compare'); ret(s, 0 if v else 1)
    at(h, img, [r'^Fp::compare\('], cmp_)
    h.update(plt_throw(img)); h.update(contracts.mem_hooks(img))
    return h
