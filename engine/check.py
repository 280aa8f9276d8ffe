"""Obligation runner: proves every obligation of a property by symbolic execution of the code built
from /repo's working tree plus solver queries, replays counterexamples natively, writes the evidence file.

usage: python3-vt engine/check.py <property id> [quick|thorough]"""
import os, sys, time, json, pickle, select, signal, traceback, resource
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'checks'))
import build
VERIF = build.VERIF
EVID = os.path.join(VERIF, 'evidence')

class Ob:
    """one obligation.  prove(ctx) -> dict(status= proved|refuted|open, why=..., + counters); witness(ctx, hints) ->
    (dict describing a natively replayed counterexample or None, number of native runs)"""
    key = ''; functions = (); cost = 1; bounds = ''
    timeout = None
    def prove(self, ctx): raise NotImplementedError
    def witness(self, ctx, hints): return None, 0
    def validate(self, ctx): return None, 0

class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deadline = None; self.exes = {}
    @property
    def thorough(self): return self.tier == 'thorough'

def _worker(fn, wfd, mem):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        r = fn()
    except MemoryError: r = dict(status='open', why='memory limit')
    except BaseException as e:
        r = dict(status='open', why='%s: %s' % (type(e).__name__, str(e)[:200]), trace=traceback.format_exc()[-1500:])
    try:
        with os.fdopen(wfd, 'wb') as f: pickle.dump(r, f)
    except BaseException: pass
    os._exit(0)

def parallel(jobs, nproc, deadline, mem=6 << 30, grace=None):
    """jobs: list of (id, fn, seconds); returns {id: result}.  Each job runs in its own forked process group."""
    todo = list(jobs)[::-1]; run = {}; out = {}
    def start():
        while todo and len(run) < nproc:
            i, fn, sec = todo.pop()
            if time.time() > deadline - 1:
                out[i] = dict(status='open', why='check deadline'); continue
            r, w = os.pipe(); sys.stdout.flush(); sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                os.close(r)
                for o in run.values():
                    try: os.close(o[1])
                    except OSError: pass
                _worker(fn, w, mem)
            os.close(w)
            run[r] = (i, r, pid, min(deadline, time.time() + sec), [], time.time())
    start()
    while run:
        rd, _, _ = select.select(list(run), [], [], 0.5)
        now = time.time()
        for r in list(run):
            i, _, pid, lim, buf, t0 = run[r]
            done = False
            if r in rd:
                b = os.read(r, 1 << 20)
                if b: buf.append(b); continue
                done = True
                try: out[i] = pickle.loads(b''.join(buf))
                except Exception: out[i] = dict(status='open', why='worker ended (memory or crash)')
            elif now > lim:
                done = True; out[i] = dict(status='open', why='time limit %ds' % (lim - t0))
            if done:
                try: os.killpg(pid, signal.SIGKILL)
                except OSError: pass
                os.close(r); os.waitpid(pid, 0); del run[r]
                if isinstance(out[i], dict):
                    out[i].setdefault('wall', round(now - t0, 2))
                    if out[i].get('witness') and grace is not None:    # a violation is established: wind down
                        if grace >= 0: deadline = min(deadline, now + grace)
                        for k, o in list(run.items()): run[k] = o[:3] + (min(o[3], deadline),) + o[4:]
        start()
    return out

def findings():
    """known_findings.txt: 'known: property=<id> key=<obligation or probe key> <what fails>' and 'fixed: ...'"""
    res = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'):
                f = dict(x.split('=', 1) for x in l.split() if '=' in x and x.split('=')[0] in ('property', 'key'))
                res.setdefault(f['property'], {})[f['key']] = l.split('key=' + f['key'], 1)[1].strip()
    return res

def main():
    t0 = time.time()
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = sys.argv[3] if len(sys.argv) > 3 else None
    ctx = Ctx(prop, tier, seed)
    ctx.deadline = t0 + (780 if tier == 'quick' else 6 * 3600)
    import registry
    mod, meta = registry.load(prop)
    obs, info = mod.obligations(prop, ctx)
    if only: obs = [o for o in obs if only in o.key]
    keys = set()
    for o in obs:
        assert o.key not in keys, o.key
        keys.add(o.key)
    obs.sort(key=lambda o: -o.cost)
    per = meta.get('per', (150, 3000))[1 if ctx.thorough else 0]
    budget = meta.get('budget', (420, 5 * 3600))[1 if ctx.thorough else 0]
    res = parallel([(o.key, (lambda o=o: prove_one(o, ctx)), o.timeout or per) for o in obs], 8, min(ctx.deadline - 200, t0 + budget), grace=None if ctx.thorough else 45)
    byk = {o.key: o for o in obs}
    # ---- every obligation that was not proved gets a native search for a replayable counterexample
    pend = [k for k, r in res.items() if r['status'] != 'proved']
    viol = [(k, r['witness']) for k, r in res.items() if r.get('witness')]
    wsec = meta.get('wsec', (60, 600))[1 if ctx.thorough else 0]
    pend = [k for k in pend if not res[k].get('witness')]
    pend.sort(key=lambda k: res[k]['status'] != 'refuted')
    if viol and not ctx.thorough: pend = pend[:8]
    if pend:
        wd = min(ctx.deadline - 20, time.time() + (240 if tier == 'quick' else 3600))
        def wjob(k):
            def f():
                t = min(wsec, max(5, 200 * 8 / max(8, len(pend))))
                if res[k]['status'] != 'refuted' and not ctx.thorough: t = min(t, 12)
                ctx.wdeadline = time.time() + t
                w, n = byk[k].witness(ctx, res[k].get('hints'))
                return dict(status='w', witness=w, tried=n)
            return f
        ws = parallel([(k, wjob(k), wsec + 30) for k in pend], 8, wd, grace=5)
        for k, r in ws.items():
            res[k]['native'] = res[k].get('native', 0) + r.get('tried', 0)
            if r.get('why'): res[k]['wwhy'] = r['why']
            if r.get('witness'): viol.append((k, r['witness']))
    known = findings().get(prop, {})
    fresh = []
    for k, w in viol:
        kk = w.get('finding', k)
        if kk in known: print('KNOWN-FINDING: property=%s %s' % (prop, known[kk]))
        else: fresh.append((k, w))
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    path = None
    for f in os.listdir(os.path.join(EVID, 'replay')):
        if f.startswith(prop + '-'): os.unlink(os.path.join(EVID, 'replay', f))
    for i, (k, w) in enumerate(fresh[:5]):
        path = os.path.join(EVID, 'replay', '%s-%d.json' % (prop, i))
        json.dump(dict(property=prop, obligation=k, **w), open(path, 'w'), indent=1, default=str)
        print('VIOLATION property=%s replay=%s' % (prop, path))
        print('  %s: %s' % (k, str(w.get('observed'))[:300]))
    # ---- evidence
    proved = [k for k, r in res.items() if r['status'] == 'proved']
    openk = sorted(k for k, r in res.items() if r['status'] != 'proved')
    S = lambda f: sum(r.get(f, 0) or 0 for r in res.values())
    fns = sorted({f for o in obs for f in o.functions})
    samples = [r['sample'] for r in res.values() if r.get('sample')][:6]
    cov = dict(states=S('paths'), transitions=S('steps'), traces_validated_against_impl=S('native'),
               obligations=len(obs), discharged=len(proved), queries=S('queries'), solver_s=round(S('solver_s'), 2), solver_unknown=S('unknown'),
               functions_encoded=fns, bounds=info.get('bounds'), outside=info.get('outside'),
               canary=info.get('canary'),
               proved=sorted(proved), undecided=[dict(key=k, why=str(res[k].get('why'))[:300], native_runs=res[k].get('native', 0)) for k in openk],
               samples=samples or ['(none)'], rule='states: finished symbolic paths; transitions: machine instructions (or IR steps) executed symbolically; traces: native runs of the compiled code compared with the reference specification')
    if meta['level'] in ('proof',): cov['checker_cmd'] = 'python3-vt engine/check.py %s %s' % (prop, tier); cov['trusted_base'] = info.get('trusted', [])
    if meta['level'] == 'other': cov['explanation'] = info.get('explanation', '')
    ev = dict(property=prop, tier=tier, seed=seed, level=meta['level'], coverage=cov, assumptions=info.get('assumptions', []),
              wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(EVID, exist_ok=True)
    json.dump(ev, open(os.path.join(EVID, prop + '.json'), 'w'), indent=1, default=str)
    print('%s %s: %d obligations, %d proved, %d undecided, %d violated; %d solver queries, %.1fs solver, %d native runs, %.1fs' % (
        prop, tier, len(obs), len(proved), len(openk) - len(set(k for k, _ in fresh) & set(openk)), len(fresh), S('queries'), S('solver_s'), S('native'), time.time() - t0))
    for k in openk: print('  undecided: %s (%s)' % (k, str(res[k].get('why'))[:160]))
    if os.environ.get('VERBOSE'):
        for k, r in sorted(res.items(), key=lambda x: -x[1].get('wall', 0))[:25]: print('   %7.2fs %s %s %s' % (r.get('wall', 0), r['status'], k, (r.get('trace') or '')[-700:] if r['status'] != 'proved' else ''))
    sys.stdout.flush()
    os._exit(1 if fresh else 0)

def prove_one(o, ctx):
    w, n = o.validate(ctx)
    if w: return dict(status='refuted', why='native run differs from the specification', native=n, witness=w)
    r = o.prove(ctx)
    r['native'] = r.get('native', 0) + n
    return r

if __name__ == '__main__': main()
