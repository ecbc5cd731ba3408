"""Shared harness: tiers, cases, parallel workers, violations, known findings, evidence.

A check module (mc/checks/cXX.py) defines

    PROPERTY = 'C01'
    def cases(tier): -> list of (name, callable(ctx))      # the finite space, split into named cases

and each case explores its part of the space through `ctx`:

    ctx.state(key)          a distinct state of the explored space (hashed, counted once)
    ctx.trans(n)            transitions of the explored space executed on the real code
    ctx.trace(n)            complete executions of the real code compared with the oracle
    ctx.expect(cond, key, what, **info)     the oracle; `key` identifies the failing input/call site
    ctx.close(a, b, key, what, ...)         numeric agreement
    ctx.sample(obj)         an actual case, written out in the evidence

Exceptions that escape a case are reported as violations of it: no case raises on the unchanged tree.
"""
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback
import importlib
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('MC_REPO', '/repo')
PY = '/opt/venv/bin/python'
KNOWN = os.path.join(VERIF, 'known_findings.txt')


def env():
    e = dict(os.environ)
    e.update(JAX_PLATFORMS='cpu', PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg',
             XLA_FLAGS='--xla_cpu_multi_thread_eigen=false intra_op_parallelism_threads=1',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONNOUSERSITE='1',
             MPLCONFIGDIR=os.environ.get('MPLCONFIGDIR', '/opt/vp/mplconfig'))
    e['PYTHONPATH'] = os.pathsep.join([REPO, VERIF])
    return e


def known_findings(prop):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith('known: property=' + prop + ' '):
                rest = line.split(' ', 2)[2]
                key, what = rest.split(' ', 1)
                assert key.startswith('key='), line
                out[key[4:]] = what
    return out


class Ctx:
    def __init__(self, prop, case, tier, seed):
        self.prop, self.case, self.tier, self.seed = prop, case, tier, seed
        self._states = set()
        self.transitions = 0
        self.traces = 0
        self.samples = []
        self.fails = []
        self.nexpect = 0
        self.outcomes = set()

    @property
    def thorough(self):
        return self.tier == 'thorough'

    def state(self, *key):
        self._states.add(hashlib.md5(repr(key).encode()).digest()[:8])

    def trans(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def explored(self, leaves):
        """executions of the real code: every resolved draw is a transition, every complete execution a trace"""
        self.transitions += sum(len(l.choices) for l in leaves)
        self.traces += len(leaves)

    def outcome(self, *o):
        if len(self.outcomes) < 100000:
            self.outcomes.add(hashlib.md5(repr(o).encode()).digest()[:8])

    def sample(self, obj, cap=2):
        if len(self.samples) < cap:
            self.samples.append(obj)

    def expect(self, cond, key, what, **info):
        self.nexpect += 1
        if not bool(cond):
            self.fail(key, what, **info)
        return bool(cond)

    def fail(self, key, what, **info):
        if len([f for f in self.fails if f['key'] == key]) < 1:
            self.fails.append(dict(key=key, case=self.case, what=what,
                                   info={k: _plain(v) for k, v in info.items()}))

    def close(self, a, b, key, what, rtol=1e-4, atol=1e-5, **info):
        """a (implementation) agrees with b (oracle); nan agrees with nan, inf with same inf."""
        import numpy as np
        try:
            a = np.asarray(a, dtype=float)
        except Exception as e:  # not even numeric
            return self.expect(False, key, what + ' (not numeric)', got=repr(a)[:300], want=_plain(b), **info)
        b = np.asarray(b, dtype=float)
        ok = a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
        return self.expect(ok, key, what, got=a, want=b, **info)


def _plain(v):
    import numpy as np
    if isinstance(v, (int, float, str, bool)) or v is None:
        return v
    if isinstance(v, dict):
        return {str(k): _plain(x) for k, x in list(v.items())[:60]}
    if isinstance(v, (list, tuple)):
        return [_plain(x) for x in list(v)[:60]]
    try:
        a = np.asarray(v)
        if a.dtype == object:
            return repr(v)[:500]
        if a.size > 400:
            return f'array{a.shape} head={a.ravel()[:40].tolist()}'
        return a.tolist()
    except Exception:
        return repr(v)[:500]


def run_cases(modname, names, tier, seed, out):
    warnings.filterwarnings('ignore')
    res = []
    try:
        mod = importlib.import_module('mc.checks.' + modname)
        table = dict(mod.cases(tier))
    except BaseException:
        tb = traceback.format_exc()
        res.append(dict(case='import', states=0, transitions=0, traces=0, nexpect=0, outcomes=0, samples=[],
                        fails=[dict(key='import', case='import', what='setting up the check raised', info=dict(tb=tb[-3000:]))]))
        json.dump(res, open(out, 'w'))
        return
    for i, n in enumerate(names):
        # cases are shared out: the first worker to get there takes the case
        try:
            os.close(os.open(os.path.join(os.path.dirname(out), f'claim{i}'), os.O_CREAT | os.O_EXCL))
        except FileExistsError:
            continue
        open(out + '.cur', 'w').write(n)
        ctx = Ctx(mod.PROPERTY, n, tier, seed)
        t = time.time()
        try:
            table[n](ctx)
        except BaseException as e:
            ctx.fail('raised:' + n, f'{type(e).__name__} escaped: {str(e)[:300]}', tb=traceback.format_exc()[-3000:])
        res.append(dict(case=n, states=len(ctx._states), transitions=ctx.transitions, traces=ctx.traces,
                        nexpect=ctx.nexpect, outcomes=len(ctx.outcomes), samples=ctx.samples, fails=ctx.fails,
                        wall=time.time() - t))
        if os.environ.get('MC_FAILFAST') and ctx.fails and any(f['key'] not in known_findings(mod.PROPERTY) for f in ctx.fails):
            open(os.path.join(os.path.dirname(out), 'stop'), 'w').close()
            break
    json.dump(res, open(out, 'w'), default=repr)


def main(modname):
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    only = None
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    if '--case' in sys.argv:
        only = sys.argv[sys.argv.index('--case') + 1]
    if '--replay' in sys.argv:
        only = json.load(open(sys.argv[sys.argv.index('--replay') + 1]))['case']
    # the list of cases is computed without importing the code under test
    src = importlib.import_module('mc.checks.' + modname)
    prop = src.PROPERTY
    names = src.case_names(tier)
    if only is not None and only != 'import':
        names = [n for n in names if n == only]
    njobs = min(int(os.environ.get('MC_JOBS', str(getattr(src, 'JOBS', 4)))), max(1, len(names)))
    groups = [names for i in range(njobs)]
    import tempfile
    tmp = tempfile.mkdtemp(prefix='mc_' + modname + '_')
    procs = []
    e = env()
    e['VERIF_TIER'], e['VERIF_SEED'] = tier, str(seed)
    if hasattr(src, 'prepare'):
        e.update(src.prepare(tmp))
    for i, g in enumerate(groups):
        out = os.path.join(tmp, f'{i}.json')
        p = subprocess.Popen([PY, '-m', 'mc.worker', modname, tier, str(seed), out] + g, cwd=VERIF, env=e,
                             stdout=open(out + '.log', 'w'), stderr=subprocess.STDOUT)
        procs.append((p, out, g))
    results = []
    err = None
    if os.environ.get('MC_FAILFAST'):       # development only: the first violation ends the check
        while any(p.poll() is None for p, _, _ in procs):
            time.sleep(.2)
            if os.path.exists(os.path.join(tmp, 'stop')):
                time.sleep(.5)
                for p, out, g in procs:
                    if p.poll() is None:
                        p.kill()
                        json.dump([], open(out, 'w'))
    for p, out, g in procs:
        rc = p.wait()
        if not os.path.exists(out):
            log = open(out + '.log').read()[-3000:]
            g = [open(out + '.cur').read()] if os.path.exists(out + '.cur') else []
            # killed / crashed interpreter: abort() in the code under test is a failure of the case group
            results.append(dict(case=g[0] if g else '?', states=0, transitions=0, traces=0, nexpect=0, outcomes=0,
                                samples=[], fails=[dict(key='worker', case=g[0] if g else '?',
                                                        what=f'worker died rc={rc}', info=dict(log=log))]))
        else:
            results += json.load(open(out))
    order = {n: i for i, n in enumerate(names)}
    results.sort(key=lambda r: order.get(r['case'], -1))
    missing = [n for n in names if n not in {r['case'] for r in results}]
    if missing and not any(r['fails'] for r in results):
        results.append(dict(case=missing[0], states=0, transitions=0, traces=0, nexpect=0, outcomes=0, samples=[],
                            fails=[dict(key='missing', case=missing[0], what='case was not run', info={})]))
    subprocess.run(['/bin/rm', '-rf', tmp])
    # keep only one import failure
    known = known_findings(prop)
    seen_known, viol, seen = {}, [], set()
    for r in results:
        for f in r['fails']:
            if f['key'] in known:
                seen_known[f['key']] = f
            elif f['key'] not in seen:
                seen.add(f['key'])
                viol.append(f)
    for k, f in seen_known.items():
        print(f'KNOWN-FINDING: property={prop} key={k} {known[k]}')
    os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
    for f in viol[:20]:
        h = hashlib.md5((f['key']).encode()).hexdigest()[:8]
        path = os.path.join(VERIF, 'replays', f'{prop}-{h}.json')
        json.dump(dict(property=prop, check=modname, tier=tier, seed=seed, **f,
                       rerun=f'cd {VERIF} && ./check {modname} --tier {tier} --case {f["case"]}'), open(path, 'w'), indent=1)
        print(f'VIOLATION property={prop} replay={path}')
        print(f'  case={f["case"]} key={f["key"]}: {f["what"]}')
        for k, v in list(f['info'].items())[:8]:
            print(f'    {k}: {str(v)[:600]}')
    samples = [s for r in results for s in r['samples']][:12]
    tot = lambda k: sum(r[k] for r in results)
    cov = dict(states=tot('states'), transitions=tot('transitions'), traces_validated_against_impl=tot('traces'),
               comparisons=tot('nexpect'), distinct_outcomes=tot('outcomes'), cases=len(results),
               exhaustive=True, bounds=getattr(src, 'BOUNDS', {}).get(tier, getattr(src, 'BOUNDS', {}).get('quick', '')),
               per_case={r['case']: dict(states=r['states'], transitions=r['transitions'], traces=r['traces'],
                                         comparisons=r['nexpect'], wall=round(r.get('wall', 0), 2)) for r in results},
               samples=samples or ['none'])
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(src, 'LEVEL', 'model_checking'), coverage=cov,
              assumptions=getattr(src, 'ASSUMPTIONS', []), wall_s=round(time.time() - t0, 2), violations=len(viol))
    if only is None:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    print(f'{prop} tier={tier} cases={len(results)} states={cov["states"]} transitions={cov["transitions"]} '
          f'traces={cov["traces_validated_against_impl"]} comparisons={cov["comparisons"]} '
          f'outcomes={cov["distinct_outcomes"]} violations={len(viol)} known={len(seen_known)} wall={ev["wall_s"]}s')
    if '-v' in sys.argv:
        for r in results:
            print('   ', r['case'], {k: r[k] for k in ('states', 'transitions', 'traces', 'nexpect', 'outcomes')}, round(r.get('wall', 0), 1))
    sys.exit(1 if viol else 0)
