"""C11: ABC samplers - distances, thresholds, weights, mutation and termination on every path."""
PROPERTY = 'C11'
JOBS = 8
BOUNDS = dict(
    quick='importance, MCMC and SMC ABC samplers; 1-4 rows / 2-3 particles on a 5-point lattice with two simulated data sets per value, every draw of 1-2 iterations; schedules of 2-4 thresholds and adaptive ones (retain .3-.9), '
          'resampling thresholds 0, .5, .7, 1.1, 1-2 mcmc steps, given and drawn initial ensembles, reassigned schedules; whole runs with fixed draws on lattice, g-and-k and linear Gaussian scenarios',
    thorough='4 particles, more runs and all retain / resample combinations')
ASSUMPTIONS = ['an ensemble without a particle alive is not constrained', 'schedules that end early repeat their last threshold']
NAMES = ['vanilla', 'vanilla-rate', 'importance', 'rw', 'rw-startup', 'smc-sched', 'smc-sched3', 'smc-adapt', 'smc-adapt3', 'smc-steps', 'smc-two', 'smc-default', 'smc-given', 'smc-set', 'smc-rm', 'run', 'run-gk', 'run-mcmc']


def case_names(tier):
    return list(NAMES)


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, cdict, bits, LN2, lattice_pot, R, PM1, same_law, Law
    from jax import random
    import itertools
    from mocat import run, Metropolis
    from mocat.abc import ABCScenario, VanillaABC, ImportanceABC, RandomWalkABC, MetropolisedABCSMCSampler, ABCSMCSampler, RMMetropolisDiagStepsize
    from mocat.abc import scenarios
    jax.config.update('jax_disable_most_optimizations', True)
    th = tier == 'thorough'
    HASH = ('normal', 'categorical', 'poisson', 'uniform')
    U2 = [(.25, .5), (.75, .5)]
    PRI = np.array([1., 0., -1., 0., 1.]) * LN2
    TARGET = 2.
    E = .25

    class Lat(ABCScenario):
        """values 0..4, simulated data x +- 1/4, distances 1/4, 3/4, 5/4, 7/4, 9/4"""
        name = 'lat'
        dim = 1
        data = jnp.array([TARGET])
        prior_potential_fn = staticmethod(lattice_pot(PRI, np.array([0])))

        def prior_potential(self, x, random_key=None):
            return self.prior_potential_fn(x)

        def prior_sample(self, random_key):
            return random.categorical(random_key, jnp.array(-PRI), shape=(1,)).astype(jnp.float32)

        def likelihood_sample(self, x, random_key):
            return x + E * random.normal(random_key, (1, 1))[0]

    class Scaled(Lat):
        """a distance of its own"""
        def distance_function(self, simulated_data):
            return 2. * jnp.abs(simulated_data[0] - TARGET) + .125

    dist0 = lambda s: abs(s - TARGET)
    dist1 = lambda s: 2 * abs(s - TARGET) + .125
    pri = lambda x: PRI[int(round(x))] if 0 <= round(x) <= 4 else np.inf
    C.alpha = dict(normal=PM1, uniform=U2)

    # ---- importance ABC
    def rows_law(c, tag, make, scn, prop, weight, n, dist, one=False):
        """n independent rows: value from the proposal, its own data, distance and weight"""
        def fn(_, key):
            s = make()
            st, ex = s.startup(scn, n, None, cdict(random_key=key))
            rows = [(st.value, st.simulated_data, st.distance, st.log_weight, st.prior_potential, s.termination_criterion(st, ex))]
            for _ in range(n - 1):
                ex.iter = ex.iter + 1
                st, ex = s.update(scn, st, ex)
                rows.append((st.value, st.simulated_data, st.distance, st.log_weight, st.prior_potential, s.termination_criterion(st, ex)))
            return rows
        lv = explore(fn, [0.], batch=256)
        c.explored(lv)
        got = {}
        for l in lv:
            k = tuple(R([x[0][0], x[1][0], x[2], np.maximum(x[3], -1e6), x[4]]) for x in l.out)
            got[k] = got.get(k, 0) + l.p
            c.state(tag, k)
        one = {}
        for x, p in prop.items():
            for e in (-E, E):
                d = dist(x + e)
                k = R([float(x), x + e, d, max(weight(x, d), -1e6), pri(x)])
                one[k] = one.get(k, 0) + .5 * p
        want = {}
        for ks in itertools.product(one.items(), repeat=n):
            k = tuple(a for a, _ in ks)
            want[k] = want.get(k, 0) + np.prod([p for _, p in ks])
        same_law(c, got, want, f'{tag}:law', 'rows are independent draws with their own data, distance and weight', n=n)

    pp = np.exp(-PRI) / np.exp(-PRI).sum()
    PP = {float(i): pp[i] for i in range(5)}

    def vanilla(c):
        for scn, dist in ((Lat(), dist0), (Scaled(), dist1)):
            for thr in (.75, .76, 1.5, np.inf):
                for n in (1, 2):
                    rows_law(c, 'vanilla', lambda: VanillaABC(threshold=thr), scn, PP, lambda x, d: 0. if d < thr else -np.inf, n, dist)

    def vanilla_rate(c):
        C.hashed = HASH
        for rate in (.1, .35, .5, .9):
            for n in (3, 8, 20):
                for k in range(4 if th else 2):
                    s = VanillaABC(acceptance_rate=rate)
                    o = run(Lat(), s, n, jnp.array([0xFFFFFFF, 50 + k], jnp.uint32))
                    d = np.asarray(o.distance, float)
                    q = np.quantile(d, rate)
                    thr = float(s.parameters.threshold)
                    c.close(thr, q, 'rate:threshold', 'the threshold is the quantile of the distances', n=n, rate=rate)
                    c.close(np.asarray(o.log_weight), np.where(d < thr, 0., -np.inf), 'rate:weights', 'weights follow the threshold', n=n, rate=rate)
                    c.close(d, np.abs(np.asarray(o.simulated_data)[:, 0] - TARGET), 'rate:distance', 'distances are those of the simulated data')
                    c.expect(len(d) == n, 'rate:rows', 'n rows')
                    c.state('rate', rate, n, k)
                    c.trans(n)
                    c.trace(1)
        C.hashed = ()

    def importance(c):
        q = np.array([.125, .25, .5, .125, 0.])

        class Imp(ImportanceABC):
            name = 'imp'

            def importance_proposal(self, scn, key):
                return random.categorical(key, jnp.log(jnp.array(q)), shape=(1,)).astype(jnp.float32)

            def importance_potential(self, scn, x):
                return -jnp.log(jnp.array(q))[jnp.round(x[0]).astype(int)]

        class Flat(Imp):
            """weights of its own"""
            def log_weight(self, scn, state, extra):
                return -state.distance / extra.parameters.threshold
        Q = {float(i): q[i] for i in range(5) if q[i]}
        for scn, dist in ((Lat(), dist0), (Scaled(), dist1)):
            for thr in (.75, 1.5, np.inf):
                for n in (1, 2):
                    rows_law(c, 'importance', lambda: Imp(threshold=thr), scn, Q, lambda x, d: -pri(x) - np.log(q[int(x)]) if d < thr else -np.inf, n, dist)
                    if thr < 9:
                        rows_law(c, 'importance-own', lambda: Flat(threshold=thr), scn, Q, lambda x, d: -d / thr, n, dist)

    # ---- ABC-MCMC: the kernel and its fields
    def step_law(x, s, thr, dist, moves=1):
        """law of (value, data, mean acceptance probability) after `moves` steps from (x, s)"""
        cur = {(x, s, 0.): 1.}
        for _ in range(moves):
            nxt = {}
            for (v, d, a0), p in cur.items():
                for y in (v - 1, v + 1):
                    for e in (-E, E):
                        with np.errstate(all='ignore'):
                            al = min(1., np.exp(-pri(y) + pri(v))) * (dist(y + e) < thr)
                        al = 0. if np.isnan(al) else al
                        for k, q in (((y, y + e, a0 + al), .25 * al), ((v, d, a0 + al), .25 * (1 - al))):
                            if q:
                                nxt[k] = nxt.get(k, 0) + p * q
            cur = nxt
        return {(v, d, a / moves): p for (v, d, a), p in cur.items()}

    def rw(c):
        for scn, dist in ((Lat(), dist0), (Scaled(), dist1)):
            for thr in (.75, .8, 1.25, 2., np.inf):
                smp = RandomWalkABC(threshold=thr, stepsize=1.)

                def fn(start, key):
                    x, s = start
                    st, ex = smp.startup(scn, 10, cdict(value=x, simulated_data=s), cdict(random_key=key))
                    out = [(st.value, st.simulated_data, st.distance, st.prior_potential, st.alpha)]
                    for _ in range(2):
                        st, ex = smp.update(scn, st, ex)
                        out.append((st.value, st.simulated_data, st.distance, st.prior_potential, st.alpha))
                    return out
                starts = [(float(i), i + e) for i in range(5) for e in (-E, E)]
                lv = explore(fn, [(jnp.array([a]), jnp.array([b])) for a, b in starts], batch=1024)
                c.explored(lv)
                got = [{} for _ in starts]
                for l in lv:
                    for v, s, d, p, a in l.out:
                        c.close(d, dist(float(s[0])), 'rw:distance', 'the distance is that of the simulated data recorded', thr=thr)
                        c.close(p, pri(float(v[0])), 'rw:prior', 'the prior potential is that of the value recorded', thr=thr)
                        c.expect(abs(abs(float(v[0]) - float(s[0])) - E) < 1e-4, 'rw:data', 'the data were simulated from the value recorded', value=v.tolist(), data=s.tolist())
                    k = tuple((R(o[0][0]), R(o[1][0]), R(o[4])) for o in l.out[1:])
                    got[l.start][k] = got[l.start].get(k, 0) + l.p
                    c.state('rw', thr, l.start, k)
                for (x, s), g in zip(starts, got):
                    want = {}
                    for (v1, s1, a1), p1 in step_law(x, s, thr, dist).items():
                        for (v2, s2, a2), p2 in step_law(v1, s1, thr, dist).items():
                            k = ((R(v1), R(s1), R(a1)), (R(v2), R(s2), R(a2)))
                            want[k] = want.get(k, 0) + p1 * p2
                    same_law(c, g, want, 'rw:law', 'ABC-MCMC accepts within the threshold with the prior ratio', start=(x, s), thr=thr)

    def rw_startup(c):
        """initial states that are given in part"""
        scn = Lat()
        smp = RandomWalkABC(threshold=1., stepsize=1.)
        for fields in ((), ('simulated_data',), ('simulated_data', 'distance'), ('prior_potential',)):
            def fn(x, key):
                given = dict(simulated_data=x + E, distance=jnp.abs(x[0] + E - TARGET), prior_potential=scn.prior_potential(x))
                st, ex = smp.startup(scn, 10, cdict(value=x, **{f: given[f] for f in fields}), cdict(random_key=key))
                return st.value, st.simulated_data, st.distance, st.prior_potential
            lv = explore(fn, [jnp.array([float(i)]) for i in range(5)])
            c.explored(lv)
            seen = {}
            for l in lv:
                v, s, d, p = l.out
                x = float(l.start)
                c.close(v, [x], 'start:value', 'the initial value is the one given')
                c.close(d, dist0(float(s[0])), 'start:distance', 'the initial distance is that of the initial data', fields=fields)
                c.close(p, pri(x), 'start:prior', 'the initial prior potential is that of the initial value', fields=fields)
                seen.setdefault(x, {})
                seen[x][R(s[0])] = seen[x].get(R(s[0]), 0) + l.p
                c.state('start', fields, R(v), R(s))
            for x, g in seen.items():
                same_law(c, g, {R(x + E): 1.} if fields[:1] == ('simulated_data',) else {R(x + E): .5, R(x - E): .5}, 'start:data', 'initial data are the ones given, or simulated from the initial value', fields=fields)

    # ---- ABC-SMC
    def check_rows(c, tag, rows, dist, n, thr_res, sched=None, retain=None, term=.01, max_iter=10000, default=False, steps=1, **info):
        """relations between consecutive ensembles"""
        for i, r in enumerate(rows):
            kw = dict(row=i, **info)
            v, s, d, lw = (np.asarray(r[f], float) for f in ('value', 'simulated_data', 'distance', 'log_weight'))
            t = np.atleast_1d(np.asarray(r['threshold'], float))
            c.expect(np.all(t == t[0]), f'{tag}:common', 'all particles share the threshold', **kw)
            t = t[0]
            c.close(d, np.array([dist(x) for x in s]), f'{tag}:distance', 'every distance is that of the simulated data of the particle', rtol=1e-3, atol=1e-3, **kw)
            c.expect(np.array_equal(lw, np.where(d > t, -np.inf, 0.)), f'{tag}:killed', 'exactly the particles beyond the threshold are killed', distances=d.tolist(), threshold=float(t), weights=lw.tolist(), **kw)
            alive = int((d <= t).sum())
            if alive == 0:
                return
            c.close(np.broadcast_to(np.asarray(r['ess'], float), n), np.full(n, alive), f'{tag}:ess', 'the effective sample size is the number of particles alive', rtol=1e-4, **kw)
            if sched is not None:
                c.close(t, sched[min(i, len(sched) - 1)], f'{tag}:schedule', 'the threshold follows the schedule', rtol=1e-6, **kw)
            prev = rows[i - 1] if i else None
            if i == 0:
                e, t0 = float(n), np.inf
                res = False
            else:
                pl = np.asarray(prev['log_weight'], float)
                e, t0 = float(np.sum(pl == 0)), float(np.atleast_1d(np.asarray(prev['threshold'], float))[0])
                res = e < thr_res * n - 1e-6
                if res:
                    e = float(n)
                if sched is None:
                    c.expect(t <= t0 + 1e-6, f'{tag}:monotone', 'thresholds never increase', threshold=float(t), previous=t0, **kw)
                pv, ps, pd = (np.asarray(prev[f], float) for f in ('value', 'simulated_data', 'distance'))
                for j in range(n):
                    kept = lambda k: np.allclose(v[j], pv[k], rtol=1e-6) and np.allclose(s[j], ps[k], rtol=1e-6)
                    ok = any(kept(k) for k in range(n) if pl[k] == 0) if res else kept(j)
                    if not res and pl[j] < 0:
                        c.expect(ok, f'{tag}:dead', 'dead particles neither move nor revive', particle=j, value=v[j].tolist(), previous=pv[j].tolist(), **kw)
                    elif not ok:
                        c.expect(d[j] < t0, f'{tag}:within', 'moves are accepted within the threshold in force', particle=j, distance=float(d[j]), threshold=t0, **kw)
            if retain is not None:
                q = min(np.quantile(d, retain * e / n), t0)
                c.close(t, q, f'{tag}:quantile', 'the threshold is the quantile that retains the wanted particles, and never increases', rtol=1e-4, **kw)
            before = np.ones(n, bool) if i == 0 or res else np.asarray(prev['log_weight'], float) == 0
            am = float(np.asarray(r['alpha'], float)[before].mean())
            if 'alpha_mean' in r:
                c.close(r['alpha_mean'], am, f'{tag}:alpha', 'the acceptance rate is over the particles that moved', rtol=1e-4, **kw)
            if 'done' in r and abs(am - term) > 1e-5:
                c.expect(bool(r['done']) == (am <= term or i >= max_iter), f'{tag}:end', 'the run ends exactly at the iteration limit or a low acceptance rate', alpha=am, done=bool(r['done']), **kw)
            if default and 'stepsize' in r:
                c.close(r['stepsize'], np.var(v, axis=0, ddof=1) / v.shape[1] * 2.38 ** 2, f'{tag}:stepsize', 'the default proposal follows the variances of the ensemble', rtol=1e-3, atol=1e-5, **kw)

    FIELDS = ('value', 'simulated_data', 'distance', 'threshold', 'log_weight', 'ess', 'alpha', 'prior_potential')

    def stepper(scn, make, n, k, given=True, **init):
        smp = make()

        def fn(start, key):
            st = None
            if given:
                st = cdict(value=start[0], simulated_data=start[1])
            st, ex = smp.startup(scn, n, st, cdict(random_key=key))
            rows = []

            def rec():
                r = {f: getattr(st, f) * 1. for f in FIELDS}
                r['done'] = smp.termination_criterion(st, ex)
                r['alpha_mean'] = ex.alpha_mean
                r['stepsize'] = ex.parameters.stepsize * jnp.ones(scn.dim)
                r['used'] = ex.parameters.threshold * 1.
                return r
            rows.append(rec())
            for _ in range(k):
                st, ex = smp.update(scn, st, ex)
                rows.append(rec())
            return rows
        return fn

    def paths(c, tag, scn, dist, make, n, k, starts, thr_res, sched=None, retain=None, steps=1, given=True, one=False, law=True, batch=1024, **kw):
        sx = [(jnp.array([[x] for x, _ in s], jnp.float32), jnp.array([[y] for _, y in s], jnp.float32)) for s in starts] if given else [0.]
        f = stepper(scn, make, n, k, given)
        one = one or thr_res == 0. and not C.hashed
        lv = explore(jax.jit(f) if one else f, sx, one=one, jit=not one, batch=batch, max_leaves=900000)
        c.explored(lv)
        groups = {}
        for l in lv:
            sig = (l.start, R([[r[f] for f in ('value', 'simulated_data', 'alpha')] for r in l.out], 3))
            if sig in groups:
                groups[sig][0] += l.p
            else:
                groups[sig] = [l.p, l.out]
        for sig, (p, rows) in groups.items():
            c.state(tag, *sig)
            check_rows(c, tag, rows, lambda s: dist(float(s[0])), n, thr_res, sched=sched, retain=retain, steps=steps, start=sig[0], **kw)
            for r in rows:
                c.close(r['prior_potential'], np.array([pri(float(x[0])) for x in r['value']]), f'{tag}:prior', 'every prior potential is that of the particle')
                c.close(r['used'], np.atleast_1d(r['threshold'])[0], f'{tag}:used', 'the kernel uses the threshold recorded')
        if not law:
            return
        # law of the first iteration, given the first row
        got = {}
        for sig, (p, rows) in groups.items():
            first, second = rows[0], rows[1]
            lw = np.asarray(first['log_weight'], float)
            if not np.any(lw == 0):
                continue
            key0 = (sig[0], R([first['value'], first['simulated_data']]))
            res = np.sum(lw == 0) < thr_res * n - 1e-6
            live = np.ones(n, bool) if res else lw == 0
            obs = tuple((R(second['value'][j][0]), R(second['simulated_data'][j][0]), R(second['alpha'][j]) if live[j] else None) for j in range(n))
            g = got.setdefault(key0, [first, res, {}])[2]
            g[obs] = g.get(obs, 0) + p
        for key0, (first, res, g) in got.items():
            tot = sum(g.values())
            g = {k_: p / tot for k_, p in g.items()}
            lw = np.asarray(first['log_weight'], float)
            alive = [j for j in range(n) if lw[j] == 0]
            t = float(np.atleast_1d(first['threshold'])[0])
            pv, ps = first['value'][:, 0].astype(float), first['simulated_data'][:, 0].astype(float)
            law1 = {j: {(R(a), R(b), R(al)): p for (a, b, al), p in step_law(pv[j], ps[j], t, dist, steps).items()} for j in alive}
            if res:
                mix = {}
                for j in alive:
                    for o, p in law1[j].items():
                        mix[o] = mix.get(o, 0) + p / len(alive)
                per = [mix] * n
            else:
                per = [law1[j] if j in alive else {(R(pv[j]), R(ps[j]), None): 1.} for j in range(n)]
            want = {}
            for os in itertools.product(*[x.items() for x in per]):
                kk = tuple(a for a, _ in os)
                want[kk] = want.get(kk, 0) + np.prod([p for _, p in os])
            same_law(c, g, want, f'{tag}:law', 'one iteration: resampling when too few are alive, then ABC-MCMC moves of the particles alive at the current threshold', ensemble=str(key0)[:200])

    def mk(thr_res=.5, sched=None, retain=.9, steps=1, term=.01, kernel=True, **kw):
        return lambda: MetropolisedABCSMCSampler(RandomWalkABC(stepsize=1.) if kernel else None, mcmc_steps=steps, threshold_schedule=None if sched is None else jnp.array(sched), ess_threshold_retain=retain,
                                                 ess_threshold_resample=thr_res, termination_alpha=term, **kw)

    def ens(*v):
        """values with the sign of the noise"""
        return [(float(x), x + E * s) for x, s in v]
    ENS2 = [ens((1, 1), (3, -1)), ens((0, 1), (2, 1)), ens((4, 1), (1, -1)), ens((2, -1), (2, 1)), ens((0, -1), (3, 1))]
    ENS3 = [ens((1, 1), (3, -1), (0, 1)), ens((0, -1), (2, 1), (4, 1)), ens((2, 1), (2, -1), (1, -1))]
    S = Lat()

    def smc_sched(c):
        for thr in (0., .7, 1.1):
            for sched in ((1.5, .8), (3., 1.25, .5)):
                paths(c, f'sched-{thr}-{len(sched)}', S, dist0, mk(thr, sched), 2, 1, ENS2, thr, sched=sched, max_iter=len(sched))
        paths(c, 'sched-scaled', Scaled(), dist1, mk(.7, (3., 1.7)), 2, 1, ENS2[:3], .7, sched=(3., 1.7), max_iter=2)

    def smc_sched3(c):
        for thr in (0., .7):
            paths(c, f'sched3-{thr}', S, dist0, mk(thr, (1.5, .8)), 3, 1, ENS3 if th else ENS3[:1 if thr else 2], thr, sched=(1.5, .8), max_iter=2, batch=4096)

    def smc_adapt(c):
        for thr in (0., .6, 1.1):
            for ret in (.3, .55, .9):
                paths(c, f'adapt-{thr}-{ret}', S, dist0, mk(thr, None, ret), 2, 1, ENS2, thr, retain=ret)

    def smc_adapt3(c):
        for thr, ret in ((0., .55), (.5, .3), (.7, .9)) if th else ((0., .55), (.5, .3)):
            paths(c, f'adapt3-{thr}-{ret}', S, dist0, mk(thr, None, ret), 3, 1, ENS3[:(3 if thr == 0 or th else 1)], thr, retain=ret, batch=4096)

    def smc_steps(c):
        for thr in (0., 1.1):
            paths(c, f'steps-{thr}', S, dist0, mk(thr, (1.5, .8), steps=2), 2, 1, ENS2[:2 if thr or not th else 3], thr, sched=(1.5, .8), steps=2, max_iter=2, batch=4096)
        paths(c, 'steps-adapt', S, dist0, mk(0., None, .55, steps=2), 2, 1, ENS2[:1], 0., retain=.55, steps=2, batch=4096)

    def smc_two(c):
        """two iterations, termination at a high acceptance rate"""
        for sched, ret, term in (((1.8, 1.3, .8), None, .01), (None, .55, .3)):
            paths(c, f'two-{term}', S, dist0, mk(0., sched, ret or .9, term=term), 2, 2, ENS2[:2 + th], 0., sched=sched, retain=ret, term=term, max_iter=10000 if sched is None else 3, batch=4096)
        C.hashed = ('uniform',)
        for sched, ret, term in (((1.8, 1.3, .8), None, .6), (None, .55, .01)):
            paths(c, f'two-res-{term}', S, dist0, mk(.7, sched, ret or .9, term=term), 2, 2, ENS2, .7, sched=sched, retain=ret, term=term, max_iter=10000 if sched is None else 3, law=False, batch=4096)
        C.hashed = ()

    class Free(ABCScenario):
        """two-dimensional, continuous"""
        name = 'free'
        dim = 2
        data = jnp.array([.5, -.2, .1])

        def prior_potential(self, x, random_key=None):
            return .5 * jnp.sum(x ** 2)

        def prior_sample(self, random_key):
            return random.normal(random_key, (2,))

        def likelihood_sample(self, x, random_key):
            return jnp.array([x[0], x[0] + x[1], x[1] ** 2]) + .3 * random.normal(random_key, (3,))

    def smc_default(c):
        """the default kernel adapts to the spread of the ensemble, and really proposes with it"""
        C.alpha = dict(normal=[(-1.3, .5), (.7, .5)], uniform=[(.05, .5), (.9, .5)])
        C.hashed = ('uniform',)
        for scn, dim in ((Free(), 2),):
            for ret, thr in ((.55, 0.), (.7, .9)):
                C.hashed = HASH
                f = stepper(scn, mk(thr, None, ret, kernel=False), 4, 4, True)
                sx = []
                for k in range(12 if th else 5):
                    g = np.random.RandomState(k)
                    v = g.randn(4, 2)
                    s = np.stack([v[:, 0], v[:, 0] + v[:, 1], v[:, 1] ** 2], 1) + .2
                    sx.append((jnp.array(v, jnp.float32), jnp.array(s, jnp.float32)))
                lv = explore(f, sx, batch=32)
                c.explored(lv)
                dist = lambda s: np.sqrt(np.square(s - np.array([.5, -.2, .1])).sum())
                for l in lv:
                    check_rows(c, f'default-{ret}', l.out, dist, 4, thr, retain=ret, default=True, start=l.start)
                    c.state('default', ret, l.start, R(l.out[-1]['value'], 3))
                    for a, b in zip(l.out, l.out[1:]):
                        if thr:
                            continue
                        step = np.sqrt(np.asarray(a['stepsize'], float))
                        m = np.abs(np.asarray(b['value'], float) - np.asarray(a['value'], float))
                        c.expect(all(np.allclose(x, 0) or all(np.any(np.abs(x[i] - step[i] * np.array([1.3, .7])) < 1e-3 + 1e-3 * x[i]) for i in range(2)) for x in m), 'default:used', 'moves use the stepsize of the previous adaptation',
                                 moves=m.tolist(), stepsize=step.tolist())
                C.hashed = ()
        # drawn from the prior: rows of the first ensemble carry their own data
        C.alpha = dict(normal=PM1, uniform=U2)
        paths(c, 'drawn', S, dist0, mk(0., (1.5, .8)), 1, 0, [], 0., sched=(1.5, .8), given=False, max_iter=2, law=False)
        paths(c, 'drawn-2', S, dist0, mk(0., None, .55), 2, 0, [], 0., retain=.55, given=False, law=False)

    def smc_given(c):
        """resuming from an earlier ensemble: thresholds carry on"""
        scn = S
        C.hashed = HASH
        for ret, thr in ((.55, .6), (.9, 0.)):
            for k in range(6 if th else 3):
                s = mk(thr, None, ret)()
                key = jnp.array([0xFFFFFFF, 300 + k], jnp.uint32)
                a = run(scn, s, 4, key, max_iter=2)
                last = a[-1]
                keep = cdict(value=last.value, simulated_data=last.simulated_data, distance=last.distance, threshold=jnp.ones(4) * a.threshold[-1])
                for fields in (('value',), ('value', 'simulated_data'), ('value', 'simulated_data', 'distance'), ('value', 'simulated_data', 'distance', 'threshold')):
                    st = cdict(**{f: getattr(keep, f) for f in fields})
                    o = run(scn, mk(thr, None, ret)(), 4, jnp.array([0xFFFFFFF, 900 + k], jnp.uint32), initial_state=st, max_iter=3)
                    rows = [{f: np.asarray(getattr(o, f))[i] for f in FIELDS} for i in range(len(o.threshold))]
                    c.expect(np.array_equal(rows[0]['value'], np.asarray(last.value)), 'given:value', 'the first ensemble is the one given')
                    if 'simulated_data' in fields:
                        c.expect(np.array_equal(rows[0]['simulated_data'], np.asarray(last.simulated_data)), 'given:data', 'simulated data given are kept')
                    if 'threshold' in fields:
                        c.expect(float(o.threshold[0]) <= float(a.threshold[-1]) + 1e-6, 'given:threshold', 'the threshold carries on from the one given', got=float(o.threshold[0]), previous=float(a.threshold[-1]))
                    check_rows(c, f'given-{len(fields)}', rows, lambda s: dist0(float(s[0])), 4, thr, retain=ret if 'threshold' not in fields else None, run=k)
                    c.state('given', ret, k, fields, R(o.value[-1]))
                    c.trans(len(rows))
                    c.trace(1)
        C.hashed = ()

    def smc_set(c):
        """reassigned schedules"""
        def seq(*vals):
            def make():
                s = mk(0., None, .55)()
                for v in vals:
                    s.threshold_schedule = None if v is None else jnp.array(v)
                return s
            return make
        C.hashed = HASH
        for i, (vals, sched) in enumerate([(((1.5, .8),), (1.5, .8)), (((3., 2., 1.), None, (1.5, .8)), (1.5, .8)), (((1.5, .8), (3., 2., .8)), (3., 2., .8)), ((None, None, (2., 1.)), (2., 1.))]):
            paths(c, f'set-{i}', S, dist0, seq(*vals), 2, len(sched) - 1, ENS2, 0., sched=sched, max_iter=len(sched), law=False)
        for i, vals in enumerate([((1.5, .8), None), (None,), ((1.5, .8), None, (3., 2., .8), None), ((1.5, .8), None, None)]):
            paths(c, f'unset-{i}', S, dist0, seq(*vals), 2, 2, ENS2, 0., retain=.55, law=False)
            c.expect(seq(*vals)().max_iter >= 1000, f'unset:{i}:max_iter', 'without a schedule the number of iterations is not limited by an earlier schedule')
        C.hashed = ()

    def smc_rm(c):
        """other acceptance corrections and classes instead of instances"""
        C.hashed = HASH
        for i, make in enumerate([lambda: MetropolisedABCSMCSampler(RandomWalkABC(stepsize=1.), mcmc_correction=Metropolis, threshold_schedule=jnp.array([1.5, .8, .5]), ess_threshold_resample=.6),
                                  lambda: MetropolisedABCSMCSampler(RandomWalkABC(stepsize=1.), mcmc_correction=Metropolis(), threshold_schedule=jnp.array([1.5, .8, .5]), ess_threshold_resample=.6)]):
            paths(c, f'class-{i}', S, dist0, make, 2, 2, ENS2, .6, sched=(1.5, .8, .5), max_iter=3, law=False)
        C.hashed = ()

    # ---- whole runs
    def runs(c):
        C.hashed = HASH
        C.alpha = dict(normal=PM1, uniform=bits(16))
        for i, (sched, ret, thr, n, steps, term, mi) in enumerate([((2.2, 1.5, .8), None, .5, 5, 1, .01, None), (None, .55, .5, 6, 1, .01, 8), (None, .9, .95, 5, 2, .23, 9), (None, .3, 0., 6, 1, .0, 6), ((2., 1.), None, 1.1, 4, 1, .5, None)]):
            for k in range(10 if th else 4):
                s = mk(thr, sched, ret or .9, steps, term)()
                kw = {} if mi is None else dict(max_iter=mi)
                o = run(S, s, n, jnp.array([0xFFFFFFF, 500 + 13 * k + i], jnp.uint32), **kw)
                m = len(o.threshold)
                rows = [{f: np.asarray(getattr(o, f))[j] for f in FIELDS} for j in range(m)]
                lim = mi if sched is None else len(sched)
                check_rows(c, f'run-{i}', rows, lambda s_: dist0(float(s_[0])), n, thr, sched=sched, retain=ret, run=k)
                ams = []
                for j, r in enumerate(rows):
                    lw = np.asarray(rows[j - 1]['log_weight']) if j else np.zeros(n)
                    before = np.ones(n, bool) if j == 0 or np.sum(lw == 0) < thr * n - 1e-6 else lw == 0
                    ams.append(float(r['alpha'][before].mean()) if before.any() else np.nan)
                stop = next((j for j, a in enumerate(ams) if a <= term or j >= lim), None)
                c.expect(stop == m - 1, f'run:{i}:end', 'the run ends exactly at the iteration limit or a low acceptance rate', rows=m, rates=ams, limit=lim, run=k)
                c.trans(m)
                c.trace(1)
                c.state('run', i, k, m)
        C.hashed = ()

    def run_gk(c):
        C.hashed = HASH
        C.alpha = dict(normal=[(-1.4 + .31 * i, 1 / 10) for i in range(10)], uniform=bits(64))

        class GK(scenarios.GKUniformPrior):
            n_unsummarised_data = 12

            def summarise_data(self, data):
                return jnp.quantile(data, jnp.linspace(.1, .9, 4))
        gk = GK()
        gk.data = jnp.array([2., 3., 3.6, 6.])
        lg = scenarios.LinearGaussian(prior_mean=jnp.array([0., 1.]), prior_covariance=jnp.array([[1., .3], [.3, .8]]), data=jnp.array([.2, .4, 1.]), likelihood_matrix=jnp.array([[1., 0.], [.5, 1.], [0., 2.]]), likelihood_covariance=jnp.eye(3) * .2)
        for nm, scn in (('gk', gk), ('lg', lg)):
            data = np.asarray(scn.data, float)
            dist = lambda s: np.sqrt(np.square(s - data).sum())
            for k in range(6 if th else 2):
                for smp, ret, thr, default in ((MetropolisedABCSMCSampler(ess_threshold_retain=.73, ess_threshold_resample=.5, max_iter=4), .73, .5, True),
                                               (MetropolisedABCSMCSampler(RandomWalkABC(stepsize=.1), ess_threshold_retain=.55, ess_threshold_resample=.8, max_iter=4), .55, .8, False)):
                    o = run(scn, smp, 8, jnp.array([0xFFFFFFF, 700 + k], jnp.uint32))
                    rows = [{f: np.asarray(getattr(o, f))[j] for f in FIELDS} for j in range(len(o.threshold))]
                    check_rows(c, f'run-{nm}', rows, dist, 8, thr, retain=ret, run=k)
                    c.state('run', nm, k, default, R(o.value[-1]))
                    c.trans(len(rows))
                    c.trace(1)
                v = run(scn, VanillaABC(threshold=6.), 10, jnp.array([0xFFFFFFF, 800 + k], jnp.uint32))
                d = np.array([dist(s) for s in np.asarray(v.simulated_data, float)])
                c.close(v.distance, d, 'run:vanilla', 'distances are those of the simulated data', scenario=nm, rtol=1e-3, atol=1e-3)
                c.close(v.log_weight, np.where(np.asarray(v.distance) < 6., 0., -np.inf), 'run:vanilla:weights', 'weights follow the threshold', scenario=nm)
        C.hashed = ()

    def run_mcmc(c):
        C.hashed = HASH
        C.alpha = dict(normal=PM1, uniform=bits(16))
        for thr in (.8, 1.3, np.inf):
            for k in range(8 if th else 3):
                for diag in (False, True):
                    s = RandomWalkABC(threshold=thr if not diag else 1.3, stepsize=1.)
                    if diag:
                        s.correction = RMMetropolisDiagStepsize()
                    o = run(S if not diag else Free(), s, 12, jnp.array([0xFFFFFFF, 600 + k], jnp.uint32), initial_state=cdict(value=jnp.array([2.]) if not diag else jnp.array([.4, -.3])))
                    v, sd, d = (np.asarray(getattr(o, f), float) for f in ('value', 'simulated_data', 'distance'))
                    data = np.asarray((S if not diag else Free()).data)
                    c.close(d, np.sqrt(np.square(sd - data).sum(-1)), 'run:mcmc:distance', 'distances are those of the simulated data', rtol=1e-3)
                    t = np.asarray(o.threshold, float) if diag else np.full(12, thr)
                    for i in range(1, 12):
                        if not (np.array_equal(v[i], v[i - 1]) and np.array_equal(sd[i], sd[i - 1])):
                            c.expect(d[i] < t[i - 1] + 1e-5, 'run:mcmc:within', 'only proposals within the threshold are accepted', row=i, distance=d[i], threshold=t[i - 1], diag=diag)
                    c.state('mcmc', thr, k, diag, R(v[-1]))
                    c.trans(12)
                    c.trace(1)
        C.hashed = ()
    fns = dict(vanilla=vanilla, importance=importance, rw=rw, run=runs)
    fns.update({'vanilla-rate': vanilla_rate, 'rw-startup': rw_startup, 'smc-sched': smc_sched, 'smc-sched3': smc_sched3, 'smc-adapt': smc_adapt, 'smc-adapt3': smc_adapt3, 'smc-steps': smc_steps, 'smc-two': smc_two,
                'smc-default': smc_default, 'smc-given': smc_given, 'smc-set': smc_set, 'smc-rm': smc_rm, 'run-gk': run_gk, 'run-mcmc': run_mcmc})
    return [(k, fns[k]) for k in NAMES]
