"""C09: tempered SMC - temperatures, weights, evidence, resampling times and mutation targets on every path, and the
law-level identity that makes the weights proper."""
PROPERTY = 'C09'
JOBS = 8
BOUNDS = dict(
    quick='2 and 3 particles on targets of 2-3 points and on a Gaussian target; every initial ensemble; every proposal, acceptance and resampling outcome of 1-3 iterations; schedules of 2-4 temperatures (with and without '
          'leading 0, maximum temperatures .7, 1, 2), resampling thresholds 0, .5, .8, 1, 1-2 mcmc steps, random walk and underdamped kernels; adaptive temperatures with retain .5, .9, .99',
    thorough='longer schedules, 3 particles for every threshold, all two-iteration paths')
ASSUMPTIONS = ['finite likelihoods for adaptive temperatures (with infinite ones no positive temperature keeps the effective sample size)', 'default bisection tolerance']

NAMES = ['law', 'lattice-0.0', 'lattice-0.5', 'lattice-0.8', 'lattice-1.0', 'lattice3', 'steps2', 'law-two', 'law-run', 'adaptive', 'adaptive3', 'adaptive-jump', 'rm', 'under', 'set', 'run', 'run-ad', 'infinite', 'base']


def case_names(tier):
    return list(NAMES)


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, cdict, bits, Scenario, LN2, lattice_pot, Table, tape, R, PM1
    from jax import random
    from scipy.special import logsumexp as lse
    import itertools
    from mocat import RandomWalk, Underdamped, Metropolis, MetropolisedSMCSampler, RMMetropolisedSMCSampler, TemperedSMCSampler, run
    from mocat.src.transport.smc import SMCSampler
    jax.config.update('jax_disable_most_optimizations', True)
    th = tier == 'thorough'
    a = lambda *v: jnp.array(v, dtype=jnp.float32)
    HASH = ('normal', 'categorical', 'poisson', 'uniform')
    # decision uniforms: exact for acceptance probabilities 0, 1/8, 1/4, 1/2, 1
    UCELL = [(.06, .125), (.19, .125), (.4, .25), (.75, .5)]

    def lattice(prior_units, lik_units):
        """target on the points 0, 1, ... with prior and likelihood potentials in multiples of log 2"""
        pri = np.array(prior_units, float) * LN2
        pri = pri + np.log(np.exp(-pri).sum())
        lik = np.array(lik_units, float) * LN2
        s = Table(1, lattice_pot(pri, np.array([0])), lattice_pot(lik, np.array([0])), prior_sample=lambda k: random.categorical(k, jnp.array(-pri, jnp.float32), shape=(1,)).astype(jnp.float32))
        s.pri, s.lik = (lambda x: pri[int(round(float(x[0])))]), (lambda x: lik[int(round(float(x[0])))])
        s.points, s.pv, s.lv = len(pri), pri, lik
        return s

    class Gauss(Scenario):
        name = 'gauss'
        dim = 2

        def prior_potential(self, x, random_key=None):
            return .5 * jnp.square(x).sum(-1)

        def likelihood_potential(self, x, random_key=None):
            return 1.5 * jnp.square(x - a(.5, -1.)).sum(-1)

        def prior_sample(self, random_key):
            return random.normal(random_key, (2,))
        pri = staticmethod(lambda x: .5 * np.square(x).sum())
        lik = staticmethod(lambda x: 1.5 * np.square(x - np.array([.5, -1.])).sum())

    def less(lw):
        lw = np.asarray(lw, float)
        return 2 * lse(lw) - lse(2 * lw)

    FIELDS = ('value', 'temperature', 'log_weight', 'ess', 'log_norm_constant', 'prior_potential', 'likelihood_potential', 'potential')

    def stepper(scn, make, n, k, extra_fields=(), given=True):
        """k iterations; start = (values, extra log-weights).  One row per ensemble, the start included."""
        smp = make()

        def fn(start, key):
            vals, dw = start
            st, ex = smp.startup(scn, n, cdict(value=vals) if given else None, cdict(random_key=key))
            if given:
                st.log_weight = st.log_weight + dw
                st.ess = jnp.exp(2 * jax.nn.logsumexp(st.log_weight) - jax.nn.logsumexp(2 * st.log_weight)) * jnp.ones(n)
                st.log_norm_constant = (jax.nn.logsumexp(st.log_weight) - jnp.log(n)) * jnp.ones(n)
            rows = []

            def rec():
                r = {f: getattr(st, f) * 1. for f in FIELDS + tuple(extra_fields) if hasattr(st, f)}
                r['done'] = smp.termination_criterion(st, ex)
                return r
            rows.append(rec())
            for _ in range(k):
                st, ex = smp.update(scn, st, ex)
                rows.append(rec())
            return rows
        return fn

    def check_rows(ctx, tag, rows, scn, n, thr, sched=None, adaptive=None, dw=None, moves=None, grads=None, maxT=None, full=True, **info):
        """the relations every path must satisfy"""
        prev = None
        for i, r in enumerate(rows):
            val = np.asarray(r['value'], float)
            Tm = np.atleast_1d(np.asarray(r['temperature'], float))
            T = float(Tm[0])
            lw = np.asarray(r['log_weight'], float)
            lik = np.array([scn.lik(x) for x in val])
            pri = np.array([scn.pri(x) for x in val])
            kw = dict(row=i, **info)
            ctx.expect(np.all(Tm == T), f'{tag}:common-temperature', 'all particles share the temperature', **kw)
            ctx.close(r['prior_potential'], pri, f'{tag}:prior', 'recorded prior potential is that of the particle', **kw)
            ctx.close(r['likelihood_potential'], lik, f'{tag}:lik', 'recorded likelihood potential is that of the particle', rtol=2e-4, atol=2e-4, **kw)
            with np.errstate(all='ignore'):
                ctx.close(r['potential'], pri + T * lik, f'{tag}:potential', 'recorded potential is that of the particle at the temperature of the row', rtol=2e-4, atol=2e-4, **kw)
            for nm, f in (('grad_potential', grads),):
                if f is not None:
                    ctx.close(r[nm], np.stack([f(x, T) for x in val]), f'{tag}:grad', 'recorded gradient is that of the particle at the temperature of the row', rtol=1e-3, atol=1e-3, **kw)
            if i == 0:
                before, cur, lw0 = None, 0., np.zeros(n)
            else:
                pl = np.asarray(prev['log_weight'], float)
                cur = float(np.atleast_1d(prev['temperature'])[0])
                pe = float(np.atleast_1d(prev['ess'])[0])
                if abs(pe - thr * n) < 1e-4 * n and thr < 1.:
                    return
                res = pe <= thr * n + 1e-5
                lw0 = np.zeros(n) if res else pl
            with np.errstate(all='ignore'):
                want = lw0 - (T - cur) * lik
            if i == 0 and dw is not None:
                want = want + dw
            ctx.close(lw, want, f'{tag}:weights', 'log-weights accumulate the potential increments since the last resampling', rtol=3e-4, atol=3e-4, **kw)
            ctx.close(np.broadcast_to(np.asarray(r['ess'], float), n), np.exp(less(lw)) * np.ones(n), f'{tag}:ess', 'effective sample size of the weights', rtol=1e-3, atol=1e-3, **kw)
            base = 0. if i == 0 else float(np.atleast_1d(prev['log_norm_constant'])[0])
            inc = lse(lw) - (np.log(n) if i == 0 else lse(lw0))
            ctx.close(np.broadcast_to(np.asarray(r['log_norm_constant'], float), n), (base + inc) * np.ones(n), f'{tag}:evidence', 'log normalising constant accumulates the average incremental weights', rtol=3e-4, atol=3e-4, **kw)
            if sched is not None:
                ctx.close(T, sched[i], f'{tag}:schedule', 'temperature of the schedule', rtol=1e-6, atol=1e-6, **kw)
                last = i == len(sched) - 1
                if 'done' in r:
                    ctx.expect(bool(r['done']) == last, f'{tag}:terminate', 'the run ends exactly when the maximum temperature is reached', **kw)
            if adaptive is not None:
                retain = adaptive
                e = float(n) if i == 0 or res else pe
                with np.errstate(all='ignore'):
                    g = lambda t: less(lw0 - (t - cur) * lik) - np.log(e * retain)
                ok = (T == np.float32(maxT) and g(maxT) > -2e-3) or (cur < T < maxT and abs(g(T)) < 2e-3)
                ctx.expect(ok, f'{tag}:adaptive', 'the next temperature retains the required effective sample size, or is the maximum', temperature=T, previous=cur, g=float(g(T)), g_max=float(g(maxT)), **kw)
                if 'done' in r:
                    ctx.expect(bool(r['done']) == (T == np.float32(maxT)), f'{tag}:terminate', 'the run ends exactly when the maximum temperature is reached', **kw)
                if T == np.float32(maxT):
                    return
            if i and moves is not None:
                pv = np.asarray(prev['value'], float)
                alive = np.exp(np.asarray(prev['log_weight'], float)) > 0
                for j in range(n):
                    parents = [p for p in range(n) if alive[p]] if res else [j]
                    d = [np.abs(val[j] - pv[p]) for p in parents]
                    ctx.expect(any(moves(x, prev) for x in d), f'{tag}:moves', 'a particle moves by the mcmc kernel from its own (or resampled parent) position', particle=j, new=val[j].tolist(), parents=pv.tolist(), **kw)
            prev = r

    def paths(ctx, tag, scn, make, n, k, starts, thr, sched=None, adaptive=None, moves=None, extra=(), given=True, one=False, batch=512, post=None, grads=None, maxT=1., law=None):
        st = [(jnp.array(v, jnp.float32), jnp.array(w, jnp.float32)) for v, w in starts]
        f = stepper(scn, make, n, k, extra, given)
        lv = explore(jax.jit(f) if one else f, st, one=one, jit=not one, batch=batch, max_leaves=4000000)
        ctx.explored(lv)
        groups = {}
        for l in lv:
            rows = l.out
            sig = R([rows[-1][f] for f in ('value', 'log_weight', 'log_norm_constant', 'temperature')] + [r['value'] for r in rows[:-1]], 3)
            sig = (l.start, sig)
            if sig in groups:
                groups[sig][0] += l.p
            else:
                groups[sig] = [l.p, rows]
        for (s, _), (p, rows) in groups.items():
            ctx.state(tag, s, _)
            check_rows(ctx, tag, rows, scn, n, thr, sched, adaptive, starts[s][1] if given else None, moves, start=s, grads=grads, maxT=maxT)
            if post is not None:
                post(rows, s)
        ctx.sample(dict(config=tag, starts=len(starts), paths=len(lv)))
        return lv, groups

    unit = lambda x, prev: abs(float(x[0]) - round(float(x[0]))) < 1e-4 and float(x[0]) < 1.5

    def ensembles(pts, n):
        return [np.array(v, float)[:, None] for v in itertools.product(range(pts), repeat=n)]
    L2 = lattice([0, 1], [0, 4])
    L3 = lattice([1, 0, 1], [0, 4, 8])
    Lb = lattice([0, 2], [4, 0])
    THR = (0., .5, .8, 1.)
    SCHED = [((.25, 1.), (.25, 1.), 1.), ((0., .25, 1.), (.25, 1.), 1.), ((.5, .7), (.5, .7), .7), ((.5, 2.), (.5, 2.), 2.)]

    def mk(sched, thr, steps=1, kernel=None, cls=MetropolisedSMCSampler, **kw):
        return lambda: cls(kernel() if kernel else RandomWalk(stepsize=1.), temperature_schedule=a(*sched) if sched is not None else None, mcmc_steps=steps, ess_threshold_resample=thr, **kw)

    def lat(c, thr):
        for given, want, mx in SCHED:
            C.alpha = dict(normal=PM1, uniform=UCELL if th and given == SCHED[0][0] else [(.06, .125), (.4, .875)])
            if th or given == SCHED[0][0] or thr in (.5, 1.):
                for nm, s in (('L2', L2), ('L3', L3), ('Lb', Lb)) if th or given == SCHED[0][0] else (('L3', L3),):
                    st = [(e, w) for e in ensembles(s.points, 2) for w in ((0., 0.), (0., -1.5))]
                    paths(c, f'{nm}-{given}-{thr}', s, mk(given, thr), 2, 1, st, thr, sched=want, moves=unit)

    def lat3(c):
        C.alpha = dict(normal=PM1, uniform=[(.06, .125), (.4, .875)])
        for thr in THR:
            st = [(e, w) for e in ensembles(2, 3)[:4] for w in ((0., 0., 0.), (0., -1., -3.))]
            paths(c, f'n3-{thr}', L2, mk((.25, 1.), thr), 3, 1, st, thr, sched=(.25, 1.), moves=unit, one=not th and thr < 1)

    def steps2(c):
        C.alpha = dict(normal=PM1, uniform=[(.06, .125), (.4, .875)])
        two = lambda x, prev: abs(float(x[0]) - round(float(x[0]))) < 1e-4 and float(x[0]) < 2.5
        for thr in (0., .8):
            st = [(e, (0., -1.)) for e in ensembles(3, 2)[:(9 if th else 4)]]
            paths(c, f'mcmc2-{thr}', L3, mk((.25, 1.), thr, 2), 2, 1, st, thr, sched=(.25, 1.), moves=two, extra=('alpha',), batch=1024)

    # ---- law: E[ evidence' sum_i W'_i f(x'_i) | ensemble ] = evidence sum_i W_i (K_T [exp(-(T'-T) lik) f])(x_i)
    def kernel(s, T):
        m = s.points
        K = np.zeros((m, m))
        for x in range(m):
            for d in (-1, 1):
                y = x + d
                al = 0. if not 0 <= y < m else min(1., np.exp(-(s.pv[y] - s.pv[x]) - T * (s.lv[y] - s.lv[x])))
                if 0 <= y < m:
                    K[x, y] += .5 * al
                K[x, x] += .5 * (1 - al)
        return K

    def measure(r, m):
        lw = np.asarray(r['log_weight'], float)
        w = np.exp(lw - lse(lw) + float(np.atleast_1d(r['log_norm_constant'])[0]))
        out = np.zeros(m)
        for x, q in zip(np.asarray(r['value'])[:, 0], w):
            out[int(round(float(x)))] += q
        return out

    def law(c):
        C.alpha = dict(normal=PM1, uniform=UCELL)
        for nm, s in (('L2', L2), ('Lb', Lb), ('L3', L3)):
            for sched in ((.25, 1.), (.5, 1.))[:2 if th or nm == 'L2' else 1] if nm != 'L3' else ((.25, .75),):
                for thr in (0., .8, 1.) if th or nm == 'L2' else (.8,):
                    for steps in (1, 2) if nm == 'L2' and thr == .8 else (1,):
                        st = [(e, w) for e in ensembles(s.points, 2) for w in ((0., 0.), (0., -2.)) if steps == 1 or e[0] <= e[1]]
                        if steps == 2:
                            C.alpha = dict(normal=PM1, uniform=[(.2, .5), (.75, .5)] if sched == (.25, 1.) else UCELL)
                            s2, st = lattice([0, 0], [0, 4]), st[:4]
                            if sched != (.25, 1.):
                                continue
                        else:
                            s2 = s
                            C.alpha = dict(normal=PM1, uniform=UCELL)
                        lv, _ = paths(c, f'law-{nm}-{sched}-{thr}-{steps}', s2, mk(sched, thr, steps), 2, 1, st, thr, sched=sched, batch=1024)
                        got = np.zeros((len(st), s.points))
                        want = np.zeros_like(got)
                        for l in lv:
                            got[l.start] += l.p * measure(l.out[-1], s.points)
                            want[l.start] = measure(l.out[0], s.points) @ np.linalg.matrix_power(kernel(s2, sched[0]), steps) @ np.diag(np.exp(-(sched[1] - sched[0]) * s2.lv))
                        c.close(got, want, f'law:{nm}:proper', 'one iteration maps the weighted ensemble properly: mutation at the current temperature, then reweighting to the next', schedule=sched, thr=thr, steps=steps, rtol=1e-3, atol=1e-5)

    def law_two(c):
        s = lattice([0, 0], [0, 4])
        C.alpha = dict(normal=PM1, uniform=[(.1, .25), (.4, .25), (.75, .5)])
        sched = (.25, .5, 1.)
        for thr in (.8,) + ((0., 1.) if th else ()):
            st = [(np.array([[0.], [1.]]), (0., -1.)), (np.array([[1.], [0.]]), (0., 0.))][:2 if th else 1]
            lv, _ = paths(c, f'law2-{thr}', s, mk(sched, thr), 2, 2, st, thr, sched=sched, one=False, batch=2048, moves=unit)
            got = np.zeros((len(st), 2))
            want = np.zeros_like(got)
            for l in lv:
                got[l.start] += l.p * measure(l.out[-1], 2)
                w = measure(l.out[0], 2)
                for T0, T1 in ((.25, .5), (.5, 1.)):
                    w = w @ kernel(s, T0) @ np.diag(np.exp(-(T1 - T0) * s.lv))
                want[l.start] = w
            c.close(got, want, 'law2:proper', 'two iterations map the weighted ensemble properly', thr=thr, rtol=1e-3, atol=1e-5)

    def law_run(c):
        """from the prior: the evidence estimate is unbiased and the weighted ensemble is that of the target"""
        for nm, s, sched in (('L2', lattice([0, 1], [0, 4]), (.25, 1.)), ('L3', lattice([1, 0, 1], [4, 0, 8]), (.25, .75))):
            C.alpha = dict(normal=PM1, uniform=UCELL)
            for thr in (0., .8, 1.):
                st = [(np.zeros((2, 1)), (0., 0.))]
                lv, _ = paths(c, f'lawrun-{nm}-{thr}', s, mk(sched, thr), 2, 1, st, thr, sched=sched, given=False, batch=1024)
                got = sum(l.p * measure(l.out[-1], s.points) for l in lv)
                c.close(got, np.exp(-s.pv - sched[-1] * s.lv), f'lawrun:{nm}', 'evidence times weighted ensemble is unbiased for the final target', thr=thr, rtol=1e-3, atol=1e-5)

    # ---- adaptive temperatures
    G = Gauss()
    Q3 = [(-1.1, .3), (.2, .4), (1.4, .3)]

    def adaptive(c):
        C.alpha = dict(normal=[(-1.1, .5), (.9, .5)], uniform=[(.001, .5), (.9, .5)])
        pts = [np.array(v) for v in itertools.product((-1., .4, 1.3), repeat=2)]
        for retain in (.5, .9, .99):
            for thr in (0., .6, 1.):
                for mx in (1., 2.) if retain == .9 else (1.,):
                    st = [(np.stack([p, q]), (0., 0.)) for p, q in itertools.combinations(pts, 2)][::(1 if th else 9)]
                    paths(c, f'ad-{retain}-{thr}-{mx}', G, mk(None, thr, kernel=lambda: RandomWalk(stepsize=.25), ess_threshold_retain=retain, max_temperature=mx), 2, 1, st, thr, adaptive=retain, maxT=mx)

    def adaptive3(c):
        C.alpha = dict(normal=[(-1.1, .5), (.9, .5)], uniform=[(.001, .5), (.9, .5)])
        C.hashed = ('normal',)
        E = [np.array([[.1, .2], [1.3, -.6], [-.9, .5]]), np.array([[.5, -1.], [.4, -.8], [2., 2.]])]
        for retain in (.6, .9):
            for thr in (0., .7):
                paths(c, f'ad3-{retain}-{thr}', G, mk(None, thr, kernel=lambda: RandomWalk(stepsize=.25), ess_threshold_retain=retain), 3, 2, [(e, (0., 0., 0.)) for e in E], thr, adaptive=retain, one=True)
        C.hashed = ()

    def jump(c):
        """equal likelihoods, or a threshold met by the maximum: the run goes straight to the end"""
        C.alpha = dict(normal=PM1, uniform=UCELL)
        for mx in (1., .3, 2.):
            flat = lattice([0, 1], [3, 3])
            paths(c, f'jump-flat-{mx}', flat, mk(None, .5, max_temperature=mx), 2, 1, [(e, (0., 0.)) for e in ensembles(2, 2)], .5, adaptive=.9, maxT=mx)
            weak = lattice([0, 1], [0, .1])
            lv, g = paths(c, f'jump-weak-{mx}', weak, mk(None, .5, max_temperature=mx), 2, 1, [(e, (0., 0.)) for e in ensembles(2, 2)], .5, adaptive=.9, maxT=mx)
            for l in lv:
                c.expect(float(l.out[0]['temperature'][0]) == np.float32(mx), f'jump:{mx}', 'goes to the maximum temperature when that retains enough')

    # ---- adapted stepsize
    def rm(c):
        C.alpha = dict(normal=[(-1.1, .5), (.9, .5)], uniform=[(.001, .25), (.3, .25), (.9, .5)])
        if th:
            C.alpha['uniform'] = [(.001, .5), (.9, .5)]
        E = [np.array([[.1, .2], [1.3, -.6]]), np.array([[-.9, .5], [.5, -1.]])]
        for rms in (1., .3):
            for target in (.234, .7):
                def kern():
                    k = RandomWalk(stepsize=.25)
                    k.tuning.target = target
                    return k

                def post(rows, s):
                    c.close(rows[0]['stepsize'], .25 * np.ones(2), 'rm:start', 'stepsize of the start', rms=rms)
                    for p, q in zip(rows, rows[1:]):
                        lw = np.asarray(q['log_weight'], float)
                        am = np.average(np.asarray(q['alpha'], float), weights=np.exp(lw - lw.max()))
                        want = np.exp(np.log(np.asarray(p['stepsize'], float)) + rms * (am - target))
                        c.close(q['stepsize'], want, 'rm:stepsize', 'the stepsize follows the weighted mean acceptance probability', rms=rms, rtol=1e-3)
                mv = lambda x, prev: np.all(x < 1e-4) or all(min(abs(v - 1.1 * np.sqrt(float(prev['stepsize'][0]))), abs(v - .9 * np.sqrt(float(prev['stepsize'][0])))) < 1e-3 for v in x)
                k, sched = (2, (.2, .6, 1.)) if th else (1, (.2, 1.))
                paths(c, f'rm-{rms}-{target}', G, mk(sched, 0., kernel=kern, cls=RMMetropolisedSMCSampler, rm_stepsize=rms), 2, k, [(e, (0., -.5)) for e in E], 0., sched=sched, extra=('alpha', 'stepsize'), post=post, moves=mv, batch=512)
                if not th:
                    C.hashed = HASH
                    paths(c, f'rm3-{rms}-{target}', G, mk((.2, .4, .7, 1.), 0., kernel=kern, cls=RMMetropolisedSMCSampler, rm_stepsize=rms), 2, 3, [(e, (0., -.5)) for e in E], 0., sched=(.2, .4, .7, 1.), extra=('alpha', 'stepsize'), post=post, moves=mv, batch=8)
                    C.hashed = ()

    # ---- kernels with gradients
    def under(c):
        C.alpha = dict(normal=[(-1.1, .5), (.9, .5)], uniform=[(.05, .5), (.9, .5)])
        E = [np.array([[.1, .2], [1.3, -.6]])]
        gr = lambda x, T: x + T * 3 * (x - np.array([.5, -1.]))
        for fr in (1., np.inf):
            for thr in (0., 1.):
                paths(c, f'under-{fr}-{thr}', G, mk((.2, 1.), thr, kernel=lambda: Underdamped(stepsize=.2, leapfrog_steps=2, friction=fr)), 2, 1, [(e, (0., -.5)) for e in E], thr, sched=(.2, 1.), extra=('grad_potential',), grads=gr)

    # ---- reassigned attributes
    def setting(c):
        C.alpha = dict(normal=PM1, uniform=UCELL)
        C.hashed = HASH
        E = [(e, (0., 0.)) for e in ensembles(3, 2)]

        def seq(*vals):
            def make():
                s = MetropolisedSMCSampler(RandomWalk(stepsize=1.), ess_threshold_resample=.5)
                for v in vals:
                    s.temperature_schedule = v
                return s
            return make
        for i, (vals, sched, k) in enumerate([((a(.25, 1.),), (.25, 1.), 1), ((a(0., .25, 1.),), (.25, 1.), 1), ((a(.1, .2, .3), None, a(.25, 1.)), (.25, 1.), 1), ((a(.5, 1.), a(.25, .5, .75, 2.)), (.25, .5, .75, 2.), 3),
                                              ((a(.25, .5, .75, 2.), a(0., .5, .6)), (.5, .6), 1)]):
            paths(c, f'set-{i}', L3, seq(*vals), 2, k, E, .5, sched=sched, batch=16)
        for i, vals in enumerate([(a(.25, 1.), None), (None,), (a(0., .25, 1.), None, a(.5, 1.), None)]):
            paths(c, f'unset-{i}', L3, seq(*vals), 2, 1, E, .5, adaptive=.9, batch=16)
            sm = seq(*vals)()
            c.expect(sm.max_iter >= 1000, f'unset:{i}:max_iter', 'without a schedule the number of iterations is not limited by an earlier schedule', max_iter=sm.max_iter)
        C.hashed = ()

    # ---- whole runs
    def runs(c, ad=False):
        C.alpha = dict(normal=PM1, uniform=UCELL)
        C.hashed = HASH
        nk = 12 if th else 5
        confs = [(L3, sched, n, thr, steps) for sched, n, thr, steps in (((.25, .5, 1.), 3, .5, 1), ((0., .1, .2, .4, .7, 1.), 4, .9, 2), ((.5, 1.), 2, 0., 1), ((1.,), 3, .5, 1), ((0., 2.), 3, .5, 1), ((.25, .5, .6), 4, 1., 3))]
        if ad:
            C.alpha = dict(normal=[(-1.4 + .31 * i, 1 / 10) for i in range(10)], uniform=bits(16))
            confs = [(G, None, n, thr, steps, ret, mx) for n, thr, steps, ret, mx in ((4, .5, 1, .9, 1.), (5, .9, 2, .5, 1.), (3, 0., 1, .99, .5), (4, .5, 1, .7, 3.))]
        for i, cf in enumerate(confs):
            s, sched, n, thr, steps = cf[:5]
            sm = mk(sched, thr, steps, kernel=(lambda: RandomWalk(stepsize=.25)) if ad else None, **(dict(ess_threshold_retain=cf[5], max_temperature=cf[6]) if ad else {}))()
            for kk in range(nk):
                o = run(s, sm, n, jnp.array([0xFFFFFFF, 1000 + 77 * kk], dtype=jnp.uint32))
                m = len(o.temperature)
                rows = [{f: np.asarray(getattr(o, f))[j] for f in FIELDS} for j in range(m)]
                if ad:
                    check_rows(c, f'runad-{i}', rows, s, n, thr, adaptive=cf[5], maxT=cf[6], run=kk)
                    c.expect(float(o.temperature[-1]) == np.float32(cf[6]), f'runad:{i}:end', 'ends at the maximum temperature', temperature=float(o.temperature[-1]))
                else:
                    w = sched[1:] if sched[0] == 0. else sched
                    c.expect(m == len(w), f'run:{i}:rows', 'one row per scheduled temperature', rows=m, want=len(w))
                    if m == len(w):
                        check_rows(c, f'run-{i}', rows, s, n, thr, sched=w, run=kk)
                c.trans(m)
                c.trace(1)
                c.state('run', ad, i, kk, m)
        # a limit on the iterations of an adaptive run
        if ad:
            sm = mk(None, .5, kernel=lambda: RandomWalk(stepsize=.25), ess_threshold_retain=.99, max_iter=3)()
            o = run(G, sm, 4, jnp.array([0xFFFFFFF, 5], dtype=jnp.uint32))
            c.expect(len(o.temperature) == 4, 'run:limit', 'the iteration limit is honoured', rows=len(o.temperature))
        C.hashed = ()

    def infinite(c):
        """zero likelihood at some points: dead particles have no weight and leave no offspring"""
        C.alpha = dict(normal=PM1, uniform=[(.06, .125), (.4, .875)])
        pri, lik = np.array([1., 1., 1.]) * np.log(3.), np.array([0., np.inf, 2 * LN2])
        s = Table(1, lattice_pot(pri, np.array([0])), lattice_pot(lik, np.array([0])), prior_sample=lambda k: random.categorical(k, jnp.zeros(3), shape=(1,)).astype(jnp.float32))
        s.pri, s.lik = (lambda x: pri[int(round(float(x[0])))]), (lambda x: lik[int(round(float(x[0])))])
        for thr in (0., .8, 1.):
            st = [(e, (0., 0.)) for e in ensembles(3, 2) if not np.all(e == 1.)]
            paths(c, f'inf-{thr}', s, mk((.5, 1.), thr), 2, 1, st, thr, sched=(.5, 1.), moves=unit)

    def base(c):
        """user-defined tempered sampler: forward move and incremental weight of its own"""
        C.alpha = dict(normal=PM1, uniform=UCELL)

        class S(TemperedSMCSampler):
            def forward_proposal(self, scenario, state, extra, random_key):
                o = state.copy()
                k1, k2 = random.split(random_key)
                o.value = state.value + 1. * (random.uniform(k1) < .5) * (state.value < .5)
                o.prior_potential, o.likelihood_potential = scenario.prior_potential(o.value, k2), scenario.likelihood_potential(o.value, k2)
                return o

            def log_weight(self, ps, pe, ns, ne):
                return -ns.temperature * ns.likelihood_potential + ps.temperature * ps.likelihood_potential

        s = lattice([0, 1], [0, 4])

        sm = S(temperature_schedule=a(0., .5, 1.))

        def fn(start, key):
            st, ex = sm.startup(s, 2, cdict(value=start), cdict(random_key=key))
            out = [(st.value, st.temperature, st.log_weight, st.log_norm_constant, sm.termination_criterion(st, ex), st.ess)]
            for _ in range(2):
                st, ex = sm.update(s, st, ex)
                out.append((st.value, st.temperature, st.log_weight, st.log_norm_constant, sm.termination_criterion(st, ex), st.ess))
            return out
        lv = explore(fn, [jnp.array(e, jnp.float32) for e in ensembles(2, 2)], batch=512)
        c.explored(lv)
        seen = set()
        for l in lv:
            o = l.out
            k = R([x[0] for x in o] + [o[-1][2]])
            if k in seen:
                continue
            seen.add(k)
            c.state('base', k)
            z = 0.
            for i, r in enumerate(o):
                T = [0., .5, 1.][i]
                c.close(r[1], T * np.ones(2), 'base:schedule', 'temperature of the schedule', row=i)
                lik = np.array([s.lik(x) for x in np.asarray(r[0])])
                if i == 0:
                    c.close(r[2], np.zeros(2), 'base:start', 'starts at the prior with equal weights')
                else:
                    # the default criterion resamples at every iteration: weights hold the last increment only, from a parent
                    c.expect(all(any(abs(float(r[2][j]) + T * lik[j] - pt * pl) < 1e-3 for pl in plik) for j in range(2)), 'base:weights', 'log-weights are the increments since the last resampling', row=i, got=np.asarray(r[2]).tolist())
                    z += float(lse(np.asarray(r[2], float)) - np.log(2))
                c.close(r[3], z * np.ones(2), 'base:evidence', 'log normalising constant accumulates', row=i)
                c.close(r[5], (np.exp(less(r[2]))) * np.ones(2), 'base:ess', 'effective sample size of the weights', row=i)
                c.expect(bool(r[4]) == (i == 2), 'base:terminate', 'ends at the maximum temperature', row=i)
                plik, pt = lik, T
    cs = dict(lattice3=lat3, steps2=steps2, law=law, rm=rm, under=under, adaptive=adaptive, adaptive3=adaptive3, run=runs, infinite=infinite, base=base, set=setting)
    cs.update({f'lattice-{t}': lambda c, t=t: lat(c, t) for t in THR})
    cs['law-two'], cs['law-run'], cs['adaptive-jump'], cs['run-ad'] = law_two, law_run, jump, lambda c: runs(c, True)
    return [(k, cs[k]) for k in NAMES]
