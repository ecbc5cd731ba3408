"""C03: run() against the explicit iteration of the sampler's startup and update, for every sampler, and re-evaluation of every
recorded field of every row, over all accept/reject patterns and resampling outcomes of short runs."""
PROPERTY = 'C03'
JOBS = 8
BOUNDS = dict(
    quick='n 1..3 (MCMC: every accept/reject pattern and normal draw in {-1,1} for n<=3), SMC / ABC-SMC / SVGD / TEKI runs of 2-3 '
          'particles with 1-3 iterations and every outcome of resampling, accept/reject; initial state absent, plain, resumed, stale',
    thorough='n up to 5, more schedules, resumption from every row, every sampler as the SMC kernel')
ASSUMPTIONS = ['normal draws take two values, acceptance draws take the values that force acceptance and rejection']


def case_names(tier):
    return ['rw', 'rw-prior', 'rw-resume', 'rm', 'underdamped', 'ud-resume', 'qn', 'qn-resume', 'rwabc', 'rmabc', 'vanilla', 'smc-rw', 'smc-ud', 'smc-resume',
            'smc-rm', 'smc-adapt', 'abcsmc', 'abcsmc-adapt', 'svgd', 'svgd-batch', 'teki', 'teki-adapt', 'callers', 'stochastic', 'interface']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, Table, R, bits, PM1, cdict, Scenario, same_law, law, root
    import itertools, copy
    import mocat
    from mocat import (run, RandomWalk, Underdamped, QNUnderdamped, RMMetropolis, Metropolis, Uncorrected, SVGD)
    from mocat.src.core import static_cdict
    from mocat.abc import RandomWalkABC, VanillaABC, ABCScenario, MetropolisedABCSMCSampler, RMMetropolisDiagStepsize
    from mocat import MetropolisedSMCSampler, RMMetropolisedSMCSampler, TemperedEKI, AdaptiveTemperedEKI
    th = tier == 'thorough'
    U2 = [(0., .5), (2., .5)]

    prior = lambda x, rk=None: .5 * jnp.sum((x - 1.) ** 2)
    lik = lambda x, rk=None: jnp.sum(jnp.cos(x)) + .3 * jnp.sum(x) ** 2
    nprior = lambda x: .5 * np.sum((x - 1.) ** 2)
    nlik = lambda x: np.sum(np.cos(x)) + .3 * np.sum(x) ** 2
    ngprior = lambda x: x - 1.
    nglik = lambda x: -np.sin(x) + .6 * np.sum(x)

    _J = {}

    def J(sch):        # concrete arrays, also when used under jit
        if sch is None:
            return None
        if tuple(sch) not in _J:
            with jax.ensure_compile_time_eval():
                _J[tuple(sch)] = jnp.array(sch)
        return _J[tuple(sch)]

    def scenario(d, T=.5, ps=None):
        return Table(d, prior, lik, prior_sample=ps, temperature=T)

    def fields(chain, xp=np, skip=('time', 'summary')):
        """hashable copy of a chain: every per-row field, nested cdicts included"""
        def conv(v):
            if isinstance(v, static_cdict):
                return None
            if isinstance(v, cdict):
                return {k: conv(x) for k, x in sorted(v.__dict__.items()) if k not in skip}
            if v is None or callable(v) or isinstance(v, str):
                return None
            return xp.asarray(v)
        return conv(chain)

    def hashable(d):
        if isinstance(d, dict):
            return tuple((k, hashable(v)) for k, v in sorted(d.items()))
        return None if d is None else R(d, 3)

    def stepwise(sampler, scn, n, key, state=None, extra=None, limit=50, steps=None, **kw):
        """the definition: startup, then update until the termination criterion holds"""
        extra = cdict() if extra is None else extra
        extra.random_key = key
        sampler.n = n
        st, ex = sampler.startup(scn, n, state, extra, **kw)
        rows = [fields(st, np if steps is None else jnp)]
        k = 0
        for _ in range(steps or 0):
            st, ex = sampler.update(scn, st.copy(), ex)
            rows.append(fields(st, jnp))
        while steps is None and not bool(sampler.termination_criterion(st, ex)) and k < min(limit, sampler.max_iter):
            st, ex = sampler.update(scn, st.copy(), ex)
            rows.append(fields(st))
            k += 1
        return rows

    def stack(rows, xp=np):
        def go(vs):
            if isinstance(vs[0], dict):
                return {k: go([v[k] for v in vs]) for k in vs[0]}
            return None if vs[0] is None else xp.stack([xp.asarray(v) for v in vs])
        return go(rows)

    def run_law(mk, scn, n, init=None, **kw):
        def fn(start, key):
            s = mk()
            i = init() if init is not None else None
            return fields(run(scn, s, n, key, i, **kw))
        return fn

    def step_law(mk, mkscn, n, init=None, steps=None, **kw):
        s0 = mk()

        def fn(start, key):
            i = init() if init is not None else None
            return stack(stepwise(mk() if steps is None else s0.deepcopy(), mkscn(), n, key, i, steps=steps, **kw), np if steps is None else jnp)
        return fn

    def common(a, b):
        """keep the fields in both (bookkeeping fields of one route only are not compared)"""
        if isinstance(a, dict) and isinstance(b, dict):
            return {k: common(a[k], b[k]) for k in a if k in b}
        return a

    def compare(ctx, tag, mk, mkscn, n, init=None, clean=None, steps=None, **kw):
        """law of run() = law of the explicit iteration"""
        scn = mkscn()
        lr = explore(run_law(mk, scn, n, init, **kw), [0], one=True, jit=False)
        one = steps is None
        ls = explore(step_law(mk, mkscn, n, init, steps, **kw), [0], one=one, jit=not one)
        if clean is not None:
            for l in ls:
                l.out = clean(l.out)
        ctx.explored(lr)
        ctx.explored(ls)
        ref = ls[0].out
        got, want = {}, {}
        for l in lr:
            k = hashable(common(l.out, ref))
            got[k] = got.get(k, 0.) + l.p
            ctx.state(tag, n, k)
        for l in ls:
            k = hashable(common(l.out, lr[0].out))
            want[k] = want.get(k, 0.) + l.p
        for k in ('value',):
            ctx.expect(k in lr[0].out and k in ls[0].out, tag + ':fields', 'the chain has values')
        same_law(ctx, got, want, tag + ':law', 'run returns the startup state and then the states of the successive updates', n=n)
        ctx.sample(dict(case=tag, n=n, value=R(lr[-1].out['value'])))
        return lr

    def rows_consistent(ctx, tag, out, T=.5, rep=True, **info):
        """every recorded potential and gradient is that of the row's own value; a rejected update repeats the row"""
        v = np.asarray(out['value'], float)
        table = dict(prior_potential=nprior, likelihood_potential=nlik, grad_prior_potential=ngprior, grad_likelihood_potential=nglik)
        T = np.broadcast_to(np.asarray(T, float), v.shape[:1])
        for f in ('potential', 'grad_potential') + tuple(table):
            if f in out and out[f] is not None:
                flat = lambda i: v[i] if v.ndim == 2 else None
                want = []
                for i in range(len(v)):
                    pts = v[i][None] if v.ndim == 2 else v[i]
                    if f in table:
                        w = [table[f](x) for x in pts]
                    elif f == 'potential':
                        w = [nprior(x) + T[i] * nlik(x) for x in pts]
                    else:
                        w = [ngprior(x) + T[i] * nglik(x) for x in pts]
                    want.append(w[0] if v.ndim == 2 else w)
                ctx.close(out[f], np.array(want), tag + ':' + f, f'recorded {f} is that of the value of its row', rtol=2e-3, atol=2e-3, **info)

    # MCMC -------------------------------------------------------------------------------------------------------------
    NS = [1, 2, 3] + ([4] if th else [])

    def mcmc(ctx, tag, mk, d=1, ns=None, init='given', normal=PM1, T=.5, mkscn=None, **kw):
        C.alpha = dict(normal=normal, uniform=U2)
        x0 = jnp.array([.4, -.3][:d])
        ini = (lambda: cdict(value=x0)) if init == 'given' else init
        for n in (ns or NS):
            lr = compare(ctx, tag, mk, mkscn or (lambda: scenario(d, T)), n, ini, steps=n - 1, **kw)
            for l in lr:
                v = l.out['value']
                if not ctx.expect(v.shape == (n, d), tag + ':shape', 'n samples are returned', n=n, got=v.shape):
                    continue
                if init == 'given':
                    ctx.close(v[0], x0, tag + ':first', 'the first sample is the given initial state', n=n)
                rows_consistent(ctx, tag, l.out, T, n=n)
                for i in range(1, n):
                    if np.array_equal(v[i], v[i - 1]):
                        for f in ('potential', 'grad_potential', 'prior_potential', 'likelihood_potential', 'distance', 'simulated_data'):
                            if l.out.get(f) is not None:
                                ctx.close(l.out[f][i], l.out[f][i - 1], tag + ':repeat', 'a rejected update repeats the row', field=f, n=n)
        return lr

    def rw(ctx):
        for d in (1, 2):
            mcmc(ctx, 'rw', lambda: RandomWalk(stepsize=.49), d, ns=NS if d == 1 else [1, 2])
        # closed form: with forced accepts and rejects the chain is the walk
        C.alpha = dict(normal=PM1, uniform=U2)
        n = 3
        ls = explore(lambda s, k: fields(run(scenario(1), RandomWalk(stepsize=.49), n, k, cdict(value=jnp.array([.4]))))['value'][:, 0], [0], one=True, jit=False)
        ctx.explored(ls)
        want = {}
        for z in itertools.product([-1., 1.], [-1., 1.], [0, 1], [0, 1]):
            a = .4 + (.7 * z[0] if z[2] else 0.)
            b = a + (.7 * z[1] if z[3] else 0.)
            want[R([.4, a, b])] = want.get(R([.4, a, b]), 0.) + 1 / 16
        same_law(ctx, law(ls, R), want, 'rw:walk', 'random walk chain')

    def rw_prior(ctx):
        """no initial state: prior draw if there is one, zeros otherwise"""
        ps = lambda rk: jax.random.normal(rk, (1,)) + 3.
        C.alpha = dict(normal=PM1, uniform=U2)
        for n in (1, 2):
            ls = explore(lambda s, k: fields(run(scenario(1, ps=ps), RandomWalk(stepsize=.49), n, k)), [0], one=True, jit=False)
            ctx.explored(ls)
            same_law(ctx, law(ls, lambda o: R(o['value'][0])), {(2.,): .5, (4.,): .5}, 'rw-prior:first', 'the first sample is a prior draw', n=n)
            for l in ls:
                ctx.state('rwp', n, R(l.out['value']))
                rows_consistent(ctx, 'rw-prior', l.out)
                ctx.expect(len(l.out['value']) == n, 'rw-prior:n', 'n samples', n=n)
            for mk in (lambda: RandomWalk(stepsize=.49), lambda: Underdamped(stepsize=.3), lambda: QNUnderdamped(stepsize=.3, m=2)):
                o = explore(lambda s, k: fields(run(scenario(2), mk(), n, k)), [0], one=True, jit=False)[0].out
                ctx.close(o['value'][0], np.zeros(2), 'rw-prior:zeros', 'without prior_sample chains start at zeros', n=n)
                o = explore(lambda s, k: fields(run(scenario(1, ps=ps), mk(), n, k)), [0], one=True, jit=False)
                ctx.explored(o)
                same_law(ctx, law(o, lambda o: R(o['value'][0])), {(2.,): .5, (4.,): .5}, 'rw-prior:first', 'the first sample is a prior draw', n=n)
                for l in o:
                    rows_consistent(ctx, 'rw-prior', l.out)

    def resume(ctx, tag, mk, srcs, temps=(.5, 1.5)):
        """start from rows of earlier runs made by other samplers, at another temperature, or from stale fields"""
        C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
        inits = []
        for src in srcs:
            C.alpha = dict(normal=[(.7, 1.)], uniform=[(0., 1.)])
            for T in temps:
                ch = explore(lambda s, k: _tree(run(scenario(1, T), src(), 3, k, cdict(value=jnp.array([.4])))), [0], one=True, jit=False)[0].out
                inits.append(ch)
        C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
        for ch in inits:
            for row in ((-1, 0, 1) if th else (-1,)):
                def init():
                    return jax.tree_util.tree_map(jnp.asarray, ch)[row]
                i0 = init()
                scn = scenario(1, 1.)
                for l in explore(lambda s, k: fields(run(scn, mk(), 3, k, init())), [0], one=True, jit=False):
                    ctx.trace(); ctx.trans(len(l.choices)); ctx.state(tag, row, R(l.out['value']))
                    o = l.out
                    ctx.expect(o['value'].shape == (3, 1), tag + ':shape', 'n rows', got=o['value'].shape)
                    ctx.close(o['value'][0], i0.value, tag + ':first', 'the first row is the given state')
                    own = dict(o)
                    if mk().name == 'Random Walk':
                        for f in ('prior_potential', 'likelihood_potential'):
                            own.pop(f, None)
                    rows_consistent(ctx, tag, own, 1.)

    def _tree(ch):
        s = ch.copy()
        for k in ('summary', 'time'):
            if hasattr(s, k):
                delattr(s, k)
        return s

    SRC = [lambda: RandomWalk(stepsize=.49), lambda: Underdamped(stepsize=.3), lambda: QNUnderdamped(stepsize=.3, m=2),
           lambda: Underdamped(stepsize=.3, leapfrog_steps=2, friction=.5)]

    def rm(ctx):
        for mk, d in [(lambda: RandomWalk(), 1), (lambda: RandomWalk(stepsize=.3), 2), (lambda: Underdamped(stepsize=.2), 1)]:
            for corr in (RMMetropolis, lambda: RMMetropolis(adapt_cut_off=1), lambda: RMMetropolis(log_update=False)):
                def mks():
                    s = mk()
                    s.correction = corr() if not isinstance(corr, type) else corr
                    return s
                lr = mcmc(ctx, 'rm', mks, d, ns=[1, 3], normal=[(.7, 1.)])
                for l in lr:
                    ctx.expect(l.out['stepsize'].shape[0] == 3, 'rm:stepsize', 'one recorded stepsize per row')
        lr = mcmc(ctx, 'uncorrected', lambda: RandomWalk(stepsize=.49), 1, ns=[2, 3], correction=Uncorrected)
        for l in lr:
            d = np.abs(np.diff(l.out['value'][:, 0]))
            ctx.close(d, np.full(2, .7), 'uncorrected:moves', 'an uncorrected chain takes every proposal', rtol=1e-3)

    def ud(ctx):
        for L, fr in [(1, np.inf), (2, .5), (3, 0.)]:
            mcmc(ctx, 'underdamped', lambda: Underdamped(stepsize=.3, leapfrog_steps=L, friction=fr), 1, ns=[1, 2, 3] if L == 2 or th else [2])
        mcmc(ctx, 'underdamped2', lambda: Underdamped(stepsize=.3), 2, ns=[2])

    def qn(ctx):
        for m, srt, L in [(2, False, 1), (3, True, 2)]:
            mcmc(ctx, 'qn', lambda: QNUnderdamped(stepsize=.3, m=m, sort_bfgs=srt, leapfrog_steps=L), 1 if L == 1 else 2, ns=[1, 2, 3] if L == 1 else [1, 2])

    # ABC ----------------------------------------------------------------------------------------------------------------
    class AbcScn(ABCScenario):
        name = 'abc'
        data = jnp.array([.5, -.2])

        def __init__(self, d=1):
            self.dim = d
            super().__init__()

        def prior_potential(self, x, random_key=None):
            return .5 * jnp.sum((x - 1.) ** 2)

        def prior_sample(self, rk):
            return 1. + jax.random.normal(rk, (self.dim,))

        def likelihood_sample(self, x, rk):
            e = jax.random.bernoulli(rk, .5, (1, 1))[0, 0]
            return jnp.array([jnp.sum(x), jnp.sum(x ** 2)]) + jnp.where(e, .25, 0.)

    UA = lambda shape: [(.25, .5), (.75, .5)] if len(shape) == 2 else U2

    def abc_rows(ctx, tag, out, **info):
        v, sd, di = (np.asarray(out[k], float) for k in ('value', 'simulated_data', 'distance'))
        fl = v.reshape(-1, v.shape[-1]); fs = sd.reshape(-1, sd.shape[-1]); fd = di.reshape(-1)
        data = np.array([.5, -.2])
        for x, s, dd in zip(fl, fs, fd):
            base = np.array([x.sum(), (x ** 2).sum()])
            ctx.close(dd, np.sqrt(((s - data) ** 2).sum()), tag + ':distance', 'recorded distance is that of the recorded simulated data', rtol=1e-3, atol=1e-3, **info)
            ctx.expect(np.allclose(s, base, atol=2e-3, rtol=2e-3) or np.allclose(s, base + .25, atol=2e-3, rtol=2e-3), tag + ':data',
                       'recorded simulated data were drawn from the row value', value=x, simulated=s, **info)
        if out.get('prior_potential') is not None:
            ctx.close(np.asarray(out['prior_potential']).reshape(-1), .5 * ((fl - 1.) ** 2).sum(-1), tag + ':prior', 'recorded prior potential is that of the row', rtol=1e-3, atol=1e-3, **info)

    def abcmcmc(ctx, tag, mk, ns, **kw):
        C.alpha = dict(normal=[(.7, 1.)], uniform=UA)
        for init in (None, lambda: cdict(value=jnp.array([.4]))):
            for n in ns:
                lr = compare(ctx, tag, mk, AbcScn, n, init, steps=n - 1, **kw)
                for l in lr:
                    ctx.expect(l.out['value'].shape == (n, 1), tag + ':shape', 'n rows', n=n, got=l.out['value'].shape)
                    abc_rows(ctx, tag, l.out, n=n)
                    ctx.close(l.out['value'][0], [.4] if init is not None else [1.7], tag + ':first', 'first row', n=n)

    def rwabc(ctx):
        for thr in (1.5, np.inf):
            abcmcmc(ctx, 'rwabc', lambda: RandomWalkABC(threshold=thr, stepsize=.49), [1, 2, 3] if th or thr < 2 else [2])

    def rmabc(ctx):
        def mk():
            s = RandomWalkABC(threshold=1.5, stepsize=.49)
            s.correction = RMMetropolisDiagStepsize()
            return s
        abcmcmc(ctx, 'rmabc', mk, [1, 2] + ([3] if th else []))

    def vanilla(ctx):
        for ar in (None, .5):
            C.alpha = dict(normal=PM1, uniform=UA)
            for n in (1, 2, 3):
                if n == 3:
                    C.alpha = dict(normal=PM1, uniform=[(.25, 1.)])

                def clean(o):
                    if ar is not None:
                        q = np.quantile(o['distance'], ar)
                        o = dict(o, log_weight=np.where(o['distance'] < np.float32(q), 0., -np.inf))
                    return o
                lr = compare(ctx, f'vanilla{ar}', lambda: VanillaABC(threshold=1.5, acceptance_rate=ar) if ar else VanillaABC(threshold=1.5), AbcScn, n, clean=clean, steps=n - 1)
                for l in lr:
                    ctx.expect(l.out['value'].shape == (n, 1), 'vanilla:shape', 'n rows', n=n)
                    abc_rows(ctx, 'vanilla', l.out)
                if ar is None:      # independent prior draws
                    lw = law(lr, lambda o: R(o['value'][:, 0]))
                    same_law(ctx, lw, {R(z): .5 ** n for z in itertools.product([0., 2.], repeat=n)}, 'vanilla:law', 'rows are independent prior draws', n=n)

    # transport ---------------------------------------------------------------------------------------------------------
    ps1 = lambda rk: 1. + jax.random.normal(rk, (1,))

    def col0(*names):
        def clean(o):
            o = dict(o)
            for k in names:
                if k in o and np.ndim(o[k]) > 1:
                    o[k] = o[k][:, 0]
            return o
        return clean

    def smc(ctx, tag, mk, scheds, n=2, kw=(), normal=(.7,), adapt=None, resume_=False, ps=ps1):
        C.alpha = dict(normal=[(z, 1. / len(normal)) for z in normal], uniform=U2)
        for sch in scheds:
            mkk = lambda: mk(sch)
            init = (lambda: cdict(value=jnp.array([[.4], [-.9], [2.]][:n])))
            inits = [init]
            if resume_:
                C.alpha = dict(normal=[(.7, 1.)], uniform=[(0., 1.)])
                ch = explore(lambda s, k: _tree(run(scenario(1, ps=ps), mkk(), n, k, init())), [0], one=True, jit=False, check_total=False)[0].out
                C.alpha = dict(normal=[(z, 1. / len(normal)) for z in normal], uniform=U2)
                # a particle system of an earlier run: only its per-particle fields
                per = cdict(**{f: jnp.asarray(getattr(ch, f))[-1] for f in ('value', 'potential', 'prior_potential', 'likelihood_potential', 'grad_potential', 'grad_prior_potential',
                                                                             'grad_likelihood_potential', 'alpha', 'log_weight', 'momenta') if hasattr(ch, f)})
                inits = [lambda: per.copy()]
            for ini in inits:
                lr = compare(ctx, tag, mkk, lambda: scenario(1, ps=ps), n, ini, clean=col0('temperature', 'ess', 'log_norm_constant', 'stepsize'),
                             steps=None if sch is None else len([t for t in sch if t > 0]) - 1)
                for l in lr:
                    o = l.out
                    T = o['temperature']
                    if sch is not None:
                        want = [t for t in np.asarray(sch, float) if t > 0]
                        ctx.close(T, want, tag + ':temps', 'one row per scheduled temperature', schedule=sch)
                    ctx.expect(o['value'].shape == (len(T), n, 1), tag + ':shape', 'one ensemble per row', got=o['value'].shape)
                    ctx.close(o['value'][0], ini().value, tag + ':first', 'the first ensemble is the given one')
                    rows_consistent(ctx, tag, {k: v for k, v in o.items()}, T)

    def SM(kern, **kw):
        return lambda sch: MetropolisedSMCSampler(kern(), temperature_schedule=J(sch), **kw)

    S1 = [[.25], [.5, 1.], [0., .5, 1.]]

    def smc_rw(ctx):
        smc(ctx, 'smc-rw', SM(lambda: RandomWalk(stepsize=.49), ess_threshold_resample=1.), S1 if th else S1[:2])
        smc(ctx, 'smc-rw0', SM(lambda: RandomWalk(stepsize=.49), ess_threshold_resample=0.), [[0., .5, 1.]])
        if th:
            smc(ctx, 'smc-rw2', SM(lambda: RandomWalk(stepsize=.49), ess_threshold_resample=0., mcmc_steps=2), [[.5, 1.]])

    def smc_ud(ctx):
        smc(ctx, 'smc-ud', SM(lambda: Underdamped(stepsize=.3), ess_threshold_resample=1.), [[.5, 1.]])
        smc(ctx, 'smc-ud2', SM(lambda: Underdamped(stepsize=.3, leapfrog_steps=2, friction=.5), ess_threshold_resample=0., mcmc_steps=2), [[.5, 1.]])
        if th:
            smc(ctx, 'smc-qn', SM(lambda: QNUnderdamped(stepsize=.3, m=2), ess_threshold_resample=0.), [[.5, 1.]])

    def smc_resume(ctx):
        for kern in (lambda: RandomWalk(stepsize=.49), lambda: Underdamped(stepsize=.3)):
            smc(ctx, 'smc-resume', SM(kern, ess_threshold_resample=0.), [[.5, 1.]], resume_=True)

    def smc_rm(ctx):
        smc(ctx, 'smc-rm', lambda sch: RMMetropolisedSMCSampler(RandomWalk(stepsize=.49), temperature_schedule=J(sch), ess_threshold_resample=0.), [[.5, 1.]])

    def smc_adapt(ctx):
        smc(ctx, 'smc-adapt', SM(lambda: RandomWalk(stepsize=.49), ess_threshold_resample=0., ess_threshold_retain=.9, max_iter=3), [None], n=3 if th else 2)

    def abcsmc(ctx, sched):
        C.alpha = dict(normal=[(.7, 1.)], uniform=lambda shape: [(.25, 1.)] if len(shape) == 2 else U2)
        n = 2
        init = lambda: cdict(value=jnp.array([[.4], [-.9]]))
        for sch in ([[2.5, 1.]] if sched else [None]):
            mk = lambda: MetropolisedABCSMCSampler(RandomWalkABC(stepsize=.49), threshold_schedule=J(sch),
                                                   max_iter=2, termination_alpha=-1., ess_threshold_resample=.9, ess_threshold_retain=.5)
            lr = compare(ctx, f'abcsmc{sched}', mk, AbcScn, n, init, clean=col0('threshold', 'ess'), steps=2)
            for l in lr:
                o = l.out
                ctx.expect(o['value'].shape[1:] == (n, 1), 'abcsmc:shape', 'ensembles')
                ctx.close(o['value'][0], init().value, 'abcsmc:first', 'first ensemble is the given one')
                abc_rows(ctx, 'abcsmc', o)

    def svgd(ctx, batch):
        C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
        init = lambda: cdict(value=jnp.array([[.4], [-.9]]))
        for n_it in (0, 1, 2, 3):
            if batch and n_it > (2 if th else 1):
                continue
            mk = lambda: SVGD(stepsize=.2, max_iter=n_it, ensemble_batchsize=1 if batch else None)
            lr = compare(ctx, f'svgd{batch}', mk, lambda: scenario(1), 2, init, steps=n_it) if n_it else \
                explore(lambda s, k: fields(run(scenario(1), mk(), 2, k, init())), [0], one=True, jit=False)
            for l in lr:
                ctx.expect(l.out['value'].shape == (n_it + 1, 2, 1), 'svgd:shape', 'one ensemble per iteration and the initial one', got=l.out['value'].shape)
                ctx.close(l.out['value'][0], init().value, 'svgd:first', 'first ensemble is the given one')
                rows_consistent(ctx, 'svgd', l.out, .5)
        if not batch:       # prior drawn ensemble
            C.alpha = dict(normal=PM1, uniform=U2)
            ls = explore(lambda s, k: fields(run(scenario(1, ps=ps1), SVGD(stepsize=.2, max_iter=1), 2, k)), [0], one=True, jit=False)
            ctx.explored(ls)
            same_law(ctx, law(ls, lambda o: R(o['value'][0, :, 0])), {R(z): .25 for z in itertools.product([0., 2.], repeat=2)}, 'svgd:prior', 'prior drawn ensemble members are independent')
            for l in ls:
                rows_consistent(ctx, 'svgd', l.out, .5)
                ctx.state('svgd', R(l.out['value']))

    class LinScn(Table):
        def __init__(self):
            super().__init__(1, prior, lik, prior_sample=ps1, likelihood_sample=lambda x, rk: jnp.array([x[0], x[0] ** 2]) + .1 * jnp.where(jax.random.bernoulli(rk, .5, (1, 1))[0], 1., 0.))
            self.data = jnp.array([.5, .3])

    def teki(ctx, adaptive):
        for sch in ([None] if adaptive else [[.5, 1.], [0., .25, 1.]]):
            C.alpha = dict(normal=[(.7, 1.)], uniform=lambda shape: [(.25, .5), (.75, .5)] if sch == [.5, 1.] else [(.75, 1.)])
            mk = (lambda: AdaptiveTemperedEKI(max_iter=3, ess_threshold=.5)) if adaptive else (lambda: TemperedEKI(temperature_schedule=J(sch)))
            init = lambda: cdict(value=jnp.array([[.4], [-.9], [.1]] if adaptive else [[.4], [-.9]]))
            lr = compare(ctx, f'teki{adaptive}', mk, LinScn, len(init().value), init, steps=None if adaptive else 2)
            for l in lr:
                o = l.out
                ctx.close(o['value'][0], init().value, 'teki:first', 'first ensemble is the given one')
                if not adaptive:
                    ctx.close(o['temperature'], [t for t in ([0.] + sch if sch[0] else sch)], 'teki:temps', 'one row per temperature')
                x = o['value'][..., 0]
                base = np.stack([x, x ** 2], -1)
                d = (o['simulated_data'] - base)
                ctx.expect(np.all((np.abs(d) < 5e-3) | (np.abs(d - .1) < 5e-3)), 'teki:data', 'recorded data are simulated from the row values', diff=d)

    def callers(ctx):
        """run leaves the cdicts it was given as they are and reads what they carry"""
        C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
        for mk, ini in [(lambda: RandomWalk(stepsize=.49), lambda: cdict(value=jnp.array([.4]))), (lambda: Underdamped(stepsize=.3), lambda: cdict(value=jnp.array([.4]), momenta=jnp.array([.3]))),
                        (lambda: QNUnderdamped(stepsize=.3, m=2), lambda: cdict(value=jnp.array([.4]))), (lambda: SVGD(stepsize=.2, max_iter=1), lambda: cdict(value=jnp.array([[.4], [.2]])))]:
            for n in (1, 2):
                def fn(s, k):
                    st, ex = ini(), cdict(random_key=k, parameters=cdict(stepsize=.25))
                    ch = run(scenario(1), mk(), max(n, 2) if mk().name == 'SVGD' else n, None, st, ex)
                    return fields(ch), fields(st), sorted(ex.__dict__), sorted(ex.parameters.__dict__)
                for l in explore(fn, [0], one=True, jit=False):
                    ctx.trace(); ctx.trans(len(l.choices)); ctx.state('callers', mk().name, n, R(l.out[0]['value']))
                    ctx.expect(sorted(l.out[1]) == sorted(ini().__dict__) and all(np.array_equal(l.out[1][k], v) for k, v in ini().__dict__.items()), 'callers:state',
                               'the given initial state is left as it was', got=l.out[1])
                    ctx.expect(l.out[2] == ['parameters', 'random_key'] and l.out[3] == ['stepsize'], 'callers:extra', 'the given extra is left as it was', got=(l.out[2], l.out[3]))
                    if mk().name == 'Random Walk' and n == 2:
                        d = abs(float(l.out[0]['value'][1, 0] - l.out[0]['value'][0, 0]))
                        ctx.expect(abs(d) < 1e-6 or abs(d - .35) < 1e-4, 'callers:param', 'parameters in the given extra are used', step=d)

    def stochastic(ctx):
        """random potentials: a recorded potential is one evaluation at the row value, and a rejected row keeps its evaluation"""
        slik = lambda x, rk=None: jnp.sum(x ** 2) * (jax.random.uniform(rk, (1, 1))[0, 0] + .5)
        UU = lambda shape: [(.25, .5), (.75, .5)] if len(shape) == 2 else U2
        for mk in (lambda: RandomWalk(stepsize=.49), lambda: Underdamped(stepsize=.3)):
            C.alpha = dict(normal=[(.7, 1.)], uniform=UU)
            mkscn = lambda: Table(1, lambda x, rk=None: 0. * jnp.sum(x), slik)
            lr = compare(ctx, 'stochastic', mk, mkscn, 3, lambda: cdict(value=jnp.array([.4])), steps=2)
            for l in lr:
                x = l.out['value'][:, 0] ** 2
                r = l.out['potential'] / x
                ctx.expect(np.all((np.abs(r - .75) < 1e-2) | (np.abs(r - 1.25) < 1e-2)), 'stochastic:potential', 'an evaluation at the row value', ratio=r)
                for i in (1, 2):
                    if x[i] == x[i - 1]:
                        ctx.expect(abs(r[i] - r[i - 1]) < 1e-3, 'stochastic:keep', 'a rejected row keeps its potential', ratio=r)

    def interface(ctx):
        """class or instance, key in extra or argument, settings by keyword; summary and time present"""
        C.alpha = dict(normal=[(.7, 1.)], uniform=[(0., 1.)])
        def val(f):
            return explore(lambda s, k: fields(f(k)), [0], one=True, jit=False)[0].out
        scn = lambda: scenario(1)
        st = lambda: cdict(value=jnp.array([.4]))
        ref = val(lambda k: run(scn(), RandomWalk(stepsize=.49), 3, k, st()))
        for name, f in [('class', lambda k: run(scn(), RandomWalk, 3, k, st(), stepsize=.49)), ('kwarg', lambda k: run(scn(), RandomWalk(stepsize=.1), 3, k, st(), stepsize=.49)),
                        ('extra', lambda k: run(scn(), RandomWalk(stepsize=.49), 3, None, st(), cdict(random_key=k))),
                        ('corr', lambda k: run(scn(), RandomWalk(stepsize=.49), 3, k, st(), correction=Metropolis())),
                        ('corr-class', lambda k: run(scn(), RandomWalk(stepsize=.49), 3, k, st(), correction=Metropolis)),
                        ('again', lambda k: (run(scn(), s_ := RandomWalk(stepsize=.49), 5, k, st()), run(scn(), s_, 3, k, st()))[1])]:
            o = val(f)
            ctx.state('interface', name); ctx.trans(); ctx.trace()
            ctx.close(o['value'], ref['value'], 'interface:' + name, 'the same chain however the settings are passed')
            ctx.close(o['potential'], ref['potential'], 'interface:' + name, 'the same chain however the settings are passed')
        with_meta = explore(lambda s, k: (lambda c: (hasattr(c, 'time') and hasattr(c, 'summary'), c.summary.sampler == 'Random Walk', c.summary.scenario == 'table'))
                            (run(scn(), RandomWalk(stepsize=.49), 3, k, st())), [0], one=True, jit=False)[0].out
        ctx.expect(all(bool(b) for b in with_meta), 'interface:summary', 'the chain carries the run time and a summary naming sampler and scenario', got=with_meta)

    return [('rw', rw), ('rw-prior', rw_prior), ('rw-resume', lambda c: resume(c, 'rw-resume', SRC[0], SRC)), ('rm', rm), ('underdamped', ud),
            ('ud-resume', lambda c: resume(c, 'ud-resume', SRC[3], SRC)), ('qn', qn),
            ('qn-resume', lambda c: resume(c, 'qn-resume', SRC[2], [SRC[0], SRC[1], SRC[2]], temps=(.5, 1.5))), ('rwabc', rwabc), ('rmabc', rmabc),
            ('vanilla', vanilla), ('smc-rw', smc_rw), ('smc-ud', smc_ud), ('smc-resume', smc_resume), ('smc-rm', smc_rm), ('smc-adapt', smc_adapt),
            ('abcsmc', lambda c: abcsmc(c, True)), ('abcsmc-adapt', lambda c: abcsmc(c, False)), ('svgd', lambda c: svgd(c, False)), ('svgd-batch', lambda c: svgd(c, True)),
            ('teki', lambda c: teki(c, False)), ('teki-adapt', lambda c: teki(c, True)), ('callers', callers), ('stochastic', stochastic), ('interface', interface)]
