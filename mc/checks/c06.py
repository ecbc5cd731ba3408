"""C06: which random key feeds which draw, monitored over every execution path of every algorithm."""
PROPERTY = 'C06'
JOBS = 8
BOUNDS = dict(
    quick='every sampler, filter, smoother and simulator for 2-4 particles and 2-3 steps, with deterministic and with noisy likelihoods; every accept / reject / rejection-loop outcome enumerated, the other draws fixed per key; '
          'resampling always / never / by weight',
    thorough='3-5 particles, 3-4 steps, finer acceptance grid')
ASSUMPTIONS = ['prior potentials are deterministic (scenarios hand one key to prior and likelihood evaluation)', 'draws of both sides of a conditional are attributed to the side executed']

ALG = ['rw', 'rw-unc', 'under', 'under-unc', 'qn', 'rw-noisy', 'under-noisy', 'smc', 'smc-under', 'smc-noisy', 'smc-ad', 'svgd', 'svgd-batch', 'svgd-noisy', 'teki', 'teki-ad', 'vabc', 'abcmcmc', 'abcsmc',
       'pf', 'pf-prop', 'pf-opt', 'pf-enkf', 'bsim', 'bsim-rej', 'ffbs', 'smooth-pf', 'smooth-bs', 'simulate', 'abc-models']


def case_names(tier):
    return list(ALG)


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, cdict, bits, Scenario
    from mc.rng import _mix_np, ROOT
    from jax import random
    from mocat import (RandomWalk, Underdamped, QNUnderdamped, Metropolis, RMMetropolis, Uncorrected, MetropolisedSMCSampler, RMMetropolisedSMCSampler, SVGD, TemperedEKI, AdaptiveTemperedEKI, run, ssm, abc, scenarios)
    from scipy.stats import norm as sn
    th = tier == 'thorough'
    C.log = []              # every function is traced with its key operations reported
    jax.config.update('jax_disable_most_optimizations', True)
    a = lambda *v: jnp.array(v, dtype=jnp.float32)
    NQ = 64
    QUANT = [(float(sn.ppf((i + .5) / NQ)), 1 / NQ) for i in range(NQ)]
    AR = [(0.001, .5), (.999, .5)] if not th else [(0.001, .25), (.3, .25), (.7, .25), (.999, .25)]

    def uses(log):
        """for every key: draws from it, and ways it was derived from with a used result"""
        draws, kids = {}, {}
        for op, tape, node, d in log:
            if op == 'draw':
                draws.setdefault(node, []).append(d)
            else:
                for c in d[1:]:
                    kids.setdefault(node, {}).setdefault('fold' if op == 'fold_in' else d[0], set()).add(c)
        memo = {}

        def used(node, depth=0):
            if node in memo:
                return memo[node]
            memo[node] = node in draws
            r = node in draws or any(used(c) for g in kids.get(node, {}).values() for c in g)
            memo[node] = r
            return r
        import sys
        sys.setrecursionlimit(100000)
        bad = []
        for node, ds in draws.items():
            if len(ds) > 1:
                bad.append(('drawn twice', ds))
        for node, gs in kids.items():
            live = [g for g, cs in gs.items() if any(used(c) for c in cs)]
            if node in draws and live:
                bad.append(('drawn from and split', draws[node] + [str(live)]))
            if len(live) > 1:
                bad.append(('split in two ways', [str(live)]))
        return bad, draws

    def monitor(ctx, tag, fn, scalars=None, hashed=('normal', 'categorical', 'poisson'), uniform=None, compiled=True, start=0.):
        """scalars: minimal number of scalar draws, by kind, that the algorithm needs on every path"""
        C.alpha = dict(normal=QUANT, uniform=uniform or AR, poisson=[(3, .5), (5, .5)])
        C.hashed = hashed
        f = jax.jit(fn) if compiled else fn

        def one(s, k):
            C.log = []
            out = f(k)
            jax.block_until_ready(out)
            jax.effects_barrier()
            log, C.log = C.log, []
            bad, draws = uses(log)
            tot = {}
            for ds in draws.values():
                for d in ds:
                    kind, shape = d.split('(', 1)
                    n = int(np.prod([int(x) for x in shape.strip(')').split(',') if x.strip()] or [1]))
                    tot[kind] = tot.get(kind, 0) + n
            ctx.trans(len(log))
            for what, ds in bad[:3]:
                ctx.expect(False, f'keys:{tag}:{what}', 'a random key is used once', how=what, draws=ds[:6])
            if not bad:
                ctx.expect(True, f'keys:{tag}', 'a random key is used once')
            for kind, m in (scalars or {}).items():
                ctx.expect(tot.get(kind, 0) >= m, f'fresh:{tag}:{kind}', 'every particle, step and component has its own draw', kind=kind, drawn=tot.get(kind, 0), needed=m)
            ctx.state(tag, tuple(sorted(tot.items())), len(log))
            return np.zeros(1)
        lv = explore(one, [start], one=True, jit=False, max_leaves=3000)
        ctx.explored(lv)
        C.hashed = ()
        ctx.sample(dict(algorithm=tag, paths=len(lv)))

    class Mod(Scenario):
        name = 'model'
        dim = 2
        data = a(.5, -.5)

        def prior_potential(self, x, random_key=None):
            return .5 * jnp.square(x).sum()

        def likelihood_potential(self, x, random_key=None):
            return 2 * jnp.square(x - self.data).sum()

        def prior_sample(self, random_key):
            return random.normal(random_key, (2,))

        def likelihood_sample(self, x, random_key):
            return x + .5 * random.normal(random_key, (2,))

    class Noisy(Mod):
        def likelihood_potential(self, x, random_key=None):
            return 2 * jnp.square(x - self.data + .3 * random.normal(random_key, (2,))).sum()

    class AM(abc.ABCScenario):
        name = 'abc'
        dim = 1
        data = a(.3)

        def prior_potential(self, x, random_key=None):
            return .5 * jnp.square(x).sum()

        def prior_sample(self, random_key):
            return random.normal(random_key, (1,))

        def likelihood_sample(self, x, random_key):
            return x + .5 * random.normal(random_key, (1,))

    tree = lambda c: {k: tree(v) if isinstance(v, cdict) else v for k, v in c.__dict__.items() if isinstance(v, (cdict, jnp.ndarray)) and k != 'summary'}
    N = 4 if th else 3

    def mcmc(ctx, tag, scen, make, corr, per, n=N, start_draws=0, **kw):
        s = scen()
        smp = make()
        # draws of a chain of n rows: n - 1 updates, plus the start
        need = {k: v * (n - 1) for k, v in per.items()}
        for k, v in (start_draws or {}).items():
            need[k] = need.get(k, 0) + v
        monitor(ctx, tag, lambda k: run(s, smp, n, k, correction=corr, **kw).value, need, compiled=False)

    def sampler(ctx, tag, scen, make, n, need, **kw):
        s = scen()
        smp = make()
        monitor(ctx, tag, lambda k: run(s, smp, n, k, **kw).value, need, compiled=False, hashed=('normal', 'categorical', 'poisson', 'uniform'))
    init = {'normal': 2}
    und = lambda **k: (lambda: Underdamped(stepsize=.3, leapfrog_steps=2, **{'friction': 1., **k}))
    cs = {}
    cs['rw'] = lambda c: [mcmc(c, 'rw-' + nm, Mod, lambda: RandomWalk(stepsize=.5), cr, dict(normal=2, uniform=1), start_draws=init) for nm, cr in (('metropolis', Metropolis), ('rm', RMMetropolis))]
    cs['rw-unc'] = lambda c: mcmc(c, 'rw-unc', Mod, lambda: RandomWalk(stepsize=.5), Uncorrected, dict(normal=2), start_draws=init)
    cs['under'] = lambda c: [mcmc(c, f'under-{nm}-{fr}', Mod, und(friction=fr), cr, dict(normal=2, uniform=1), start_draws=init) for nm, cr in (('metropolis', Metropolis), ('rm', RMMetropolis)) for fr in (1., jnp.inf)]
    cs['under-unc'] = lambda c: mcmc(c, 'under-unc', Mod, und(), Uncorrected, dict(normal=2), start_draws=init)
    cs['qn'] = lambda c: mcmc(c, 'qn', Mod, lambda: QNUnderdamped(stepsize=.3, leapfrog_steps=2, friction=1.), Metropolis, dict(normal=2, uniform=1), n=N + 1, start_draws=init)
    # noisy likelihood: one evaluation per random-walk update, one per leapfrog step
    cs['rw-noisy'] = lambda c: mcmc(c, 'rw-noisy', Noisy, lambda: RandomWalk(stepsize=.5), Metropolis, dict(normal=4, uniform=1), start_draws={'normal': 4})
    cs['under-noisy'] = lambda c: [mcmc(c, 'under-noisy', Noisy, und(), Metropolis, dict(normal=2 + 2 * 2, uniform=1), start_draws={'normal': 4}),
                                   mcmc(c, 'qn-noisy', Noisy, lambda: QNUnderdamped(stepsize=.3, leapfrog_steps=2, friction=1.), Metropolis, dict(normal=2 + 2 * 2, uniform=1), start_draws={'normal': 4})]
    sch = a(.4, 1.)

    def smc(c):
        for thr in (0., 1.):
            for steps in (1, 2):
                need = dict(normal=3 * 2 + 3 * 2 * steps, uniform=3 * steps)
                if thr:
                    need['categorical'] = 3
                sampler(c, f'smc-{thr}-{steps}', Mod, lambda: MetropolisedSMCSampler(RandomWalk(stepsize=.5), temperature_schedule=sch, mcmc_steps=steps, ess_threshold_resample=thr), 3, need)
        sampler(c, 'smc-long', Mod, lambda: MetropolisedSMCSampler(RandomWalk(stepsize=.5), temperature_schedule=a(.2, .5, 1.), ess_threshold_resample=1.), 2, dict(normal=2 * 2 + 2 * 2 * 2, uniform=4, categorical=4))
        sampler(c, 'smcrm', Mod, lambda: RMMetropolisedSMCSampler(RandomWalk(stepsize=.5), temperature_schedule=sch, ess_threshold_resample=1.), 3, dict(normal=12, uniform=3, categorical=3))

        class Aux(RandomWalk):
            # a kernel that draws an auxiliary variable of each particle when it starts
            def startup(self, scenario, n, initial_state=None, initial_extra=None, **kwargs):
                st, ex = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
                ex.random_key, k = random.split(ex.random_key)
                st.aux = random.normal(k, (2,))
                return st, ex
        rows = []

        def go(k):
            o = run(Mod(), MetropolisedSMCSampler(Aux(stepsize=.5), temperature_schedule=sch), 4, k)
            rows.append(np.asarray(o.aux))
            return o.value
        monitor(c, 'smc-aux', go, dict(normal=8 + 8), compiled=False, hashed=('normal', 'categorical', 'poisson', 'uniform'))
        for r in rows:
            c.expect(len({tuple(v) for v in r[0]}) == 4, 'fresh:smc-aux', 'the mcmc kernel of every particle starts from its own draws', first_row=r[0].tolist())
    cs['smc'] = smc
    cs['smc-under'] = lambda c: sampler(c, 'smc-under', Mod, lambda: MetropolisedSMCSampler(Underdamped(stepsize=.3, leapfrog_steps=2, friction=1.), temperature_schedule=sch, mcmc_steps=2), 2, dict(normal=4 + 8, uniform=4))
    cs['smc-noisy'] = lambda c: sampler(c, 'smc-noisy', Noisy, lambda: MetropolisedSMCSampler(RandomWalk(stepsize=.5), temperature_schedule=sch), 3, dict(normal=6 + 6 + 6 + 6, uniform=3))
    cs['smc-ad'] = lambda c: sampler(c, 'smc-ad', Mod, lambda: MetropolisedSMCSampler(RandomWalk(stepsize=.5), ess_threshold_retain=.6, max_iter=2), 3, dict(normal=6))
    cs['svgd'] = lambda c: sampler(c, 'svgd', Mod, lambda: SVGD(.1, max_iter=3), 4, dict(normal=8))
    cs['svgd-batch'] = lambda c: sampler(c, 'svgd-batch', Mod, lambda: SVGD(.1, max_iter=3, ensemble_batchsize=2), 4, dict(normal=8, categorical=3 * 4 * 2))
    cs['svgd-noisy'] = lambda c: [sampler(c, f'svgd-noisy-{b}', Noisy, lambda: SVGD(.1, max_iter=3, ensemble_batchsize=b), 4, dict(normal=8 + 8 + 3 * 8)) for b in (None, 2)]
    cs['teki'] = lambda c: [sampler(c, f'teki-{len(s)}', Mod, lambda: TemperedEKI(temperature_schedule=s), 5, dict(normal=10 + 10 + 20 * (len(s) - 1))) for s in (a(0., .3, 1.), a(0., .2, .5, 1.))]
    cs['teki-ad'] = lambda c: sampler(c, 'teki-ad', Mod, lambda: AdaptiveTemperedEKI(ess_threshold=.7, max_iter=3), 5, dict(normal=20))
    cs['vabc'] = lambda c: sampler(c, 'vabc', AM, lambda: abc.VanillaABC(threshold=.5), 5, dict(normal=10))

    def abcm(c):
        for nm, cr in (('metropolis', Metropolis), ('rm', RMMetropolis), ('diag', abc.RMMetropolisDiagStepsize)):
            mcmc(c, 'abcmcmc-' + nm, AM, lambda: abc.RandomWalkABC(threshold=1., stepsize=.5), cr, dict(normal=2, uniform=1), start_draws={'normal': 2})
    cs['abcmcmc'] = abcm

    def abcsmc(c):
        for thr in (0., 1.1):
            sampler(c, f'abcsmc-{thr}', AM, lambda: abc.MetropolisedABCSMCSampler(threshold_schedule=a(30., 20., 15.), ess_threshold_resample=thr), 2, dict(normal=4 + 2 * 2 * 2, uniform=4, **({'categorical': 4} if thr else {})))
        sampler(c, 'abcsmc-steps', AM, lambda: abc.MetropolisedABCSMCSampler(threshold_schedule=a(30., 20.), mcmc_steps=2), 2, dict(normal=4 + 8, uniform=4))
        sampler(c, 'abcsmc-ad', AM, lambda: abc.MetropolisedABCSMCSampler(max_iter=2, ess_threshold_retain=.7), 3, dict(normal=6))
    cs['abcsmc'] = abcsmc

    # ---- state-space models
    lg = lambda: ssm.TimeHomogenousLinearGaussian(initial_mean=a(0., 0.), initial_covariance=jnp.eye(2), transition_matrix=jnp.eye(2) * .9, transition_covariance=jnp.eye(2), likelihood_matrix=a(1., .5)[None], likelihood_covariance=jnp.eye(1))

    class NL(ssm.NonLinearGaussian):
        name = 'nl'

        def transition_function(self, x, s, t):
            return x * .5 + jnp.sin(x)
    nl = lambda: NL(initial_mean=a(0., 0.), transition_covariance=jnp.eye(2), likelihood_matrix=a(1., .5)[None], likelihood_covariance=jnp.eye(1))
    Y, T = a(.3, -.4, .8)[:, None], a(0., 1., 2.)
    PART = cdict(value=jnp.array(np.random.RandomState(1).randn(3, 4, 2), jnp.float32), log_weight=jnp.array(np.random.RandomState(2).randn(3, 4), jnp.float32), t=T, y=Y, ess=a(4., 3., 2.))
    SMO = cdict(value=PART.value, log_weight=jnp.zeros(4), t=T, y=Y, ess=a(4., 3., 2.))
    n = 4 if th else 3

    def pf(c):
        s = lg()
        for thr in (0., 1.1, .7):
            need = dict(normal=n * 2 * 3, **({'categorical': 2 * n} if thr > 1 else {}))
            monitor(c, f'pf-{thr}', lambda k: ssm.run_particle_filter_for_marginals(s, ssm.BootstrapFilter(), Y, T, k, n=n, ess_threshold=thr).value, need)
        monitor(c, 'pf-given', lambda k: ssm.run_particle_filter_for_marginals(s, ssm.BootstrapFilter(), Y, T + 3, k, initial_sample=PART, ess_threshold=1.1).value, dict(normal=24, categorical=12))
        monitor(c, 'pf-init', lambda k: ssm.initiate_particles(s, ssm.BootstrapFilter(), n, k, a(.2), 0.).value, dict(normal=2 * n))
        monitor(c, 'resample', lambda k: ssm.resample_particles(PART, k).value, dict(categorical=4))
    cs['pf'] = pf

    def prop(c):
        s = lg()
        for thr in (0., 1.1):
            for full in (True, False):
                monitor(c, f'prop-{thr}-{full}', lambda k: ssm.propagate_particle_filter(s, ssm.BootstrapFilter(), PART, a(.7), 3., k, ess_threshold=thr, resample_full=full).value, dict(normal=8, **({'categorical': 4} if thr else {})))
    cs['pf-prop'] = prop

    def others(F):
        def f(c):
            s = nl()
            fl = F()
            extra = 1 if F is ssm.EnsembleKalmanFilter else 0
            for thr in (0., 1.1):
                monitor(c, f'{F.__name__}-{thr}', lambda k: ssm.run_particle_filter_for_marginals(s, fl, Y, T, k, n=n, ess_threshold=thr).value, dict(normal=n * (2 * 3 + extra * 2), **({'categorical': 2 * n} if thr else {})), compiled=False)
                monitor(c, f'{F.__name__}-prop-{thr}', lambda k: ssm.propagate_particle_filter(s, fl, PART, a(.7), 3., k, ess_threshold=thr).value, dict(normal=8 + extra * 4))
            monitor(c, f'{F.__name__}-init', lambda k: ssm.initiate_particles(s, fl, n, k, a(.2), 0.).value, dict(normal=2 * n), compiled=False)
        return f
    cs['pf-opt'] = others(ssm.OptimalNonLinearGaussianParticleFilter)
    cs['pf-enkf'] = others(ssm.EnsembleKalmanFilter)
    cs['bsim'] = lambda c: [monitor(c, f'bsim-{m}', lambda k, m=m: ssm.backward_simulation(lg(), PART, k, m).value, dict(categorical=3 * m)) for m in (1, 2, 4)]

    def rej(c):
        s = lg()
        for m, K in ((1, 1), (1, 2), (2, 1), (2, 2)) + (((2, 3), (3, 2)) if th else ()):
            monitor(c, f'bsim-rej-{m}-{K}', lambda k: ssm.backward_simulation(s, PART, k, m, maximum_rejections=K, transition_dens_bound_parameter=1.).value, dict(categorical=3 * m, uniform=2 * m), uniform=[(0., .5), (1.5, .5)])
            monitor(c, f'bsim-adapt-{m}-{K}', lambda k: ssm.backward_simulation(s, PART, k, m, maximum_rejections=K).value, dict(categorical=3 * m), uniform=[(0., .5), (1.5, .5)])
    cs['bsim-rej'] = rej

    def ffbs(c):
        s = lg()
        monitor(c, 'ffbs', lambda k: ssm.forward_filtering_backward_simulation(s, ssm.BootstrapFilter(), Y, T, 2, k, n_pf=3, ess_threshold=1.1).value, dict(normal=18, categorical=6 + 6), compiled=False)
        monitor(c, 'ffbs-rej', lambda k: ssm.forward_filtering_backward_simulation(s, ssm.BootstrapFilter(), Y, T, 1, k, n_pf=3, maximum_rejections=2, transition_dens_bound_parameter=1.).value, dict(normal=18, uniform=2), compiled=False,
                uniform=[(0., .5), (1.5, .5)])
    cs['ffbs'] = ffbs

    def sm_pf(c):
        s = lg()
        W = SMO.copy()
        W.log_weight = jnp.array([.5, -1., .3, 2.])
        for lag in (1, 2, 4):
            for K in (0, 1):
                for nm, P in (('equal', SMO), ('weighted', W)):
                    if K and nm == 'weighted' and not th:
                        continue
                    need = dict(normal=8, **({'categorical': (4 if nm == 'weighted' else 0) + (4 if lag < 4 else 0)}))
                    P3 = cdict(value=P.value[:, :2], log_weight=P.log_weight[:2], t=T, y=Y, ess=a(2.)) if K else P
                    if K:
                        need = dict(normal=4, categorical=2 if lag < 4 else 0)
                    monitor(c, f'smooth-pf-{lag}-{K}-{nm}', lambda k: ssm.propagate_particle_smoother(s, ssm.BootstrapFilter(), P3, a(.7), 3., k, lag, False, maximum_rejections=K, init_bound_param=1. if K else 0.).value, need, uniform=[(0., .5), (1.5, .5)])
    cs['smooth-pf'] = sm_pf

    def sm_bs(c):
        s = lg()
        for lag in (1, 2, 4):
            for K in (0, 1):
                m = 2 if K else 4
                P = cdict(value=PART.value[:, :m], log_weight=PART.log_weight[:, :m], t=T, y=Y, ess=a(2., 2., 1.))
                if K and lag == 4 and not th:
                    continue
                for thr in (0., 1.1):
                    monitor(c, f'smooth-bs-{lag}-{K}-{thr}', lambda k: ssm.propagate_particle_smoother(s, ssm.BootstrapFilter(), P, a(.7), 3., k, lag, True, ess_threshold=thr, maximum_rejections=K, init_bound_param=1. if K else 0.).value,
                            dict(normal=2 * m, categorical=(m if thr else 0) + m * (lag + 1 if lag < 4 else 4) + (m if lag < 4 else 0)), uniform=[(0., .5), (1.5, .5)])
    cs['smooth-bs'] = sm_bs

    def sim(c):
        for nm, s in (('lg', lg()), ('nl', nl()), ('bench', ssm.scenarios.NonLinear1DBenchmark()), ('sv', ssm.scenarios.StochasticVolatility(dim=2)), ('lorenz', ssm.scenarios.Lorenz63())):
            for L in (1, 2, 3):
                t = T[:L] * (.1 if nm == 'lorenz' else 1.)
                monitor(c, f'simulate-{nm}-{L}', lambda k: (lambda o: (o.x, o.y))(s.simulate(t, k)), dict(normal=L * (s.dim + s.dim_obs)))
    cs['simulate'] = sim

    def models(c):
        U = [((i + .5) / 16, 1 / 16) for i in range(16)]
        hk = ('normal', 'categorical', 'poisson', 'uniform')
        sc = abc.scenarios

        def gk(K):
            class G(K):
                n_unsummarised_data = 5

                def summarise_data(self, data):
                    return jnp.sort(data)[1:4]
            return G()

        def sir(K):
            s = K()
            s.initial_si, s.max_iter = jnp.array([3, 1]), 20
            return s

        def lv(K):
            s = K()
            s.initial_prey_pred, s.times, s.max_iter = jnp.array([4, 3]), a(0., .3, .7), 30
            return s
        M = {nm: (gk(getattr(sc, nm)), lambda s, x, k: s.likelihood_sample(x, k), dict(uniform=5))
             for nm in ('GKUniformPrior', 'GKTransformedUniformPrior', 'GKOnlyAUniformPrior', 'GKOnlyATransformedUniformPrior')}
        for nm in ('SIR', 'TransformedSIR'):
            M[nm] = (sir(getattr(sc, nm)), lambda s, x, k: s.simulate_times_and_si(x, k), dict(uniform=1))
        for nm in ('LotkaVolterra', 'TransformedLotkaVolterra'):
            M[nm] = (lv(getattr(sc, nm)), lambda s, x, k: s.likelihood_sample(x, k), dict(uniform=1))
        rk = sc.Ricker()
        rk.num_steps, rk.observation_inds = 4, jnp.array([1, 3, 4])
        for x in ((3., .3, 2.), (5., .1, 10.)):
            monitor(c, 'model-Ricker', lambda k: rk.likelihood_sample(a(*x), k), dict(normal=4, poisson=3), hashed=hk, uniform=U)
        monitor(c, 'models-Ricker', lambda k: jax.vmap(rk.likelihood_sample)(jnp.tile(a(3., .3, 2.), (3, 1)), random.split(k, 3)), dict(normal=12, poisson=9), hashed=hk, uniform=U)
        M['LinearGaussian'] = (sc.LinearGaussian(prior_mean=jnp.zeros(2), prior_covariance=jnp.eye(2), data=jnp.zeros(3), likelihood_matrix=jnp.ones((3, 2)), likelihood_covariance=jnp.eye(3)),
                               lambda s, x, k: s.likelihood_sample(x, k), dict(normal=3))
        for nm, (s, f, need) in M.items():
            monitor(c, f'prior-{nm}', lambda k: s.prior_sample(k), None, hashed=hk, uniform=U)
            C.hashed = hk
            xs = [np.asarray(s.prior_sample(jnp.array([0xFFFFFFF, _mix_np(r + 77)], dtype=jnp.uint32))) for r in range(4)]
            C.hashed = ()
            c.expect(len({tuple(np.round(v, 5)) for v in xs}) > 1, f'prior:{nm}', 'prior draws vary with the key')
            for x in xs[:2]:
                monitor(c, f'model-{nm}', lambda k: f(s, jnp.array(x), k), need, hashed=hk, uniform=U)
            # a run over particles: every particle simulates with its own key
            monitor(c, f'models-{nm}', lambda k: jax.lax.map(lambda v: f(s, *v), (jnp.array(np.stack(xs[:3])), random.split(k, 3))), {k: 3 * v for k, v in need.items()}, hashed=hk, uniform=U)
    cs['abc-models'] = models
    return [(k, lambda c, f=cs[k]: f(c)) for k in ALG]
