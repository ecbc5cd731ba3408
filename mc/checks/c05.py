"""C05: every short history of reconfigurations and uses of an object against a freshly built object."""
PROPERTY = 'C05'
JOBS = 8
BOUNDS = dict(
    quick='per family of objects: every word of <= 3 operations (assign one of the listed values to an attribute, run / filter / smooth / evaluate) ending in a use, each use compared with the same use of freshly '
          'built objects configured with the current values; every use also repeated; arguments compared before and after every use',
    thorough='words of <= 4 operations')
ASSUMPTIONS = ['real pseudo-random generator with a fixed key (equal keys must give equal results)',
               'run keyword arguments are assignments: they persist on the sampler']

FAMILIES = ['lg-pf', 'lg-smooth', 'lg-bsim', 'lg-kalman', 'lgt', 'nl-opt', 'nl-enkf', 'bench', 'sv', 'lorenz', 'filter-attr', 'eval-gauss', 'eval-mix', 'eval-2d', 'eval-user', 'rw', 'rw-rm', 'under', 'qn',
            'corr', 'smc', 'smc-rm', 'svgd', 'svgd-batch', 'teki', 'teki-ad', 'vabc', 'abcmcmc', 'abcsmc', 'kernel', 'inputs'] + ['twice-' + k for k in ('rw', 'rm', 'under', 'qn', 'smc', 'smcrm', 'smcu', 'svgd', 'svgdb', 'teki', 'tekia', 'vabc', 'abcm', 'abcs')]


def case_names(tier):
    return list(FAMILIES)


def cases(tier):
    import itertools
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    import jax
    import jax.numpy as jnp
    from jax import random
    jax.config.update('jax_disable_most_optimizations', True)
    import mocat
    from mocat.src.core import is_implemented
    from mocat.src.transport.svgd import adapt_bandwidth_mean
    from mocat import cdict, static_cdict, run, Scenario, ssm, abc, kernels
    from mocat import RandomWalk, Underdamped, QNUnderdamped, RMMetropolis, Metropolis, Uncorrected, MetropolisedSMCSampler, RMMetropolisedSMCSampler, SVGD, TemperedEKI, AdaptiveTemperedEKI
    th = tier == 'thorough'
    D = 4 if th else 3
    KEY = random.PRNGKey(7)
    a = lambda *v: jnp.array(v, dtype=jnp.float32)

    def tree(x):
        """comparable content (wall-clock time removed)"""
        if isinstance(x, cdict):
            return {k: tree(v) for k, v in x.__dict__.items() if not k.endswith('time')}
        if isinstance(x, dict):
            return {k: tree(v) for k, v in x.items()}
        if isinstance(x, (tuple, list)):
            return [tree(v) for v in x]
        if x is None or isinstance(x, str) or callable(x):
            return x if not callable(x) else None
        return np.asarray(x)

    def diff(g, w, path=''):
        if isinstance(w, dict):
            if not isinstance(g, dict) or set(g) != set(w):
                return path + ': fields differ'
            for k in w:
                d = diff(g[k], w[k], f'{path}.{k}')
                if d:
                    return d
            return None
        if isinstance(w, list):
            if not isinstance(g, list) or len(g) != len(w):
                return path + ': lengths differ'
            for i, (x, y) in enumerate(zip(g, w)):
                d = diff(x, y, f'{path}[{i}]')
                if d:
                    return d
            return None
        if isinstance(w, np.ndarray):
            if not isinstance(g, np.ndarray) or g.shape != w.shape:
                return f'{path}: shape {getattr(g, "shape", None)} instead of {w.shape}'
            if w.dtype.kind in 'fc':
                ok = np.allclose(g, w, rtol=1e-4, atol=1e-5, equal_nan=True)
            else:
                ok = np.array_equal(g, w)
            return None if ok else f'{path}: {np.array2string(g.ravel()[:6])} instead of {np.array2string(w.ravel()[:6])}'
        return None if g == w else f'{path}: {g!r} instead of {w!r}'

    def family(ctx, build, assign, attrs, uses, depth=None):
        """build(config) -> fresh objects; assign(objects, attribute, value); uses: name -> fn(objects, config)"""
        depth = depth or D
        names = list(attrs)
        init = {k: 0 for k in names}
        fresh = {}

        def reference(cfg, use):
            kk = (tuple(cfg.values()), use)
            if kk not in fresh:
                vals = {k: attrs[k][i] for k, i in cfg.items()}
                fresh[kk] = tree(uses[use](build(vals), vals))
            return fresh[kk]
        ops = [('set', k, i) for k in names for i in range(len(attrs[k]))] + [('use', u) for u in uses]

        def words():
            for L in range(1, depth):
                for w in itertools.product(ops, repeat=L):
                    cfg = dict(init)
                    ok = True
                    last = None
                    for o in w:
                        if o[0] == 'set':
                            # no assignment of the current value, none overwritten at once
                            if cfg[o[1]] == o[2] or (last is not None and last[0] == 'set' and last[1] >= o[1]):
                                ok = False
                                break
                            cfg[o[1]] = o[2]
                        last = o
                    # words whose proper prefixes are covered: end with a use after
                    if ok and (L == depth - 1 or w[-1][0] == 'set'):
                        for u in uses:
                            if w[-1] != ('use', u) or len(w) == 1:
                                yield w + (('use', u),)
        for w in words():
            # a word with no assignment at all is checked once by its shortest form
            cfg = dict(init)
            vals = {k: attrs[k][i] for k, i in cfg.items()}
            objs = build(vals)
            seen = set()
            for j, o in enumerate(w):
                if o[0] == 'set':
                    cfg[o[1]] = o[2]
                    vals = {k: attrs[k][i] for k, i in cfg.items()}
                    assign(objs, o[1], vals[o[1]])
                else:
                    got = tree(uses[o[1]](objs, vals))
                    d = diff(got, reference(cfg, o[1]), o[1])
                    if not ctx.expect(d is None, f'hist:{ctx.case}:{o[1]}', 'a reused object behaves as a fresh one', word=[list(map(str, x)) for x in w[:j + 1]], config={k: str(v)[:80] for k, v in vals.items()}, difference=d):
                        break
                ctx.trans()
            ctx.state(w)
            ctx.trace()
        ctx.sample(dict(attributes={k: len(v) for k, v in attrs.items()}, uses=list(uses), depth=depth))

    def setobj(objs, k, v):
        o, at = k.split('.', 1)
        if at.startswith('parameters.'):
            setattr(objs[o].parameters, at.split('.')[1], v)
        else:
            setattr(objs[o], at, v)

    # ---------------------------------------------------------------- state-space models
    Y = a(.3, -.4, .8)[:, None]
    T = a(0., 1., 2.)

    def lg(v):
        return ssm.TimeHomogenousLinearGaussian(initial_mean=v['s.initial_mean'], initial_covariance=jnp.eye(2), transition_matrix=v['s.transition_matrix'], transition_covariance=v['s.transition_covariance'],
                                                likelihood_matrix=a(1., .5)[None], likelihood_covariance=v['s.likelihood_covariance'])
    LGA = {'s.initial_mean': [a(0., 0.), a(1., -1.)], 's.transition_matrix': [jnp.eye(2) * .9, jnp.array([[.5, .3], [0., 1.1]])], 's.transition_covariance': [jnp.eye(2), jnp.array([[.5, .2], [.2, .3]])],
           's.likelihood_covariance': [jnp.eye(1), a(.1)[None]]}
    boot = lambda: ssm.BootstrapFilter()
    PART = cdict(value=random.normal(random.PRNGKey(1), (3, 4, 2)), log_weight=random.normal(random.PRNGKey(2), (3, 4)), t=T, y=Y, ess=a(4., 3., 2.))
    SMO = cdict(value=random.normal(random.PRNGKey(1), (3, 4, 2)), log_weight=jnp.zeros((4,)), t=T, y=Y, ess=a(4., 3., 2.))

    def pf(o, v):
        return ssm.run_particle_filter_for_marginals(o['s'], o['f'], Y, T, KEY, n=4)

    def prop(o, v):
        return ssm.propagate_particle_filter(o['s'], o['f'], PART, a(.7), 3., KEY, ess_threshold=.9)

    def init(o, v):
        return ssm.initiate_particles(o['s'], o['f'], 4, KEY, a(.2), 0.)

    def sub(keys):
        return {k: LGA[k] for k in keys}

    def lgbuild(keys):
        def b(v):
            v = {**{k: LGA[k][0] for k in LGA}, **v}
            return dict(s=lg(v), f=boot())
        return b

    def lg_pf(ctx):
        for keys in (['s.likelihood_covariance', 's.transition_matrix'], ['s.transition_covariance', 's.initial_mean']):
            family(ctx, lgbuild(keys), setobj, sub(keys), dict(pf=pf))
            family(ctx, lgbuild(keys), setobj, sub(keys), dict(prop=prop, init=init), depth=3)
        # matrix reset with the derived quantities also reset by hand is the documented interface: nothing else

    def lg_smooth(ctx):
        sm = lambda **kw: lambda o, v: ssm.propagate_particle_smoother(o['s'], o['f'], PART if kw['backward_sim'] else SMO, a(.7), 3., KEY, lag=1, **kw)
        for keys in (['s.likelihood_covariance', 's.transition_matrix'], ['s.transition_covariance']):
            family(ctx, lgbuild(keys), setobj, sub(keys), dict(pf=sm(backward_sim=False)), depth=3)
            family(ctx, lgbuild(keys), setobj, sub(keys[:1]) if len(keys) > 1 else sub(keys), dict(bs=sm(backward_sim=True)), depth=3)

    def lg_bsim(ctx):
        for keys in (['s.transition_covariance', 's.transition_matrix'],):
            family(ctx, lgbuild(keys), setobj, sub(keys), dict(full=lambda o, v: ssm.backward_simulation(o['s'], PART, KEY, 4),
                                                                rej=lambda o, v: ssm.backward_simulation(o['s'], PART, KEY, 4, maximum_rejections=2, transition_dens_bound_parameter=3.)), depth=3)
        family(ctx, lgbuild([]), setobj, sub(['s.transition_matrix', 's.likelihood_covariance']), dict(ffbs=lambda o, v: ssm.forward_filtering_backward_simulation(o['s'], o['f'], Y, T, 4, KEY)), depth=3)

    def lg_kalman(ctx):
        kf = lambda o, v: ssm.run_kalman_filter_for_marginals(o['s'], Y, T)
        ks = lambda o, v: ssm.run_kalman_smoother_for_marginals(o['s'], Y, T)
        sim = lambda o, v: o['s'].simulate(T, KEY)
        pot = lambda o, v: [o['s'].initial_potential(a(.3, .2), 0.), o['s'].transition_potential(a(.3, .2), 0., a(-1., .4), 1.), o['s'].likelihood_potential(a(.3, .2), a(.5), 0.),
                            o['s'].smoothing_potential(PART.value[:, 0], Y, T), o['s'].grad_smoothing_potential(PART.value[:, 0], Y, T),
                            o['s'].transition_sample(a(.3, .2), 0., 1., KEY), o['s'].likelihood_sample(a(.3, .2), 0., KEY), o['s'].initial_sample(0., KEY)]
        for keys in itertools.combinations(list(LGA), 2):
            family(ctx, lgbuild(keys), setobj, sub(keys), dict(kf=kf), depth=3)
        for keys in itertools.combinations(list(LGA), 2) if th else [list(LGA)[:2], list(LGA)[2:]]:
            family(ctx, lgbuild(keys), setobj, sub(keys), dict(pot=pot), depth=3)
        family(ctx, lgbuild([]), setobj, sub(list(LGA)[1:3]), dict(ks=ks, sim=sim), depth=3)

    def lgt(ctx):
        class M(ssm.LinearGaussian):
            dim = 1
            dim_obs = 1
            name = 'time-varying'

            def __init__(self, **kw):
                self.__dict__.update(kw)
                super().__init__()

            def get_initial_mean(self, t):
                return a(1.) * self.m

            def get_initial_covariance_sqrt(self, t):
                return jnp.eye(1)

            get_initial_precision_sqrt = get_initial_covariance_sqrt

            def get_initial_precision_det(self, t):
                return 1.

            def get_transition_matrix(self, s, t):
                return jnp.eye(1) * self.phi ** (t - s)

            def get_transition_covariance_sqrt(self, s, t):
                return jnp.eye(1) * jnp.sqrt(t - s)

            def get_transition_precision_sqrt(self, s, t):
                return jnp.eye(1) / jnp.sqrt(t - s)

            def get_transition_precision_det(self, s, t):
                return 1. / (t - s)

            def get_likelihood_matrix(self, t):
                return jnp.eye(1)

            def get_likelihood_covariance_sqrt(self, t):
                return jnp.eye(1) * self.r

            def get_likelihood_precision_sqrt(self, t):
                return jnp.eye(1) / self.r

            def get_likelihood_precision_det(self, t):
                return 1. / self.r ** 2
        att = {'s.m': [0., 2.], 's.phi': [.9, -.5], 's.r': [1., .2]}
        b = lambda v: dict(s=M(**{**dict(m=0., phi=.9, r=1.), **{k[2:]: x for k, x in v.items()}}), f=boot())
        family(ctx, b, setobj, {k: att[k] for k in ('s.phi', 's.r')}, dict(pf=pf, kf=lambda o, v: ssm.run_kalman_filter_for_marginals(o['s'], Y, T)), depth=3)
        family(ctx, b, setobj, {k: att[k] for k in ('s.m',)}, dict(pf=pf, ks=lambda o, v: ssm.run_kalman_smoother_for_marginals(o['s'], Y, T)), depth=3)

    class NL(ssm.NonLinearGaussian):
        name = 'nl'
        scale = .5

        def transition_function(self, x, s, t):
            return x * self.scale + jnp.sin(x)

    def nlb(f):
        def b(v):
            s = NL(initial_mean=a(0., 0.), initial_covariance=jnp.eye(2), transition_covariance=v.get('s.transition_covariance', LGA['s.transition_covariance'][0]), likelihood_matrix=a(1., .5)[None],
                   likelihood_covariance=v.get('s.likelihood_covariance', LGA['s.likelihood_covariance'][0]))
            s.scale = v.get('s.scale', .5)
            if 's.likelihood_matrix' in v:
                s.likelihood_matrix = v['s.likelihood_matrix']
            return dict(s=s, f=f())
        return b
    NLA = {'s.transition_covariance': LGA['s.transition_covariance'], 's.likelihood_covariance': LGA['s.likelihood_covariance'], 's.scale': [.5, -1.], 's.likelihood_matrix': [a(1., .5)[None], a(0., 2.)[None]]}

    def nl_opt(ctx):
        f = ssm.OptimalNonLinearGaussianParticleFilter
        for keys in (['s.transition_covariance', 's.scale'], ['s.likelihood_covariance', 's.likelihood_matrix']):
            family(ctx, nlb(f), setobj, {k: NLA[k] for k in keys}, dict(pf=pf), depth=3)

        def prop2(o, v):
            o['f'].startup(o['s'])
            return prop(o, v)
        family(ctx, nlb(f), setobj, {k: NLA[k] for k in ('s.likelihood_covariance', 's.scale')}, dict(prop=prop2, init=init), depth=3)
        two_models(ctx, f)

    def two_models(ctx, f):
        """one filter object used with two models in any order"""
        ms = [NL(initial_mean=a(0., 0.), transition_covariance=jnp.eye(2), likelihood_matrix=a(1., .5)[None], likelihood_covariance=jnp.eye(1) * r) for r in (1., .1)]
        family(ctx, lambda v: dict(f=f(), s=v['s']), lambda o, k, v: o.__setitem__('s', v), {'s': ms}, dict(pf=pf))

    def nl_enkf(ctx):
        f = ssm.EnsembleKalmanFilter
        for keys in (['s.transition_covariance', 's.scale'], ['s.likelihood_covariance', 's.likelihood_matrix']):
            family(ctx, nlb(f), setobj, {k: NLA[k] for k in keys}, dict(pf=pf), depth=3)
        two_models(ctx, f)

    def bench(ctx):
        S = ssm.scenarios.NonLinear1DBenchmark
        b = lambda v: dict(s=S(**{k[2:]: x for k, x in v.items()}), f=boot())
        att = {'s.transition_sd': [3., .5], 's.likelihood_sd': [1., .2], 's.initial_sd': [1., 2.]}
        P1 = cdict(value=PART.value[..., :1], log_weight=PART.log_weight, t=T, y=Y, ess=PART.ess)
        bs = lambda o, v: ssm.backward_simulation(o['s'], P1, KEY, 4)
        family(ctx, b, setobj, {k: att[k] for k in ('s.transition_sd', 's.likelihood_sd')}, dict(pf=pf, bs=bs), depth=3)
        family(ctx, b, setobj, {k: att[k] for k in ('s.initial_sd',)}, dict(pf=pf, pot=lambda o, v: [o['s'].smoothing_potential(P1.value[:, 0], Y, T), o['s'].grad_smoothing_potential(P1.value[:, 0], Y, T)]))

    def sv(ctx):
        import inspect
        S = ssm.scenarios.StochasticVolatility
        b = lambda v: dict(s=S(dim=2, **{k[2:]: x for k, x in v.items()}), f=boot())
        ps = [p for p in inspect.signature(S.__init__).parameters if p not in ('self', 'name', 'kwargs', 'dim')]
        obj = S(dim=2)
        att = {}
        for p in ps:
            cur = getattr(obj, p, None)
            if cur is not None and not callable(cur):
                att['s.' + p] = [cur, cur * .5 + (.1 if np.ndim(cur) < 2 else 0.)]
        ks = list(att)
        d = obj.dim
        P1 = PART.value[..., :d] if d <= 2 else None
        yd = obj.dim_obs
        YY = jnp.tile(Y, (1, yd)) + jnp.arange(yd) * .2
        pfy = lambda o, v: ssm.run_particle_filter_for_marginals(o['s'], o['f'], YY, T, KEY, n=4)
        pot = lambda o, v: [o['s'].smoothing_potential(P1[:, 0], YY, T), o['s'].simulate(T, KEY)]
        for i in range(0, len(ks), 2):
            family(ctx, b, setobj, {k: att[k] for k in ks[i:i + 2]}, dict(pf=pfy), depth=3)
            if P1 is not None:
                family(ctx, b, setobj, {k: att[k] for k in ks[i:i + 2]}, dict(pot=pot), depth=3)

    def lorenz(ctx):
        S = ssm.scenarios.Lorenz63
        b = lambda v: dict(s=S(likelihood_matrix=jnp.eye(3)[:1], **{k[2:]: x for k, x in v.items()}), f=boot())
        fn = lambda o, v: [o['s'].transition_function(a(1., 2., 3.), 0., .1), o['s'].transition_sample(a(1., 2., 3.), 0., .1, KEY)]
        pf3 = lambda o, v: ssm.run_particle_filter_for_marginals(o['s'], o['f'], Y, T * .05, KEY, n=3)
        family(ctx, b, setobj, {'s.rho': [28., 5.], 's.sigma': [10., 1.], 's.beta': [8 / 3, .5]}, dict(fn=fn), depth=3)
        family(ctx, b, setobj, {'s.rho': [28., 5.]}, dict(pf=pf3), depth=4 if th else 3)
        S2 = ssm.scenarios.Lorenz96
        b2 = lambda v: dict(s=S2(dim=4, **{k[2:]: x for k, x in v.items()}), f=boot())
        family(ctx, b2, setobj, {'s.forcing_constant': [8., 1.], 's.transition_covariance': [jnp.eye(4), jnp.eye(4) * .1]}, dict(fn=lambda o, v: [o['s'].transition_function(a(1., 2., 3., 4.), 0., .1), o['s'].transition_sample(a(1., 2., 3., 4.), 0., .1, KEY)]), depth=3)

    def filter_attr(ctx):
        class F(ssm.ParticleFilter):
            w = 1.

            def proposal_potential(self, s, x0, t0, x, y, t):
                return .5 * jnp.square(x - self.w * y).sum()

            def proposal_sample(self, s, x0, t0, y, t, rk):
                return self.w * y + random.normal(rk, x0.shape)

        def b(v):
            f = F()
            f.w = v['f.w']
            return dict(s=lg({**{k: LGA[k][0] for k in LGA}, **{k: x for k, x in v.items() if k[0] == 's'}}), f=f)
        sm = lambda o, v: ssm.propagate_particle_smoother(o['s'], o['f'], SMO, a(.7), 3., KEY, lag=1, backward_sim=False)
        family(ctx, b, setobj, {'f.w': [1., -2.], 's.likelihood_covariance': LGA['s.likelihood_covariance']}, dict(pf=pf, prop=prop), depth=3)
        family(ctx, b, setobj, {'f.w': [1., -2.]}, dict(sm=sm), depth=3)

        # other inputs between uses: same objects with other observations, times, sizes
        def pfy(o, v):
            return ssm.run_particle_filter_for_marginals(o['s'], o['f'], v['in'][0], v['in'][1], KEY, n=v['in'][2], ess_threshold=v['in'][3])
        ins = [(Y, T, 4, .5), (Y[::-1] * 2, T * 2, 4, .5), (Y[:2], T[:2], 3, 1.)]
        family(ctx, lambda v: b({'f.w': 1.}), lambda o, k, v: None, {'in': ins}, dict(pf=pfy))

    # ---------------------------------------------------------------- scenario evaluation
    X2 = a(.3, -.8)

    def ev(o, v):
        s = o['s']
        out = [s.potential(X2), s.grad_potential(X2), s.potential_and_grad(X2, None), s.prior_potential(X2), s.likelihood_potential(X2), s.tempered_potential(X2, .3), jax.jit(lambda x: s.potential(x))(X2)]
        if is_implemented(s.prior_sample):
            out.append(s.prior_sample(KEY))
        return out

    def rwrun(o, v):
        return run(o['s'], RandomWalk(stepsize=.5), 4, KEY, correction=Metropolis)

    def eval_gauss(ctx):
        S = mocat.scenarios.Gaussian
        b = lambda v: (lambda s: (setattr(s, 'temperature', v.get('s.temperature', 1.)), dict(s=s))[1])(S(mean=v.get('s.mean', a(0., 0.)), covariance=v.get('s.covariance', jnp.eye(2))))
        att = {'s.mean': [a(0., 0.), a(1., 2.)], 's.covariance': [jnp.eye(2), jnp.array([[2., .5], [.5, 1.]])], 's.temperature': [1., .25]}
        family(ctx, b, setobj, att, dict(ev=ev), depth=4)
        family(ctx, b, setobj, {k: att[k] for k in list(att)[1:]}, dict(run=rwrun, ev=ev), depth=3)

    def eval_mix(ctx):
        S = mocat.scenarios.GaussianMixture
        att = {'s.means': [jnp.array([[-1., 0.], [1., 1.]]), jnp.array([[0., 0.], [2., -1.]])], 's.covariances': [jnp.array([[[1., 0.], [0., 1.]]] * 2), jnp.array([[[.5, .1], [.1, 2.]], [[1., 0.], [0., 1.]]])],
               's.weights': [a(.5, .5), a(.2, .8)]}
        b = lambda v: dict(s=S(**{k[2:]: x for k, x in v.items()}))
        family(ctx, b, setobj, att, dict(ev=ev), depth=4)
        family(ctx, lambda v: b({**{k: x[0] for k, x in att.items()}, **v}), setobj, {k: att[k] for k in ('s.weights', 's.means')}, dict(run=rwrun), depth=3)

    def eval_2d(ctx):
        for nm in ('Banana', 'DoubleWell', 'NealFunnel', 'Rosenbrock', 'OtherDoubleWell'):
            S = getattr(mocat.twodim, nm, None) or getattr(mocat.scenarios, nm, None)
            if S is None:
                continue
            try:
                s0 = S()
            except TypeError:
                continue
            num = [k for k in dir(s0) if not k.startswith('_') and isinstance(getattr(s0, k), float) and k not in ('temperature',)]

            def b(v, S=S):
                s = S()
                for k, x in v.items():
                    setattr(s, k[2:], x)
                return dict(s=s)
            att = {'s.' + k: [getattr(s0, k), getattr(s0, k) * .5 + .3] for k in num[:2]}
            att['s.temperature'] = [1., .5]
            d = s0.dim
            x = jnp.arange(1., 1 + d) * .4
            f = lambda o, v, x=x: [o['s'].potential(x), o['s'].grad_potential(x), o['s'].potential_and_grad(x, None)]
            family(ctx, b, setobj, att, dict(ev=f), depth=3)

    def eval_user(ctx):
        P = [lambda x, rk=None: .5 * jnp.square(x).sum(), lambda x, rk=None: jnp.abs(x - 1).sum()]
        L = [lambda x, rk=None: 2 * jnp.square(x - 1).sum(), lambda x, rk=None: jnp.cos(x).sum()]

        class S(Scenario):
            name = 'user'
            dim = 2
            shift = 0.

            def prior_potential(self, x, random_key=None):
                return .5 * jnp.square(x - self.shift).sum()

            def likelihood_potential(self, x, random_key=None):
                return jnp.square(x * self.shift + 1).sum()

            def prior_sample(self, random_key):
                return random.normal(random_key, (2,)) + self.shift

        def b(v):
            s = S()
            s.shift = v['s.shift']
            s.temperature = v.get('s.temperature', 1.)
            return dict(s=s)
        family(ctx, b, setobj, {'s.shift': [0., 2.], 's.temperature': [1., .3]}, dict(ev=ev, run=rwrun), depth=3)

        def b2(v):
            s = Scenario.__new__(type('U', (Scenario,), dict(name='u', dim=2)))
            type(s).__init__(s, prior_potential=v['s.prior_potential'], likelihood_potential=v['s.likelihood_potential'])
            s.temperature = v.get('s.temperature', 1.)
            return dict(s=s)
        family(ctx, b2, setobj, {'s.prior_potential': P, 's.likelihood_potential': L, 's.temperature': [1., .3]}, dict(ev=ev), depth=4)
        family(ctx, b2, setobj, {'s.prior_potential': P, 's.likelihood_potential': L}, dict(run=lambda o, v: run(o['s'], Underdamped(stepsize=.3, friction=1., leapfrog_steps=2), 3, KEY, correction=Metropolis)), depth=3)

    # ---------------------------------------------------------------- samplers
    gauss = lambda: mocat.scenarios.Gaussian(mean=a(1., 0.), covariance=jnp.array([[2., .5], [.5, 1.]]))

    class Mod(Scenario):
        name = 'model'
        dim = 2
        data = a(.5, -.5)

        def prior_potential(self, x, random_key=None):
            return .5 * jnp.square(x).sum()

        def likelihood_potential(self, x, random_key=None):
            return 2 * jnp.square(x - self.data).sum()

        def prior_sample(self, random_key):
            return random.normal(random_key, (2,))

        def likelihood_sample(self, x, random_key):
            return x + .5 * random.normal(random_key, (2,))

    def mcmc(ctx, make, att, corr, nn=(4, 6), scen=gauss):
        def b(v):
            s = make()
            s.correction = corr
            o = dict(m=s, s=scen())
            for k, x in v.items():
                if k not in ('n',):
                    setobj(o, k, x)
            return o
        use = lambda o, v: run(o['s'], o['m'], v.get('n', nn[0]), KEY)
        full = {**att, 'n': list(nn)}
        ks = list(full)
        for pair in itertools.combinations(ks, 2):
            family(ctx, b, lambda o, k, v: None if k == 'n' else setobj(o, k, v), {k: full[k] for k in pair}, dict(run=use), depth=D if len(ks) < 4 else 3)

    def rw(ctx):
        mcmc(ctx, lambda: RandomWalk(stepsize=.5), {'m.parameters.stepsize': [.5, .1], 's.temperature': [1., .3]}, Metropolis)

    def rw_rm(ctx):
        mcmc(ctx, lambda: RandomWalk(stepsize=.5), {'m.parameters.stepsize': [.5, None, .1], 's.temperature': [1., .3]}, RMMetropolis)

    def under(ctx):
        mcmc(ctx, lambda: Underdamped(stepsize=.3, friction=1., leapfrog_steps=2), {'m.parameters.stepsize': [.3, .1], 'm.parameters.leapfrog_steps': [2, 3], 'm.parameters.friction': [1., jnp.inf]}, RMMetropolis)

    def qn(ctx):
        import inspect
        mcmc(ctx, lambda: QNUnderdamped(stepsize=.3, friction=1., leapfrog_steps=2, r=1e-3, mem=2) if 'mem' in inspect.signature(QNUnderdamped.__init__).parameters else QNUnderdamped(stepsize=.3, friction=1., leapfrog_steps=2),
             {'m.parameters.stepsize': [.3, .1]}, Metropolis)

    def corr(ctx):
        """one sampler used with several corrections"""
        cs = [Metropolis, RMMetropolis, Uncorrected, None]

        def b(v):
            return dict(m=RandomWalk(stepsize=v.get('m.parameters.stepsize', .5)), s=gauss())
        family(ctx, b, lambda o, k, v: setobj(o, k, v) if k != 'c' else None, {'c': cs, 'm.parameters.stepsize': [.5, .05]}, dict(run=lambda o, v: run(o['s'], o['m'], 4, KEY, correction=v['c'])), depth=3)

        # one correction object used with several samplers
        def b2(v):
            return dict(c=RMMetropolis(), s=gauss())
        ms = [lambda: RandomWalk(stepsize=.5), lambda: Underdamped(stepsize=.3, friction=1., leapfrog_steps=2)]
        family(ctx, b2, lambda o, k, v: setobj(o, k, v) if k[0] != 'w' else None, {'w': ms, 'c.rm_stepsize_scale': [RMMetropolis().rm_stepsize_scale, .2]}, dict(run=lambda o, v: (setattr(o['c'], 'rm_stepsize_scale', v['c.rm_stepsize_scale']), run(o['s'], v['w'](), 4, KEY, correction=o['c']))[1]), depth=3)

    def ens(ctx, make, att, scen=Mod, uses=None, depth=3, keys=2):
        def b(v):
            o = dict(m=make(), s=scen())
            for k, x in v.items():
                if k != 'n':
                    setobj(o, k, x)
            return o
        use = uses or dict(run=lambda o, v: run(o['s'], o['m'], v.get('n', 5), KEY))
        for pair in itertools.combinations(list(att), keys):
            family(ctx, b, lambda o, k, v: None if k == 'n' else setobj(o, k, v), {k: att[k] for k in pair}, use, depth=depth)

    sched = [None, a(.3, 1.), a(.1, .2, 1.)]

    def smc(ctx):
        mk = lambda: MetropolisedSMCSampler(RandomWalk(stepsize=.5), mcmc_correction=Metropolis, ess_threshold_retain=.7)
        ens(ctx, mk, {'m.temperature_schedule': sched, 'n': [5, 4], 's.temperature': [1., .5], 'm.parameters.mcmc_steps': [1, 2]} if th else {'m.temperature_schedule': sched, 'n': [5, 4], 's.temperature': [1., .5]})

    def smc_rm(ctx):
        mk = lambda: RMMetropolisedSMCSampler(RandomWalk(stepsize=.5), ess_threshold_retain=.7)
        ens(ctx, mk, {'m.temperature_schedule': sched, 'm.parameters.rm_stepsize': [1., .1]})

    def svgd(ctx):
        mk = lambda: SVGD(.1, max_iter=3)
        ens(ctx, mk, {'m.parameters.stepsize': [.1, .5], 'm.max_iter': [3, 2], 'n': [5, 4]}, scen=gauss)
        family(ctx, lambda v: dict(m=SVGD(.1, max_iter=3, kernel=v['k']), s=gauss()), lambda o, k, v: (setattr(o['m'], 'kernel', v), setattr(o['m'].parameters, 'kernel_params', v.parameters)), {'k': [kernels.IMQ(), kernels.Gaussian()]},
               dict(run=lambda o, v: run(o['s'], o['m'], 5, KEY)))
        GK = kernels.Gaussian()
        mk3 = lambda: SVGD(.1, max_iter=3, kernel=kernels.Gaussian(bandwidth=1.))
        ens(ctx, mk3, {'m.parameters.kernel_params': [cdict(bandwidth=1.), cdict(bandwidth=.3)], 'n': [5, 4]}, scen=gauss)

        # one kernel object shared by two samplers, one of which adapts
        def use(o, v):
            smp = SVGD(.1, max_iter=2, kernel=o['k'])
            if v['ad']:
                smp.adapt = adapt_bandwidth_mean
            return run(gauss(), smp, 4, KEY)
        family(ctx, lambda v: dict(k=kernels.Gaussian(bandwidth=1.)), lambda o, k, v: None, {'ad': [False, True]}, dict(run=use))

    def svgd_batch(ctx):
        mk = lambda: SVGD(.1, max_iter=3)
        ens(ctx, mk, {'m.parameters.ensemble_batchsize': [None, 2, 4], 'n': [4, 5]}, scen=gauss)

    def teki(ctx):
        ens(ctx, lambda: TemperedEKI(temperature_schedule=a(.5, 1.)), {'m.temperature_schedule': [a(.5, 1.), a(.2, .6, 1.)], 'n': [5, 6], 's.data': [a(.5, -.5), a(2., 1.)]})

        def use(o, v):
            return run(o['s'], o['m'], 5, KEY)
        family(ctx, lambda v: dict(m=TemperedEKI(temperature_schedule=v['m.temperature_schedule'], max_iter=3), s=Mod()) if v['m.temperature_schedule'] is None else dict(m=TemperedEKI(temperature_schedule=v['m.temperature_schedule']), s=Mod()),
               lambda o, k, v: (setobj(o, k, v), setattr(o['m'], 'max_iter', 3) if v is None else None), {'m.temperature_schedule': [a(.5, 1.), None, a(.2, .6, 1.)]}, dict(run=use), depth=3)

        class Con(Mod):
            def constrain(self, x):
                return jnp.exp(x) * 10

        # one sampler used with models with and without a constraint
        ms = [Mod(), Con()]
        family(ctx, lambda v: dict(m=TemperedEKI(temperature_schedule=a(.3, .6, 1.), term_std=.9)), lambda o, k, v: None, {'s': ms}, dict(run=lambda o, v: run(v['s'], o['m'], 5, KEY)))

    def teki_ad(ctx):
        ens(ctx, lambda: AdaptiveTemperedEKI(ess_threshold=.8), {'m.parameters.ess_threshold': [.8, .5], 'm.max_temperature': [1., .5], 'n': [5, 6]})

    class AM(abc.ABCScenario):
        name = 'abc'
        dim = 1
        data = a(.3)

        def prior_potential(self, x, random_key=None):
            return .5 * jnp.square(x).sum()

        def prior_sample(self, random_key):
            return random.normal(random_key, (1,))

        def likelihood_sample(self, x, random_key):
            return x + .5 * random.normal(random_key, (1,))

    def vabc(ctx):
        ens(ctx, lambda: abc.VanillaABC(threshold=.5), {'m.parameters.threshold': [.5, 1.5], 's.data': [a(.3), a(-1.)], 'n': [6, 4]}, scen=AM)

    def abcmcmc(ctx):
        for c in (Metropolis, abc.RMMetropolisDiagStepsize):
            def mk(c=c):
                m = abc.RandomWalkABC(threshold=1., stepsize=.5)
                m.correction = c
                return m
            ens(ctx, mk, {'m.parameters.threshold': [1., .4], 'm.parameters.stepsize': [.5, 2.], 's.data': [a(.3), a(-1.)], 'n': [5, 4]} if th else {'m.parameters.threshold': [1., .4], 'm.parameters.stepsize': [.5, 2.], 's.data': [a(.3), a(-1.)]}, scen=AM)
        # parameters left unset take the defaults in every run
        def mk2():
            m = abc.RandomWalkABC()
            m.correction = abc.RMMetropolisDiagStepsize
            return m
        ens(ctx, mk2, {'m.parameters.threshold': [None, .4], 'm.parameters.stepsize': [None, 2.]}, scen=AM)

    def abcsmc(ctx):
        ens(ctx, lambda: abc.MetropolisedABCSMCSampler(max_iter=3, ess_threshold_retain=.7), {'m.max_iter': [3, 2], 's.data': [a(.3), a(-1.)], 'n': [6, 5]}, scen=AM)

        def b(v):
            m = abc.MetropolisedABCSMCSampler(threshold_schedule=v['m.threshold_schedule'], ess_threshold_retain=.7)
            if v['m.threshold_schedule'] is None:
                m.max_iter = 3
            return dict(m=m, s=AM())
        family(ctx, b, lambda o, k, v: (setobj(o, k, v), setattr(o['m'], 'max_iter', 3) if v is None else None), {'m.threshold_schedule': [None, a(2., 1.), a(1.5, 1., .5)]}, dict(run=lambda o, v: run(o['s'], o['m'], 6, KEY)), depth=4)

    def kernel(ctx):
        V = random.normal(random.PRNGKey(3), (4, 2))
        for nm, att in (('Gaussian', {'k.parameters.bandwidth': [1., .3]}), ('IMQ', {k: [v, v * .5] for k, v in (('k.parameters.' + p, x) for p, x in kernels.IMQ().parameters.__dict__.items()) if isinstance(v, float)})):
            K = getattr(kernels, nm)

            def b(v, K=K):
                k = K()
                for p, x in v.items():
                    setobj(dict(k=k), p, x)
                return dict(k=k)
            ev = lambda o, v: [o['k'](V[0], V[1]), o['k'].grad_x(V[0], V[1]), o['k'].grad_y(V[0], V[1]), o['k'].diag_grad_xy(V[0], V[1])]
            kd = lambda o, v: mocat.ksd(cdict(value=V, grad_potential=V * .7), o['k'])
            family(ctx, b, setobj, att, dict(ev=ev, ksd=kd), depth=4)

    # ---------------------------------------------------------------- arguments are left alone, repeats agree
    def alg():
        st = lambda n=None: cdict(value=a(.3, .2)) if n is None else cdict(value=random.normal(random.PRNGKey(5), (n, 2)))
        abst = lambda n=None: cdict(value=a(.3)) if n is None else cdict(value=random.normal(random.PRNGKey(5), (n, 1)))
        rm = abc.RandomWalkABC(threshold=1., stepsize=.5)
        rm.correction = abc.RMMetropolisDiagStepsize
        return dict(
            rw=(gauss, lambda: RandomWalk(stepsize=.5), 4, st, dict(correction=Metropolis)), rm=(gauss, lambda: RandomWalk(stepsize=.5), 4, st, dict(correction=RMMetropolis)),
            under=(gauss, lambda: Underdamped(stepsize=.3, friction=1., leapfrog_steps=2), 4, st, dict(correction=RMMetropolis)), qn=(gauss, lambda: QNUnderdamped(stepsize=.3, friction=1., leapfrog_steps=2), 4, st, {}),
            smc=(Mod, lambda: MetropolisedSMCSampler(RandomWalk(stepsize=.5), ess_threshold_retain=.7), 4, st, {}), smcrm=(Mod, lambda: RMMetropolisedSMCSampler(RandomWalk(stepsize=.5)), 4, st, {}),
            smcu=(Mod, lambda: MetropolisedSMCSampler(Underdamped(stepsize=.3, friction=1., leapfrog_steps=1), mcmc_correction=Metropolis, ess_threshold_retain=.7), 4, st, {}),
            svgd=(gauss, lambda: SVGD(.1, max_iter=3), 4, st, {}), svgdb=(gauss, lambda: SVGD(.1, max_iter=3, ensemble_batchsize=2), 4, st, {}), teki=(Mod, lambda: TemperedEKI(temperature_schedule=a(.5, 1.)), 5, st, {}),
            tekia=(Mod, lambda: AdaptiveTemperedEKI(), 5, st, {}), vabc=(AM, lambda: abc.VanillaABC(threshold=.5), 5, abst, {}), abcm=(AM, lambda: rm, 5, abst, {}),
            abcs=(AM, lambda: abc.MetropolisedABCSMCSampler(max_iter=3), 5, abst, {}))
    ENS = ('smc', 'smcrm', 'smcu', 'svgd', 'svgdb', 'teki', 'tekia', 'abcs')

    def inputs(ctx):
        for nm, (sc, mk, n, st, kw) in alg().items():
            init = st(n) if nm in ENS else st()
            m0 = mk()
            for with_extra in (False, True) + ((None,) if th else ()):
                ex = cdict() if not with_extra else cdict(parameters=cdict(**m0.parameters.__dict__), iter=0)
                if with_extra is None:
                    ex = cdict(parameters=cdict())
                before = (tree(init), tree(ex), tree(KEY), tree(m0.parameters))
                s0 = sc()
                run(s0, m0, n, KEY, initial_state=init, initial_extra=ex, **kw)
                ctx.state(nm, with_extra)
                ctx.trans()
                ctx.trace()
                for lab, g, w in zip(('initial_state', 'initial_extra', 'random_key'), (tree(init), tree(ex), tree(KEY)), before):
                    d = diff(g, w, lab)
                    ctx.expect(d is None, f'inputs:{nm}:{lab}', 'arguments are left as given', difference=d)
                d = diff(tree(m0.parameters), before[3], 'parameters')
                ctx.expect(d is None, f'inputs:{nm}:parameters', 'a run leaves the sampler settings as configured', difference=d)
        # filters and smoothers
        S = lg({k: LGA[k][0] for k in LGA})
        SN = NL(initial_mean=a(0., 0.), transition_covariance=jnp.eye(2), likelihood_matrix=a(1., .5)[None], likelihood_covariance=jnp.eye(1))
        for nm, fn in dict(prop=lambda: ssm.propagate_particle_filter(S, boot(), PART, a(.7), 3., KEY, ess_threshold=1.), prop0=lambda: ssm.propagate_particle_filter(S, boot(), PART, a(.7), 3., KEY, ess_threshold=0.),
                           pfi=lambda: ssm.run_particle_filter_for_marginals(S, boot(), Y, T + 3, KEY, initial_sample=PART), bs=lambda: ssm.backward_simulation(S, PART, KEY, 4),
                           bsr=lambda: ssm.backward_simulation(S, PART, KEY, 4, maximum_rejections=2), res=lambda: ssm.resample_particles(PART, KEY), sm=lambda: ssm.propagate_particle_smoother(S, boot(), SMO, a(.7), 3., KEY, lag=1, backward_sim=False),
                           smb=lambda: ssm.propagate_particle_smoother(S, boot(), PART, a(.7), 3., KEY, lag=1, backward_sim=True)).items():
            before = [tree(x) for x in (PART, SMO, Y, T)]
            own = {k: v for k, v in vars(S).items()}
            out1 = tree(fn())
            ctx.expect(diff([tree(x) for x in (PART, SMO, Y, T)], before, nm) is None, f'inputs:{nm}', 'arguments are left as given')
            ctx.expect(own.keys() == vars(S).keys() and all(own[k] is vars(S)[k] for k in own), f'inputs:{nm}', 'the model is left as given')
            d = diff(tree(fn()), out1, nm)
            ctx.expect(d is None, f'inputs:{nm}:repeat', 'repeating a call repeats its result', difference=d)
            ctx.state(nm)
            ctx.trans()
            ctx.trace()

    def twice(ctx, only):
        """a class, a fresh object and a used object give the same result; so does a second key in between"""
        for nm, (sc, mk, n, st, kw) in alg().items():
            if nm != only:
                continue
            m = mk()
            s = sc()
            if nm == 'abcm':
                m = abc.RandomWalkABC(threshold=1., stepsize=.5)
                m.correction = abc.RMMetropolisDiagStepsize
            ref = tree(run(s, m, n, KEY, **kw))
            for what, f in (('again', lambda: run(s, m, n, KEY, **kw)), ('after other key', lambda: (run(s, m, n, random.PRNGKey(99), **kw), run(s, m, n, KEY, **kw))[1]),
                            ('after given state', lambda: (run(s, m, n, random.PRNGKey(98), initial_state=st(n) if nm in ENS else st(), **kw), run(s, m, n, KEY, **kw))[1]),
                            ('fresh sampler', lambda: run(s, mk(), n, KEY, **kw)), ('after other size', lambda: (run(s, m, n + 2, KEY, **kw), run(s, m, n, KEY, **kw))[1])):
                d = diff(tree(f()), ref, nm)
                ctx.expect(d is None, f'twice:{nm}', 'equal inputs and key give equal results', how=what, difference=d)
                ctx.state(nm, what)
                ctx.trans()
                ctx.trace()

    fs = dict(zip(FAMILIES, [lg_pf, lg_smooth, lg_bsim, lg_kalman, lgt, nl_opt, nl_enkf, bench, sv, lorenz, filter_attr, eval_gauss, eval_mix, eval_2d, eval_user, rw, rw_rm, under, qn,
                             corr, smc, smc_rm, svgd, svgd_batch, teki, teki_ad, vabc, abcmcmc, abcsmc, kernel, inputs]))
    return list(fs.items()) + [(k, lambda c, k=k: twice(c, k[6:])) for k in FAMILIES if k.startswith('twice-')]
