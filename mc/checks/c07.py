"""C07: potentials, gradients and tempering of a scenario against a model, over every sequence of attribute assignments."""
PROPERTY = 'C07'
JOBS = 8
BOUNDS = dict(
    quick='13 ways of supplying the functions x dimensions 1-3 x temperatures; every sequence of <= 2 assignments (temperature, prior, likelihood, potential) from '
          'every construction in 1d and 2d, <= 3 from one; toy Gaussian, mixture and ABC linear Gaussian: every sequence of <= 3 parameter / potential / temperature assignments',
    thorough='<= 3 assignments from 7 constructions in 2d and one in 1d; parameter sequences one longer')
ASSUMPTIONS = ['float32 arithmetic', 'a reassigned potential is treated as one given to the constructor without a prior',
               'in one dimension, functions assigned after construction take points of shape (1,)']

CONS = ['method-pot', 'method-lik', 'method-prior-lik', 'method-prior-pot', 'attr-pot', 'attr-lik', 'attr-prior-lik', 'attr-prior-pot', 'kw-pot', 'kw-prior-lik',
        'temp-attr', 'temp-kw', 'all']


def case_names(tier):
    return ['construct-1', 'construct-2', 'construct-3'] + [f'seq:{c}' for c in CONS] + ['seq1', 'gaussian', 'mixture', 'linear-gaussian', 'parameter', 'intractable']


def cases(tier):
    import itertools
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    import jax
    import jax.numpy as jnp
    from mocat import Scenario, scenarios
    from mocat import abc as mabc
    th = tier == 'thorough'
    KEY = jnp.array([3, 5], dtype=jnp.uint32)

    def kd(rk):
        """what a stochastic function makes of its key"""
        return 0. if rk is None else .01 * (rk[0] + 2. * rk[1]).astype(jnp.float32)

    def kn(rk):
        return 0. if rk is None else .01 * (float(rk[0]) + 2 * float(rk[1]))

    # name -> (jax function, numpy value, numpy gradient)
    F = {
        'zero': (None, lambda x, k: 0., lambda x, k: np.zeros_like(x)),
        'quad': (lambda x, rk=None: .5 * jnp.sum(x ** 2) + kd(rk) * jnp.sum(x), lambda x, k: .5 * np.sum(x ** 2) + k * np.sum(x), lambda x, k: x + k),
        'quart': (lambda x, rk=None: .25 * jnp.sum(x ** 4) - 2. * jnp.sum(x) + kd(rk) * jnp.sum(x ** 2), lambda x, k: .25 * np.sum(x ** 4) - 2 * np.sum(x) + k * np.sum(x ** 2),
                  lambda x, k: x ** 3 - 2 + 2 * k * x),
        'lin': (lambda x, rk=None: 3. * jnp.sum(x) + 1., lambda x, k: 3 * np.sum(x) + 1, lambda x, k: 3 * np.ones_like(x)),
        'sin': (lambda x, rk=None: jnp.sum(jnp.sin(x)) * (1. + kd(rk)), lambda x, k: np.sum(np.sin(x)) * (1 + k), lambda x, k: np.cos(x) * (1 + k)),
    }

    def points(d):
        return [np.array([.7, -1.3, .2])[:d], np.array([-.4, 2., 1.])[:d]]

    def build(cons, d):
        """returns scenario and model (prior, likelihood, temperature)"""
        ns = dict(name='s', dim=d)
        wrap = lambda f: (lambda self, x, random_key=None: F[f][0](x, random_key))
        attr, kw, T, temp_attr = {}, {}, 1., None
        kind, _, what = cons.partition('-')
        if kind in ('method', 'attr', 'kw'):
            fs = {'pot': dict(potential='quart'), 'lik': dict(likelihood_potential='quart'), 'prior-lik': dict(prior_potential='quad', likelihood_potential='quart'),
                  'prior-pot': dict(prior_potential='quad', potential='quart')}[what]
        elif cons == 'all':
            fs = dict(prior_potential='quad', likelihood_potential='sin', potential='quart')
            kind = 'method'
        else:
            fs = dict(prior_potential='quad', likelihood_potential='sin')
            T = .3
            if cons == 'temp-kw':
                kw['temperature'] = .3
                ns['temperature'] = .9
            else:
                temp_attr = .3
            kind = 'method'
        if kind == 'method':
            ns.update({k: wrap(v) for k, v in fs.items()})
        elif kind == 'attr':
            attr = {k: F[v][0] for k, v in fs.items()}
        else:
            kw.update({k: F[v][0] for k, v in fs.items()})
        if attr or temp_attr is not None:
            def init(self):
                for k, v in attr.items():
                    setattr(self, k, v)
                if temp_attr is not None:
                    self.temperature = temp_attr
                Scenario.__init__(self)
            ns['__init__'] = init
        s = type('S', (Scenario,), ns)(**kw)
        prior = fs.get('prior_potential', 'zero')
        lik = fs.get('likelihood_potential', fs.get('potential'))
        return s, [prior, lik, T]

    def verify(ctx, s, model, d, tag, pts=None, keys=(None, KEY), **info):
        P, L, T = model
        p, pg = (F[P][1], F[P][2]) if isinstance(P, str) else P
        l, lg = (F[L][1], F[L][2]) if isinstance(L, str) else L
        for key in keys:
            k = kn(key)
            for x in (pts if pts is not None else points(d)):
                x = x.astype(np.float32).astype(float)
                jx = jnp.array(x)
                want = dict(prior=(p(x, k), pg(x, k)), likelihood=(l(x, k), lg(x, k)))
                want['potential'] = (want['prior'][0] + T * want['likelihood'][0], want['prior'][1] + T * want['likelihood'][1])
                def cl(got, w, what):
                    ctx.close(got, w, tag + ':' + what, what + ' at the current settings', rtol=2e-4, atol=2e-4, x=x, key_given=key is not None, model=repr(model)[:120], **info)
                cl(s.prior_potential(jx, key), want['prior'][0], 'prior_potential')
                cl(s.likelihood_potential(jx, key), want['likelihood'][0], 'likelihood_potential')
                cl(s.potential(jx, key), want['potential'][0], 'potential')
                if key is None:
                    cl(s.potential(jx), want['potential'][0], 'potential')
                cl(s.grad_prior_potential(jx, key), want['prior'][1], 'grad_prior_potential')
                cl(s.grad_likelihood_potential(jx, key), want['likelihood'][1], 'grad_likelihood_potential')
                cl(s.grad_potential(jx, key), want['potential'][1], 'grad_potential')
                for name, fn in (('prior', s.prior_potential_and_grad), ('likelihood', s.likelihood_potential_and_grad), ('potential', s.potential_and_grad)):
                    v, g = fn(jx, key)
                    cl(v, want[name][0], name + '_and_grad value')
                    cl(g, want[name][1], name + '_and_grad gradient')
                for t in ((0., 1., .6) if tag == 'construct' or th else (.6,)):
                    wv = want['prior'][0] + t * want['likelihood'][0]
                    wg = want['prior'][1] + t * want['likelihood'][1]
                    cl(s.tempered_potential(jx, t, key), wv, 'tempered_potential')
                    cl(s.grad_tempered_potential(jx, t, key), wg, 'grad_tempered_potential')
                    v, g = s.tempered_potential_and_grad(jx, t, key)
                    cl(v, wv, 'tempered_and_grad value')
                    cl(g, wg, 'tempered_and_grad gradient')
                    ctx.trans(4)
                ctx.trans(9)
        ctx.expect(float(s.temperature) == np.float32(T) or abs(float(s.temperature) - T) < 1e-6, tag + ':temperature', 'temperature kept', got=s.temperature, want=T)

    def construct(ctx, d):
        for cons in CONS:
            s, m = build(cons, d)
            ctx.state(cons, d)
            verify(ctx, s, m, d, 'construct', cons=cons, pts=points(d) + [np.zeros(d)])
            ctx.trace()
            for T in ((0., .3, 1., 2.) if th else (0., .3)):
                s.temperature = T
                m[2] = T
                ctx.state(cons, d, T)
                verify(ctx, s, m, d, 'construct:temperature', cons=cons, pts=points(d) if th else points(d)[:1])
                ctx.trace()
            if d == 1:
                # numbers are points
                s, m = build(cons, d)
                for v in (.7, -1.2):
                    x = np.array([v])
                    for key in (None, KEY):
                        k = kn(key)
                        w = F[m[0]][1](x, k) + m[2] * F[m[1]][1](x, k)
                        g = F[m[0]][2](x, k) + m[2] * F[m[1]][2](x, k)
                        ctx.close(s.potential(v, key), w, 'construct:number', 'a number is a point', atol=2e-4, cons=cons)
                        ctx.close(s.grad_potential(v, key), g[0], 'construct:number', 'gradient at a number', atol=2e-4, cons=cons)
        ctx.sample(dict(cons=cons, d=d, model=m))

    OPS = [('temperature', 0.), ('temperature', .3), ('prior_potential', 'lin'), ('prior_potential', 'quad'), ('likelihood_potential', 'sin'), ('likelihood_potential', 'quart'),
           ('potential', 'sin'), ('potential', 'quad')]

    def apply(s, m, op):
        k, v = op
        if k == 'temperature':
            s.temperature = v
            m[2] = v
        else:
            setattr(s, k, F[v][0])
            if k == 'prior_potential':
                m[0] = v
            elif k == 'likelihood_potential':
                m[1] = v
            else:
                m[0], m[1] = 'zero', v

    def seqs(ctx, cons, d, depth):
        for n in range(1, depth + 1):
            for seq in itertools.product(OPS, repeat=n):
                if any(seq[i] == seq[i + 1] for i in range(n - 1)):
                    continue
                s, m = build(cons, d)
                for op in seq:
                    apply(s, m, op)
                    ctx.trans()
                ctx.state(cons, d, seq)
                verify(ctx, s, m, d, 'seq', cons=cons, seq=seq, pts=points(d)[:1], keys=(KEY,) if n > 1 else (None, KEY))
                ctx.trace()

    def seq1(ctx):
        for cons in CONS:
            seqs(ctx, cons, 1, 3 if th and cons == 'method-prior-lik' else 2)

    def toy(ctx, tag, make, params, model_of, d, depth):
        """params: dict attribute -> values; model_of(settings) -> (prior, lik) numpy value/grad pairs"""
        ops = [(k, i) for k in params for i in range(len(params[k]))] + [('temperature', .4), ('potential', 'quart'), ('prior_potential', 'lin'), ('likelihood_potential', 'sin')]
        for n in range(0, depth + 1):
            for seq in itertools.product(ops, repeat=n):
                if any(seq[i] == seq[i + 1] for i in range(n - 1)):
                    continue
                s, cur = make()
                over, T = {}, 1.
                for k, v in seq:
                    if k in params:
                        setattr(s, k, jnp.array(params[k][v]))
                        cur[k] = params[k][v]
                    elif k == 'temperature':
                        s.temperature = v
                        T = v
                    else:
                        setattr(s, k, F[v][0])
                        if k == 'potential':
                            over['prior'], over['lik'] = 'zero', v
                        else:
                            over['prior' if k[0] == 'p' else 'lik'] = v
                    ctx.trans()
                ctx.state(tag, seq)
                P, L = model_of(cur)
                verify(ctx, s, [over.get('prior', P), over.get('lik', L), T], d, tag, pts=points(d)[:1], keys=(None,), seq=seq)
                ctx.trace()

    def gaussian(ctx):
        for d in (1, 2):
            covs = [np.array([.5, 2.])[:d], np.array([[2., .6], [.6, 1.]])[:d, :d]]
            means = [np.array([1., -.5])[:d], np.array([-2., 0.])[:d]]
            full = lambda C: C if C.ndim == 2 else np.diag(C)

            def model(c):
                P = np.linalg.inv(full(c['covariance']))
                return 'zero', (lambda x, k: .5 * (x - c['mean']) @ P @ (x - c['mean']), lambda x, k: P @ (x - c['mean']))
            toy(ctx, 'gaussian', lambda: (scenarios.Gaussian(mean=jnp.zeros(d), covariance=jnp.ones(d)), dict(mean=np.zeros(d), covariance=np.ones(d))),
                dict(mean=means, covariance=covs), model, d, (4 if d == 1 else 3) if th else (2 if d == 1 else 3))

    def mixture(ctx):
        d = 2
        par = dict(means=[np.array([[1., 0.], [0., -1.]])], covariances=[np.array([[2., .5], [.5, 1.]]), np.array([np.eye(2) * .5, np.eye(2) * 3])], weights=[np.array([.8, .2])])

        def model(c):
            C = c['covariances']
            C = [C, C] if C.ndim == 2 else list(C)
            Ps = [np.linalg.inv(x) for x in C]

            def terms(x):
                return np.array([w * np.exp(-.5 * (x - m) @ P @ (x - m)) * np.sqrt(np.linalg.det(P)) / (2 * np.pi) for w, m, P in zip(c['weights'], c['means'], Ps)])
            return 'zero', (lambda x, k: -np.log(terms(x).sum()), lambda x, k: sum(t * P @ (x - m) for t, m, P in zip(terms(x), c['means'], Ps)) / terms(x).sum())
        m0 = np.array([[0., 0.], [1., 2.]])
        toy(ctx, 'mixture', lambda: (scenarios.GaussianMixture(jnp.array(m0)), dict(means=m0, covariances=np.eye(2), weights=np.ones(2) / 2)), par, model, d, 3 if th else 2)

    def lingauss(ctx):
        d, do = 2, 1
        par = dict(prior_mean=[np.array([.5, -1.])], prior_covariance=[np.array([[2., .5], [.5, 1.]])], data=[np.array([2.])], likelihood_matrix=[np.array([[1., -1.]])],
                   likelihood_covariance=[np.array([[.3]])])

        def model(c):
            def gp(r, P):
                return .5 * r @ P @ r + .5 * (len(r) * np.log(2 * np.pi) - np.linalg.slogdet(P)[1])
            Pp, Pl, H = np.linalg.inv(c['prior_covariance']), np.linalg.inv(c['likelihood_covariance']), c['likelihood_matrix']
            return (lambda x, k: gp(x - c['prior_mean'], Pp), lambda x, k: Pp @ (x - c['prior_mean'])), \
                   (lambda x, k: gp(c['data'] - H @ x, Pl), lambda x, k: -H.T @ Pl @ (c['data'] - H @ x))

        c0 = dict(prior_mean=np.zeros(2), prior_covariance=np.eye(2), data=np.array([.3]), likelihood_matrix=np.array([[.5, 1.]]), likelihood_covariance=np.array([[1.5]]))
        toy(ctx, 'linear-gaussian', lambda: (mabc.scenarios.LinearGaussian(init_grad=True, **{k: jnp.array(v) for k, v in c0.items()}), dict(c0)), par, model, d, 3 if th else 2)

    def parameter(ctx):
        """a potential that reads attributes of the scenario follows them"""
        class S(Scenario):
            name = 's'
            dim = 2
            a = 1.

            def prior_potential(self, x, random_key=None):
                return self.a * jnp.sum(x ** 2)

            def likelihood_potential(self, x, random_key=None):
                return self.b * jnp.sum(x) + self.a
        for seq in itertools.product([('a', 2.), ('a', -.5), ('b', 3.), ('b', 0.), ('temperature', .2), ('temperature', 0.)], repeat=4 if th else 3):
            s = S.__new__(S)
            s.b = 1.5
            s.__init__()
            cur = dict(a=1., b=1.5, temperature=1.)
            for k, v in seq:
                setattr(s, k, v)
                cur[k] = v
                ctx.trans()
            ctx.state(seq)
            a, b = cur['a'], cur['b']
            verify(ctx, s, [(lambda x, k: a * np.sum(x ** 2), lambda x, k: 2 * a * x), (lambda x, k: b * np.sum(x) + a, lambda x, k: b * np.ones_like(x)), cur['temperature']], 2,
                   'parameter', pts=points(2)[:1], keys=(None,), seq=seq)
            ctx.trace()

    def intractable(ctx):
        """what is not supplied is refused, not invented"""
        class S(Scenario):
            name, dim = 's', 2
        for init_grad in (False,):
            s = S(init_grad=init_grad)
            for f in (s.potential, s.likelihood_potential, s.prior_potential):
                ctx.state(f.__name__)
                ctx.trans()
                ctx.trace()
                try:
                    f(jnp.zeros(2))
                    ok = False
                except AttributeError:
                    ok = True
                ctx.expect(ok, 'intractable', 'a potential that was not supplied cannot be evaluated', f=f.__name__)

        class A(mabc.ABCScenario):
            name, dim = 'a', 2

            def prior_potential(self, x, random_key=None):
                return jnp.sum(x ** 2)
        a = A()
        ctx.close(a.prior_potential(jnp.array([1., 2.]), None), 5., 'intractable:abc', 'prior of an ABC scenario')
        for f in (a.potential, a.likelihood_potential):
            try:
                f(jnp.zeros(2), None)
                ok = False
            except TypeError:
                ok = True
            ctx.expect(ok, 'intractable:abc', 'an intractable likelihood cannot be evaluated')

    out = [(f'construct-{d}', lambda c, d=d: construct(c, d)) for d in (1, 2, 3)]
    deep = ('method-prior-lik', 'method-pot', 'attr-prior-lik', 'attr-pot', 'kw-prior-lik', 'temp-kw', 'all') if th else ('method-prior-lik',)
    out += [(f'seq:{k}', lambda c, k=k: seqs(c, k, 2, 3 if k in deep else 2)) for k in CONS]
    out += [('seq1', seq1), ('gaussian', gaussian), ('mixture', mixture), ('linear-gaussian', lingauss), ('parameter', parameter), ('intractable', intractable)]
    return out
