"""C22: SVGD against a double-precision reference of its iteration, on lattices of ensembles and every outcome of every batch draw."""
PROPERTY = 'C22'
JOBS = 8
BOUNDS = dict(
    quick='ensembles of 1-4 members in 1-3 dimensions (all lattice ensembles for small sizes) x 4 kernels x 3 targets x temperatures x 5 optimisers / schedules; every batch outcome for (members, batch) in {(2,1),(2,3),(3,1),(3,2),(4,1)}, '
          'two and three iterations for the smaller ones; every relabelling of 3-4 members; iteration limits 0-4',
    thorough='larger lattices, batches (4,2) and three iterations, five members')
ASSUMPTIONS = ['the default bandwidth of an ensemble of one member is not constrained (its formula divides by log 1)', 'each member draws its own batch, uniformly with replacement, as the code does']


def case_names(tier):
    return ['direction-gaussian', 'direction-precond', 'direction-imq', 'direction-user', 'batch-1', 'batch-2', 'batch-steps', 'optim', 'schedules', 'adapt', 'adapt-custom', 'relabel', 'prior', 'limits', 'tempered', 'kernels', 'bandwidth', 'noisy']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, PM1, R, cdict, Scenario, Law, law, same_law
    import itertools
    from jax.example_libraries import optimizers
    from mocat import SVGD, run
    from mocat import kernels
    from mocat.src.transport.svgd import kernelised_grad_matrix
    from mocat.src.kernels import mean_bandwidth_update, median_bandwidth_update, Kernel
    th = tier == 'thorough'
    f32 = lambda a: jnp.array(a, dtype=jnp.float32)
    jax.config.update('jax_disable_most_optimizations', True)
    P2 = np.array([[2., .6], [.6, 1.]])

    # ---------------------------------------------------------------- targets: (jax prior, jax likelihood, numpy potential, numpy gradient)
    class Target:
        def __init__(s, name, prior, lik, npot, ngrad):
            s.name, s.prior, s.lik, s.npot, s.ngrad = name, prior, lik, npot, ngrad

        def scenario(s, d, temperature=1.):
            class Sc(Scenario):
                name = s.name
                dim = d

                def prior_potential(self, x, random_key=None):
                    return s.prior(x)

                def likelihood_potential(self, x, random_key=None):
                    return s.lik(x)
            sc = Sc()
            sc.temperature = temperature
            return sc

    QUAD = Target('quad', lambda x: .5 * jnp.sum(x ** 2), lambda x: jnp.sum((x - 1.) ** 2),
                  lambda x, T: .5 * np.sum(x ** 2) + T * np.sum((x - 1) ** 2), lambda x, T: x + T * 2 * (x - 1))
    WELL = Target('well', lambda x: .1 * jnp.sum(x ** 4) - .5 * jnp.sum(x ** 2), lambda x: jnp.sum(jnp.sin(x)) + x[0] * x[-1],
                  lambda x, T: .1 * np.sum(x ** 4) - .5 * np.sum(x ** 2) + T * (np.sum(np.sin(x)) + x[0] * x[-1]),
                  lambda x, T: .4 * x ** 3 - x + T * (np.cos(x) + np.eye(len(x))[0] * x[-1] + np.eye(len(x))[-1] * x[0]))
    TILT = Target('tilt', lambda x: 0. * jnp.sum(x), lambda x: jnp.sum(jnp.arange(1., len(x) + 1) * x),
                  lambda x, T: T * np.sum(np.arange(1, len(x) + 1) * x), lambda x, T: T * np.arange(1., len(x) + 1))
    TARGETS = [QUAD, WELL, TILT]

    # ---------------------------------------------------------------- reference
    def k_gauss(x, y, bandwidth):
        d = (x - y) / bandwidth
        return np.exp(-.5 * d @ d)

    def k_pre(x, y, bandwidth, precision):
        d = (x - y) / bandwidth
        return np.exp(-.5 * d @ np.asarray(precision, float) @ d)

    def k_imq(x, y, c, beta, bandwidth):
        d = (x - y) / bandwidth
        return (c + .5 * d @ d) ** beta

    def fd(f, x, h=1e-4):
        g = np.zeros(len(x))
        for i in range(len(x)):
            e = np.zeros(len(x))
            e[i] = h
            g[i] = (8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * h)
        return g

    def phi(X, G, k, inds=None):
        n = len(X)
        out = np.zeros_like(X)
        memo = {}
        for i in range(n):
            js = range(n) if inds is None else inds[i]
            t = []
            for j in js:
                if (j, i) not in memo:
                    memo[j, i] = -k(X[j], X[i]) * G[j] + fd(lambda z: k(z, X[i]), X[j])
                t.append(memo[j, i])
            out[i] = np.mean(t, axis=0)
        return out

    class Opt:
        """the four optimisers, from their definitions"""
        def __init__(s, kind, step, **kw):
            s.kind, s.step, s.kw = kind, step if callable(step) else (lambda i: step), kw

        def start(s, x):
            s.x, s.m, s.v = x.copy(), np.zeros_like(x), np.zeros_like(x)
            return s

        def update(s, i, g):
            h = s.step(i)
            if s.kind == 'sgd':
                s.x = s.x - h * g
            elif s.kind == 'momentum':
                s.m = s.kw['mass'] * s.m + g
                s.x = s.x - h * s.m
            elif s.kind == 'adagrad':
                mo = s.kw.get('momentum', .9)
                s.v = s.v + g ** 2
                s.m = (1 - mo) * np.where(s.v > 0, g / np.sqrt(np.where(s.v > 0, s.v, 1)), 0) + mo * s.m
                s.x = s.x - h * s.m
            elif s.kind == 'adam':
                b1, b2, eps = s.kw.get('b1', .9), s.kw.get('b2', .999), 1e-8
                s.m = (1 - b1) * g + b1 * s.m
                s.v = (1 - b2) * g ** 2 + b2 * s.v
                s.x = s.x - h * (s.m / (1 - b1 ** (i + 1))) / (np.sqrt(s.v / (1 - b2 ** (i + 1))) + eps)

        def copy(s):
            o = Opt(s.kind, s.step, **s.kw)
            o.x, o.m, o.v = s.x.copy(), s.m.copy(), s.v.copy()
            return o

    def bw_mean(X):
        n = len(X)
        return np.mean([[np.linalg.norm(a - b) for b in X] for a in X]) / np.sqrt(2 * np.log(n))

    def bw_med(X):
        n = len(X)
        return np.median([[np.linalg.norm(a - b) for b in X] for a in X]) / np.sqrt(2 * np.log(n))

    def chain_ref(target, T, X0, kern, opt, iters, bw=None):
        """positions, potentials, gradients, bandwidths of every iteration"""
        o = opt.start(np.asarray(X0, float))
        rows = []
        for i in range(iters + 1):
            if i:
                o.update(i, -phi(X, G, kk))
            X = o.x.copy()
            G = np.stack([target.ngrad(x, T) for x in X])
            b = bw(X) if bw else None
            kk = (lambda x, y, b=b: kern(x, y, b)) if bw else kern
            rows.append((X, np.array([target.npot(x, T) for x in X]), G, b))
        return rows

    def agree(c, out, rows, key, rtol=2e-3, atol=2e-3, **info):
        c.expect(np.shape(out['value'])[0] == len(rows), key + ':rows', 'one ensemble per iteration and the first', got=np.shape(out['value']), rows=len(rows), **info)
        if np.shape(out['value'])[0] != len(rows):
            return
        c.close(out['value'], np.stack([r[0] for r in rows]), key + ':value', 'positions after every iteration', rtol=rtol, atol=atol, **info)
        c.close(out['potential'], np.stack([r[1] for r in rows]), key + ':potential', 'recorded potentials are those of the positions', rtol=5e-3, atol=5e-3, **info)
        c.close(out['grad_potential'], np.stack([r[2] for r in rows]), key + ':grad', 'recorded gradients are those of the positions', rtol=5e-3, atol=5e-3, **info)
        if rows[0][3] is not None:
            c.close(out['bandwidth'], np.array([r[3] for r in rows]), key + ':bandwidth', 'recorded bandwidth is that of the positions', rtol=2e-3, atol=2e-3, **info)
        c.trans(len(rows) - 1)
        c.trace(1)

    def obs(ch):
        o = dict(value=ch.value, potential=ch.potential, grad_potential=ch.grad_potential)
        if hasattr(ch, 'kernel_params'):
            o['bandwidth'] = ch.kernel_params.bandwidth
        return o

    def steps(sampler, sc, n, k):
        """start and k iterations of a sampler as a function of ensemble and key (rows stacked)"""
        def f(X, key):
            e = cdict(random_key=key)
            s, e = sampler.startup(sc, n, cdict(value=X), e)
            rows = [obs(s)]
            rows[0] = {q: jnp.asarray(v) for q, v in rows[0].items()}
            for _ in range(k):
                s, e = sampler.update(sc, s.copy(), e.copy())
                rows.append({q: jnp.asarray(v) for q, v in obs(s).items()})
            return {q: jnp.stack([r[q] for r in rows]) for q in rows[0]}
        return f

    def ensembles(n, d, cap):
        V = [-1., .2, 1.5]
        if 3 ** (n * d) <= cap:
            return [np.array(v).reshape(n, d) for v in itertools.product(V, repeat=n * d)]
        out = [np.full((n, d), .2)]
        g = np.random.RandomState(10 * n + d)
        out += [g.randint(-4, 5, (n, d)) * .4 for _ in range(min(cap, 12 if not th else 40) - 1)]
        return out

    def direction(mk, refk, dims, sizes):
        def run_(c):
            cap = 243 if th else 81
            for d in dims:
                for nm, kern, kp in mk(d):
                    for target in TARGETS:
                        for n in sizes:
                            s = SVGD(.5, kernel=kern, optimiser=optimizers.sgd, kernel_params=kp)
                            sc = target.scenario(d)
                            E = ensembles(n, d, cap)
                            ps = dict(kern.parameters.__dict__) if kp is None else dict(kp.__dict__)
                            ps = {q: np.asarray(v, float) for q, v in ps.items()}
                            out = jax.jit(jax.vmap(lambda X: steps(s, sc, n, 1)(X, jnp.zeros(2, jnp.uint32))))(f32(np.stack(E)))
                            out = {q: np.asarray(v) for q, v in out.items()}
                            for i, X in enumerate(E):
                                rows = chain_ref(target, 1., X, lambda x, y: refk(x, y, **ps), Opt('sgd', .5), 1)
                                agree(c, {q: v[i] for q, v in out.items() if q != 'bandwidth'}, rows, 'direction', kernel=nm, d=d, n=n, target=target.name, ensemble=X.tolist())
                                c.state(nm, target.name, R(X))
                            c.sample(dict(kernel=nm, d=d, n=n, target=target.name))
        return run_

    def mk_gauss(d):
        yield 'unit', kernels.Gaussian(), None
        yield 'narrow', kernels.Gaussian(bandwidth=.4), None
        yield 'vector', kernels.Gaussian(bandwidth=f32(np.array([.5, 2., 1.])[:d])), None
        yield 'params', kernels.Gaussian(bandwidth=.4), cdict(bandwidth=1.7)

    PREC = {1: np.array([[2.]]), 2: P2, 3: np.array([[2., .6, 0.], [.6, 1., .3], [0., .3, .7]])}

    def mk_pre(d):
        yield 'unit', kernels.PreconditionedGaussian(precision=f32(PREC[d])), None
        yield 'wide', kernels.PreconditionedGaussian(bandwidth=2.5, precision=f32(PREC[d])), None

    def mk_imq(d):
        yield 'unit', kernels.IMQ(), None
        yield 'other', kernels.IMQ(c=2., beta=-.8, bandwidth=.6), None

    class UK(Kernel):
        """not symmetric: the gradient is in the first argument"""
        def _call(self, x, y, a):
            return jnp.exp(a * jnp.sum(x) - .3 * jnp.sum(y ** 2)) + jnp.sum(x * y)

        def _grad_x(self, x, y, a):
            return a * jnp.exp(a * jnp.sum(x) - .3 * jnp.sum(y ** 2)) + y

    def mk_user(d):
        yield 'user', UK(a=.25), None

    def k_user(x, y, a):
        return np.exp(a * np.sum(x) - .3 * np.sum(y ** 2)) + np.sum(x * y)

    # ---------------------------------------------------------------- batches
    def batch_case(sizes, iters):
        def run_(c):
            for n, b in sizes:
                for d in (1, 2):
                    if n ** (n * b * iters) > 5000 and d > 1:
                        continue
                    sc = WELL.scenario(d)
                    s = SVGD(.3, kernel=kernels.Gaussian(.8), ensemble_batchsize=b, optimiser=optimizers.adagrad, momentum=.5)
                    E = ensembles(n, d, 1000)[::97][:2] if 3 ** (n * d) <= 1000 else ensembles(n, d, 3)[1:]
                    lv = explore(steps(s, sc, n, iters), [f32(X) for X in E], batch=min(256, n ** (n * b * iters)))
                    c.explored(lv)
                    for i, X in enumerate(E):
                        got, want = Law(), Law()
                        for l in lv:
                            if l.start == i:
                                got.add(R(np.asarray(l.out['value'][1:], float), 3), l.p)
                                v = np.asarray(l.out['value'], float)
                        k = lambda x, y: k_gauss(x, y, .8)
                        cur = {(): (1., Opt('adagrad', .3, momentum=.5).start(np.asarray(X, float)), ())}
                        for it in range(1, iters + 1):
                            nxt = {}
                            for h, (p, o, path) in cur.items():
                                G = np.stack([WELL.ngrad(x, 1.) for x in o.x])
                                # per member: every multiset of its batch with its probability
                                per = []
                                for m in range(n):
                                    dd = {}
                                    for js in itertools.product(range(n), repeat=b):
                                        q = tuple(sorted(js))
                                        dd[q] = dd.get(q, 0) + n ** -float(b)
                                    per.append(list(dd.items()))
                                for combo in itertools.product(*per):
                                    ph = phi(o.x, G, k, [q for q, _ in combo])
                                    o2 = o.copy()
                                    o2.update(it, -ph)
                                    pp = p * np.prod([w for _, w in combo])
                                    pa = path + (R(o2.x, 3),)
                                    kk = (h, tuple(q for q, _ in combo))
                                    nxt[kk] = (pp, o2, path + (o2.x,))
                            cur = nxt
                        for p, o, path in cur.values():
                            want.add(R(np.stack(path), 3), p)
                        c.state(n, b, d, i)
                        c.trace(len(want))
                        same_law(c, got, want, 'batch:law', 'law of the ensembles over every batch outcome', n=n, batchsize=b, d=d, ensemble=X.tolist(), iters=iters)
                        for l in lv:
                            if l.start == i:
                                v, g, u = (np.asarray(l.out[q], float) for q in ('value', 'grad_potential', 'potential'))
                                c.close(g[-1], np.stack([WELL.ngrad(x, 1.) for x in v[-1]]), 'batch:grad', 'recorded gradients are those of the positions', rtol=5e-3, atol=5e-3, n=n, batchsize=b)
                                c.close(u[-1], np.array([WELL.npot(x, 1.) for x in v[-1]]), 'batch:potential', 'recorded potentials are those of the positions', rtol=5e-3, atol=5e-3, n=n, batchsize=b)
                # a batch of the ensemble's size is the whole ensemble
                s = SVGD(.3, kernel=kernels.Gaussian(.8), ensemble_batchsize=n, optimiser=optimizers.sgd)
                X = ensembles(n, 1, 3)[1]
                lv = explore(steps(s, WELL.scenario(1), n, 2), [f32(X)], batch=4)
                c.expect(len(lv) == 1, 'batch:full', 'a batch as large as the ensemble is the ensemble: nothing is drawn', n=n, executions=len(lv))
                agree(c, lv[0].out, chain_ref(WELL, 1., X, lambda x, y: k_gauss(x, y, .8), Opt('sgd', .3), 2), 'batch:full', n=n)
        return run_

    # ---------------------------------------------------------------- whole runs
    X4 = np.array([[-1., .4], [.3, 1.2], [1.5, -.8], [.1, -.2]])
    X3 = np.array([[-1.], [.3], [1.4]])
    KEY = lambda: jnp.array([0xFFFFFFF, 3], jnp.uint32)
    sched = lambda i: .4 / (1. + i)

    def whole(c, key, sampler, target, X, kern, opt, iters, T=1., bw=None, **kw):
        ch = run(target.scenario(X.shape[1], T), sampler, len(X), KEY(), initial_state=cdict(value=f32(X)), **kw)
        agree(c, {q: np.asarray(v) for q, v in obs(ch).items() if bw or q != 'bandwidth'}, chain_ref(target, T, X, kern, opt, iters, bw), key, case=key)
        c.state(key, target.name, iters, T)
        return ch

    def optim(c):
        for nm, o, kw, ref in [('sgd', optimizers.sgd, {}, Opt('sgd', .2)), ('momentum', optimizers.momentum, dict(mass=.7), Opt('momentum', .2, mass=.7)), ('adagrad', optimizers.adagrad, {}, Opt('adagrad', .2)),
                               ('adagrad-m', optimizers.adagrad, dict(momentum=.3), Opt('adagrad', .2, momentum=.3)), ('adam', optimizers.adam, dict(b1=.8), Opt('adam', .2, b1=.8))]:
            for target in (QUAD, WELL):
                whole(c, f'optim-{nm}', SVGD(.2, max_iter=5, kernel=kernels.Gaussian(.8), optimiser=o, **kw), target, X4, lambda x, y: k_gauss(x, y, .8), ref, 5)
        whole(c, 'optim-default', SVGD(.2, max_iter=5, kernel=kernels.Gaussian(.8)), WELL, X4, lambda x, y: k_gauss(x, y, .8), Opt('adagrad', .2), 5)
        whole(c, 'optim-default-params', SVGD(.2, max_iter=5, kernel=kernels.Gaussian(.8), momentum=.2), WELL, X4, lambda x, y: k_gauss(x, y, .8), Opt('adagrad', .2, momentum=.2), 5)

    def schedules(c):
        k = lambda x, y: k_gauss(x, y, .8)
        for nm, st in (('decay', sched), ('table', lambda i: jnp.array([9., .5, .1, .3, .02])[i]), ('const', lambda i: .15), ('jax', optimizers.exponential_decay(.5, 2, .3)), ('piece', optimizers.piecewise_constant([2, 3], [.5, .1, .3]))):
            ref = {'decay': sched, 'table': lambda i: [9., .5, .1, .3, .02][i], 'const': lambda i: .15, 'jax': lambda i: .5 * .3 ** (i / 2), 'piece': lambda i: .5 if i < 2 else .1 if i < 3 else .3}[nm]
            if nm == 'piece':       # boundaries as jax counts them
                tab = [float(st(i)) for i in range(6)]
                ref = lambda i: tab[i]
            for o, oo in ((optimizers.sgd, 'sgd'), (optimizers.adagrad, 'adagrad')):
                whole(c, f'schedule-{nm}-{oo}', SVGD(st, max_iter=4, kernel=kernels.Gaussian(.8), optimiser=o), WELL, X3, k, Opt(oo, ref), 4)
        s = SVGD(.2, max_iter=3, kernel=kernels.Gaussian(.8), optimiser=optimizers.sgd)
        s.parameters.stepsize = .05
        whole(c, 'schedule-reassigned', s, WELL, X3, k, Opt('sgd', .05), 3)

    def adapt(c):
        kg = lambda x, y, b: k_gauss(x, y, b)
        for target in TARGETS:
            for X in (X3, X4, X4[:2]) + ((np.vstack([X4, [[2., 2.]]]),) if th else ()):
                whole(c, 'adapt-default', SVGD(.2, max_iter=4), target, X, kg, Opt('adagrad', .2), 4, bw=bw_mean)
        # all lattice ensembles, two iterations
        for n, d in ((2, 1), (3, 1), (2, 2)):
            s = SVGD(.3, optimiser=optimizers.sgd)
            E = [X for X in ensembles(n, d, 243) if bw_mean(X) > 0]
            out = jax.jit(jax.vmap(lambda X: steps(s, QUAD.scenario(d), n, 2)(X, jnp.zeros(2, jnp.uint32))))(f32(np.stack(E)))
            out = {q: np.asarray(v) for q, v in out.items()}
            for i, X in enumerate(E):
                rows = chain_ref(QUAD, 1., X, kg, Opt('sgd', .3), 2, bw_mean)
                if min(r[3] for r in rows) < .05:        # collapsed ensembles amplify rounding
                    continue
                agree(c, {q: v[i] for q, v in out.items()}, rows, 'adapt-lattice', ensemble=X.tolist())
                c.state('lat', R(X))
        # a given kernel is not adapted
        for kp in (None, cdict(bandwidth=1.3)):
            ch = run(QUAD.scenario(2), SVGD(.2, max_iter=2, kernel=kernels.Gaussian(.5), kernel_params=kp), 4, KEY(), initial_state=cdict(value=f32(X4)))
            b = .5 if kp is None else 1.3
            agree(c, {q: np.asarray(v) for q, v in obs(ch).items() if q != 'bandwidth'}, chain_ref(QUAD, 1., X4, lambda x, y: k_gauss(x, y, b), Opt('adagrad', .2), 2), 'adapt-given')

    def adapt_custom(c):
        def med(state, extra):
            extra.parameters.kernel_params.bandwidth = median_bandwidth_update(state.value)
            state.kernel_params = extra.parameters.kernel_params
            return state, extra

        class Med(SVGD):
            def adapt(self, state, extra):
                return med(state, extra)

        class It(SVGD):
            """a bandwidth by iteration"""
            def adapt(self, state, extra):
                extra.parameters.kernel_params.bandwidth = 1. / (1. + extra.iter)
                state.kernel_params = extra.parameters.kernel_params
                return state, extra
        kg = lambda x, y, b: k_gauss(x, y, b)
        for X in (X3, X4):
            whole(c, 'adapt-median', Med(.2, max_iter=3), WELL, X, kg, Opt('adagrad', .2), 3, bw=bw_med)
            whole(c, 'adapt-median-kernel', Med(.2, max_iter=3, kernel=kernels.Gaussian(7.)), WELL, X, kg, Opt('adagrad', .2), 3, bw=bw_med)
            s = SVGD(.2, max_iter=3, kernel=kernels.Gaussian(7.))
            s.adapt = med
            whole(c, 'adapt-attribute', s, WELL, X, kg, Opt('adagrad', .2), 3, bw=bw_med)
            cnt = [0]

            def byiter(_):
                cnt[0] += 1
                return 1. / cnt[0]
            whole(c, 'adapt-iter', It(.2, max_iter=3), WELL, X, kg, Opt('adagrad', .2), 3, bw=byiter)

    def relabel(c):
        for target in (QUAD, WELL):
            for X in (X3, X4) + ((np.vstack([X4, [[2., 2.]]]),) if th else ()):
                n, d = X.shape
                for mk, nm in ((lambda: SVGD(.3), 'default'), (lambda: SVGD(.3, kernel=kernels.IMQ(), optimiser=optimizers.sgd), 'imq')):
                    s, sc = mk(), target.scenario(d)
                    perms = [list(p) for p in itertools.permutations(range(n))]
                    out = jax.jit(jax.vmap(lambda Y: steps(s, sc, n, 3)(Y, jnp.zeros(2, jnp.uint32))))(f32(np.stack([X[p] for p in perms])))
                    for i, p in enumerate(perms):
                        for q in ('value', 'potential', 'grad_potential'):
                            c.close(np.asarray(out[q])[i], np.asarray(out[q])[0][:, p], f'relabel:{q}', 'relabelling the members relabels the run', perm=p, sampler=nm, target=target.name, rtol=1e-3, atol=1e-3)
                        c.state(nm, target.name, n, *p)
                        c.trans(3)
                        c.trace(1)

    def prior(c):
        C.alpha = dict(normal=PM1, uniform=[(.2, .3), (.7, .7)])

        class Sc(Scenario):
            name = 'p'
            dim = 2

            def prior_sample(self, random_key):
                return 3. + 2. * jax.random.normal(random_key, (2,))

            def prior_potential(self, x, random_key=None):
                return jnp.sum((x - 3.) ** 2) / 8

            def likelihood_potential(self, x, random_key=None):
                return jnp.sum(x)
        for nm, sc, lo, hi in (('prior', Sc(), 1., 5.), ('normal', QUAD.scenario(2), -1., 1.)):
            for n in (1, 2, 3):
                s = SVGD(.1, kernel=kernels.Gaussian(.8))

                def f(x, key):
                    st, e = s.startup(sc, n, None, cdict(random_key=key))
                    return st.value, st.potential, st.grad_potential
                lv = explore(f, [0.], batch=4 ** n)
                c.explored(lv)
                got, want = Law(), Law()
                for l in lv:
                    got.add(R(np.asarray(l.out[0], float), 3), l.p)
                    for j in range(n):
                        x = np.asarray(l.out[0][j], float)
                        u, g = (QUAD.npot(x, 1.), QUAD.ngrad(x, 1.)) if nm == 'normal' else (np.sum((x - 3) ** 2) / 8 + np.sum(x), (x - 3) / 4 + 1)
                        c.close(l.out[1][j], u, 'prior:potential', 'potential of the first ensemble', n=n, rtol=1e-3, atol=1e-3)
                        c.close(l.out[2][j], g, 'prior:grad', 'gradient of the first ensemble', n=n, rtol=1e-3, atol=1e-3)
                for z in itertools.product((lo, hi), repeat=2 * n):
                    want.add(R(np.array(z).reshape(n, 2), 3), 4. ** -n)
                same_law(c, got, want, 'prior:law', 'the first ensemble is drawn independently from the prior (standard normal without one)', scenario=nm, n=n)
                c.state(nm, n)
                c.trace(len(lv))
                c.trans(len(lv))

    def limits(c):
        k = lambda x, y: k_gauss(x, y, .8)
        for it in (0, 1, 2, 4):
            whole(c, f'limit-{it}', SVGD(.2, max_iter=it, kernel=kernels.Gaussian(.8)), WELL, X3, k, Opt('adagrad', .2), it)
            whole(c, f'limit-kw-{it}', SVGD(.2, max_iter=7, kernel=kernels.Gaussian(.8)), WELL, X3, k, Opt('adagrad', .2), it, max_iter=it)
            s = SVGD(.2, kernel=kernels.Gaussian(.8))
            s.max_iter = it
            whole(c, f'limit-attr-{it}', s, WELL, X3, k, Opt('adagrad', .2), it)
        class Stop(SVGD):
            def termination_criterion(self, state, extra):
                return jnp.logical_or(extra.iter >= self.max_iter, jnp.max(jnp.abs(state.value)) > 2.)
        X = X3 + .5
        full = chain_ref(TILT, 1., X, k, Opt('sgd', .5), 8)
        stop = next(i for i, r in enumerate(full) if np.abs(r[0]).max() > 2.)
        ch = run(TILT.scenario(1), Stop(.5, max_iter=8, kernel=kernels.Gaussian(.8), optimiser=optimizers.sgd), 3, KEY(), initial_state=cdict(value=f32(X)))
        agree(c, {q: np.asarray(v) for q, v in obs(ch).items() if q != 'bandwidth'}, full[:stop + 1], 'limit-criterion')

    def tempered(c):
        k = lambda x, y: k_gauss(x, y, .8)
        for T in (0., .3, 2.):
            for target in (QUAD, WELL):
                whole(c, f'tempered-{T}', SVGD(.2, max_iter=3, kernel=kernels.Gaussian(.8)), target, X4, k, Opt('adagrad', .2), 3, T=T)

    def kern_check(c):
        """calls, gradients and mixed derivatives of every kernel; stored and overridden parameters; function against the ensemble form"""
        for d in (1, 2, 3):
            V = [-1., .2, 1.5]
            pts = [np.array(v) for v in itertools.product(V, repeat=d)]
            pairs = list(itertools.product(pts, pts)) if d < 3 else list(zip(pts, pts[5:] + pts[:5])) + list(zip(pts, pts))
            X, Y = f32(np.stack([a for a, _ in pairs])), f32(np.stack([b for _, b in pairs]))
            bwv = np.array([.5, 2., 1.])[:d]
            for nm, kern, ref, ps in [('gauss', kernels.Gaussian(.7), k_gauss, dict(bandwidth=.7)), ('gauss-vec', kernels.Gaussian(f32(bwv)), k_gauss, dict(bandwidth=bwv)),
                                      ('pre', kernels.PreconditionedGaussian(1.3, f32(PREC[d])), k_pre, dict(bandwidth=1.3, precision=PREC[d])),
                                      ('imq', kernels.IMQ(2., -.8, .6), k_imq, dict(c=2., beta=-.8, bandwidth=.6)), ('imq-default', kernels.IMQ(), k_imq, dict(c=1., beta=-.5, bandwidth=1.)),
                                      ('imq-vec', kernels.IMQ(1.5, -.5, f32(bwv)), k_imq, dict(c=1.5, beta=-.5, bandwidth=bwv))]:
                for over in (False, True):
                    if over and nm in ('imq-default',):
                        continue
                    kw, pp = {}, dict(ps)
                    if over:
                        pp['bandwidth'] = 1.1
                        kw = dict(bandwidth=1.1)
                    f = lambda a, b: ref(a, b, **pp)
                    info = dict(kernel=nm, d=d, override=over)
                    c.close(jax.vmap(lambda a, b: kern(a, b, **kw))(X, Y), [f(a, b) for a, b in pairs], 'kernel:call', 'kernel values', rtol=1e-3, atol=1e-4, **info)
                    c.close(jax.vmap(lambda a, b: kern.grad_x(a, b, **kw))(X, Y), [fd(lambda z: f(z, b), a) for a, b in pairs], 'kernel:grad_x', 'derivative in the first argument', rtol=2e-3, atol=5e-4, **info)
                    c.close(jax.vmap(lambda a, b: kern.grad_y(a, b, **kw))(X, Y), [fd(lambda z: f(a, z), b) for a, b in pairs], 'kernel:grad_y', 'derivative in the second argument', rtol=2e-3, atol=5e-4, **info)

                    def mixed(a, b):
                        out = np.zeros(d)
                        for i in range(d):
                            e = np.eye(d)[i]
                            out[i] = fd(lambda z: fd(lambda w: f(a + w[0] * e, b + z[0] * e), np.zeros(1), 1e-2)[0], np.zeros(1), 1e-2)[0]
                        return out
                    c.close(jax.vmap(lambda a, b: kern.diag_grad_xy(a, b, **kw))(X, Y), [mixed(a, b) for a, b in pairs], 'kernel:diag_grad_xy', 'mixed second derivatives', rtol=3e-3, atol=2e-3, **info)
                    c.state(nm, d, over)
                    c.trace(len(pairs))
                    c.trans(4 * len(pairs))

    def bandwidth(c):
        for n in (2, 3, 4):
            for d in (1, 2):
                E = ensembles(n, d, 729)
                for nm, f, ref in (('mean', mean_bandwidth_update, bw_mean), ('median', median_bandwidth_update, bw_med)):
                    got = np.asarray(jax.jit(jax.vmap(f))(f32(np.stack(E))))
                    c.close(got, [ref(X) for X in E], f'bandwidth:{nm}', f'{nm} distance over the root of twice the log of the size', n=n, d=d, rtol=1e-3, atol=1e-4)
                    c.trans(len(E))
                    for X in E:
                        c.state(nm, R(X))
                c.trace(len(E))
        # function form, arbitrary scores
        kg = kernels.Gaussian(.6)
        for n in (2, 3, 4):
            for d in (1, 2):
                g = np.random.RandomState(n * 10 + d)
                for t in range(6):
                    X, G = g.randint(-4, 5, (n, d)) * .4, g.randint(-4, 5, (n, d)) * .5
                    inds = [g.randint(0, n, 3) for _ in range(n)]
                    for bi, mat in ((None, np.repeat(np.arange(n)[None], n, 0)), (inds, np.stack(inds))):
                        got = kernelised_grad_matrix(f32(X), f32(G), kg, kg.parameters, jnp.array(mat))
                        c.close(got, phi(X, G, lambda x, y: k_gauss(x, y, .6), bi), 'function', 'kernelised_grad_matrix', n=n, d=d, rtol=1e-3, atol=1e-3)

    def noisy(c):
        """stochastic potentials: positions follow the recorded gradients, which are of the current positions"""
        C.alpha = dict(normal=[(-1., .5), (1., .5)])

        class Sc(Scenario):
            name = 'noisy'
            dim = 1

            def prior_potential(self, x, random_key=None):
                return .5 * jnp.sum(x ** 2)

            def likelihood_potential(self, x, random_key):
                return (1. + .5 * jax.random.normal(random_key, ())) * jnp.sum(x)
        for n, k in ((2, 2), (3, 1), (3, 2) if th else (2, 1)):
            s = SVGD(.3, kernel=kernels.Gaussian(.8), optimiser=optimizers.sgd)
            X = X3[:n]
            lv = explore(steps(s, Sc(), n, k), [f32(X)], batch=2 ** (n * (k + 1)))
            c.explored(lv)
            got, want = Law(), Law()
            for l in lv:
                o = {q: np.asarray(v, float) for q, v in l.out.items()}
                for i in range(k + 1):
                    x, g, u = o['value'][i], o['grad_potential'][i], o['potential'][i]
                    z = (g - x - 1.) / .5
                    c.close(np.abs(z), np.ones_like(z), 'noisy:grad', 'recorded gradient is a draw at the current position', atol=2e-3)
                    c.close(u, (.5 * x ** 2 + (1 + .5 * z) * x)[:, 0], 'noisy:potential', 'recorded potential belongs to the recorded gradient', atol=3e-3)
                    if i:
                        c.close(x, o['value'][i - 1] + .3 * phi(o['value'][i - 1], o['grad_potential'][i - 1], lambda a, b: k_gauss(a, b, .8)), 'noisy:value', 'positions follow the recorded gradients', atol=3e-3, rtol=2e-3)
                got.add(R(np.sign(np.stack([(o['grad_potential'][i] - o['value'][i] - 1.)[:, 0] for i in range(k + 1)])), 0), l.p)
            for z in itertools.product((-1., 1.), repeat=n * (k + 1)):
                want.add(R(np.array(z).reshape(k + 1, n), 0), 2. ** -(n * (k + 1)))
            same_law(c, got, want, 'noisy:law', 'independent noise for every member and iteration', n=n, k=k)
            c.state(n, k)
            c.trace(len(lv))

    sizes = (1, 2, 3) + ((4,) if th else ())
    return [('direction-gaussian', direction(mk_gauss, k_gauss, (1, 2), sizes)), ('direction-precond', direction(mk_pre, k_pre, (1, 2, 3), sizes)),
            ('direction-imq', direction(mk_imq, k_imq, (1, 2, 3), sizes)), ('direction-user', direction(mk_user, k_user, (1, 2), sizes + (() if th else (4,)))),
            ('batch-1', batch_case([(2, 1), (3, 1), (4, 1)], 1)), ('batch-2', batch_case([(2, 3), (3, 2)] + ([(4, 2)] if th else []), 1)),
            ('batch-steps', batch_case([(2, 1)] + ([(2, 3)] if th else []), 2)), ('optim', optim), ('schedules', schedules), ('adapt', adapt), ('adapt-custom', adapt_custom), ('relabel', relabel),
            ('prior', prior), ('limits', limits), ('tempered', tempered), ('kernels', kern_check), ('bandwidth', bandwidth), ('noisy', noisy)]
