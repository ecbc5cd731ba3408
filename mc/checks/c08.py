"""C08: Gaussian potentials and built-in scenario densities against float64 references, on every parameterisation and lattice point."""
PROPERTY = 'C08'
JOBS = 8
BOUNDS = dict(
    quick='gaussian_potential: every accepted (prec | sqrt_prec, det) form x mean form x 1-3 dimensions x lattice of points, single and stacked; Gaussian, mixture, '
          'toy and 2d scenarios: every constructor form x lattices; every sequence of <= 2 covariance reassignments; density grids normalised numerically',
    thorough='finer lattices, sequences of 3 reassignments')
ASSUMPTIONS = ['float32 arithmetic', 'a full precision without determinant is documented to omit the normalising constant',
               'formulas of Banana, Neal funnel, double well and Rastrigin are those of the initial code, which is their only documentation']


def case_names(tier):
    return ['potential-1', 'potential-2', 'potential-3', 'gaussian', 'gaussian-reassign', 'mixture', 'mixture-normalised', 'mixture-reassign', 'toys', 'twodim',
            'grid', 'linear-gaussian', 'vectorised']


def cases(tier):
    import itertools
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    import jax
    import jax.numpy as jnp
    from mocat.src.utils import gaussian_potential
    from mocat import scenarios, twodim
    from mocat import abc as mabc
    th = tier == 'thorough'
    LP = np.log(2 * np.pi)

    def ref(x, mean, P, norm=True):
        d = np.asarray(x, float) - mean
        out = .5 * d @ P @ d
        if norm:
            out += .5 * (len(d) * LP - np.linalg.slogdet(P)[1])
        return out

    def lattice(d, n=None):
        n = n or ({1: 9, 2: 5, 3: 3} if th else {1: 7, 2: 4, 3: 2})[d]
        return np.array(list(itertools.product(np.linspace(-2., 2.5, n), repeat=d)))

    def spd(d):
        out = []
        for off in itertools.product([-.6, .5], repeat=d * (d - 1) // 2):
            for k in range(2):
                L = np.diag(np.array([[.7, 1.5, 1.1], [2., .6, .9]][k])[:d])
                L[np.tril_indices(d, -1)] = off
                out.append(L)
        return out

    def potential(ctx, d):
        X = lattice(d)
        means = [('default', None, np.zeros(d)), ('float', .7, np.full(d, .7)), ('vec', jnp.array([.3, -1., .5][:d]), np.array([.3, -1., .5][:d]))]
        forms = [('none', {}, np.eye(d), True)]
        for v in (1., .4, 3.):
            forms += [('float prec', dict(prec=v), v * np.eye(d), True), ('scalar prec', dict(prec=jnp.array(v)), v * np.eye(d), True),
                      ('float sqrt', dict(sqrt_prec=v), v * v * np.eye(d), True), ('scalar sqrt', dict(sqrt_prec=jnp.array(v)), v * v * np.eye(d), True),
                      ('float prec det', dict(prec=v, det_prec=v ** d), v * np.eye(d), True)]
        for v in itertools.product([.5, 2.], repeat=d):
            a = np.array(v)
            forms += [('diag prec', dict(prec=jnp.array(a)), np.diag(a), True), ('diag sqrt', dict(sqrt_prec=jnp.array(a)), np.diag(a ** 2), True),
                      ('diag prec det', dict(prec=jnp.array(a), det_prec=a.prod()), np.diag(a), True),
                      ('diag sqrt det', dict(sqrt_prec=jnp.array(a), det_prec=(a ** 2).prod()), np.diag(a ** 2), True)]
        for L in spd(d):
            P = L @ L.T
            Q = np.linalg.inv(np.linalg.cholesky(np.linalg.inv(P))).T     # another square root: upper triangular, P = Q Q^T
            forms += [('full prec', dict(prec=jnp.array(P)), P, False), ('full prec det', dict(prec=jnp.array(P), det_prec=np.linalg.det(P)), P, True),
                      ('full sqrt', dict(sqrt_prec=jnp.array(L)), P, False), ('full sqrt det', dict(sqrt_prec=jnp.array(L), det_prec=np.linalg.det(P)), P, True),
                      ('upper sqrt det', dict(sqrt_prec=jnp.array(Q), det_prec=np.linalg.det(P)), P, True),
                      ('both det', dict(prec=jnp.array(P), sqrt_prec=jnp.array(L), det_prec=np.linalg.det(P)), P, True)]
        for mname, m, mref in means:
            for fname, kw, P, norm in forms:
                kw = dict(kw) if m is None else dict(kw, mean=m)
                want = np.array([ref(x, mref, P, norm) for x in X])
                one = np.asarray(jax.vmap(lambda x: gaussian_potential(x, **kw))(jnp.array(X)))
                many = np.asarray(gaussian_potential(jnp.array(X), **kw))
                direct = np.asarray(gaussian_potential(jnp.array(X[-1]), **kw))
                for x in X:
                    ctx.state(d, mname, fname, repr(kw), x.tolist())
                ctx.trans(len(X))
                ctx.trace(len(X))
                tag = f'potential:{fname}'
                ctx.close(one, want, tag, 'minus the log density at each point', atol=2e-4, d=d, mean=mname, kw=repr(kw))
                ctx.close(many, want, tag + ':stacked', 'minus the log density of stacked points', atol=2e-4, d=d, mean=mname, kw=repr(kw))
                ctx.close(direct, want[-1], tag, 'minus the log density of one point', atol=2e-4, d=d, mean=mname, kw=repr(kw))
                if m is not None and mname == 'vec':
                    ms = X[::-1] * .3
                    w2 = np.array([ref(x, mm, P, norm) for x, mm in zip(X, ms)])
                    ctx.close(gaussian_potential(jnp.array(X), **dict(kw, mean=jnp.array(ms))), w2, tag + ':means', 'one mean per point', atol=2e-4, d=d)
                    w3 = np.array([ref(X[0], mm, P, norm) for mm in ms])
                    if fname.startswith(('full sqrt', 'upper', 'diag', 'both')):
                        ctx.close(gaussian_potential(jnp.array(X[0]), **dict(kw, mean=jnp.array(ms))), w3, tag + ':means1', 'one point, many means', atol=2e-4, d=d)
        if d == 1:
            for x in (-1., 0., 2.):
                ctx.close(gaussian_potential(x), ref([x], 0., np.eye(1)), 'potential:number', 'a number is a point in one dimension', atol=2e-4)
                ctx.close(gaussian_potential(jnp.array(x), .5, 2.), ref([x], .5, 2 * np.eye(1)), 'potential:number', 'a number is a point in one dimension', atol=2e-4)
        ctx.sample(dict(d=d, form=fname, x=X[-1], value=direct, want=want[-1]))

    def same_up_to_const(ctx, got, want, key, what, atol=2e-3, **info):
        got, want = np.asarray(got, float), np.asarray(want, float)
        ctx.close(got - got.flat[0], want - want.flat[0], key, what, rtol=1e-3, atol=atol, **info)

    def cov_forms(d):
        out = [('diag', jnp.array([.5, 2., 1.3][:d]), np.diag([.5, 2., 1.3][:d]))]
        for L in spd(d):
            out.append(('full', jnp.array(L @ L.T), L @ L.T))
        return out

    def eval_all(ctx, scn, X, want, key, T=(1., .5, 0.), const=True, **info):
        f = jax.vmap(lambda x: scn.potential(x))(jnp.array(X))
        same_up_to_const(ctx, f, want, key, 'minus the log of the density', **info)
        same_up_to_const(ctx, jax.vmap(lambda x: scn.likelihood_potential(x))(jnp.array(X)), want, key + ':lik', 'likelihood potential (no prior)', **info)
        ctx.close(scn.potential(jnp.array(X[1])), np.asarray(f)[1], key + ':one', 'single point', atol=2e-4, **info)

    def gaussian(ctx):
        for d in (1, 2, 3):
            X = lattice(d)
            m = np.array([.4, -1., 2.])[:d]
            for mean in (None, m):
                for fname, c, C in [('default', None, np.eye(d))] + cov_forms(d):
                    kw = {}
                    if mean is not None:
                        kw['mean'] = jnp.array(mean)
                    if c is not None:
                        kw['covariance'] = c
                    if not kw:
                        kw['dim'] = d
                    for cls in ([scenarios.Gaussian] + ([twodim.Gaussian] if d == 2 else [])):
                        kk = {k: v for k, v in kw.items() if not (cls is twodim.Gaussian and k == 'dim')}
                        g = cls(**kk)
                        ctx.expect(g.dim == d, 'gaussian:dim', 'dimension', d=d, got=g.dim)
                        mm = np.zeros(d) if mean is None else mean
                        want = [ref(x, mm, np.linalg.inv(C), False) for x in X]
                        for x in X:
                            ctx.state(cls.__module__, d, mean is None, fname, C.tolist(), x.tolist())
                        ctx.trans(len(X))
                        ctx.trace(len(X))
                        eval_all(ctx, g, X, want, 'gaussian', form=fname, d=d, C=C)
                        s = np.asarray(g.covariance_sqrt, float)
                        s = s if s.ndim == 2 else np.diag(s * np.ones(d))
                        p = np.asarray(g.precision_sqrt, float)
                        p = p if p.ndim == 2 else np.diag(p * np.ones(d))
                        ctx.close(s @ s.T, C, 'gaussian:sqrt', 'covariance square root', atol=1e-4)
                        ctx.close(p @ p.T, np.linalg.inv(C), 'gaussian:prec', 'precision square root', rtol=1e-3, atol=1e-4)
                        ctx.close(g.precision_det, 1 / np.linalg.det(C), 'gaussian:det', 'precision determinant', rtol=1e-3)

    def gaussian_reassign(ctx):
        for d in (1, 2):
            X = lattice(d)
            forms = cov_forms(d)
            means = [np.array([.4, -1.])[:d], np.array([-2., .3])[:d]]
            ops = [('cov', i) for i in range(len(forms))] + [('mean', i) for i in range(2)]
            for n in range(1, 4 if th else 3):
                for seq in itertools.product(ops, repeat=n):
                    g = scenarios.Gaussian(mean=jnp.zeros(d))
                    C, mm = np.eye(d), np.zeros(d)
                    for k, (op, i) in enumerate(seq):
                        if op == 'cov':
                            g.covariance = forms[i][1]
                            C = forms[i][2]
                        else:
                            g.mean = jnp.array(means[i])
                            mm = means[i]
                        ctx.state(d, seq[:k + 1])
                        ctx.trans()
                        P = np.linalg.inv(C)
                        same_up_to_const(ctx, jax.vmap(lambda x: g.potential(x))(jnp.array(X)), [ref(x, mm, P, False) for x in X], 'gaussian:reassign', 'density of the current parameters', seq=seq)
                        ctx.close(jax.vmap(lambda x: g.grad_potential(x))(jnp.array(X)), np.array([P @ (x - mm) for x in X]), 'gaussian:reassign:grad', 'gradient for the current parameters', rtol=1e-3, atol=1e-3, seq=seq)
                        ctx.close(g.precision_det, 1 / np.linalg.det(C), 'gaussian:reassign:det', 'derived determinant', rtol=1e-3, seq=seq)
                    ctx.trace()

    def mix_ref(X, means, covs, w):
        out = []
        for x in X:
            terms = [np.log(wi) - ref(x, m, np.linalg.inv(C)) for m, C, wi in zip(means, covs, w) if wi > 0]
            mx = max(terms)
            out.append(-(mx + np.log(sum(np.exp(t - mx) for t in terms))))
        return np.array(out)

    def mix_args(d):
        M = {1: [[[0.]], [[-1.], [1.5]], [[-1.], [0.], [2.]]], 2: [[[0., .5]], [[-1., 0.], [1., .5]], [[-1., 0.], [1., 1.], [0., -1.]]],
             3: [[[-1., 0., .2], [1., .5, 0.]]]}[d]
        for means in M:
            n = len(means)
            Ls = spd(d)
            covs = [('none', None, [np.eye(d)] * n)] + [('shared', L @ L.T, [L @ L.T] * n) for L in Ls[:2]] \
                + [('each', np.array([Ls[(i + k) % len(Ls)] @ Ls[(i + k) % len(Ls)].T for i in range(n)]), [Ls[(i + k) % len(Ls)] @ Ls[(i + k) % len(Ls)].T for i in range(n)]) for k in range(2)]
            ws = [('none', None, np.ones(n) / n)] + [('w', v, v) for v in (np.array([.7, .3, .0])[:n] / np.array([.7, .3, .0])[:n].sum(), np.array([.2, .5, .3])[:n] / np.array([.2, .5, .3])[:n].sum())]
            for (cn, c, C), (wn, w, W) in itertools.product(covs, ws):
                yield np.array(means), cn, c, C, wn, w, W

    def mixture(ctx):
        for d in (1, 2, 3):
            X = lattice(d)
            for means, cn, c, C, wn, w, W in mix_args(d):
                kw = {}
                if c is not None:
                    kw['covariances'] = jnp.array(c)
                if w is not None:
                    kw['weights'] = jnp.array(w)
                want = mix_ref(X, means, C, W)
                for cls in [scenarios.GaussianMixture] + ([twodim.GaussianMixture] if d == 2 else []):
                    g = cls(jnp.array(means), **kw)
                    for x in X:
                        ctx.state(cls.__module__, d, means.tolist(), cn, repr(c), wn, repr(w), x.tolist())
                    ctx.trans(len(X))
                    ctx.trace(len(X))
                    ctx.expect(g.dim == d and g.n_components == len(means), 'mixture:dim', 'dimension and number of components')
                    eval_all(ctx, g, X, want, 'mixture', means=means, cov=cn, weights=wn)
                    ctx.close(jax.vmap(g.likelihood_potential)(jnp.array(X)), want, 'mixture:normalised', 'minus the log density of the mixture', rtol=1e-3, atol=1e-3, means=means, cov=cn, weights=wn)
                    ctx.close(jax.vmap(g.dens)(jnp.array(X)), np.exp(-want), 'mixture:dens', 'density', rtol=2e-3, atol=1e-6, means=means, cov=cn, weights=wn)
                    for i in range(len(means)):
                        cd = np.array([W[i] * np.exp(-ref(x, means[i], np.linalg.inv(C[i]))) for x in X])
                        ctx.close(jax.vmap(lambda x: g.component_dens(x, i))(jnp.array(X)), cd, 'mixture:component', 'weighted density of a component', rtol=2e-3, atol=1e-6, i=i, means=means)
                if d == 1:
                    g = scenarios.GaussianMixture(jnp.array(means[:, 0]), **kw)
                    ctx.close(jax.vmap(g.likelihood_potential)(jnp.array(X)), want, 'mixture:flat', 'one dimensional means', rtol=1e-3, atol=1e-3)

    def mixture_norm(ctx):
        """the density integrates to one: quadrature on a fine grid, independent of the component formulas"""
        for d, grid in ((1, np.linspace(-14, 14, 2801)), (2, np.linspace(-9, 9, 121))):
            X = np.array(list(itertools.product(grid, repeat=d)))
            cell = (grid[1] - grid[0]) ** d
            for means, cn, c, C, wn, w, W in mix_args(d):
                kw = {} if c is None else dict(covariances=jnp.array(c))
                if w is not None:
                    kw['weights'] = jnp.array(w)
                g = scenarios.GaussianMixture(jnp.array(means), **kw)
                p = np.asarray(g.dens(jnp.array(X)), float)
                ctx.state(d, means.tolist(), cn, repr(c), wn, repr(w))
                ctx.trans(len(X))
                ctx.trace()
                ctx.close(p.sum() * cell, 1., 'mixture:mass', 'total mass one', rtol=3e-3, means=means, cov=cn, weights=wn)
                ctx.close((p[:, None] * X).sum(0) * cell, np.asarray(W) @ means, 'mixture:mean', 'mean of the mixture', rtol=5e-3, atol=5e-3, means=means, cov=cn, weights=wn)
                m2 = sum(wi * (Ci + np.outer(mi, mi)) for wi, Ci, mi in zip(W, C, means))
                ctx.close((X[:, :, None] * X[:, None, :] * p[:, None, None]).sum(0) * cell, m2, 'mixture:cov', 'second moments of the mixture', rtol=1e-2, atol=2e-2, means=means, cov=cn, weights=wn)

    def mixture_reassign(ctx):
        d = 2
        X = lattice(2)
        n = 2
        Ls = spd(2)
        vals = dict(means=[np.array([[-1., 0.], [1., 1.]]), np.array([[2., 0.], [0., -1.]])],
                    covariances=[None, Ls[0] @ Ls[0].T, np.array([Ls[1] @ Ls[1].T, Ls[2] @ Ls[2].T])],
                    weights=[np.array([.5, .5]), np.array([.9, .1])])
        ops = [(k, i) for k in vals for i in range(len(vals[k]))]
        for L in range(1, 4 if th else 3):
            for seq in itertools.product(ops, repeat=L):
                g = scenarios.GaussianMixture(jnp.array([[0., 0.], [1., 2.]]))
                cur = dict(means=np.array([[0., 0.], [1., 2.]]), covariances=None, weights=np.array([.5, .5]))
                for k, i in seq:
                    v = vals[k][i]
                    setattr(g, k, None if v is None else jnp.array(v))
                    cur[k] = v
                    ctx.trans()
                    ctx.state(seq)
                    C = cur['covariances']
                    C = [np.eye(2)] * 2 if C is None else ([C] * 2 if C.ndim == 2 else list(C))
                    want = mix_ref(X, cur['means'], C, cur['weights'])
                    ctx.close(jax.vmap(lambda x: g.potential(x))(jnp.array(X)), want, 'mixture:reassign', 'density of the current parameters', rtol=1e-3, atol=1e-3, seq=seq)
                ctx.trace()

    def toys(ctx):
        for d in (1, 2, 3):
            X = lattice(d)
            fs = [('double well', scenarios.DoubleWell(d), lambda x: np.sum(x ** 4) / 4 - np.sum(x ** 2) / 2)]
            for a in (None, .5, 3., 10.):
                fs.append((f'rastrigin {a}', scenarios.Rastrigin(d, **({} if a is None else dict(a=a))),
                           lambda x, a=a: (1. if a is None else a) * d + np.sum(x ** 2 - (1. if a is None else a) * np.cos(2 * np.pi * x))))
            for name, s, f in fs:
                want = np.array([f(x) for x in X])
                for x in X:
                    ctx.state(name, d, x.tolist())
                ctx.trans(len(X))
                ctx.trace(len(X))
                ctx.expect(s.dim == d, 'toy:dim', 'dimension')
                eval_all(ctx, s, X, want, 'toy:' + name.split()[0], scenario=name)
                if 'rastrigin' in name:
                    ctx.close(s.likelihood_potential(jnp.zeros(d)), 0., 'toy:rastrigin:zero', 'global minimum value zero at the origin', atol=1e-4)
                    s.a = 2.2
                    f2 = lambda x: 2.2 * d + np.sum(x ** 2 - 2.2 * np.cos(2 * np.pi * x))
                    same_up_to_const(ctx, jax.vmap(lambda x: s.potential(x))(jnp.array(X)), [f2(x) for x in X], 'toy:rastrigin:reassign', 'current amplitude')

    def twod(ctx):
        X = lattice(2, 7)
        X = np.concatenate([X, 4 * X])
        fs = [('banana', twodim.Banana(), lambda x: .5 * (x[0] ** 2 / 100 + (x[1] + .03 * x[0] ** 2 - 3.) ** 2)),
              ('funnel', twodim.NealFunnel(), lambda x: .5 * (x[1] ** 2 / 3 + x[0] ** 2 * np.exp(-x[1] / 2))),
              ('double well', twodim.DoubleWell(), lambda x: np.sum(x ** 4) / 4 - np.sum(x ** 2) / 2),
              ('rastrigin', twodim.Rastrigin(), lambda x: 2 + np.sum(x ** 2 - np.cos(2 * np.pi * x))),
              ('rastrigin a', twodim.Rastrigin(a=4.), lambda x: 8 + np.sum(x ** 2 - 4 * np.cos(2 * np.pi * x))),
              ('gaussian', twodim.Gaussian(), lambda x: .5 * x @ x),
              ('mixture', twodim.GaussianMixture(), lambda x: mix_ref([x], np.array([[-2, -2], [2, -2], [-2, 2], [2, 2.]]), [np.eye(2)] * 4, np.ones(4) / 4)[0])]
        for name, s, f in fs:
            want = np.array([f(x) for x in X])
            for x in X:
                ctx.state(name, x.tolist())
            ctx.trans(len(X))
            ctx.trace(len(X))
            ctx.expect(s.dim == 2, 'twodim:dim', 'two dimensions')
            small = want < 60
            eval_all(ctx, s, X[small], want[small], 'twodim:' + name, scenario=name)
        b = twodim.Banana()
        for cu, le in [(.1, 10.), (.05, 50.)]:
            b.curviness, b.lengthiness = cu, le
            w = [.5 * (x[0] ** 2 / le + (x[1] + cu * x[0] ** 2 - le * cu) ** 2) for x in X]
            same_up_to_const(ctx, jax.vmap(lambda x: b.potential(x))(jnp.array(X)), w, 'twodim:banana:reassign', 'current parameters', atol=5e-3)

    def grid(ctx):
        """grid evaluation is pointwise evaluation: rows are y, columns are x"""
        xs, ys = np.linspace(-2, 2.5, 5), np.linspace(-1, 3, 4)
        for s in (twodim.Banana(), twodim.NealFunnel(), twodim.DoubleWell(), twodim.Rastrigin(), twodim.Gaussian(), twodim.GaussianMixture(),
                  twodim.Gaussian(jnp.array([1., -1.]), jnp.array([[2., .5], [.5, 1.]]))):
            Z = np.asarray(s.vec_potential(jnp.array(xs), jnp.array(ys)))
            W = np.array([[s.potential(jnp.array([x, y])) for x in xs] for y in ys])
            ctx.state(type(s).__name__)
            ctx.trans(20)
            ctx.trace(20)
            ctx.close(Z, W, 'grid', 'grid of potentials', atol=2e-4, scenario=type(s).__name__)

    def lg(ctx):
        """linear Gaussian scenario: prior and likelihood are the densities of its parameters"""
        LG = mabc.scenarios.LinearGaussian
        for d, do in [(1, 1), (2, 1), (2, 2), (1, 2)]:
            X = lattice(d)
            H = np.array([[1., .5], [-.3, 2.]])[:do, :d]
            for i, Lp in enumerate(spd(d)):
                for j, Ll in enumerate(spd(do)):
                    Cp, Cl = Lp @ Lp.T, Ll @ Ll.T
                    m = np.array([.5, -1.])[:d]
                    y = np.array([1., .4])[:do]
                    s = LG(prior_mean=jnp.array(m), prior_covariance=jnp.array(Cp), data=jnp.array(y), likelihood_matrix=jnp.array(H), likelihood_covariance=jnp.array(Cl))
                    wp = np.array([ref(x, m, np.linalg.inv(Cp)) for x in X])
                    wl = np.array([ref(y, H @ x, np.linalg.inv(Cl)) for x in X])
                    for x in X:
                        ctx.state(d, do, i, j, x.tolist())
                    ctx.trans(len(X))
                    ctx.trace(len(X))
                    ctx.close(jax.vmap(lambda x: s.prior_potential(x))(jnp.array(X)), wp, 'lg:prior', 'minus the log prior density', rtol=1e-3, atol=2e-3)
                    ctx.close(jax.vmap(lambda x: s.likelihood_potential(x))(jnp.array(X)), wl, 'lg:likelihood', 'minus the log likelihood', rtol=1e-3, atol=2e-3)
                    ctx.close(jax.vmap(lambda x: s.potential(x))(jnp.array(X)), wp + wl, 'lg:posterior', 'minus the log joint density', rtol=1e-3, atol=4e-3)
                    ctx.close(s.prior_potential(jnp.array(X)), wp, 'lg:stacked', 'stacked points', rtol=1e-3, atol=2e-3)
                    ctx.close(s.likelihood_potential(jnp.array(X)), wl, 'lg:stacked-lik', 'stacked points', rtol=1e-3, atol=2e-3)
        for v in (.5, 2.):
            s = LG(prior_mean=v, prior_covariance=v, data=jnp.ones(2), likelihood_matrix=jnp.eye(2), likelihood_covariance=v)
            x = np.array([.3, -1.])
            ctx.close(s.prior_potential(jnp.array(x)), ref(x, v, np.eye(2) / v), 'lg:floats', 'numbers stand for multiples of the identity', rtol=1e-3)
            ctx.close(s.likelihood_potential(jnp.array(x)), ref(np.ones(2), x, np.eye(2) / v), 'lg:floats', 'numbers stand for multiples of the identity', rtol=1e-3)

    def vectorised(ctx):
        """evaluation of stacked points agrees with pointwise evaluation, for all scenarios that accept stacks"""
        for d in (1, 2, 3):
            X = lattice(d)
            Ls = spd(d)
            for s in [scenarios.Gaussian(d), scenarios.Gaussian(mean=jnp.ones(d), covariance=jnp.array(Ls[0] @ Ls[0].T)), scenarios.DoubleWell(d), scenarios.Rastrigin(d, 2.),
                      scenarios.GaussianMixture(jnp.array(X[:2]), jnp.array(Ls[1] @ Ls[1].T))] \
                    + ([twodim.DoubleWell(), twodim.Rastrigin(), twodim.GaussianMixture(), twodim.Gaussian()] if d == 2 else []):
                one = np.array([s._likelihood_potential(jnp.array(x), None) if hasattr(s, '_likelihood_potential') else s.likelihood_potential(jnp.array(x)) for x in X[:12]])
                ctx.state(d, type(s).__module__, type(s).__name__)
                ctx.trans(len(one))
                ctx.trace(len(one))
                # in one dimension the scenario's own functions treat any array as a stack of points
                many = np.asarray(s.likelihood_potential(jnp.array(X[:12]), None))
                ctx.close(np.squeeze(many), np.squeeze(one), 'vectorised', 'stacked points', atol=2e-4, scenario=type(s).__name__, d=d)
                if d == 1:
                    ctx.close(s.potential(jnp.array(X[:12, 0]), None), np.squeeze(one), 'vectorised:flat', 'a one dimensional array is a stack of numbers', atol=2e-4, scenario=type(s).__name__)
                    ctx.close(s.potential(float(X[2, 0]), None), np.squeeze(one)[2], 'vectorised:number', 'a number is a point', atol=2e-4, scenario=type(s).__name__)

    return [('potential-1', lambda c: potential(c, 1)), ('potential-2', lambda c: potential(c, 2)), ('potential-3', lambda c: potential(c, 3)), ('gaussian', gaussian),
            ('gaussian-reassign', gaussian_reassign), ('mixture', mixture), ('mixture-normalised', mixture_norm), ('mixture-reassign', mixture_reassign), ('toys', toys),
            ('twodim', twod), ('grid', grid), ('linear-gaussian', lg), ('vectorised', vectorised)]
