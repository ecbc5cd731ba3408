"""C17: Kalman filter, smoother and lag-one moments against conditioning of the joint Gaussian, over a bounded family of models.
The joint Gaussian is built independently, and also from the real samplers: all +-1 patterns of their noise give its exact moments."""
PROPERTY = 'C17'
JOBS = 8
BOUNDS = dict(
    quick='state dimension 1-3 x observation dimension 1-3 x 1-5 observations (longer: 9) x two time grids x homogeneous and time-varying models x correlated covariances; observations over a basis (every result is affine in them) '
          'and joint patterns; moments of the simulated process from every +-1 noise pattern; posteriors of the linear Gaussian scenarios over the points that determine a quadratic',
    thorough='longer series, more seeds of coefficients and all combinations')
ASSUMPTIONS = ['full-rank noise; float32 tolerance 1e-3 relative', 'covariances are matrices']
NAMES = ['filter-hom', 'filter-tv', 'smoother-hom', 'smoother-tv', 'long', 'affine', 'moments-hom', 'moments-tv', 'given-filter', 'defaults', 'posterior-abc', 'posterior-toy', 'reassigned']


def case_names(tier):
    return list(NAMES)


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, R, PM1, LN2
    import itertools
    from mocat.ssm import TimeHomogenousLinearGaussian, run_kalman_filter_for_marginals, run_kalman_smoother_for_marginals, run_kalman_smoother_for_marginals_and_lag_ones
    from mocat.src.ssm.linear_gaussian.linear_gaussian import LinearGaussian
    from mocat.abc import scenarios as abcs
    from mocat import scenarios as toy
    th = tier == 'thorough'
    GRIDS = ((0., 1., 2., 3., 4., 5., 6., 7., 8.), (.5, .75, 2., 2.25, 5., 5.5, 7., 7.125, 10.))

    def spd(g, d, s=1.):
        a = g.randint(-2, 3, (d, d)) * .4
        return s * (a @ a.T + .5 * np.eye(d))

    class Hom:
        """coefficients of a homogeneous model, in float64"""
        def __init__(self, seed, d, p):
            g = np.random.RandomState(seed * 100 + 10 * d + p)
            self.d, self.p = d, p
            self.m0, self.P0 = g.randint(-3, 4, d) * .5, spd(g, d)
            self.F, self.Q = g.randint(-3, 4, (d, d)) * .3, spd(g, d, .7)
            self.H, self.Rm = g.randint(-3, 4, (p, d)) * .5, spd(g, p, .6)
            self.model = TimeHomogenousLinearGaussian(*(jnp.array(x, jnp.float32) for x in (self.m0, self.P0, self.F, self.Q, self.H, self.Rm)))

        init = lambda s, t: (s.m0, s.P0)
        trans = lambda s, t0, t1: (s.F, s.Q)
        obs = lambda s, t: (s.H, s.Rm)

    class TV(Hom):
        """every coefficient depends on time, asymmetrically in the two times of a transition"""
        def __init__(self, seed, d, p):
            super().__init__(seed, d, p)
            o = self

            class M(LinearGaussian):
                name = 'tv'
                dim, dim_obs = d, p
                get_initial_mean = lambda s, t: o.init(t, jnp)[0]
                get_initial_covariance_sqrt = lambda s, t: jnp.linalg.cholesky(o.init(t, jnp)[1])
                get_transition_matrix = lambda s, a, b: o.trans(a, b, jnp)[0]
                get_transition_covariance_sqrt = lambda s, a, b: jnp.linalg.cholesky(o.trans(a, b, jnp)[1])
                get_likelihood_matrix = lambda s, t: o.obs(t, jnp)[0]
                get_likelihood_covariance_sqrt = lambda s, t: jnp.linalg.cholesky(o.obs(t, jnp)[1])
            self.model = M()

        def init(self, t, m=np):
            return self.m0 + .5 * t, self.P0 * (1 + .5 * t)

        def trans(self, a, b, m=np):
            return self.F * (1 - .05 * a) + .1 * (b - a) * m.eye(self.d), self.Q * (b - a) + .1 * a * m.eye(self.d)

        def obs(self, t, m=np):
            return self.H * (1 + .1 * t), self.Rm + .1 * t * m.eye(self.p)

    def joint(mod, ts):
        """mean and covariance of (x_0..x_T-1, y_0..y_T-1)"""
        d, p, T = mod.d, mod.p, len(ts)
        m, P = mod.init(ts[0])
        mx, Cx = np.zeros(T * d), np.zeros((T * d, T * d))
        mx[:d], Cx[:d, :d] = m, P
        for k in range(1, T):
            F, Q = mod.trans(ts[k - 1], ts[k])
            a, b = slice((k - 1) * d, k * d), slice(k * d, (k + 1) * d)
            mx[b] = F @ mx[a]
            Cx[b, :k * d] = F @ Cx[a, :k * d]
            Cx[:k * d, b] = Cx[b, :k * d].T
            Cx[b, b] = F @ Cx[a, a] @ F.T + Q
        Hb, Rb = np.zeros((T * p, T * d)), np.zeros((T * p, T * p))
        for k in range(T):
            H, Rm = mod.obs(ts[k])
            Hb[k * p:(k + 1) * p, k * d:(k + 1) * d], Rb[k * p:(k + 1) * p, k * p:(k + 1) * p] = H, Rm
        return mx, Cx, Hb @ mx, Cx @ Hb.T, Hb @ Cx @ Hb.T + Rb

    def condition(mx, Cx, my, Cxy, Cy, y, nobs):
        """conditional mean and covariance of all x given the first nobs coordinates of y"""
        K = np.linalg.solve(Cy[:nobs, :nobs].T, Cxy[:, :nobs].T).T
        return mx + K @ (y[:nobs] - my[:nobs]), Cx - K @ Cxy[:, :nobs].T

    def ref(mod, ts, y, J=None):
        d, p, T = mod.d, mod.p, len(ts)
        J = J or joint(mod, ts)
        y = np.asarray(y, float).ravel()
        f, s = [], []
        for k in range(T):
            b = slice(k * d, (k + 1) * d)
            m, P = condition(*J, y, (k + 1) * p)
            f.append((m[b], P[b, b]))
        m, P = condition(*J, y, T * p)
        s = [(m[k * d:(k + 1) * d], P[k * d:(k + 1) * d, k * d:(k + 1) * d]) for k in range(T)]
        lag = [np.outer(m[k * d:(k + 1) * d], m[(k + 1) * d:(k + 2) * d]) + P[k * d:(k + 1) * d, (k + 1) * d:(k + 2) * d] for k in range(T - 1)]
        return f, s, lag

    def ys_of(T, p, seed=0):
        """observations: zero, every unit vector (results are affine in them), and mixtures"""
        out = [np.zeros((T, p))]
        for k in range(T):
            for j in range(p):
                e = np.zeros((T, p))
                e[k, j] = 1.
                out.append(e)
        g = np.random.RandomState(seed)
        out += [g.randint(-4, 5, (T, p)) * .5 for _ in range(2)]
        return out

    TOL = dict(rtol=2e-3, atol=2e-3)

    def filt(c, cls, Ts, dims, seeds=(0,)):
        for seed in seeds:
            for d, p in dims:
                mod = cls(seed, d, p)
                for gi, grid in enumerate(GRIDS):
                    for T in Ts:
                        ts = grid[:T]
                        J = joint(mod, ts)
                        run = jax.jit(lambda y: run_kalman_filter_for_marginals(mod.model, y, jnp.array(ts)))
                        for yi, y in enumerate(ys_of(T, p)):
                            mu, cov = run(jnp.array(y, jnp.float32))
                            f, _, _ = ref(mod, ts, y, J)
                            info = dict(d=d, p=p, T=T, grid=gi, y=yi, seed=seed)
                            c.expect(mu.shape == (T, d) and cov.shape == (T, d, d), 'filter:shape', 'one marginal per observation', shapes=[mu.shape, cov.shape], **info)
                            c.close(mu, np.stack([x for x, _ in f]), 'filter:mean', 'filtering means are the conditional means', **TOL, **info)
                            c.close(cov, np.stack([x for _, x in f]), 'filter:cov', 'filtering covariances are the conditional covariances', **TOL, **info)
                            c.trans(T)
                            c.trace(1)
                            c.state('filter', cls.__name__, d, p, T, gi, yi, seed)

    def smooth(c, cls, Ts, dims, seeds=(0,)):
        for seed in seeds:
            for d, p in dims:
                mod = cls(seed, d, p)
                for gi, grid in enumerate(GRIDS):
                    for T in Ts:
                        ts = grid[:T]
                        J = joint(mod, ts)
                        run = jax.jit(lambda y: (run_kalman_smoother_for_marginals_and_lag_ones(mod.model, y, jnp.array(ts)), run_kalman_smoother_for_marginals(mod.model, y, jnp.array(ts))))
                        for yi, y in enumerate(ys_of(T, p)):
                            (mu, cov, lag), (mu2, cov2) = run(jnp.array(y, jnp.float32))
                            _, s, L = ref(mod, ts, y, J)
                            info = dict(d=d, p=p, T=T, grid=gi, y=yi, seed=seed)
                            c.expect(mu.shape == (T, d) and cov.shape == (T, d, d) and lag.shape == (T - 1, d, d), 'smoother:shape', 'one marginal per observation, one pair less', shapes=[mu.shape, cov.shape, lag.shape], **info)
                            for m_, c_ in ((mu, cov), (mu2, cov2)):
                                c.close(m_, np.stack([x for x, _ in s]), 'smoother:mean', 'smoothing means are the conditional means', **TOL, **info)
                                c.close(c_, np.stack([x for _, x in s]), 'smoother:cov', 'smoothing covariances are the conditional covariances', **TOL, **info)
                            if T > 1:
                                c.close(lag, np.stack(L), 'smoother:lag', 'lag-one results are the conditional second moments of consecutive states', **TOL, **info)
                            c.trans(2 * T)
                            c.trace(1)
                            c.state('smoother', cls.__name__, d, p, T, gi, yi, seed)

    ALL = [(d, p) for d in (1, 2, 3) for p in (1, 2, 3)]
    SOME = [(1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)]
    SEEDS = (0, 1, 2) if th else (0,)
    TS = (1, 2, 3, 4, 5) if th else (1, 2, 3, 5)
    TSS = (1, 2, 3, 4) if th else (1, 2, 4)

    def long(c):
        for cls in (Hom, TV):
            filt(c, cls, (9,), ALL if th else [(1, 1), (2, 2)])
            smooth(c, cls, (9,), ALL if th else [(2, 1)])

    def affine(c):
        """covariances do not depend on the observations, means are affine in them: pairs of observation directions, at two scales"""
        for cls, d, p in ((Hom, 2, 1), (TV, 2, 2), (TV, 1, 1)):
            mod = cls(3, d, p)
            T = 3
            ts = GRIDS[1][:T]
            f = jax.jit(lambda y: (run_kalman_filter_for_marginals(mod.model, y, jnp.array(ts)), run_kalman_smoother_for_marginals(mod.model, y, jnp.array(ts))))
            basis = ys_of(T, p)[1:T * p + 1]
            (m0, c0), (s0, d0) = f(jnp.zeros((T, p)))
            ev = [f(jnp.array(b, jnp.float32)) for b in basis]
            for i, j in itertools.combinations_with_replacement(range(len(basis)), 2):
                for a, b in ((1., 1.), (-30., 2.)):
                    y = a * basis[i] + b * basis[j]
                    (m, cv), (s, dv) = f(jnp.array(y, jnp.float32))
                    for got, base, k in ((m, m0, 0), (s, s0, 1)):
                        want = np.asarray(base) + a * (np.asarray(ev[i][k][0]) - np.asarray(base)) + b * (np.asarray(ev[j][k][0]) - np.asarray(base))
                        c.close(got, want, 'affine:mean', 'means are affine in the observations', rtol=2e-3, atol=5e-3, pair=(i, j))
                    c.close(cv, c0, 'affine:cov', 'covariances do not depend on the observations', **TOL)
                    c.close(dv, d0, 'affine:scov', 'covariances do not depend on the observations', **TOL)
                    c.state('affine', cls.__name__, d, p, i, j, a)
                    c.trans(T)
                    c.trace(1)

    def moments(c, cls, confs):
        """binding to the real samplers: every +-1 pattern of the noise of simulate gives the exact joint moments, and conditioning them the Kalman results"""
        C.alpha = dict(normal=PM1)
        for d, p, T in confs:
            mod = cls(1, d, p)
            ts = GRIDS[1][:T]

            def fn(_, key):
                o = mod.model.simulate(jnp.array(ts), key)
                return o.x.ravel(), o.y.ravel()
            lv = explore(fn, [0.], batch=1024)
            c.explored(lv)
            Z = np.stack([np.concatenate([np.asarray(l.out[0], float), np.asarray(l.out[1], float)]) for l in lv])
            w = np.array([l.p for l in lv])
            c.close(w.sum(), 1., 'moments:complete', 'all noise patterns covered')
            m = w @ Z
            S = (Z - m).T @ ((Z - m) * w[:, None])
            for z in Z[:256]:
                c.state('moments', cls.__name__, d, p, T, R(z, 3))
            mx, Cx, my, Cxy, Cy = joint(mod, ts)
            n = T * d
            c.close(m, np.concatenate([mx, my]), 'moments:mean', 'simulated mean is that of the model', d=d, p=p, T=T, **TOL)
            c.close(S, np.block([[Cx, Cxy], [Cxy.T, Cy]]), 'moments:cov', 'simulated covariance is that of the model', d=d, p=p, T=T, **TOL)
            J = (m[:n], S[:n, :n], m[n:], S[:n, n:], S[n:, n:])
            for yi, y in enumerate(ys_of(T, p)):
                f, s, L = ref(mod, ts, y, J)
                mu, cov = run_kalman_filter_for_marginals(mod.model, jnp.array(y, jnp.float32), jnp.array(ts))
                sm, sc, lag = run_kalman_smoother_for_marginals_and_lag_ones(mod.model, jnp.array(y, jnp.float32), jnp.array(ts))
                c.close(mu, np.stack([x for x, _ in f]), 'moments:filter', 'the filter conditions the process that the samplers draw', d=d, p=p, T=T, y=yi, rtol=3e-3, atol=3e-3)
                c.close(cov, np.stack([x for _, x in f]), 'moments:filter-cov', 'the filter conditions the process that the samplers draw', d=d, p=p, T=T, y=yi, rtol=3e-3, atol=3e-3)
                c.close(sm, np.stack([x for x, _ in s]), 'moments:smoother', 'the smoother conditions the process that the samplers draw', d=d, p=p, T=T, y=yi, rtol=3e-3, atol=3e-3)
                c.close(sc, np.stack([x for _, x in s]), 'moments:smoother-cov', 'the smoother conditions the process that the samplers draw', d=d, p=p, T=T, y=yi, rtol=3e-3, atol=3e-3)
                if T > 1:
                    c.close(lag, np.stack(L), 'moments:lag', 'lag-one results condition the process that the samplers draw', d=d, p=p, T=T, y=yi, rtol=3e-3, atol=3e-3)

    def given_filter(c):
        """the smoother started from a filter output given by the caller"""
        for cls in (Hom, TV):
            for d, p, T in ((2, 1, 3), (1, 2, 2), (2, 2, 1), (3, 1, 4)):
                mod = cls(2, d, p)
                ts = jnp.array(GRIDS[1][:T])
                for yi, y in enumerate(ys_of(T, p)[-3:]):
                    y = jnp.array(y, jnp.float32)
                    f = run_kalman_filter_for_marginals(mod.model, y, ts)
                    keep = (np.array(f[0]), np.array(f[1]))
                    a = run_kalman_smoother_for_marginals_and_lag_ones(mod.model, y, ts, f)
                    b = run_kalman_smoother_for_marginals(mod.model, y, ts, f)
                    _, s, L = ref(mod, GRIDS[1][:T], y)
                    for o in (a, b):
                        c.close(o[0], np.stack([x for x, _ in s]), 'given:mean', 'smoothing from a given filter output', d=d, p=p, T=T, **TOL)
                        c.close(o[1], np.stack([x for _, x in s]), 'given:cov', 'smoothing from a given filter output', d=d, p=p, T=T, **TOL)
                    if T > 1:
                        c.close(a[2], np.stack(L), 'given:lag', 'smoothing from a given filter output', d=d, p=p, T=T, **TOL)
                    c.expect(np.array_equal(keep[0], f[0]) and np.array_equal(keep[1], f[1]), 'given:input', 'the filter output is left as it was')
                    c.state('given', cls.__name__, d, p, T, yi)
                    c.trans(2 * T)
                    c.trace(1)

    def defaults(c):
        """arguments left out: identity matrices and zero means; 1-d observation arrays for scalar observations"""
        A = lambda *v: jnp.array(v, jnp.float32)
        mat = dict(initial_mean=A(.5, -1.), initial_covariance=A([1., .3], [.3, .8]), transition_matrix=A([.9, .2], [0., .7]), transition_covariance=A([.5, .1], [.1, .4]), likelihood_matrix=A([1., .5], [0., 2.]), likelihood_covariance=A([.6, -.2], [-.2, .9]))
        dflt = dict(initial_mean=np.zeros(2), initial_covariance=np.eye(2), transition_matrix=np.eye(2), transition_covariance=np.eye(2), likelihood_matrix=np.eye(2), likelihood_covariance=np.eye(2))
        names = list(mat)
        for r in range(0, 3):
            for drop in itertools.combinations(names, r):
                kw = {k: v for k, v in mat.items() if k not in drop}
                o = Hom(0, 2, 2)
                full = {k: np.asarray(kw.get(k, dflt[k]), float) for k in names}
                o.m0, o.P0, o.F, o.Q, o.H, o.Rm = (full[k] for k in names)
                o.model = TimeHomogenousLinearGaussian(**kw)
                T = 3
                y = ys_of(T, 2, 5)[-1]
                f, s, L = ref(o, GRIDS[0][:T], y)
                mu, cov = run_kalman_filter_for_marginals(o.model, jnp.array(y, jnp.float32), jnp.array(GRIDS[0][:T]))
                c.close(mu, np.stack([x for x, _ in f]), 'defaults:mean', 'parameters left out are zero means and identity matrices', drop=drop, **TOL)
                c.close(cov, np.stack([x for _, x in f]), 'defaults:cov', 'parameters left out are zero means and identity matrices', drop=drop, **TOL)
                c.state('defaults', drop)
                c.trans(T)
                c.trace(1)
        o = Hom(0, 2, 1)
        for T in (1, 2, 3):
            y = ys_of(T, 1, 7)[-1]
            f, s, L = ref(o, GRIDS[0][:T], y)
            mu, cov = run_kalman_filter_for_marginals(o.model, jnp.array(y[:, 0], jnp.float32), jnp.array(GRIDS[0][:T]))
            c.close(mu, np.stack([x for x, _ in f]), 'defaults:flat-y', 'scalar observations in a flat array', T=T, **TOL)
            c.state('flat', T)
            c.trace(1)

    def reassigned(c):
        """covariances set after construction"""
        for d, p in ((2, 1), (2, 2)):
            a, b = Hom(4, d, p), Hom(5, d, p)
            attrs = dict(initial_mean='m0', initial_covariance='P0', transition_matrix='F', transition_covariance='Q', likelihood_matrix='H', likelihood_covariance='Rm')
            ts = GRIDS[0][:3]
            y = ys_of(3, p, 3)[-1]
            for r in (1, 2, 6):
                for ks in itertools.combinations(attrs, r):
                    o = Hom(4, d, p)
                    for k in ks:
                        setattr(o.model, k, jnp.array(getattr(b, attrs[k]), jnp.float32))
                        setattr(o, attrs[k], getattr(b, attrs[k]))
                    f, s, L = ref(o, ts, y)
                    mu, cov = run_kalman_filter_for_marginals(o.model, jnp.array(y, jnp.float32), jnp.array(ts))
                    c.close(mu, np.stack([x for x, _ in f]), 'reassigned:mean', 'the filter uses the parameters as reassigned', reassigned=ks, **TOL)
                    c.close(cov, np.stack([x for _, x in f]), 'reassigned:cov', 'the filter uses the parameters as reassigned', reassigned=ks, **TOL)
                    sm, sc, lag = run_kalman_smoother_for_marginals_and_lag_ones(o.model, jnp.array(y, jnp.float32), jnp.array(ts))
                    c.close(lag, np.stack(L), 'reassigned:lag', 'the smoother uses the parameters as reassigned', reassigned=ks, **TOL)
                    c.state('reassigned', d, p, ks)
                    c.trans(3)
                    c.trace(1)

    def quadratic_points(d):
        """points whose values determine any quadratic in d dimensions"""
        e = np.eye(d)
        pts = [np.zeros(d)] + [s * e[i] for i in range(d) for s in (1, -1)] + [e[i] + e[j] for i in range(d) for j in range(i)]
        return np.array(pts + [np.full(d, 2.)])

    def posterior_check(c, tag, pot, mean, cov, **info):
        d = len(mean)
        pts = quadratic_points(d)
        got = np.array([float(pot(jnp.array(x, jnp.float32))) for x in pts])
        P = np.linalg.inv(cov)
        want = np.array([.5 * (x - mean) @ P @ (x - mean) for x in pts])
        c.close(got - got[0], want - want[0], tag, 'the potential is that of the exact Gaussian posterior', rtol=2e-3, atol=2e-3, **info)
        c.trans(len(pts))
        c.trace(1)

    def posterior_abc(c):
        for seed in range(6 if th else 3):
            for d, p in ((1, 1), (2, 1), (1, 2), (2, 2), (3, 2), (2, 3)):
                o = Hom(seed, d, p)
                for yi in range(3):
                    y = np.random.RandomState(yi).randint(-4, 5, p) * .5
                    s = abcs.LinearGaussian(prior_mean=jnp.array(o.m0, jnp.float32), prior_covariance=jnp.array(o.P0, jnp.float32), data=jnp.array(y, jnp.float32), likelihood_matrix=jnp.array(o.H, jnp.float32),
                                            likelihood_covariance=jnp.array(o.Rm, jnp.float32))
                    for temp in (1., .5):
                        s.temperature = temp
                        Rt = o.Rm / temp
                        S = o.H @ o.P0 @ o.H.T + Rt
                        K = o.P0 @ o.H.T @ np.linalg.inv(S)
                        posterior_check(c, 'posterior:abc', s.potential, o.m0 + K @ (y - o.H @ o.m0), o.P0 - K @ o.H @ o.P0, d=d, p=p, temperature=temp)
                        c.state('abc', seed, d, p, yi, temp)
        # scalar arguments
        for args, d in ((dict(prior_mean=jnp.array([.5, 1.]), prior_covariance=2., likelihood_matrix=.5, likelihood_covariance=.25, data=jnp.array([1., -1.])), 2), (dict(prior_mean=.5, prior_covariance=jnp.eye(2) * 2., likelihood_matrix=.5, likelihood_covariance=.25, data=jnp.array([1., -1.])), 2)):
            s = abcs.LinearGaussian(**args)
            m = np.asarray(args['prior_mean']) * np.ones(d)
            H, P0, Rm = .5 * np.eye(d), 2. * np.eye(d), .25 * np.eye(d)
            K = P0 @ H.T @ np.linalg.inv(H @ P0 @ H.T + Rm)
            posterior_check(c, 'posterior:abc', s.potential, m + K @ (np.array([1., -1.]) - H @ m), P0 - K @ H @ P0)
            c.state('abc', 'scalar', R(m))

    def posterior_toy(c):
        """toy Gaussian likelihood with a Gaussian prior"""
        for seed in range(4 if th else 2):
            for d in (1, 2, 3):
                o, q = Hom(seed, d, d), Hom(seed + 7, d, d)
                Pp = np.linalg.inv(q.P0)
                for given in ('full', 'diag'):
                    cov = o.P0 if given == 'full' else np.diag(np.diag(o.P0))
                    s = toy.Gaussian(mean=jnp.array(o.m0, jnp.float32), covariance=jnp.array(cov if given == 'full' else np.diag(cov), jnp.float32),
                                     prior_potential=lambda x, random_key=None: .5 * (x - jnp.array(q.m0)) @ jnp.array(Pp) @ (x - jnp.array(q.m0)))
                    for temp in (1., .25):
                        s.temperature = temp
                        post = np.linalg.inv(Pp + temp * np.linalg.inv(cov))
                        mean = post @ (Pp @ q.m0 + temp * np.linalg.inv(cov) @ o.m0)
                        posterior_check(c, 'posterior:toy', s.potential, mean, post, d=d, given=given, temperature=temp)
                        g = np.asarray(s.grad_potential(jnp.array(mean, jnp.float32)), float)
                        c.close(g, np.zeros(d), 'posterior:toy:grad', 'the gradient vanishes at the posterior mean', atol=2e-3, d=d)
                        c.state('toy', seed, d, given, temp)
    fns = {'filter-hom': lambda c: filt(c, Hom, TS, ALL, SEEDS), 'filter-tv': lambda c: filt(c, TV, TS, ALL if th else SOME, SEEDS), 'smoother-hom': lambda c: smooth(c, Hom, TSS, ALL if th else SOME, SEEDS),
           'smoother-tv': lambda c: smooth(c, TV, TSS, ALL if th else SOME, SEEDS), 'long': long, 'affine': affine,
           'moments-hom': lambda c: moments(c, Hom, ((1, 1, 1), (1, 1, 3), (2, 1, 2), (2, 2, 2)) + (((2, 1, 4), (3, 1, 3)) if th else ())),
           'moments-tv': lambda c: moments(c, TV, ((1, 1, 1), (1, 1, 3), (2, 1, 2), (2, 2, 2)) + (((2, 1, 4), (3, 1, 3)) if th else ())), 'given-filter': given_filter, 'defaults': defaults, 'posterior-abc': posterior_abc,
           'posterior-toy': posterior_toy, 'reassigned': reassigned}
    return [(k, fns[k]) for k in NAMES]
