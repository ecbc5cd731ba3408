"""C14: particle filters on finite-state models: the exact law of the whole particle system, by enumerating every draw."""
PROPERTY = 'C14'
JOBS = 8
BOUNDS = dict(
    quick='2-3 states x 2-3 particles x 1-4 observation times (irregular) x ess thresholds {0, .5, .75, .95, 1.1} x bootstrap / guided filters x '
          'batch / incremental (full, latest-only resampling) / continued: every outcome of every draw; optimal and ensemble Kalman filters: every +-1 noise pattern',
    thorough='up to 4 particles, 5 observation times')
ASSUMPTIONS = ['a particle system whose weights are all zero is not constrained', 'laws of the Gaussian-noise filters are compared through means and covariances of +-1 noise']


def case_names(tier):
    return ['batch-boot-2', 'batch-boot-3', 'batch-guided', 'thresholds', 'incremental', 'incremental-latest', 'continued', 'kill', 'single', 'methods',
            'optimal-1', 'optimal-2', 'optimal-run', 'enkf-1', 'enkf-2']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, R, Law, same_law, law, PM1, cdict
    from mc import fssm
    import itertools
    from mocat.ssm import BootstrapFilter, ParticleFilter, run_particle_filter_for_marginals, initiate_particles, propagate_particle_filter, \
        NonLinearGaussian, OptimalNonLinearGaussianParticleFilter, EnsembleKalmanFilter
    th = tier == 'thorough'
    YS = [.3, 1., -.7, .9, .2]
    TS = [0., 1., 3., 3.5, 5.]
    C.alpha = dict(normal=PM1)

    def dead(lw):
        return np.max(lw) == -np.inf

    def key_of(vals, lws, es):
        """observation of a run: rows up to the first dead one"""
        out = []
        for v, l, e in zip(vals, lws, es):
            if dead(l):
                out.append('dead')
                break
            out.append((R(np.asarray(v).ravel(), 2), R(np.maximum(np.asarray(l, float).ravel(), -1e6), 3), R(np.asarray(e, float), 3)))
        return tuple(out)

    def ref_law(ssm, pf, n, ys, ts, thr, mode, start=None):
        """mode: batch (rows are the propagated particles), full (whole trajectories resampled), latest (last row replaced)"""
        init, step = fssm.kernels(ssm, pf)
        S = ssm.S
        cur = {}
        if start is None:
            q, lw = init(ys[0], ts[0])
            for xs in itertools.product(range(S), repeat=n):
                p = np.prod(q[list(xs)])
                if p > 0:
                    l = lw[list(xs)]
                    k = ((tuple(xs),), (tuple(l),), (fssm.ess(l),))
                    cur[k] = cur.get(k, 0) + p
        else:
            cur[start] = 1.
        for k in range(1, len(ts)):
            M, W = step(ts[k - 1], ys[k], ts[k])
            nxt = {}
            for (vals, lws, es), p in cur.items():
                if dead(lws[-1]):
                    nxt[(vals, lws, es)] = nxt.get((vals, lws, es), 0) + p
                    continue
                if es[-1] < thr * n - 1e-9:
                    w = fssm.norm(lws[-1])
                    pars = [(a, np.prod(w[list(a)])) for a in itertools.product(range(n), repeat=n)]
                    base = np.zeros(n)
                else:
                    pars = [(tuple(range(n)), 1.)]
                    base = np.array(lws[-1])
                for a, pa in pars:
                    if pa == 0:
                        continue
                    x = [vals[-1][i] for i in a]
                    if mode == 'full':
                        v0 = tuple(tuple(r[i] for i in a) for r in vals)
                    elif mode == 'latest':
                        v0 = vals[:-1] + (tuple(x),)
                    else:
                        v0 = vals
                    l0 = lws if mode == 'batch' else lws[:-1] + (tuple(base),)
                    for new in itertools.product(range(S), repeat=n):
                        pn = np.prod([M[i, j] for i, j in zip(x, new)])
                        if pn == 0:
                            continue
                        l = base + np.array([W[i, j] for i, j in zip(x, new)])
                        kk = (v0 + (new,), l0 + (tuple(l),), es + (fssm.ess(l),))
                        nxt[kk] = nxt.get(kk, 0) + p * pa * pn
            cur = nxt
        out = Law()
        for (v, l, e), p in cur.items():
            kk = key_of(v, l, e)
            out[kk] = out.get(kk, 0) + p
        return out

    def run_batch(ssm, pf, n, ys, ts, thr):
        y, t = jnp.array(ys)[:, None], jnp.array(ts)

        def f(s, key):
            o = run_particle_filter_for_marginals(ssm, pf, y, t, key, n=n, ess_threshold=thr)
            return dict(v=o.value, l=o.log_weight, e=o.ess, y=o.y, t=o.t)
        return explore(f, [0.], batch=256, max_leaves=2000000)

    def run_inc(ssm, pf, n, ys, ts, thr, full):
        y, t = jnp.array(ys)[:, None], jnp.array(ts)

        def f(s, key):
            ks = jax.random.split(key, len(ts))
            o = initiate_particles(ssm, pf, n, ks[0], y[0], t[0])
            for i in range(1, len(ts)):
                o = propagate_particle_filter(ssm, pf, o, y[i], t[i], ks[i], thr, full)
            return dict(v=o.value, l=o.log_weight, e=o.ess, y=o.y, t=o.t)
        return explore(f, [0.], batch=256, max_leaves=2000000)

    def check(ctx, ssm, pf, n, T, thr, mode, tag):
        ys, ts = YS[:T], TS[:T]
        lv = run_batch(ssm, pf, n, ys, ts, thr) if mode == 'batch' else run_inc(ssm, pf, n, ys, ts, thr, mode == 'full')
        ctx.explored(lv)
        got, any_dead = {}, False
        for l in lv:
            o = l.out
            k = key_of(o['v'], o['l'], o['e'])
            got[k] = got.get(k, 0) + l.p
            ctx.state(tag, n, T, thr, mode, k)
            ctx.outcome(k)
        o = lv[0].out
        ctx.close(o['y'].ravel(), ys, 'filter:y', 'observations recorded in order', tag=tag, mode=mode)
        ctx.close(o['t'], ts, 'filter:t', 'times recorded in order', tag=tag, mode=mode)
        ctx.expect(o['v'].shape == (T, n, 1) and o['l'].shape == (T, n) and o['e'].shape == (T,), 'filter:shape', 'one row per observation',
                   shapes=[o['v'].shape, o['l'].shape, o['e'].shape])
        same_law(ctx, got, ref_law(ssm, pf, n, ys, ts, thr, mode), f'filter:law:{mode}', 'law of values, weights and effective sample sizes', tag=tag, n=n, T=T, thr=thr, filter=pf.name)
        # proper weighting, straight from the executions
        if mode == 'batch':
            exact = fssm.forward(ssm, ys, ts)
            for k in range(T):
                Z = np.zeros(ssm.S)
                for l in lv:
                    w = 1.
                    L = np.asarray(l.out['l'], float)
                    for j in range(1, k + 1):
                        if l.out['e'][j - 1] < thr * n - 1e-5 and not dead(L[j - 1]):
                            w *= np.exp(L[j - 1]).mean()
                    for i in range(n):
                        Z[int(round(float(l.out['v'][k, i, 0])))] += l.p * w * np.exp(L[k, i]) / n
                ctx.close(Z, exact[k], 'filter:unbiased', 'expected weighted averages are the exact unnormalised filter, sum = likelihood', rtol=2e-3, atol=2e-5,
                          tag=tag, n=n, T=T, k=k, thr=thr, filter=pf.name)
        ctx.sample(dict(case=tag, n=n, T=T, thr=thr, mode=mode, executions=len(lv), outcomes=len(got)))

    def batch2(ctx):
        for nm, ssm in fssm.models(2):
            for n, T in [(2, 2), (2, 3), (3, 2)] + ([(2, 4), (4, 2)] if th else []):
                check(ctx, ssm, BootstrapFilter(), n, T, .95, 'batch', nm)

    def batch3(ctx):
        for nm, ssm in fssm.models(3):
            for n, T in [(2, 2), (2, 3)] + ([(3, 2)] if th else []):
                check(ctx, ssm, BootstrapFilter(), n, T, .9, 'batch', nm)

    def guided(ctx):
        for nm, ssm in fssm.models(2):
            for n, T in [(2, 2), (2, 3), (3, 2)] + ([(2, 4)] if th else []):
                check(ctx, ssm, fssm.Guided(), n, T, .95, 'batch', nm)
        for nm, ssm in fssm.models(3):
            check(ctx, ssm, fssm.Guided(), 2, 2, .9, 'batch', nm)

    def thresholds(ctx):
        for nm, ssm in fssm.models(2):
            for thr in (0., .5, .75, 1.1):
                for pf in (BootstrapFilter(), fssm.Guided()):
                    check(ctx, ssm, pf, 2, 3, thr, 'batch', nm)

    def incremental(ctx, mode):
        for nm, ssm in fssm.models(2):
            for pf in (BootstrapFilter(), fssm.Guided()):
                for thr in (.5, .95, 1.1):
                    check(ctx, ssm, pf, 2, 3, thr, mode, nm)
            check(ctx, ssm, BootstrapFilter(), 3, 2, .95, mode, nm)
            if th:
                check(ctx, ssm, BootstrapFilter(), 2, 4, .95, mode, nm)

    def continued(ctx):
        """batch filtering from an earlier particle system equals one batch run"""
        for nm, ssm in fssm.models(2):
            pf = BootstrapFilter()
            for thr in (.5, .95):
                for rows in (1, 2):
                    n = 2
                    for start in itertools.product([(0, 1), (1, 1)], [(-.3, -1.1), (0., 0.), (.2, -3.)]):
                        xs, lw = start
                        v = jnp.array([[1., 0.]] * (rows - 1) + [xs], dtype=float).reshape(rows, n, 1)
                        L = jnp.array([[-.5, -.9]] * (rows - 1) + [lw])
                        init = cdict(value=v, log_weight=L, t=jnp.array(TS[:rows]), y=jnp.array(YS[:rows])[:, None],
                                     ess=jnp.array([fssm.ess(r) for r in np.asarray(L)]))
                        before = jax.tree_util.tree_map(np.asarray, init)
                        T = rows + (2 if th else 1)
                        y, t = jnp.array(YS[rows:T])[:, None], jnp.array(TS[rows:T])

                        def f(s, key):
                            o = run_particle_filter_for_marginals(ssm, pf, y, t, key, initial_sample=init, ess_threshold=thr)
                            return dict(v=o.value, l=o.log_weight, e=o.ess, y=o.y, t=o.t)
                        lv = explore(f, [0.], batch=64)
                        ctx.explored(lv)
                        got = {}
                        for l in lv:
                            k = key_of(l.out['v'][rows - 1:], l.out['l'][rows - 1:], l.out['e'][rows - 1:])
                            got[k] = got.get(k, 0) + l.p
                            ctx.state(nm, thr, rows, start, k)
                        L64 = np.asarray(L, float)[-1]
                        want = ref_law(ssm, pf, n, YS[rows - 1:T], TS[rows - 1:T], thr, 'batch', ((tuple(int(x) for x in xs),), (tuple(L64),), (fssm.ess(L64),)))
                        same_law(ctx, got, want, 'filter:continued', 'continuing from a given particle system', model=nm, start=start, thr=thr)
                        o = lv[0].out
                        ctx.close(o['v'][:rows], v, 'filter:continued-rows', 'earlier rows are kept')
                        ctx.close(o['t'], TS[:T], 'filter:continued-t', 'times aligned')
                        ctx.close(o['y'].ravel(), YS[:T], 'filter:continued-y', 'observations aligned')
                        for a, b in zip(jax.tree_util.tree_leaves(before), jax.tree_util.tree_leaves(init)):
                            ctx.close(b, a, 'filter:initial-untouched', 'the supplied particles are not modified')

    def kill(ctx):
        """zero-weight particles: exact effective sample sizes tie with the threshold (1 of 2 at .5: not below, so no resampling)"""
        ssm = dict(fssm.models(2))['kill']
        ys, ts = [1., 1., -.3], TS[:3]
        for thr in (.5, .75):
            for mode in ('batch', 'full', 'latest'):
                pf = BootstrapFilter()
                lv = run_batch(ssm, pf, 2, ys, ts, thr) if mode == 'batch' else run_inc(ssm, pf, 2, ys, ts, thr, mode == 'full')
                ctx.explored(lv)
                got = {}
                for l in lv:
                    k = key_of(l.out['v'], l.out['l'], l.out['e'])
                    got[k] = got.get(k, 0) + l.p
                    ctx.state(thr, mode, k)
                same_law(ctx, got, ref_law(ssm, pf, 2, ys, ts, thr, mode), 'filter:kill', 'law with impossible observations', thr=thr, mode=mode)

    def single(ctx):
        """one observation, one particle, flat observation arrays, no initial observation"""
        for nm, ssm in fssm.models(2):
            for pf in (BootstrapFilter(), fssm.Guided()):
                check(ctx, ssm, pf, 2, 1, .5, 'full', nm)
                check(ctx, ssm, pf, 1, 3, .5, 'batch', nm)
                y, t = jnp.array(YS[:2]), jnp.array(TS[:2])
                for shape in ((2,), (2, 1)):
                    def f(s, key):
                        o = run_particle_filter_for_marginals(ssm, pf, y.reshape(shape), t, key, n=2, ess_threshold=.9)
                        return dict(v=o.value, l=o.log_weight, e=o.ess)
                    lv = explore(f, [0.], batch=64)
                    ctx.explored(lv)
                    got = law(lv, lambda o: key_of(o['v'], o['l'], o['e']))
                    same_law(ctx, got, ref_law(ssm, pf, 2, YS[:2], TS[:2], .9, 'batch'), 'filter:flat-y', 'flat observations are one dimensional observations', shape=shape)
            lv = explore(lambda s, key: {k: v for k, v in initiate_particles(ssm, BootstrapFilter(), 2, key, None, 2.).to_dict().items() if k != 'y'} if hasattr(cdict, 'to_dict')
                         else dict(value=initiate_particles(ssm, BootstrapFilter(), 2, key, None, 2.).value), [0.], batch=16)
            ctx.explored(lv)
            q = ssm.init(2.)
            want = Law()
            for a in itertools.product(range(2), repeat=2):
                want.add(R(np.array(a, float), 2), q[a[0]] * q[a[1]])
            same_law(ctx, law(lv, lambda o: R(o['value'].ravel(), 2)), want, 'filter:no-y', 'initiating without an observation draws from the initial law')

            def g(s, key):
                o = initiate_particles(ssm, BootstrapFilter(), 2, key, None, 2.)
                return dict(l=o.log_weight, e=o.ess, t=o.t)
            lv = explore(g, [0.], batch=16)
            for l in lv:
                ctx.close(l.out['l'], np.zeros((1, 2)), 'filter:no-y-weight', 'unweighted')
                ctx.close(l.out['e'], [2.], 'filter:no-y-ess', 'full effective sample size')
                ctx.close(l.out['t'], [2.], 'filter:no-y-t', 'time recorded')
            ctx.state(nm)

    def methods(ctx):
        """the elementary methods: weights and potentials of every pair of states"""
        for S in (2, 3):
            for nm, ssm in fssm.models(S):
                for pf in (BootstrapFilter(), fssm.Guided()):
                    init, step = fssm.kernels(ssm, pf)
                    for (t0, t1), y in itertools.product([(0., 1.), (1., 3.), (3., 3.5)], YS[:3]):
                        M, W = step(t0, y, t1)
                        q0, w0 = init(y, t0)
                        yy = jnp.array([y])
                        for i in range(S):
                            xi = jnp.array([float(i)])
                            ctx.close(pf.initial_log_weight(ssm, xi, yy, t0), w0[i], 'filter:initial-weight', 'initial log weight', atol=1e-4)
                            ctx.close(pf.initial_potential(ssm, xi, yy, t0), -np.log(q0[i]), 'filter:initial-pot', 'initial potential is that of the initial law', atol=1e-4)
                            for j in range(S):
                                xj = jnp.array([float(j)])
                                ctx.state(nm, pf.name, t0, t1, y, i, j)
                                ctx.trans()
                                ctx.trace()
                                ctx.close(pf.intermediate_log_weight(ssm, xi, t0, xj, yy, t1), W[i, j], 'filter:weight', 'log weight increment', atol=1e-4, i=i, j=j)
                                ctx.close(ParticleFilter.intermediate_log_weight(pf, ssm, xi, t0, xj, yy, t1), W[i, j], 'filter:weight-general', 'general formula', atol=1e-4, i=i, j=j)
                                ctx.close(pf.proposal_potential(ssm, xi, t0, xj, yy, t1), -np.log(M[i, j]), 'filter:proposal-pot', 'proposal potential is that of the proposal law', atol=1e-4)

    # ---------------------------------------------------------------------------------------------- Gaussian noise filters
    class Wave(NonLinearGaussian):
        name = 'wave'

        def transition_function(self, x_previous, t_previous, t_new):
            return .8 * x_previous + jnp.sin(x_previous) * (t_new - t_previous) + .1 * t_previous

    def fwave(x, t0, t1):
        return .8 * x + np.sin(x) * (t1 - t0) + .1 * t0

    def nlgs(d):
        if d == 1:
            yield Wave(jnp.array([.4]), jnp.array([[2.]]), jnp.array([[.7]]), jnp.array([[1.5]]), jnp.array([[.5]]))
            yield Wave(jnp.array([-1.]), jnp.array([[.5]]), jnp.array([[3.]]), jnp.array([[1.], [.5]]), jnp.array([[.5, .2], [.2, 1.]]))
        else:
            yield Wave(jnp.array([.4, -1.]), jnp.array([[2., .6], [.6, 1.]]), jnp.array([[.7, -.3], [-.3, 1.2]]), jnp.array([[1.5, .3]]), jnp.array([[.5]]))
            yield Wave(jnp.array([0., 1.]), jnp.array([[1., -.4], [-.4, 2.]]), jnp.array([[2., .8], [.8, .9]]), jnp.array([[1., .3], [.2, -1.]]), jnp.array([[.5, .2], [.2, 1.]]))

    A64 = lambda a: np.asarray(a, float)

    def moments(leaves, f):
        ps = np.array([l.p for l in leaves])
        X = np.array([np.asarray(f(l.out), float).ravel() for l in leaves])
        m = ps @ X
        return m, (X - m).T @ ((X - m) * ps[:, None])

    def npot(x, m, P):
        d = x - m
        return .5 * d @ np.linalg.inv(P) @ d + .5 * np.log(np.linalg.det(2 * np.pi * P))

    def opt_ref(ssm, x, y, t0, t1):
        Q, Rc, H = A64(ssm.transition_covariance), A64(ssm.likelihood_covariance), A64(ssm.likelihood_matrix)
        mx = fwave(x, t0, t1)
        Sy = H @ Q @ H.T + Rc
        K = Q @ H.T @ np.linalg.inv(Sy)
        return mx + K @ (y - H @ mx), Q - K @ H @ Q, -npot(y, H @ mx, Sy)

    def init_ref(ssm, y):
        P, Rc, H, m = A64(ssm.initial_covariance), A64(ssm.likelihood_covariance), A64(ssm.likelihood_matrix), A64(ssm.initial_mean)
        K = P @ H.T @ np.linalg.inv(H @ P @ H.T + Rc)
        return m + K @ (y - H @ m), P - K @ H @ P

    def bd(Sg, n):
        return np.kron(np.eye(n), Sg)

    def ylist(ssm):
        k = ssm.likelihood_matrix.shape[0]
        return [np.array([.5, -1.])[:k], np.array([2., .3])[:k]]

    def optimal(ctx, d):
        X = np.array(list(itertools.product([-1.5, 0., .8], repeat=d)))
        for gi, ssm in enumerate(nlgs(d)):
            pf = OptimalNonLinearGaussianParticleFilter()
            pf.startup(ssm)
            H, Rc, Q = A64(ssm.likelihood_matrix), A64(ssm.likelihood_covariance), A64(ssm.transition_covariance)
            for y, (t0, t1) in itertools.product(ylist(ssm), [(0., 1.), (2., 2.5)]):
                im, ic = init_ref(ssm, y)
                for x in X:
                    ctx.close(pf.initial_potential(ssm, jnp.array(x), jnp.array(y), t0), npot(x, im, ic), 'optimal:initial-pot', 'initial potential is that of p(x0 | y0)', rtol=1e-3, atol=2e-3)
                for x in X:
                    m, Sg, lw = opt_ref(ssm, x, y, t0, t1)
                    xj, yj = jnp.array(x), jnp.array(y)
                    w = float(pf.intermediate_log_weight(ssm, xj, t0, xj, yj, t1))
                    ctx.close(w, lw, 'optimal:weight', 'weight is the predictive density of the observation', rtol=1e-3, atol=2e-3, x=x, y=y)
                    lv = explore(lambda s, key: pf.proposal_sample(ssm, xj, t0, yj, t1, key), [0.], batch=4)
                    ctx.explored(lv)
                    mm, cc = moments(lv, lambda o: o)
                    ctx.close(mm, m, 'optimal:mean', 'proposal mean', rtol=1e-3, atol=1e-3)
                    ctx.close(cc, Sg, 'optimal:cov', 'proposal covariance', rtol=2e-3, atol=1e-3)
                    for x2 in X[::2] * 1.3 + .2:
                        q = float(pf.proposal_potential(ssm, xj, t0, jnp.array(x2), yj, t1))
                        ctx.state(gi, d, y, t0, x, x2)
                        ctx.trans()
                        ctx.trace()
                        # weight x proposal density = transition density x likelihood
                        joint = npot(x2, fwave(x, t0, t1), Q) + npot(y, H @ x2, Rc)
                        ctx.close(q - w, joint, 'optimal:identity', 'proposal density times weight is transition density times likelihood', rtol=1e-3, atol=5e-3, x=x, x2=x2)
                        ctx.close(ParticleFilter.intermediate_log_weight(pf, ssm, xj, t0, jnp.array(x2), yj, t1), lw, 'optimal:general', 'general weight formula agrees', rtol=1e-3, atol=5e-3)
                # vectorised over two particles: independent, each from its own parent
                for pair in itertools.product(X[::2], repeat=2):
                    xp = jnp.array(np.array(pair))

                    def f(s, key):
                        a, b = pf.propose_and_intermediate_weight_vectorised(ssm, xp, t0, jnp.array(y), t1, jax.random.split(key, 2))
                        return dict(x=a, l=b)
                    lv = explore(f, [0.], batch=16)
                    ctx.explored(lv)
                    mm, cc = moments(lv, lambda o: o['x'])
                    refs = [opt_ref(ssm, p, y, t0, t1) for p in pair]
                    ctx.close(mm, np.concatenate([r[0] for r in refs]), 'optimal:vec-mean', 'proposal means', rtol=1e-3, atol=2e-3)
                    ctx.close(cc, bd(refs[0][1], 2), 'optimal:vec-cov', 'independent proposals with the conditional covariance', rtol=2e-3, atol=2e-3)
                    for l in lv:
                        ctx.close(l.out['l'], [r[2] for r in refs], 'optimal:vec-weight', 'weights', rtol=1e-3, atol=2e-3)
                    if d == 2 and not th:
                        continue
                lv = explore(lambda s, key: dict(zip('vl', pf.initial_sample_and_weight_vectorised(ssm, jnp.array(y), t0, jax.random.split(key, 2)))), [0.], batch=16)
                ctx.explored(lv)
                mm, cc = moments(lv, lambda o: o['v'])
                ctx.close(mm, np.tile(im, 2), 'optimal:init-mean', 'initial particles from p(x0 | y0)', rtol=1e-3, atol=1e-3)
                ctx.close(cc, bd(ic, 2), 'optimal:init-cov', 'independent initial particles', rtol=2e-3, atol=1e-3)
                for l in lv:
                    ctx.close(np.ptp(l.out['l']), 0., 'optimal:init-weight', 'equal initial weights')

    def optimal_run(ctx):
        """whole runs: weights accumulate the predictive density from each particle's own parent, unless resampled"""
        for d, ssm in [(1, s) for s in nlgs(1)] + [(2, s) for s in list(nlgs(2))[:1]]:
            n, ts = 2, [0., 1., 2.5][:3 if d == 1 else 2]
            ys = [np.array([.5, -1.])[:ssm.dim_obs], np.array([1.2, .4])[:ssm.dim_obs], np.array([-.6, .1])[:ssm.dim_obs]][:len(ts)]
            y, t = jnp.array(np.array(ys)), jnp.array(ts)
            for thr in (0., 1.1):
                for mode in ('batch', 'inc'):
                    pf = OptimalNonLinearGaussianParticleFilter()

                    def f(s, key):
                        if mode == 'batch':
                            o = run_particle_filter_for_marginals(ssm, pf, y, t, key, n=n, ess_threshold=thr)
                        else:
                            ks = jax.random.split(key, len(ts))
                            o = initiate_particles(ssm, pf, n, ks[0], y[0], t[0])
                            for i in range(1, len(ts)):
                                o = propagate_particle_filter(ssm, pf, o, y[i], t[i], ks[i], thr, True)
                        return dict(v=o.value, l=o.log_weight, e=o.ess, t=o.t, y=o.y)
                    # restrict resampling draws: n=2 parents
                    lv = explore(f, [0.], batch=256)
                    ctx.explored(lv)
                    for l in lv:
                        v, L = A64(l.out['v']), A64(l.out['l'])
                        ctx.state(d, thr, mode, R(v.ravel(), 2))
                        for k in range(1, len(ts)):
                            if mode == 'inc' and thr > 0 and k < len(ts) - 1:
                                continue            # weights of that row were reset when it was resampled
                            if thr == 0.:
                                par = [v[k - 1]]
                                base = L[k - 1]
                            else:
                                par = [v[k - 1][list(a)] for a in itertools.product(range(n), repeat=n)] if mode == 'batch' else [v[k - 1]]
                                base = np.zeros(n)
                            cands = [base + np.array([opt_ref(ssm, p, ys[k], ts[k - 1], ts[k])[2] for p in pp]) for pp in par]
                            ok = any(np.allclose(L[k], c, rtol=1e-3, atol=3e-3) for c in cands)
                            ctx.expect(ok, 'optimal:run-weight', 'weights of a run', got=L[k], want=cands, k=k, thr=thr, mode=mode)
                    ctx.close(lv[0].out['t'], ts, 'optimal:run-t', 'times')
                    ctx.close(lv[0].out['y'], np.array(ys), 'optimal:run-y', 'observations')
                    # second time, unresampled: mean of the particle given the first
                    if thr == 0.:
                        groups = {}
                        for l in lv:
                            groups.setdefault(R(l.out['v'][0].ravel(), 3), []).append(l)
                        for g in groups.values():
                            tot = sum(l.p for l in g)
                            ps = np.array([l.p / tot for l in g])
                            X = np.array([A64(l.out['v'][1]).ravel() for l in g])
                            refs = [opt_ref(ssm, p, ys[1], ts[0], ts[1]) for p in A64(g[0].out['v'][0])]
                            m = ps @ X
                            ctx.close(m, np.concatenate([r[0] for r in refs]), 'optimal:run-mean', 'particles propagate from their own parent', rtol=1e-3, atol=3e-3)
                            ctx.close((X - m).T @ ((X - m) * ps[:, None]), bd(refs[0][1], n), 'optimal:run-cov', 'conditional covariance', rtol=3e-3, atol=3e-3)

    def enkf(ctx, d):
        for gi, ssm in enumerate(nlgs(d)):
            do = ssm.dim_obs
            n = 3 if d * 3 + do * 3 <= 9 else 2
            H, Rc, Q = A64(ssm.likelihood_matrix), A64(ssm.likelihood_covariance), A64(ssm.transition_covariance)
            LQ, LR = A64(ssm.transition_covariance_sqrt), A64(ssm.likelihood_covariance_sqrt)
            ctx.close(LQ @ LQ.T, Q, 'enkf:sqrt', 'square root of the transition covariance', atol=1e-4)
            ctx.close(LR @ LR.T, Rc, 'enkf:sqrt', 'square root of the likelihood covariance', atol=1e-4)
            pf = EnsembleKalmanFilter()
            pf.startup(ssm)
            for y, (t0, t1) in itertools.product(ylist(ssm), [(0., 1.), (2., 2.5)]):
                if (d == 2 and (t0 > 0 or (gi == 1 and y is not ylist(ssm)[0] and not th))) and not th:
                    continue
                im, ic = init_ref(ssm, y)
                lv = explore(lambda s, key: dict(zip('vl', pf.initial_sample_and_weight_vectorised(ssm, jnp.array(y), t0, jax.random.split(key, n)))), [0.], batch=64)
                ctx.explored(lv)
                mm, cc = moments(lv, lambda o: o['v'])
                ctx.close(mm, np.tile(im, n), 'enkf:init-mean', 'initial ensemble from p(x0 | y0)', rtol=1e-3, atol=1e-3)
                ctx.close(cc, bd(ic, n), 'enkf:init-cov', 'independent initial ensemble', rtol=2e-3, atol=1e-3)
                xp = np.array([[-1., .5], [.7, .2], [.1, -1.3]])[:n, :d]

                def f(s, key):
                    a, b = pf.propose_and_intermediate_weight_vectorised(ssm, jnp.array(xp), t0, jnp.array(y), t1, jax.random.split(key, n))
                    return dict(x=a, l=b)
                lv = explore(f, [0.], batch=256)
                ctx.explored(lv)
                want = Law()
                fx = np.array([fwave(x, t0, t1) for x in xp])
                for z in itertools.product([-1., 1.], repeat=n * d):
                    mx = fx + np.array(z).reshape(n, d) @ LQ.T
                    D = (mx - mx.mean(0)).T
                    Cxx = D @ D.T / (n - 1)
                    K = Cxx @ H.T @ np.linalg.inv(H @ Cxx @ H.T + Rc)
                    for e in itertools.product([-1., 1.], repeat=n * do):
                        eps = np.array(e).reshape(n, do) @ LR.T
                        xn = mx + (y - mx @ H.T - eps) @ K.T
                        want.add(R(xn.ravel(), 3), .5 ** (n * (d + do)), nd=3)
                got = law(lv, lambda o: R(o['x'].ravel(), 3))
                for k in got:
                    ctx.state(gi, d, y, t0, k)
                cm = lambda L: (sum(np.array(k) * p for k, p in L.items()), sum(np.outer(k, k) * p for k, p in L.items()), sum(np.array(k) ** 3 * p for k, p in L.items()))
                for a, b, w in zip(cm(got), cm(want), ('mean', 'second moments', 'third moments')):
                    ctx.close(a, b, 'enkf:moments', 'ensemble Kalman update: ' + w, rtol=3e-3, atol=3e-3, y=y)
                if len(want) < 300:
                    same_law(ctx, got, want, 'enkf:law', 'ensemble Kalman update', y=y)
                for l in lv[:64]:
                    ctx.close(l.out['l'], np.zeros(n), 'enkf:weight', 'unweighted ensemble')

    return [('batch-boot-2', batch2), ('batch-boot-3', batch3), ('batch-guided', guided), ('thresholds', thresholds), ('incremental', lambda c: incremental(c, 'full')),
            ('incremental-latest', lambda c: incremental(c, 'latest')), ('continued', continued), ('kill', kill), ('single', single), ('methods', methods),
            ('optimal-1', lambda c: optimal(c, 1)), ('optimal-2', lambda c: optimal(c, 2)), ('optimal-run', optimal_run), ('enkf-1', lambda c: enkf(c, 1)), ('enkf-2', lambda c: enkf(c, 2))]
