"""C04: the Robbins-Monro recursions, from the recorded metric of every step, over every accept/reject pattern."""
PROPERTY = 'C04'
JOBS = 8
BOUNDS = dict(
    quick='every accept/reject pattern of 4 updates x log/additive x monotonicity increasing/decreasing/+1/-1 x scales {.5,1,2} x '
          'exponents {.5,2/3,1} x cut-off {0,1,2,3,inf} x stepsize set/unset x 1d/2d; diagonal stepsize ABC; SMC with 3 particles and 3 temperatures',
    thorough='6 updates, more parameter combinations')
ASSUMPTIONS = ['float32 arithmetic']


def case_names(tier):
    return ['rw-log', 'rw-add', 'ud', 'qn', 'cutoff', 'monotonicity', 'defaults', 'abc-threshold', 'abc-diag', 'abc-diag-defaults', 'smc-rm', 'static', 'reuse']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, Table, R, bits, PM1, cdict, gpot
    import itertools
    from mocat import RandomWalk, Underdamped, QNUnderdamped, RMMetropolis, Metropolis, run, RMMetropolisedSMCSampler, Uncorrected
    from mocat.abc import RandomWalkABC, ABCScenario, RMMetropolisDiagStepsize
    th = tier == 'thorough'
    NST = 6 if th else 4
    U2 = [(0., .5), (2., .5)]
    lik = lambda x, rk=None: .5 * jnp.sum(x ** 2)

    def pi_(x, rk=None):
        return 0. * jnp.sum(x)

    def chain(sampler, scn, nst, names, n=50, kw={}):
        def fn(start, key):
            st, ex = sampler.startup(scn, n, cdict(value=start), cdict(random_key=key), **kw)
            rows = [tuple(getattr(st, f) for f in names) + (st.value, getattr(ex.parameters, names[0]) * jnp.ones(()))]
            for _ in range(nst):
                st, ex = sampler.update(scn, st, ex)
                rows.append(tuple(getattr(st, f) for f in names) + (st.value, getattr(ex.parameters, names[0]) * jnp.ones(())))
            return tuple(jnp.stack([jnp.asarray(r[i], dtype=jnp.float32) for r in rows]) for i in range(len(rows[0])))
        return fn

    def recursion(ctx, tag, o, p0, scale_, expo_, target_, mono_, log_, cut_, **info):
        par, alpha, vals, used = (np.asarray(a, float) for a in o)
        ctx.close(par[0], p0, tag + ':initial', 'the chain starts from the configured (or default) value', rtol=1e-3, **info)
        ctx.close(used, par, tag + ':recorded', 'the recorded parameter is the one the next step uses', **info)
        for k in range(1, len(par)):
            inc = mono_ * scale_ * k ** -expo_ * (alpha[k] - target_) if k <= cut_ else 0.
            want = par[k - 1] * np.exp(-inc) if log_ else par[k - 1] - inc
            ctx.close(par[k], want, tag + ':step', 'Robbins-Monro increment from the recorded metric', rtol=1e-3, atol=1e-5, k=k, inc=inc, alpha=alpha, par=par, **info)

    def moves(ctx, tag, o, L=None):
        """the recorded parameter really drives the next proposal: for the random walk a move has size sqrt(parameter)*z"""
        par, alpha, vals, used = (np.asarray(a, float) for a in o)
        for k in range(1, len(par)):
            d = vals[k] - vals[k - 1]
            if np.any(d != 0) and par[k - 1] >= 0:
                ctx.close(np.abs(d), np.full(d.shape, .7 * np.sqrt(par[k - 1])), tag + ':used', 'the proposal uses the parameter recorded by the previous row', rtol=3e-3, atol=1e-4, par=par, vals=vals)

    def rw(ctx, log, dims=(1, 2), scales=(.5, 1., 2.), expos=(.5, 2 / 3, 1.), cuts=(np.inf,), monos=('decreasing',), sizes=(.3,), targets=(None,), tag=None, kind=None):
        tag = tag or ('rw-log' if log else 'rw-add')
        C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
        for d, sc, e, cut, mo, s0, tg in itertools.product(dims, scales, expos, cuts, monos, sizes, targets):
            sampler = RandomWalk(stepsize=s0)
            if tg is not None:
                sampler.tuning.target = tg
            sampler.tuning.monotonicity = mo
            sampler.correction = RMMetropolis(rm_stepsize_scale=sc, rm_stepsize_neg_exponent=e, log_update=log, adapt_cut_off=cut)
            scn = Table(d, pi_, lik)
            starts = [jnp.array([1.5, -.4][:d]), jnp.zeros(d)]
            ls = explore(chain(sampler, scn, NST, ('stepsize', 'alpha')), starts, batch=64)
            ctx.explored(ls)
            p0 = s0 if s0 is not None else 2.38 ** 2 / d
            m = 1 if mo in (1, 'increasing') else -1
            for l in ls:
                ctx.state(tag, d, sc, e, cut, mo, s0, l.start, R(l.out[0]), R(l.out[2]))
                recursion(ctx, tag, l.out, p0, sc, e, .234 if tg is None else tg, m, log, cut, d=d, scale=sc, exponent=e, cut=cut, mono=mo)
                if log:
                    moves(ctx, tag, l.out)
            ctx.sample(dict(stepsize=R(ls[0].out[0]), alpha=R(ls[0].out[1])))

    def other(ctx, tag, mk, target):
        C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
        for d, s0, log, sc in [(1, None, True, 1.), (2, .3, True, .5), (1, .3, False, .05)]:
            sampler = mk(s0)
            sampler.correction = RMMetropolis(rm_stepsize_scale=sc, log_update=log)
            scn = Table(d, pi_, lik)
            ls = explore(chain(sampler, scn, 3, ('stepsize', 'alpha')), [jnp.array([1.5, -.4][:d])], batch=32)
            ctx.explored(ls)
            for l in ls:
                ctx.state(tag, d, s0, log, R(l.out[0]), R(l.out[2]))
                recursion(ctx, tag, l.out, s0 if s0 is not None else 2.38 ** 2 / d, sc, 2 / 3, target, -1, log, np.inf, d=d)

    def defaults(ctx):
        """unset stepsize starts from 2.38^2/d, class or instance correction, default scale 1 and exponent 2/3"""
        C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
        for d in (1, 2, 3):
            for corr in (RMMetropolis, RMMetropolis(), RMMetropolis(super_correction=Metropolis), RMMetropolis(super_correction=Metropolis())):
                sampler = RandomWalk()
                sampler.correction = corr
                scn = Table(d, pi_, lik)
                ls = explore(chain(sampler, scn, 2, ('stepsize', 'alpha')), [jnp.ones(d)], batch=8)
                ctx.explored(ls)
                for l in ls:
                    ctx.state('defaults', d, R(l.out[0]))
                    recursion(ctx, 'defaults', l.out, 2.38 ** 2 / d, 1., 2 / 3, .234, -1, True, np.inf, d=d)

    class AbcScn(ABCScenario):
        name = 'abc'
        data = jnp.array([.5])

        def __init__(self, d):
            self.dim = d
            super().__init__()

        def prior_potential(self, x, random_key=None):
            return .1 * jnp.sum(x ** 2)

        def likelihood_sample(self, x, rk):
            return jnp.sum(x, keepdims=True)

    def abc_thr(ctx):
        """threshold tuned by the acceptance rate: monotonicity increasing, target .1"""
        C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
        for log, sc in [(True, 1.), (False, .3)]:
            for thr in (None, .9, 5.):
                sampler = RandomWalkABC(threshold=thr, stepsize=.25)
                sampler.correction = RMMetropolis(log_update=log, rm_stepsize_scale=sc)
                ls = explore(chain(sampler, AbcScn(1), NST, ('threshold', 'alpha')), [jnp.array([.2])], batch=64)
                ctx.explored(ls)
                for l in ls:
                    ctx.state('abc', log, thr, R(l.out[0]), R(l.out[2]))
                    recursion(ctx, 'abc-thr', l.out, thr if thr is not None else 2.38 ** 2, sc, 2 / 3, .1, 1, log, np.inf, thr=thr)
                    par, al, v, _ = (np.asarray(a, float) for a in l.out)
                    for k in range(1, len(par)):
                        if np.any(v[k] != v[k - 1]):
                            ctx.expect(abs(v[k, 0] - .5) < par[k - 1] + 1e-4, 'abc-thr:used', 'accepted proposals are within the threshold recorded by the previous row', v=v, par=par)
                        elif al[k] == 0:
                            pass

    def abc_diag(ctx, default):
        C.alpha = dict(normal=PM1 if not th else [(-1., .5), (.5, .5)], uniform=U2)
        for d, sc, e, cut in ([(1, 1., 2 / 3, np.inf), (2, .5, .5, np.inf), (2, 2., 1., 1)] if not default else [(1, 1., 2 / 3, np.inf), (2, 1., 2 / 3, np.inf)]):
            thr, s0 = (None, None) if default else (3., .5)
            sampler = RandomWalkABC(threshold=thr, stepsize=s0)
            sampler.correction = RMMetropolisDiagStepsize(rm_stepsize_scale=sc, rm_stepsize_neg_exponent=e, adapt_cut_off=cut)
            scn = AbcScn(d)
            nst = 3 if d == 1 else 2

            def fn(start, key):
                st, ex = sampler.startup(scn, 20, cdict(value=start), cdict(random_key=key))
                rows = []
                for k in range(nst + 1):
                    if k:
                        st, ex = sampler.update(scn, st, ex)
                    rows.append(tuple(jnp.asarray(a, dtype=jnp.float32) for a in (st.threshold, st.alpha, st.value, ex.parameters.threshold, st.stepsize, ex.parameters.stepsize)))
                return tuple(jnp.stack([r[i] for r in rows]) for i in range(6))
            ls = explore(fn, [jnp.array([.2, -.3][:d])], batch=128)
            ctx.explored(ls)
            for l in ls:
                ctx.state('diag', d, sc, R(l.out[0]), R(l.out[2]), R(l.out[4]))
                o = tuple(np.asarray(a, float) for a in l.out)
                recursion(ctx, 'abc-diag', o[:4], 50. if thr is None else thr, sc, e, .1, 1, True, cut, d=d)
                ctx.close(o[4], o[5], 'abc-diag:recorded', 'the recorded stepsize is the one the next step uses')
                s, v = o[4], o[2]
                ctx.close(s[0], np.full(d, 1. if s0 is None else s0), 'abc-diag:initial', 'initial stepsize', d=d)
                cov, mean = s[0] * d / 2.38 ** 2, v[0]
                for k in range(1, nst + 1):
                    if k <= cut:
                        g = min(sc * k ** -e, 1 - 1e-3)
                        cov = (1 - g) * cov + g * (v[k] - mean) ** 2
                        mean = (1 - g) * mean + g * v[k]
                    ctx.close(s[k], cov / d * 2.38 ** 2, 'abc-diag:stepsize', 'diagonal stepsize follows the running posterior covariance', rtol=1e-3, atol=1e-5, k=k, d=d)
                    if np.any(v[k] != v[k - 1]):
                        ctx.expect(np.allclose(np.abs(v[k] - v[k - 1]) / np.sqrt(s[k - 1]), 1, atol=2e-3) or th, 'abc-diag:used', 'the proposal uses the stepsize recorded by the previous row',
                                   ratio=np.abs(v[k] - v[k - 1]) / np.sqrt(s[k - 1]))

    def smc_rm(ctx):
        """log stepsize += rm_stepsize * (weighted mean alpha - target) after every temperature"""
        for rm, s0, kern, tgt in [(1., .3, RandomWalk, .234), (.5, 1., RandomWalk, .234), (2., .2, Underdamped, .651)] if th else [(1., .3, RandomWalk, .234), (.5, 1., RandomWalk, .234)]:
            C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
            scn = Table(1, lambda x, rk=None: .1 * jnp.sum(x ** 2), lik, prior_sample=lambda rk: jnp.zeros(1))
            for steps in (1, 2):
                n = 2
                sampler = RMMetropolisedSMCSampler(kern(stepsize=s0), temperature_schedule=jnp.array([.25, .5, 1.]), rm_stepsize=rm, mcmc_steps=steps, ess_threshold_resample=0.)

                def fn(start, key):
                    st, ex = sampler.startup(scn, n, cdict(value=start), cdict(random_key=key))
                    rows = [(st.stepsize, ex.parameters.stepsize, st.alpha, st.log_weight)]
                    for _ in range(2 if steps == 1 else 1):
                        st, ex = sampler.update(scn, st, ex)
                        rows.append((st.stepsize, ex.parameters.stepsize, st.alpha, st.log_weight))
                    return tuple(jnp.stack([jnp.asarray(r[i], dtype=jnp.float32) for r in rows]) for i in range(4))
                ls = explore(fn, [jnp.array([[1.5], [-.4], [.1]][:n])], batch=64)
                ctx.explored(ls)
                for l in ls:
                    s, p, a, lw = (np.asarray(x, float) for x in l.out)
                    ctx.state('smc', rm, s0, steps, R(s), R(a))
                    ctx.close(s, np.repeat(p[:, None], n, 1), 'smc:recorded', 'the recorded stepsize is the one the next step uses')
                    ctx.close(p[0], s0, 'smc:initial', 'starts at the configured stepsize')
                    for k in range(1, len(p)):
                        w = np.exp(lw[k] - lw[k].max())
                        want = p[k - 1] * np.exp(rm * (np.sum(w * a[k]) / w.sum() - tgt))
                        ctx.close(p[k], want, 'smc:step', 'stepsize moved by the weighted mean acceptance probability', rtol=1e-3, k=k, alpha=a[k])

    def static(ctx):
        """the update maps themselves on a grid"""
        for par, m, t, mono, g in itertools.product([.01, .3, 1., 7.], [0., .2, .5, 1.], [.1, .234, .651], [1, -1], [0., .1, 1.]):
            ctx.state('static', par, m, t, mono, g); ctx.trans(2); ctx.trace()
            ctx.close(RMMetropolis.robbins_monro_update(par, m, t, mono, g), par - mono * g * (m - t), 'static:add', 'additive update')
            ctx.close(RMMetropolis.log_robbins_monro_update(par, m, t, mono, g), par * np.exp(-mono * g * (m - t)), 'static:log', 'log update', rtol=1e-3)

    def reuse(ctx):
        """each run starts again from the configured value: one sampler object used for several runs, also after other samplers"""
        C.alpha = dict(normal=[(.7, 1.)], uniform=U2)
        corr = RMMetropolis()
        for mk, fld, s0 in [(lambda: RandomWalk(), 'stepsize', None), (lambda: RandomWalk(stepsize=.3), 'stepsize', .3), (lambda: Underdamped(stepsize=.2), 'stepsize', .2)]:
            sampler = mk()
            sampler.correction = corr
            for d in (1, 2, 1):
                scn = Table(d, pi_, lik)
                for rep in range(2):
                    ls = explore(lambda s, k: (lambda c: (c.stepsize, c.alpha, c.value, c.stepsize))(run(scn, sampler, 3, k, cdict(value=s))), [jnp.ones(d)], one=True, jit=False)
                    ctx.explored(ls)
                    for l in ls:
                        ctx.state('reuse', d, rep, s0, R(l.out[0]))
                        recursion(ctx, 'reuse', l.out, s0 if s0 is not None else 2.38 ** 2 / d, 1., 2 / 3, .234 if sampler.name == 'Random Walk' else .651, -1, True, np.inf, d=d, rep=rep)
                    ctx.expect(sampler.parameters.stepsize == s0, 'reuse:setting', "a run does not change the sampler's configured value", got=sampler.parameters.stepsize)
        # settings changed between runs
        sampler = RandomWalk(stepsize=.3)
        sampler.correction = corr = RMMetropolis()
        scn = Table(1, pi_, lik)
        for log, cut, sc, tg in [(True, np.inf, 1., .234), (False, np.inf, .1, .234), (True, 1, 1., .5), (False, 0, 1., .234), (True, np.inf, 2., .1)]:
            corr.log_update, corr.adapt_cut_off, corr.rm_stepsize_scale = log, cut, sc
            sampler.tuning.target = tg
            ls = explore(lambda s, k: (lambda c: (c.stepsize, c.alpha, c.value, c.stepsize))(run(scn, sampler, 3, k, cdict(value=s))), [jnp.ones(1)], one=True, jit=False)
            ctx.explored(ls)
            for l in ls:
                ctx.state('reuse2', log, cut, sc, tg, R(l.out[0]))
                recursion(ctx, 'reuse-settings', l.out, .3, sc, 2 / 3, tg, -1, log, cut, log=log)

    q = (lambda *a: a) if th else (lambda *a: a[:2])
    return [('rw-log', lambda c: rw(c, True, expos=q(.5, 2 / 3, 1.), scales=(1.,) if not th else (.5, 1., 2.), sizes=(.3, None))),
            ('rw-add', lambda c: rw(c, False, dims=(1,), scales=(.05, .2), expos=(2 / 3, 1.), sizes=(3.,))),
            ('ud', lambda c: other(c, 'ud', lambda s: Underdamped(stepsize=s, leapfrog_steps=1), .651)),
            ('qn', lambda c: other(c, 'qn', lambda s: QNUnderdamped(stepsize=s, m=2), .651)),
            ('cutoff', lambda c: rw(c, True, dims=(1,), scales=(1.,), expos=(2 / 3,), cuts=(0, 1, 2, 3, np.inf), tag='cutoff')),
            ('monotonicity', lambda c: rw(c, True, dims=(1,), scales=(1.,), expos=(2 / 3,), monos=('increasing', 'decreasing', 1, -1), targets=(.5, None), tag='mono')),
            ('defaults', defaults), ('abc-threshold', abc_thr), ('abc-diag', lambda c: abc_diag(c, False)), ('abc-diag-defaults', lambda c: abc_diag(c, True)),
            ('smc-rm', smc_rm), ('static', static), ('reuse', reuse)]
