"""C10: resampling draws whole particles, independently, with probability proportional to weight; every outcome enumerated."""
PROPERTY = 'C10'
JOBS = 8
BOUNDS = dict(
    quick='1-4 particles; every resampling outcome; weight tables with zero, equal, extreme (+-1e4, +-80) and shifted log-weights; ensembles with vector, matrix, integer and nested fields; base, tempered and ABC SMC updates, particle '
          'filters (batch, incremental full / latest), both particle smoothers; two chained resamplings; resampling thresholds around the effective sample size',
    thorough='5 particles, more weight tables and three chained resamplings')
ASSUMPTIONS = ['weights that are all zero are not constrained']
NAMES = ['smc', 'chained', 'update', 'custom', 'tempered', 'abc', 'abc-chain', 'particles', 'batch', 'incremental', 'smoother-pf', 'smoother-bs', 'threshold']


def case_names(tier):
    return list(NAMES)


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, cdict, bits, LN2, lattice_pot, Table, R, PM1, same_law
    from mc import fssm
    from jax import random
    import itertools
    from mocat import RandomWalk, MetropolisedSMCSampler
    from mocat.src.transport.smc import SMCSampler
    from mocat.abc import MetropolisedABCSMCSampler, RandomWalkABC, ABCScenario
    from mocat.ssm import StateSpaceModel, BootstrapFilter, resample_particles, propagate_particle_filter, run_particle_filter_for_marginals, propagate_particle_smoother
    jax.config.update('jax_disable_most_optimizations', True)
    th = tier == 'thorough'
    inf = np.inf
    C.alpha = dict(normal=PM1, uniform=bits(8))

    TABLES = {1: [(0.,), (-1e4,), (5.,)],
              2: [(0., 0.), (0., -1.), (-inf, .3), (80., 81.), (-1e4, -1e4 + 1.5), (-120., 0.), (-inf, -300.)],
              3: [(0., 0., 0.), (.5, -1., 0.), (-inf, 0., -.7), (-inf, -inf, -3.), (-100., -101., -99.), (88., 87., 80.), (2e3, 2e3 - 1., -2e3), (-inf, -501., -500.)],
              4: [(0., -.5, .25, -inf), (-.2, -.2, -.2, -.2), (-50., -52., -51., -50.5)] + ([(3., 2., 1., 0.), (-inf, 1., -inf, .5)] if th else [])}
    if th:
        TABLES[5] = [(0., -.5, -inf, .3, -1.)]

    def prob(lw):
        lw = np.asarray(lw, np.float32).astype(float)
        w = np.exp(lw - lw.max())
        return w / w.sum()

    def product(lw, n=None):
        w = prob(lw)
        n = n or len(w)
        return {a: float(np.prod(w[list(a)])) for a in itertools.product(range(len(w)), repeat=n) if np.prod(w[list(a)]) > 0}

    def ensemble(n):
        """every field tells the particle apart in its own way"""
        i = np.arange(n, dtype=np.float32)
        return dict(value=np.stack([i, 10 + i * i], 1), potential=3. - i, tag=np.arange(n), hist=np.stack([np.full((2, 3), 100 + k, np.float32) for k in range(n)]),
                    simulated_data=np.stack([i * 7, i + .5, -i], 1))

    def build(e):
        s = cdict(**{k: jnp.array(v) for k, v in e.items()})
        return s

    def parents(ctx, out, e, tag, skip=()):
        """the parent of every output particle, the same for every field"""
        par = tuple(int(x) for x in np.asarray(out['tag']))
        for f, v in e.items():
            if f not in skip:
                ctx.expect(np.array_equal(np.asarray(out[f]), np.asarray(v)[list(par)]), f'{tag}:fields:{f}', 'all fields of a particle come from the same parent', parents=par, got=np.asarray(out[f]).tolist())
        return par

    def smc(c):
        s = SMCSampler()
        for n, tabs in TABLES.items():
            e = ensemble(n)

            def f(lw, key):
                st = build(e)
                st.log_weight, st.ess = lw, jnp.ones(n) * .5
                st.nested = cdict(a=jnp.arange(n) * 2., b=cdict(c=jnp.arange(n) * 3.))
                o = s.resample(st, key)
                return dict(**{k: getattr(o, k) for k in e}, a=o.nested.a, c=o.nested.b.c, w=o.log_weight, ess=o.ess, names=0 * len(o.__dict__))
            lv = explore(f, [jnp.array(t, jnp.float32) for t in tabs], batch=1024)
            c.explored(lv)
            got = [{} for _ in tabs]
            for l in lv:
                par = parents(c, l.out, e, 'smc')
                c.expect(np.array_equal(l.out['a'], np.array(par) * 2.) and np.array_equal(l.out['c'], np.array(par) * 3.), 'smc:fields:nested', 'nested fields come from the same parent', parents=par)
                c.expect(np.all(l.out['w'] == l.out['w'][0]), 'smc:weights', 'weights are equal after resampling', weights=l.out['w'].tolist())
                c.close(l.out['ess'], np.full(n, n), 'smc:ess', 'effective sample size is the number of particles after resampling')
                got[l.start][par] = got[l.start].get(par, 0) + l.p
                c.state('smc', n, l.start, par)
            for t, g in zip(tabs, got):
                same_law(c, g, product(t), 'smc:law', 'independent draws, with probability proportional to weight', weights=t)
                for par in g:
                    c.expect(all(t[p] > -inf for p in par) or g[par] == 0, 'smc:zero', 'zero-weight particles never survive', weights=t, parents=par)

    def chained(c):
        s = SMCSampler()
        W = [np.array([0., -1., .5], np.float32), np.array([-inf, .3, -.4], np.float32)] + ([np.array([0., .2, -2.], np.float32)] if th else [])

        def f(_, key):
            st = build(ensemble(3))
            st.ess = jnp.ones(3)
            gens = []
            for w, k in zip(W, random.split(key, len(W))):
                st.log_weight = jnp.array(w)
                st = s.resample(st, k)
                gens.append(st.tag)
            return gens
        lv = explore(f, [0.], batch=2048)
        c.explored(lv)
        got = {}
        for l in lv:
            k = tuple(tuple(int(x) for x in g) for g in l.out)
            got[k] = got.get(k, 0) + l.p
            c.state('chained', k)
        want = {(): 1.}
        for w in W:
            nxt = {}
            for h, p in want.items():
                cur = h[-1] if h else (0, 1, 2)
                for a, q in product(w).items():
                    k = h + (tuple(cur[i] for i in a),)
                    nxt[k] = nxt.get(k, 0) + p * q
            want = nxt
        same_law(c, got, want, 'chained:law', 'ancestors of consecutive resamplings are independent draws')

    class Tag(SMCSampler):
        """deterministic forward move that carries the other fields along"""
        name = 'tag'
        thr = None

        def forward_proposal(self, scenario, state, extra, random_key):
            o = state.copy()
            o.value = state.value + 100.
            o.log_weight = -.1 * state.value[0]
            return o

        def resample_criterion(self, st, extra):
            return True if self.thr is None else st.ess[0] < self.thr * len(st.value)

        def adapt(self, ps, pe, ns, ne):
            ns, ne = super().adapt(ps, pe, ns, ne)
            w = jnp.exp(ns.log_weight - ns.log_weight.max())
            ns.ess = jnp.ones(len(w)) * w.sum() ** 2 / (w ** 2).sum()
            return ns, ne

    def update_case(c, thr, steps, n, tabs, tag):
        smp = Tag()
        smp.thr = thr
        scn = Table(2)
        e = ensemble(n)

        def f(lw, key):
            st = build(e)
            st.log_weight = lw
            w = jnp.exp(lw - lw.max())
            st.ess = jnp.ones(n) * w.sum() ** 2 / (w ** 2).sum()
            st, ex = smp.startup(scn, n, st, cdict(random_key=key))
            rows = []
            for _ in range(steps):
                st, ex = smp.update(scn, st, ex)
                rows.append(dict({k: getattr(st, k) for k in e}, w=st.log_weight, ess=st.ess, res=ex.resample_bool))
            return rows
        lv = explore(f, [jnp.array(t, jnp.float32) for t in tabs], batch=1024)
        c.explored(lv)
        got = [{} for _ in tabs]
        for l in lv:
            hist = []
            for k, r in enumerate(l.out):
                ee = dict(e, value=e['value'] + 100. * (k + 1))
                hist.append((parents(c, r, ee, tag), R(r['w'], 3)))
            c.state(tag, n, l.start, tuple(hist))
            got[l.start][tuple(hist)] = got[l.start].get(tuple(hist), 0) + l.p
        for t, g in zip(tabs, got):
            want = {}

            def rec(h, cur, lw, p, k):
                if k == steps:
                    want[h] = want.get(h, 0) + p
                    return
                res = True if thr is None else fssm.ess(lw) < thr * n
                for a, q in (product(lw).items() if res else {tuple(range(n)): 1.}.items()):
                    new = tuple(cur[i] for i in a)
                    base = np.zeros(n) if res else np.asarray(lw, float)
                    nw = base - .1 * (e['value'][list(new), 0] + 100. * k)
                    rec(h + ((new, R(nw, 3)),), new, nw, p * q, k + 1)
            rec((), tuple(range(n)), np.asarray(t, np.float32).astype(float), 1., 0)
            same_law(c, g, want, f'{tag}:law', 'an iteration resamples whole particles in proportion to weight, or leaves them as they were', weights=t, thr=thr)

    def update(c):
        update_case(c, None, 1, 2, TABLES[2], 'update')
        update_case(c, None, 2, 2, TABLES[2][:3], 'update')
        update_case(c, None, 1, 3, TABLES[3][:4], 'update')
        update_case(c, None, 1, 4, TABLES[4][:1], 'update')
        update_case(c, None, 2, 1, TABLES[1], 'update')

    def custom(c):
        for thr in (0., .6, .9):
            update_case(c, thr, 2 if not th else 3, 2, TABLES[2][:4], 'custom')
            update_case(c, thr, 1, 3, TABLES[3][:4], 'custom')

    def tempered(c):
        """built-in tempered sampler: particles sit far apart, so that the parent shows in the value too"""
        pri, lik = np.zeros(40), np.tile([0., 1., 2.], 14)[:40] * LN2
        scn = Table(1, lattice_pot(pri, np.array([0])), lattice_pot(lik, np.array([0])), prior_sample=lambda k: jnp.zeros(1))
        smp = {thr: MetropolisedSMCSampler(RandomWalk(stepsize=1.), temperature_schedule=jnp.array([.5, 1.]), ess_threshold_resample=thr) for thr in (0., .7, 1.)}
        C.hashed = ('uniform',)
        for thr, s in smp.items():
            for n, tabs in ((2, [(0., 0.), (0., -2.), (-inf, 0.)]), (3, [(0., -1., -inf), (.1, -3., .2)])):
                base = np.array([5., 20., 31.])[:n, None]

                def f(lw, key):
                    st = cdict(value=jnp.array(base, jnp.float32), tag=jnp.arange(n), hist=jnp.arange(n)[:, None] * jnp.ones((1, 2)))
                    st, ex = s.startup(scn, n, st, cdict(random_key=key))
                    st.log_weight = lw
                    w = jnp.exp(lw - lw.max())
                    st.ess = jnp.ones(n) * w.sum() ** 2 / (w ** 2).sum()
                    st, ex = s.update(scn, st, ex)
                    return dict(tag=st.tag, hist=st.hist, v=st.value, w=st.log_weight, lik=st.likelihood_potential)
                lv = explore(jax.jit(f), [jnp.array(t, jnp.float32) for t in tabs], one=True, jit=False)
                c.explored(lv)
                got = [{} for _ in tabs]
                for l in lv:
                    o = l.out
                    par = tuple(int(x) for x in o['tag'])
                    c.expect(np.array_equal(o['hist'][:, 0], np.array(par)), 'tempered:fields', 'user fields come from the same parent', parents=par)
                    c.expect(np.all(np.abs(o['v'] - base[list(par)]) < 1.01), 'tempered:value', 'the value starts from the same parent as the other fields', parents=par, value=o['v'].tolist())
                    L = lik[np.round(o['v'][:, 0]).astype(int)]
                    c.close(o['lik'], L, 'tempered:lik', 'the potential is that of the particle itself', rtol=1e-3, atol=1e-3)
                    t = np.array(tabs[l.start], float)
                    res = fssm.ess(t) <= thr * n
                    c.close(o['w'], (np.zeros(n) if res else t) - .5 * L, 'tempered:weights', 'equal weights after resampling, untouched weights without', rtol=1e-3, atol=1e-3, thr=thr)
                    got[l.start][par] = got[l.start].get(par, 0) + l.p
                    c.state('tempered', thr, n, l.start, par, R(o['v'], 1))
                for t, g in zip(tabs, got):
                    res = fssm.ess(t) <= thr * n
                    same_law(c, g, product(t) if res else {tuple(range(n)): 1.}, 'tempered:law', 'resamples in proportion to weight exactly when the effective sample size is too low', weights=t, thr=thr)
        C.hashed = ()

    class Abc(ABCScenario):
        name = 'abc'
        dim = 1
        data = jnp.array([0., 0.])

        def prior_potential(self, x, random_key=None):
            return .5 * x[0] ** 2 / 400.

        def prior_sample(self, random_key):
            return random.normal(random_key, (1,))

        def likelihood_sample(self, x, random_key):
            return jnp.array([x[0], 2 * x[0]])

    def abc(c, steps=1):
        scn = Abc()
        C.hashed = ('uniform', 'normal')
        for thr in (0., .6, 1.1):
            s = MetropolisedABCSMCSampler(RandomWalkABC(threshold=100., stepsize=.01), threshold_schedule=jnp.array([200., 120., 60.]), ess_threshold_resample=thr)
            for n, dists in ((2, [(1., 300.), (1., 2.)]), (3, [(1., 2., 300.), (300., 4., 500.), (1., 2., 3.)]), (4, [(300., 1., 2., 300.)]))[:2 if steps == 2 and not th else 3]:
                base = np.array([5., 20., 31., 50.])[:n, None]

                def f(d, key):
                    v = jnp.array(base, jnp.float32)
                    # the distances are given: those of the particles
                    st = cdict(value=v, tag=jnp.arange(n), hist=jnp.arange(n)[:, None] * jnp.ones((1, 2)), simulated_data=jnp.concatenate([v, d[:, None]], 1), distance=d)
                    st, ex = s.startup(scn, n, st, cdict(random_key=key))
                    rows = []
                    for _ in range(steps):
                        lw, es = st.log_weight, st.ess
                        st, ex = s.update(scn, st, ex)
                        rows.append(dict(tag=st.tag, hist=st.hist, v=st.value, w=st.log_weight, d=st.distance, sim=st.simulated_data, pp=st.prior_potential, lw=lw, es=es))
                    return rows
                lv = explore(jax.jit(f), [jnp.array(d, jnp.float32) for d in dists], one=True, jit=False)
                c.explored(lv)
                got = {}
                for l in lv:
                    h = (l.start,)
                    d0 = np.array(dists[l.start])
                    for o in l.out:
                        par = tuple(int(x) for x in o['tag'])
                        c.expect(np.array_equal(o['hist'][:, 0], np.array(par)), 'abc:fields', 'user fields come from the same parent', parents=par)
                        c.expect(np.all(np.abs(o['v'] - base[list(par)]) < 3.), 'abc:value', 'the value starts from the same parent as the other fields', parents=par, value=o['v'].tolist())
                        moved = np.abs(o['v'] - base[list(par)])[:, 0] > 1e-6
                        sim = np.where(moved[:, None], np.concatenate([o['v'], 2 * o['v']], 1), np.concatenate([o['v'], d0[list(par)][:, None]], 1))
                        dist = np.where(moved, np.sqrt(5) * np.abs(o['v'][:, 0]), d0[list(par)])
                        # back where it was after two moves: its own simulation, or the data it was given
                        back = ~moved & (np.abs(o['sim'][:, 1] - 2 * o['v'][:, 0]) < 1e-3) & (len(h) > 1)
                        sim[back] = np.concatenate([o['v'], 2 * o['v']], 1)[back]
                        dist[back] = np.sqrt(5) * np.abs(o['v'][back, 0])
                        c.close(o['sim'], sim, 'abc:sim', 'simulated data come from the same parent', parents=par)
                        c.close(o['d'], dist, 'abc:distance', 'the distance comes from the same parent', parents=par, rtol=1e-3)
                        c.close(o['pp'], .5 * o['v'][:, 0] ** 2 / 400., 'abc:prior', 'the prior potential is that of the particle', parents=par)
                        prev = h[-1][0] if len(h) > 1 else tuple(range(n))
                        got.setdefault(h, [R(o['lw']), R(o['es']), {}, prev, np.asarray(o['lw'], float)])[2].setdefault(par, 0.)
                        got[h][2][par] += l.p
                        h = h + ((par, R(o['v'], 3)),)
                    c.state('abc', thr, n, h)
                for h, (lw, es, g, prev, L) in got.items():
                    tot = sum(g.values())
                    g = {k: v / tot for k, v in g.items()}
                    res = fssm.ess(L) < thr * n
                    want = {}
                    for a, q in (product(L).items() if res else [(tuple(range(n)), 1.)]):
                        k = tuple(prev[i] for i in a)
                        want[k] = want.get(k, 0) + q
                    same_law(c, g, want, 'abc:law', 'resamples among the particles alive exactly when too few are left', history=str(h), thr=thr, tol=5e-5)
        C.hashed = ()

    # ---- particle filters: deterministic transitions keep every particle recognisable
    class Ident(StateSpaceModel):
        """x = (id, step); observations weigh the ids"""
        name = 'ident'
        dim = 2
        dim_obs = 1

        def initial_potential(self, x, t):
            return 0.

        def initial_sample(self, t, random_key):
            return jnp.zeros(2)

        def transition_potential(self, x_previous, t_previous, x_new, t_new):
            return 0.

        def transition_sample(self, x_previous, t_previous, t_new, random_key):
            return x_previous + jnp.array([0., 1.])

        def likelihood_potential(self, x, y, t):
            return y[0] * x[0]

        def likelihood_sample(self, x, t, random_key):
            return x[:1]
    ssm = Ident()

    def parts(n, T, lw):
        """trajectories whose every row tells the particle apart"""
        v = np.array([[[i + .0, r] for i in range(n)] for r in range(T)], np.float32)
        w = np.array([[-.1 * i * r for i in range(n)] for r in range(T - 1)] , np.float32).reshape(T - 1, n)
        return v, w

    def particles(c):
        for n, tabs in TABLES.items():
            if n > 3 and not th:
                tabs = tabs[:1]
            for T in (0, 1, 3):     # 0: a plain trajectory block with one weight per particle
                for full in (True, False):
                    v, w = parts(n, max(T, 3) if T == 0 else T, None)
                    w = w[:max(T - 1, 0)]

                    def f(lw, key):
                        p = cdict(value=jnp.array(v), log_weight=lw if T == 0 else jnp.concatenate([jnp.array(w).reshape(-1, n), lw[None]]), y=jnp.arange(len(v))[:, None] * 1., t=jnp.arange(len(v)) * .5, ess=jnp.ones(len(v)))
                        o = resample_particles(p, key, full)
                        return dict(v=o.value, w=o.log_weight, y=o.y, t=o.t, v0=p.value, w0=p.log_weight)
                    lv = explore(f, [jnp.array(t, jnp.float32) for t in tabs], batch=1024)
                    c.explored(lv)
                    got = [{} for _ in tabs]
                    for l in lv:
                        o = l.out
                        par = tuple(int(x) for x in o['v'][-1][:, 0])
                        keep = full or T == 0
                        want = v[:, list(par)] if keep else np.concatenate([v[:-1], v[-1:, list(par)]])
                        c.expect(np.array_equal(o['v'], want), 'particles:trajectories', 'whole trajectories (or the latest row only) are gathered from one parent', full=full, parents=par, got=o['v'].tolist())
                        c.close(o['w'][-1] if T else o['w'], np.zeros(n), 'particles:weights', 'weights are equal after resampling')
                        if T:
                            c.expect(np.array_equal(o['w'][:-1], w.reshape(-1, n)), 'particles:earlier', 'earlier weights are left as they were')
                        c.expect(np.array_equal(o['y'][:, 0], np.arange(len(v)) * 1.) and np.array_equal(o['t'], np.arange(len(v)) * .5), 'particles:yt', 'observations and times are left as they were')
                        c.expect(np.array_equal(o['v0'], v), 'particles:input', 'the particles given are left as they were')
                        got[l.start][par] = got[l.start].get(par, 0) + l.p
                        c.state('particles', n, T, full, l.start, par)
                    for t, g in zip(tabs, got):
                        same_law(c, g, product(t), 'particles:law', 'independent draws, with probability proportional to weight', weights=t, full=full, T=T)

    def path_law(n, lw0, ys, thr, always=False):
        """law of (ids after each step, weights after each step)"""
        want = {}

        def rec(h, cur, lw, p, k):
            if k == len(ys):
                want[h] = want.get(h, 0) + p
                return
            res = fssm.ess(lw) < (n - 1e-3 if always else thr * n)
            for a, q in (product(lw).items() if res else {tuple(range(n)): 1.}.items()):
                new = tuple(cur[i] for i in a)
                nw = (np.zeros(n) if res else np.asarray(lw, float)) - ys[k] * np.array(new, float)
                rec(h + ((a, new, R(nw, 3)),), new, nw, p * q, k + 1)
        rec((), tuple(range(n)), np.asarray(lw0, np.float32).astype(float), 1., 0)
        return want

    def start_particles(n, lw):
        p = cdict(value=jnp.array([[[i, 0.] for i in range(n)]], jnp.float32), log_weight=lw[None], y=jnp.zeros((1, 1)), t=jnp.zeros(1))
        w = jnp.exp(lw - lw.max())
        p.ess = (w.sum() ** 2 / (w ** 2).sum())[None]
        return p

    FT = {2: [(0., 0.), (0., -1.), (-inf, .3), (-60., -59.), (-inf, -300.)], 3: [(0., -1., .5), (-inf, 0., -.7), (0., 0., 0.)]}

    def batch(c):
        ys = [.4, .9]
        for thr in (0., .7, 1.1):
            for n, tabs in FT.items():
                k = 2 if n == 2 or th else 1

                def f(lw, key):
                    o = run_particle_filter_for_marginals(ssm, BootstrapFilter(), jnp.array(ys[:k])[:, None], jnp.arange(1., k + 1), key, initial_sample=start_particles(n, lw), ess_threshold=thr)
                    return dict(v=o.value, w=o.log_weight)
                lv = explore(f, [jnp.array(t, jnp.float32) for t in tabs], batch=1024)
                c.explored(lv)
                got = [{} for _ in tabs]
                for l in lv:
                    o = l.out
                    ids = o['v'][..., 0].round().astype(int)
                    c.expect(np.array_equal(o['v'][..., 1], np.arange(k + 1)[:, None] * np.ones((1, n))), 'batch:fields', 'all coordinates of a particle come from the same parent')
                    h = tuple((tuple(map(int, ids[j])), R(o['w'][j], 3)) for j in range(1, k + 1))
                    got[l.start][h] = got[l.start].get(h, 0) + l.p
                    c.state('batch', thr, n, l.start, h)
                for t, g in zip(tabs, got):
                    want = {}
                    for h, p in path_law(n, t, ys[:k], thr).items():
                        hh = tuple((x[1], x[2]) for x in h)
                        want[hh] = want.get(hh, 0) + p
                    same_law(c, g, want, 'batch:law', 'the filter resamples in proportion to weight exactly when the effective sample size is too low', weights=t, thr=thr)

    def incremental(c):
        ys = [.4, .9]
        for full in (True, False):
            for thr in (0., .7, 1.1):
                for n, tabs in FT.items():
                    k = 2 if n == 2 or th else 1

                    def f(lw, key):
                        p = start_particles(n, lw)
                        for j, kk in enumerate(random.split(key, k)):
                            p = propagate_particle_filter(ssm, BootstrapFilter(), p, jnp.array([ys[j]]), j + 1., kk, thr, full)
                        return dict(v=p.value, w=p.log_weight)
                    lv = explore(f, [jnp.array(t, jnp.float32) for t in tabs], batch=1024)
                    c.explored(lv)
                    got = [{} for _ in tabs]
                    for l in lv:
                        o = l.out
                        ids = o['v'][..., 0].round().astype(int)
                        c.expect(np.array_equal(o['v'][..., 1], np.arange(k + 1)[:, None] * np.ones((1, n))), 'incremental:fields', 'all coordinates of a particle come from the same parent')
                        h = (tuple(map(lambda r: tuple(map(int, r)), ids)), R(o['w'], 3))
                        got[l.start][h] = got[l.start].get(h, 0) + l.p
                        c.state('incremental', full, thr, n, l.start, h)
                    for t, g in zip(tabs, got):
                        want = {}
                        for h, p in path_law(n, t, ys[:k], thr).items():
                            rows, ws = [tuple(range(n))], [R(np.asarray(t, np.float32), 3)]
                            lw = np.asarray(t, float)
                            for a, new, nw in h:
                                res = fssm.ess(lw) < thr * n
                                if full:
                                    rows = [tuple(r[i] for i in a) for r in rows]
                                else:
                                    rows[-1] = tuple(rows[-1][i] for i in a)
                                if res:
                                    ws[-1] = R(np.zeros(n), 3)
                                rows.append(new)
                                ws.append(nw)
                                lw = np.asarray(nw, float)
                            kk = (tuple(rows), tuple(ws))
                            want[kk] = want.get(kk, 0) + p
                        same_law(c, g, want, f'incremental:law:{full}', 'the filter resamples whole trajectories (or the latest row) in proportion to weight exactly when the effective sample size is too low', weights=t, thr=thr)

    def smoother_pf(c):
        ys = [.4, .9]
        for n, tabs in FT.items():
            k = 2 if n == 2 or th else 1

            def f(lw, key):
                p = start_particles(n, lw)
                p.log_weight = lw
                for j, kk in enumerate(random.split(key, k)):
                    p = propagate_particle_smoother(ssm, BootstrapFilter(), p, jnp.array([ys[j]]), j + 1., kk, 7, False)
                return dict(v=p.value, w=p.log_weight)
            lv = explore(f, [jnp.array(t, jnp.float32) for t in tabs], batch=1024)
            c.explored(lv)
            got = [{} for _ in tabs]
            for l in lv:
                o = l.out
                ids = o['v'][..., 0].round().astype(int)
                c.expect(np.array_equal(o['v'][..., 1], np.arange(k + 1)[:, None] * np.ones((1, n))), 'smoother:fields', 'all coordinates of a particle come from the same parent')
                h = (tuple(map(lambda r: tuple(map(int, r)), ids)), R(o['w'] - o['w'].max(), 3))
                got[l.start][h] = got[l.start].get(h, 0) + l.p
                c.state('smoother', n, l.start, h)
            for t, g in zip(tabs, got):
                want = {}
                for h, p in path_law(n, t, ys[:k], 0., True).items():
                    rows = [tuple(range(n))]
                    for a, new, nw in h:
                        rows = [tuple(r[i] for i in a) for r in rows] + [new]
                    lw = np.array(h[-1][2])
                    kk = (tuple(rows), R(lw - lw.max(), 3))
                    want[kk] = want.get(kk, 0) + p
                same_law(c, g, want, 'smoother:law', 'the smoother resamples whole trajectories in proportion to weight', weights=t)

    def smoother_bs(c):
        """deterministic, equal transition densities: backward simulation draws the last row in proportion to weight, and every earlier row independently of the later ones"""
        ys = [.4]
        for n, tabs in FT.items():
            for thr in (0., 1.1):
                def f(lw, key):
                    p = start_particles(n, lw)
                    p = propagate_particle_smoother(ssm, BootstrapFilter(), p, jnp.array([ys[0]]), 1., key, 7, True, thr)
                    return dict(v=p.value, w=p.log_weight)
                if n == 3 and thr > 1 and not th:
                    continue
                lv = explore(f, [jnp.array(t, jnp.float32) for t in tabs], batch=2048, max_leaves=400000)
                c.explored(lv)
                got = [{} for _ in tabs]
                for l in lv:
                    o = l.out
                    ids = o['v'][..., 0].round().astype(int)
                    c.expect(np.array_equal(o['v'][..., 1], np.arange(2)[:, None] * np.ones((1, n))), 'smoother-bs:fields', 'all coordinates of a particle come from the same parent')
                    c.expect(np.all(o['w'] == 0), 'smoother-bs:weights', 'smoothed trajectories are equally weighted')
                    h = tuple(map(lambda r: tuple(map(int, r)), ids))
                    got[l.start][h] = got[l.start].get(h, 0) + l.p
                    c.state('smoother-bs', n, thr, l.start, h)
                for t, g in zip(tabs, got):
                    want = {}
                    for h, p in path_law(n, t, ys, thr).items():
                        a, new, nw = h[0]
                        res = fssm.ess(np.asarray(t, float)) < thr * n
                        first = a                                     # ids of the filter's first row
                        w1 = np.zeros(n) if res else np.asarray(t, float)
                        for last, q in product(nw).items():
                            for fi, r in product(w1).items():
                                k = (tuple(first[i] for i in fi), tuple(new[i] for i in last))
                                want[k] = want.get(k, 0) + p * q * r
                    same_law(c, g, want, 'smoother-bs:law', 'rows of smoothed trajectories are drawn in proportion to the filter weights', weights=t, thr=thr)

    def threshold(c):
        """no resampling: everything is left exactly as it was, also for weights far from 0"""
        for lw in [(0., -1.), (-300., -301.), (90., 89.), (-.25, -.25)]:
            for thr in (0., fssm.ess(lw) / 2 - .01, fssm.ess(lw) / 2 + .01):
                def f(w, key):
                    p = propagate_particle_filter(ssm, BootstrapFilter(), start_particles(2, w), jnp.array([.0]), 1., key, thr, True)
                    return dict(v=p.value, w=p.log_weight)
                lv = explore(jax.jit(f), [jnp.array(lw, jnp.float32)], one=True, jit=False)
                c.explored(lv)
                res = fssm.ess(np.asarray(lw)) < thr * 2
                for l in lv:
                    ids = l.out['v'][..., 0]
                    if not res:
                        c.expect(np.array_equal(ids, np.array([[0., 1.]] * 2)) and np.allclose(l.out['w'], np.array([lw] * 2), atol=1e-4), 'threshold:kept', 'particles and weights are left as they were without resampling', weights=lw, thr=thr, ids=ids.tolist(), got=l.out['w'].tolist())
                    else:
                        c.close(l.out['w'], np.zeros((2, 2)), 'threshold:reset', 'weights are reset on resampling', weights=lw, thr=thr)
                    c.state('threshold', lw, round(thr, 3), R(ids), R(l.out['w'], 3))
                c.expect((len(lv) > 1) == res, 'threshold:when', 'resamples exactly when the effective sample size is below the threshold', weights=lw, thr=thr, leaves=len(lv))
    fns = dict(smc=smc, chained=chained, update=update, custom=custom, tempered=tempered, abc=abc, particles=particles, batch=batch, incremental=incremental, threshold=threshold)
    fns['abc-chain'], fns['smoother-pf'], fns['smoother-bs'] = (lambda c: abc(c, 2)), smoother_pf, smoother_bs
    return [(k, fns[k]) for k in NAMES]
