"""C01: the accept/reject kernels of the MCMC samplers, explored draw by draw on lattice targets whose acceptance
probabilities are powers of two, so that enumerating the draws gives the transition law exactly."""
PROPERTY = 'C01'
JOBS = 6
BOUNDS = dict(
    quick='targets on lattices of 7 (1d), 4x3 (2d) points incl. +inf/nan points, temperatures {0,.5,1,2}; every proposal '
          '(normal in {-1,1}^d), every accept/reject outcome (uniform in 8 cells); 1 update from every state, 2 updates '
          'from every 1d state; custom asymmetric proposals on 3 states; quasi-Newton and underdamped alpha on 3 targets',
    thorough='as quick with 3-step sequences, 9-point lattices, 3x3x3 lattice, more temperatures, stepsizes and '
             'proposal matrices')
ASSUMPTIONS = ['real-valued draws are represented by finite alphabets: the kernel is checked conditional on the draws it uses, '
               'whose joint law (the decision uniform independent of the proposal) is enumerated exactly',
               'jax.random draws are what their names say (the bit generator itself is not checked)']

T = [0., .5, 1., 2.]


def case_names(tier):
    n = ['rw-1d', 'rw-2d', 'rw-nan-inf', 'rw-pseudo-marginal', 'rw-wrappers', 'mh-asymmetric', 'hmc-lattice',
         'ud-persistent', 'ud-alpha', 'qn-alpha', 'two-steps', 'abc-lattice', 'bad-correction']
    if tier == 'thorough':
        n += ['rw-3d', 'rw-1d-wide', 'mh-asymmetric-wide', 'three-steps']
    return n


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, Table, lattice_pot, Law, same_law, LN2, R, bits, PM1, cdict, gpot, root
    import mocat
    from mocat import RandomWalk, Underdamped, QNUnderdamped, Metropolis, RMMetropolis
    from mocat.src.mcmc.sampler import MCMCSampler, Uncorrected, Correction
    from mocat.src.mcmc.metropolis import mh_acceptance_probability
    U8 = bits(64)

    def alpha_set():
        C.alpha = dict(normal=PM1, uniform=U8)

    # values (in log 2) of prior and likelihood potential; differences along neighbours are integers at every T in {0,1,2}
    # and even likelihood differences at .5
    LIK1 = np.array([0., 2., 0., 2., 2., 0., 2.]) * LN2
    PRI1 = np.array([1., 0., 0., -1., 1., 2., 0.]) * LN2

    def step_fn(scn, sampler, n=10, fields=('value', 'potential', 'alpha')):
        def fn(start, key):
            x, = start
            st, ex = sampler.startup(scn, n, cdict(value=x), cdict(random_key=key))
            st, ex = sampler.update(scn, st, ex)
            return tuple(getattr(st, f) for f in fields)
        return fn

    def ref_metropolis(pot, props):
        """law of (value, potential, alpha) after one Metropolis step from x: pot(y) float, props [(y,p)]"""
        def law_of(x):
            L = Law()
            px = pot(x)
            for y, p in props(x):
                with np.errstate(all='ignore'):
                    a = float(np.minimum(1., np.exp(np.float64(-pot(y) + px))))
                if np.isnan(a):
                    a = 0.
                L.add((y, pot(y), a), p * a)
                L.add((x, px, a), p * (1 - a))
            return L
        return law_of

    def run_rw(ctx, tag, scn, sampler, pts, potf, step, temps, dim, batch=512):
        alpha_set()
        import itertools
        dirs = list(itertools.product([-1., 1.], repeat=dim))
        for t in temps:
            scn.temperature = t
            ref = ref_metropolis(lambda y: potf(y, t), lambda x: [(tuple(np.add(x, step * np.array(d))), 1. / len(dirs)) for d in dirs])
            leaves = explore(step_fn(scn, sampler), [(jnp.array(p, dtype=jnp.float32),) for p in pts], batch=batch)
            ctx.explored(leaves)
            laws = {}
            for l in leaves:
                laws.setdefault(l.start, {})
                k = R(l.out)
                laws[l.start][k] = laws[l.start].get(k, 0.) + l.p
            P = np.zeros((len(pts), len(pts)))
            idx = {R(p): i for i, p in enumerate(pts)}
            closed = True
            for i, p in enumerate(pts):
                ctx.state(tag, t, p)
                same_law(ctx, laws[i], ref(p), f'{tag}:kernel', 'law of (next value, potential, alpha) is the Metropolis kernel',
                         start=p, temperature=t)
                for k, q in laws[i].items():
                    if k[0] in idx:
                        P[i, idx[k[0]]] += q
                    else:
                        closed = False
                    ctx.outcome(tag, k)
            pi = np.array([np.exp(-potf(p, t)) for p in pts])
            if np.all(np.isfinite(pi)) and pi.sum() > 0 and closed:
                pi = pi / pi.sum()
                ctx.close(pi @ P, pi, f'{tag}:invariant', 'the target is invariant under the kernel', temperature=t)
                F = pi[:, None] * P
                ctx.close(F, F.T, f'{tag}:balance', 'detailed balance', temperature=t)
        ctx.sample(dict(target=tag, start=pts[0], law={str(k): v for k, v in list(laws[0].items())[:4]}))

    def rw_1d(ctx, lik=LIK1, pri=PRI1, temps=T, tag='rw-1d'):
        n = len(lik)
        for stepsize, step in [(1., 1), (4., 2)]:
            scn = Table(1, lattice_pot(pri, np.array([0])), lattice_pot(lik, np.array([0])))

            def potf(y, t):
                i = int(y[0])
                if not 0 <= i < n:
                    return np.inf
                return pri[i] + t * lik[i]
            ts = temps if step == 1 or True else temps
            run_rw(ctx, f'{tag}-{step}', scn, RandomWalk(stepsize=stepsize), [(float(i),) for i in range(n)], potf, step, ts, 1)

    rng_ = np.random.RandomState(0)
    LIK2 = rng_.randint(0, 2, (4, 3)) * 2. * LN2
    PRI2 = rng_.randint(-1, 2, (4, 3)) * LN2

    def rw_nd(ctx, lik, pri, tag, temps):
        scn = Table(lik.ndim, lattice_pot(pri, np.zeros(lik.ndim, int)), lattice_pot(lik, np.zeros(lik.ndim, int)))

        def potf(y, t):
            i = tuple(int(v) for v in y)
            if any(not 0 <= a < b for a, b in zip(i, lik.shape)):
                return np.inf
            return pri[i] + t * lik[i]
        pts = [tuple(float(a) for a in i) for i in np.ndindex(*lik.shape)]
        run_rw(ctx, tag, scn, RandomWalk(stepsize=1.), pts, potf, 1, temps, lik.ndim)

    def rw_nan_inf(ctx):
        # every assignment of {finite low, finite high, inf, nan} to (current, proposals)
        vals = [0., 2. * LN2, np.inf, np.nan, -np.inf]
        import itertools
        alpha_set()
        fn = _nan_fn()
        pots = [np.array(p) for p in itertools.product(vals, repeat=3)]
        leaves = explore(fn, [(jnp.array([0.]), jnp.asarray(p, dtype=jnp.float32)) for p in pots], batch=1024)
        ctx.explored(leaves)
        by = [dict() for _ in pots]
        for l in leaves:
            by[l.start][R(l.out)] = by[l.start].get(R(l.out), 0.) + l.p
        for k, pot in enumerate(pots):
            ctx.state('nan', R(pot))

            def potf(y):
                i = int(y[0]) + 1
                return pot[i] if 0 <= i < 3 else np.inf
            ref = ref_metropolis(potf, lambda x: [((x[0] - 1,), .5), ((x[0] + 1,), .5)])
            same_law(ctx, by[k], ref((0.,)), 'rw-nan-inf:kernel', 'undefined or infinite potentials', potentials=pot)

    def _nan_fn():
        sampler = RandomWalk(stepsize=1.)

        def fn(start, key):
            x, pot = start

            def lik(x, random_key=None):
                i = jnp.round(x[..., 0]).astype(int) + 1
                return jnp.where((i >= 0) & (i < 3), pot[jnp.clip(i, 0, 2)], jnp.inf)
            scn = Table(1, None, lik)
            st, ex = sampler.startup(scn, 10, cdict(value=x), cdict(random_key=key))
            st, ex = sampler.update(scn, st, ex)
            return st.value, st.potential, st.alpha
        return fn

    def rw_pseudo_marginal(ctx):
        alpha_set()
        lik = np.array([0., 1., -1., 0., 1.]) * LN2
        n = 5
        base = lattice_pot(lik, np.array([0]))

        def noisy(x, random_key=None):
            u = jax.random.uniform(random_key)
            return base(x) + jnp.where(u < .5, LN2, -LN2)
        C.alpha = dict(normal=PM1, uniform=bits(32))
        scn = Table(1, None, noisy)
        sampler = RandomWalk(stepsize=1.)
        NO = [-LN2, LN2]

        def fn(start, key):
            x, pot = start
            st, ex = sampler.startup(scn, 10, cdict(value=x), cdict(random_key=key))
            st.potential = pot
            st, ex = sampler.update(scn, st, ex)
            return st.value, st.potential, st.alpha
        starts = [(float(i), w) for i in range(n) for w in NO]
        leaves = explore(fn, [(jnp.array([i]), jnp.float32(lik[int(i)] + w)) for i, w in starts], batch=256)
        ctx.explored(leaves)
        ns = len(starts)
        P = np.zeros((ns, ns))
        idx = {R((s[0], lik[int(s[0])] + s[1]), 3): k for k, s in enumerate(starts)}
        laws = [dict() for _ in starts]
        for l in leaves:
            k = R(l.out)
            laws[l.start][k] = laws[l.start].get(k, 0.) + l.p
            j = idx.get(R((float(l.out[0][0]), float(l.out[1])), 3))
            if ctx.expect(j is not None, 'pm:states', 'a chain state whose recorded potential is not one of its value', out=l.out):
                P[l.start, j] += l.p
        for k, (i, w) in enumerate(starts):
            ctx.state('pm', i, w)
            L = Law()
            px = lik[int(i)] + w
            for y in (i - 1, i + 1):
                for v in NO:
                    py = lik[int(y)] + v if 0 <= y < n else np.inf
                    a = min(1., np.exp(-py + px))
                    L.add(((y,), py, a), .25 * a)
                    L.add(((i,), px, a), .25 * (1 - a))
            same_law(ctx, laws[k], L, 'pm:kernel', 'pseudo-marginal kernel with a stochastic potential', start=(i, w))
        pi = np.array([np.exp(-lik[int(i)] - w) for i, w in starts])
        pi /= pi.sum()
        ctx.close(pi @ P, pi, 'pm:invariant', 'extended target invariant with stochastic potentials')

    def rw_wrappers(ctx):
        """every way of asking for the same correction gives the same kernel; Uncorrected always moves"""
        alpha_set()
        n = len(LIK1)
        scn = Table(1, lattice_pot(PRI1, np.array([0])), lattice_pot(LIK1, np.array([0])))

        def potf(y):
            i = int(y[0])
            return PRI1[i] + LIK1[i] if 0 <= i < n else np.inf
        ref = ref_metropolis(potf, lambda x: [((x[0] - 1,), .5), ((x[0] + 1,), .5)])
        pts = [(float(i),) for i in range(n)]
        makers = [('default', lambda: (RandomWalk(stepsize=1.), {})),
                  ('class', lambda: (RandomWalk(stepsize=1.), dict(correction=Metropolis))),
                  ('instance', lambda: (RandomWalk(stepsize=1.), dict(correction=Metropolis()))),
                  ('rm-frozen', lambda: (RandomWalk(stepsize=1.), dict(correction=RMMetropolis(adapt_cut_off=0)))),
                  ('rm-class', lambda: (RandomWalk(stepsize=1.), dict(correction=RMMetropolis))),
                  ('rm-super-class', lambda: (RandomWalk(stepsize=1.), dict(correction=RMMetropolis(super_correction=Metropolis)))),
                  ('kwarg-stepsize', lambda: (RandomWalk(), dict(stepsize=1.)))]
        for name, mk in makers:
            sampler, kw = mk()

            def fn(start, key):
                x, = start
                st, ex = sampler.startup(scn, 10, cdict(value=x), cdict(random_key=key), **kw)
                st, ex = sampler.update(scn, st, ex)
                return st.value, st.potential, st.alpha
            leaves = explore(fn, [(jnp.array(p),) for p in pts], batch=512)
            ctx.explored(leaves)
            for i, p in enumerate(pts):
                ctx.state(name, p)
                L = {}
                for l in leaves:
                    if l.start == i:
                        L[R(l.out)] = L.get(R(l.out), 0.) + l.p
                same_law(ctx, L, ref(p), 'wrap:' + name, 'kernel through this way of configuring the correction', start=p)
        for name, kw in [('uncorrected', dict(correction=Uncorrected)), ('uncorrected-instance', dict(correction=Uncorrected()))]:
            sampler = RandomWalk(stepsize=1.)

            def fn(start, key):
                x, = start
                st, ex = sampler.startup(scn, 10, cdict(value=x), cdict(random_key=key), **kw)
                st, ex = sampler.update(scn, st, ex)
                return st.value, st.potential
            leaves = explore(fn, [(jnp.array(p),) for p in pts], batch=512)
            ctx.explored(leaves)
            for i, p in enumerate(pts):
                ctx.state(name, p)
                L, W = {}, Law()
                for l in leaves:
                    if l.start == i:
                        L[R(l.out)] = L.get(R(l.out), 0.) + l.p
                for y in (p[0] - 1, p[0] + 1):
                    W.add(((y,), potf((y,))), .5)
                same_law(ctx, L, W, 'wrap:' + name, 'uncorrected sampler always takes its proposal', start=p)

    class TableProposal(MCMCSampler):
        name = 'table proposal'
        correction = Metropolis

        def __init__(self):
            super().__init__()

        def startup(self, scenario, n, initial_state, initial_extra, **kwargs):
            s, e = super().startup(scenario, n, initial_state, initial_extra, **kwargs)
            e.random_key, k = jax.random.split(e.random_key)
            s.potential = scenario.potential(s.value, k)
            return s, e

        def proposal(self, scenario, reject_state, reject_extra):
            new = reject_state.copy()
            reject_extra.random_key, k, k2 = jax.random.split(reject_extra.random_key, 3)
            i = jnp.round(reject_state.value[0]).astype(int)
            j = jax.random.categorical(k, jnp.log(scenario.Q)[i])
            new.value = jnp.array([j], dtype=jnp.float32)
            new.potential = scenario.potential(new.value, k2)
            return new, reject_extra

        def proposal_potential(self, scenario, reject_state, reject_extra, proposed_state, proposed_extra):
            i = jnp.round(reject_state.value[0]).astype(int)
            j = jnp.round(proposed_state.value[0]).astype(int)
            return -jnp.log(scenario.Q)[i, j]

        def acceptance_probability(self, scenario, *args):
            return mh_acceptance_probability(self, scenario, *args)

    def mh_asymmetric(ctx, wide=False):
        C.alpha = dict(normal=PM1, uniform=bits(64 if wide else 32))
        import itertools
        rows = [[.5, .25, .25], [.25, .5, .25], [.25, .25, .5]] + ([[1., 0., 0.], [0., .5, .5]] if wide else [])
        sampler = TableProposal()

        def fn(start, key):
            x, lik, Q = start

            def pot(x, random_key=None):
                return lik[jnp.round(x[..., 0]).astype(int)]
            scn = Table(1, None, pot)
            scn.Q = Q
            st, ex = sampler.startup(scn, 10, cdict(value=x), cdict(random_key=key))
            st, ex = sampler.update(scn, st, ex)
            return st.value, st.potential, st.alpha
        grids = list(itertools.product(rows, repeat=3))
        liks = [np.array([0., 1., -1.]) * LN2, np.array([0., 0., 0.]), np.array([2., 0., 1.]) * LN2]
        starts, meta = [], []
        for Q in grids:
            for lik in (liks if wide else liks[:2]):
                for i in range(3):
                    starts.append((jnp.array([float(i)]), jnp.asarray(lik, dtype=jnp.float32), jnp.array(Q)))
                    meta.append((i, lik, np.array(Q)))
        leaves = explore(fn, starts, batch=1024)
        ctx.explored(leaves)
        by = [dict() for _ in starts]
        for l in leaves:
            k = R(l.out)
            by[l.start][k] = by[l.start].get(k, 0.) + l.p
        P = np.zeros((3, 3))
        for s, (i, lik, Q) in enumerate(meta):
            ctx.state('mh', i, R(lik), R(Q))
            L = Law()
            for j in range(3):
                if Q[i, j] == 0:
                    continue
                with np.errstate(all='ignore'):
                    a = min(1., np.exp(-lik[j] + lik[i]) * Q[j, i] / Q[i, j])
                L.add(((float(j),), lik[j], a), Q[i, j] * a)
                L.add(((float(i),), lik[i], a), Q[i, j] * (1 - a))
            same_law(ctx, by[s], L, 'mh:kernel', 'Metropolis-Hastings kernel of an asymmetric proposal', start=i, Q=Q, lik=lik)
            for k, p in by[s].items():
                P[i, int(k[0][0])] += p
            if i == 2:
                pi = np.exp(-lik)
                pi /= pi.sum()
                ctx.close(pi @ P, pi, 'mh:invariant', 'target invariant', Q=Q, lik=lik)
                P = np.zeros((3, 3))

    def hmc_lattice(ctx):
        """Underdamped with friction=inf on a piecewise constant target: exact lattice dynamics"""
        alpha_set()
        n = len(LIK1)
        scn = Table(1, lattice_pot(PRI1, np.array([0])), lattice_pot(LIK1, np.array([0])))
        for L_ in (1, 2, 3):
            for eps in (1., 2.):
                for t in T:
                    scn.temperature = t
                    sampler = Underdamped(stepsize=eps, leapfrog_steps=L_)

                    def potf(y):
                        i = int(round(y[0]))
                        return PRI1[i] + t * LIK1[i] if 0 <= i < n else np.inf
                    inside = lambda x, d: all(0 <= x + d * eps * k < n for k in range(1, L_ + 1))
                    pts = [(float(i),) for i in range(n)]

                    def fn(start, key):
                        x, = start
                        st, ex = sampler.startup(scn, 10, cdict(value=x), cdict(random_key=key))
                        st, ex = sampler.update(scn, st, ex)
                        return st.value, st.potential, st.prior_potential, st.likelihood_potential, st.alpha, st.momenta
                    leaves = explore(fn, [(jnp.array(p),) for p in pts], batch=512)
                    ctx.explored(leaves)
                    by = [dict() for _ in pts]
                    for l in leaves:
                        by[l.start][R(l.out)] = by[l.start].get(R(l.out), 0.) + l.p
                    P = np.zeros((n, n))
                    ok = True
                    for i, p in enumerate(pts):
                        ctx.state('hmc', L_, eps, t, p)
                        W = Law()
                        px = potf(p)
                        for d in (-1., 1.):
                            y = (p[0] + d * eps * L_,)
                            a = float(np.minimum(1., np.exp(-potf(y) + px)))
                            if a > 0:
                                j = int(y[0])
                                W.add((y, potf(y), PRI1[j], LIK1[j], a, (-d,)), .5 * a)
                            W.add((p, px, PRI1[i], LIK1[i], a, (d,)), .5 * (1 - a))
                        same_law(ctx, by[i], W, 'hmc:kernel', 'kernel of the underdamped sampler on a piecewise constant target',
                                 start=p, L=L_, eps=eps, temperature=t)
                        for k, q in by[i].items():
                            P[i, int(k[0][0])] += q
                    pi = np.exp(-np.array([potf(p) for p in pts]))
                    pi /= pi.sum()
                    ctx.close(pi @ P, pi, 'hmc:invariant', 'target invariant', L=L_, eps=eps, temperature=t)

    def ud_persistent(ctx):
        """friction 0: deterministic direction, state (x, p); pi x uniform(+-1) is invariant"""
        alpha_set()
        n = len(LIK1)
        scn = Table(1, lattice_pot(PRI1, np.array([0])), lattice_pot(LIK1, np.array([0])))
        for t in T:
            scn.temperature = t
            sampler = Underdamped(stepsize=1., leapfrog_steps=1, friction=0.)

            def potf(i):
                return PRI1[i] + t * LIK1[i] if 0 <= i < n else np.inf

            def fn(start, key):
                x, p = start
                st, ex = sampler.startup(scn, 10, cdict(value=x, momenta=p), cdict(random_key=key))
                st, ex = sampler.update(scn, st, ex)
                return st.value, st.momenta, st.alpha
            starts = [(i, p) for i in range(n) for p in (-1., 1.)]
            leaves = explore(fn, [(jnp.array([float(i)]), jnp.array([p])) for i, p in starts], batch=512)
            ctx.explored(leaves)
            by = [dict() for _ in starts]
            for l in leaves:
                by[l.start][R(l.out)] = by[l.start].get(R(l.out), 0.) + l.p
            P = np.zeros((2 * n, 2 * n))
            idx = {s: k for k, s in enumerate(starts)}
            for s, (i, p) in enumerate(starts):
                ctx.state('persist', t, i, p)
                # stored momentum is the negation of the travelling one
                d = -p
                j = i + int(d)
                a = float(np.minimum(1., np.exp(-potf(j) + potf(i))))
                W = Law()
                if a > 0:
                    W.add(((float(j),), (-d,), a), a)
                W.add(((float(i),), (d,), a), 1 - a)
                same_law(ctx, by[s], W, 'persist:kernel', 'kernel with zero friction', start=(i, p), temperature=t)
                for k, q in by[s].items():
                    P[s, idx[(int(k[0][0]), float(k[1][0]))]] += q
            pi = np.exp(-np.array([potf(i) for i, p in starts]))
            pi /= pi.sum()
            ctx.close(pi @ P, pi, 'persist:invariant', 'extended target invariant', temperature=t)

    # smooth targets ------------------------------------------------------------------------------------------------
    def smooth():
        A = np.array([[1.3, .4], [.4, .8]])
        q = lambda x, rk=None: .5 * x @ jnp.asarray(A, dtype=jnp.float32) @ x
        dw = lambda x, rk=None: jnp.sum(x ** 4) / 4 - jnp.sum(x ** 2) / 2
        pr = lambda x, rk=None: .5 * jnp.sum((x - 1.) ** 2)
        nq = lambda x: .5 * x @ A @ x
        ndw = lambda x: np.sum(x ** 4) / 4 - np.sum(x ** 2) / 2
        npr = lambda x: .5 * np.sum((x - 1.) ** 2)
        gq = lambda x: A @ x
        gdw = lambda x: x ** 3 - x
        gpr = lambda x: x - 1.
        return [('quad', 2, pr, q, npr, nq, gpr, gq), ('well', 1, pr, dw, npr, ndw, gpr, gdw), ('well2', 2, pr, dw, npr, ndw, gpr, gdw)]

    def ud_alpha(ctx):
        """reported alpha = energy difference; accepted states are the endpoints of the reference integrator"""
        C.alpha = dict(normal=[(-1.5, .25), (-.3, .25), (.4, .25), (1.7, .25)], uniform=bits(4))
        for name, d, pr, lk, npr, nlk, gpr, glk in smooth():
            scn = Table(d, pr, lk)
            for t in (.5, 1.):
                scn.temperature = t
                for L_, eps, fr in [(1, .3, np.inf), (2, .9, np.inf), (3, .5, .7), (1, 1.5, .1), (2, .4, 0.)]:
                    sampler = Underdamped(stepsize=eps, leapfrog_steps=L_, friction=fr)

                    def fn(start, key):
                        x, p = start
                        st, ex = sampler.startup(scn, 10, cdict(value=x, momenta=p), cdict(random_key=key))
                        st, ex = sampler.update(scn, st, ex)
                        return st.value, st.momenta, st.potential, st.alpha
                    starts = [(np.array([.3, -.8])[:d], np.array([.5, 1.1])[:d]), (np.array([-1.2, .6])[:d], np.array([-2., .2])[:d])]
                    leaves = explore(fn, [tuple(jnp.asarray(a, dtype=jnp.float32) for a in s) for s in starts])
                    ctx.explored(leaves)
                    import itertools
                    for s, (x0, p0) in enumerate(starts):
                        ctx.state(name, t, L_, eps, fr, s)
                        L = {}
                        for l in leaves:
                            if l.start == s:
                                k = R(l.out, 3)
                                L[k] = L.get(k, 0.) + l.p
                        W = Law()
                        U = lambda x: npr(x) + t * nlk(x)
                        G = lambda x: gpr(x) + t * glk(x)
                        for z in itertools.product([-1.5, -.3, .4, 1.7], repeat=d):
                            e1 = np.exp(-fr * eps)
                            p = -p0 * e1 + np.sqrt(1 - e1 ** 2) * np.array(z)
                            x, m = x0.copy(), p.copy()
                            for _ in range(L_):
                                m = m - eps / 2 * G(x)
                                x = x + eps * m
                                m = m - eps / 2 * G(x)
                            a = min(1., np.exp(-U(x) + U(x0) - gpot(m) + gpot(p)))
                            acc = np.mean([(i + .5) / 4 < a for i in range(4)])
                            if min(abs((i + .5) / 4 - a) for i in range(4)) < 1e-3:
                                acc = acc  # decision within rounding of alpha: bounds chosen so that this does not occur
                            pz = .25 ** d
                            W.add((x, -m, U(x), a), pz * acc, 3)
                            W.add((x0, p, U(x0), a), pz * (1 - acc), 3)
                        same_law(ctx, L, W, 'ud:kernel', 'kernel of the underdamped sampler on a smooth target',
                                 target=name, temperature=t, L=L_, eps=eps, friction=fr)

    def qn_alpha(ctx):
        """two updates of the quasi-Newton sampler against a numpy implementation with explicit matrices"""
        Z = [-1.1, .7]
        C.alpha = dict(normal=[(z, .5) for z in Z], uniform=bits(2))
        for name, d, pr, lk, npr, nlk, gpr, glk in smooth():
            scn = Table(d, pr, lk)
            for t in ((.5, 1.) if ctx.thorough or name == 'well2' else (.5,)):
                scn.temperature = t
                for L_, eps, fr, m, D in [(1, .6, 1., 3, 1.), (2, .5, .3, 3, 1.), (1, .5, 1., 3, 1.5), (1, .8, np.inf, 4, 1.)][:4 if ctx.thorough else 3]:
                    sampler = QNUnderdamped(stepsize=eps, leapfrog_steps=L_, friction=fr, m=m, pos_def_r=.5, init_hessian_sqrt_diag=D)
                    nsteps = 2

                    def fn(start, key):
                        x, p = start
                        st, ex = sampler.startup(scn, 10, cdict(value=x, momenta=p), cdict(random_key=key))
                        outs = []
                        for _ in range(nsteps):
                            prev = st
                            st, ex = sampler.update(scn, st, ex)
                            mem = st.memory
                            outs.append((st.value, st.momenta, st.potential, st.alpha, mem.ps, mem.qs, mem.us, mem.ts))
                        return tuple(outs)
                    x0, p0 = np.array([.3, -.8])[:d], np.array([.5, 1.1])[:d]
                    leaves = explore(fn, [(jnp.asarray(x0, dtype=jnp.float32), jnp.asarray(p0, dtype=jnp.float32))], batch=64)
                    ctx.explored(leaves)
                    U = lambda x: npr(x) + t * nlk(x)
                    G = lambda x: gpr(x) + t * glk(x)
                    for l in leaves:
                        ctx.state(name, t, L_, eps, fr, D, tuple(l.choices))
                        x, p = x0, p0
                        zs = [c for c in l.choices if c[0] == 'normal']
                        for k, (v, mo, po, al, ps, qs, us, ts) in enumerate(l.out):
                            ps, qs, us, ts = (np.asarray(a, float) for a in (ps, qs, us, ts))
                            z_opts = [np.array(z) for z in __import__('itertools').product(Z, repeat=d)]
                            Hi = np.eye(d) / D
                            for u, tt in zip(ps, qs):
                                Hi = Hi - np.outer(u, tt) @ Hi
                            Minv = Hi @ Hi.T
                            ok = False
                            for z in z_opts:
                                e1 = np.exp(-fr * eps)
                                q = -p * e1 + np.sqrt(1 - e1 ** 2) * (_fwd(us, ts, D * z))
                                y, mm = x.copy(), q.copy()
                                for _ in range(L_):
                                    mm = mm - eps / 2 * G(y)
                                    y = y + eps * Minv @ mm
                                    mm = mm - eps / 2 * G(y)
                                a = min(1., np.exp(-U(y) + U(x) - .5 * mm @ Minv @ mm + .5 * q @ Minv @ q))
                                if abs(a - al) < 2e-3:
                                    if np.allclose(v, y, atol=2e-3) and np.allclose(mo, -mm, atol=2e-3) and abs(po - U(y)) < 2e-3:
                                        ok = (y, -mm)
                                        break
                                    if np.allclose(v, x, atol=2e-3) and np.allclose(mo, q, atol=2e-3) and abs(po - U(x)) < 2e-3:
                                        ok = (x, q)
                                        break
                            if not ctx.expect(ok is not False, 'qn:step', 'quasi-Newton update is an accepted or rejected step of the '
                                              'preconditioned dynamics with the recorded acceptance probability',
                                              target=name, step=k, L=L_, eps=eps, friction=fr, got=(v, mo, po, al), x=x, p=p):
                                break
                            x, p = np.asarray(v, float), np.asarray(mo, float)
                    # decision: the accepted fraction given the first step's alpha
                    tab = {}
                    for l in leaves:
                        v, mo, po, al = l.out[0][:4]
                        moved = not np.allclose(v, x0, atol=1e-6)
                        b = tab.setdefault(R((al,), 5), [0., 0.])
                        b[0] += l.p
                        b[1] += l.p * moved
                    for (a,), (tot, acc) in tab.items():
                        want = np.mean([u < a for u in (.25, .75)])
                        ctx.close(acc / tot, want, 'qn:decision', 'a step with alpha is accepted when the uniform draw is below it',
                                  alpha=a, target=name)

    def _fwd(us, ts, z):
        z = np.array(z, float)
        for u, t in zip(us, ts):
            z = z - u * (t @ z)
        return z

    def n_steps(ctx, nst, lik, pri, cells):
        """sequences of updates: law of the whole path equals the chain of reference kernels"""
        C.alpha = dict(normal=PM1, uniform=bits(cells))
        n = len(lik)
        scn = Table(1, lattice_pot(pri, np.array([0])), lattice_pot(lik, np.array([0])))
        sampler = RandomWalk(stepsize=1.)
        cq = lambda a: np.mean([(i + .5) / cells < a for i in range(cells)])

        def fn(start, key):
            x, = start
            st, ex = sampler.startup(scn, 10, cdict(value=x), cdict(random_key=key))
            o = []
            for _ in range(nst):
                st, ex = sampler.update(scn, st, ex)
                o.append((st.value[0], st.potential, st.alpha))
            return tuple(o)
        potf = lambda i: pri[i] + lik[i] if 0 <= i < n else np.inf
        leaves = explore(fn, [(jnp.array([float(i)]),) for i in range(n)], batch=512)
        ctx.explored(leaves)

        def paths(i, k):
            if k == 0:
                yield (), 1.
                return
            for j in (i - 1, i + 1):
                a = float(np.minimum(1., np.exp(-potf(j) + potf(i))))
                c = cq(a)
                for nxt, p in ((j, .5 * c), (i, .5 * (1 - c))):
                    if p:
                        for rest, q in paths(nxt, k - 1):
                            yield ((float(nxt), potf(nxt), a),) + rest, p * q
        for i in range(n):
            ctx.state('steps', nst, i)
            W, L = Law(), {}
            for path, p in paths(i, nst):
                W.add(path, p)
                ctx.state('path', nst, i, R(path))
            for l in leaves:
                if l.start == i:
                    L[R(l.out)] = L.get(R(l.out), 0.) + l.p
            same_law(ctx, L, W, f'steps{nst}', 'law of the path of several updates', start=i)

    def abc_lattice(ctx):
        """the ABC-MCMC kernel (threshold on simulated distances) on a 5 point lattice"""
        from mocat.src.abc.mcmc import RandomWalkABC
        C.alpha = dict(normal=PM1, uniform=bits(8))
        n = 5
        pri = np.array([0., 1., -1., 1., 0.]) * LN2
        pot = lattice_pot(pri, np.array([0]))
        from mocat.src.abc.abc import ABCScenario

        class Toy(ABCScenario):
            name = 'toy'
            dim = 1

            def prior_potential(self, x, random_key=None):
                return pot(x)

            def likelihood_sample(self, x, random_key):
                return x + jnp.where(jax.random.uniform(random_key) < .5, 1., -1.)
        scn = Toy()
        scn.data = jnp.array([2.])
        for thr in (.5, 1.5, 2.5, np.inf):
            sampler = RandomWalkABC(threshold=thr, stepsize=1.)

            def fn(start, key):
                x, s = start
                st, ex = sampler.startup(scn, 10, cdict(value=x), cdict(random_key=key))
                st.distance = jnp.abs(s[0] - 2.)
                st.simulated_data = s
                st, ex = sampler.update(scn, st, ex)
                return st.value, st.simulated_data, st.distance, st.alpha
            starts = [(float(i), float(i) + w) for i in range(n) for w in (-1., 1.)]
            leaves = explore(fn, [(jnp.array([a]), jnp.array([b])) for a, b in starts], batch=512)
            ctx.explored(leaves)
            by = [dict() for _ in starts]
            for l in leaves:
                by[l.start][R(l.out)] = by[l.start].get(R(l.out), 0.) + l.p
            P = np.zeros((len(starts),) * 2)
            pf = lambda i: pri[int(i)] if 0 <= i < n else np.inf
            for k, (i, s) in enumerate(starts):
                ctx.state('abc', thr, i, s)
                W = Law()
                for y in (i - 1, i + 1):
                    for w in (-1., 1.):
                        dist = abs(y + w - 2.)
                        a = float(np.minimum(1., np.exp(-pf(y) + pf(i)))) * (dist < thr)
                        W.add(((y,), (y + w,), dist, a), .25 * a)
                        W.add(((i,), (s,), abs(s - 2.), a), .25 * (1 - a))
                same_law(ctx, by[k], W, 'abc:kernel', 'ABC-MCMC kernel', start=(i, s), threshold=thr)
                for key, p in by[k].items():
                    st = (float(key[0][0]), float(key[1][0]))
                    P[k, starts.index(st)] += p
            pi = np.array([np.exp(-pf(i)) * .5 * (abs(s - 2.) < thr) for i, s in starts])
            pi /= pi.sum()
            ctx.close(pi @ P, pi, 'abc:invariant', 'ABC target invariant', threshold=thr)

    def bad_correction(ctx):
        """something that is not a Correction is refused"""
        C.alpha = dict(normal=PM1, uniform=U8)
        scn = Table(1, None, lattice_pot(LIK1, np.array([0])))
        for bad in (3, 'metropolis', dict, object()):
            ctx.state('bad', repr(type(bad)))
            ctx.trans(); ctx.trace()
            try:
                RandomWalk(stepsize=1.).startup(scn, 3, cdict(value=jnp.zeros(1)), cdict(random_key=jnp.asarray(root(1))), correction=bad)
                ctx.fail('bad-correction', 'an invalid correction was accepted', bad=repr(bad))
            except (TypeError, AttributeError):
                pass

    big = np.array([0., 2., 0., 2., 2., 2., 0., 0., 2., 0., 2.]) * LN2
    return [('rw-1d', rw_1d), ('rw-2d', lambda c: rw_nd(c, LIK2, PRI2, 'rw-2d', T)), ('rw-nan-inf', rw_nan_inf),
            ('rw-pseudo-marginal', rw_pseudo_marginal), ('rw-wrappers', rw_wrappers), ('mh-asymmetric', mh_asymmetric),
            ('hmc-lattice', hmc_lattice), ('ud-persistent', ud_persistent), ('ud-alpha', ud_alpha), ('qn-alpha', qn_alpha),
            ('two-steps', lambda c: n_steps(c, 2, LIK1, PRI1, 8)), ('abc-lattice', abc_lattice), ('bad-correction', bad_correction),
            ('rw-3d', lambda c: rw_nd(c, rng_.randint(0, 2, (3, 3, 3)) * 2. * LN2, rng_.randint(-1, 2, (3, 3, 3)) * LN2, 'rw-3d', T)),
            ('rw-1d-wide', lambda c: rw_1d(c, big, np.roll(big, 3) / 2, [0., .5, 1., 1.5, 2.], 'wide')),
            ('mh-asymmetric-wide', lambda c: mh_asymmetric(c, True)),
            ('three-steps', lambda c: n_steps(c, 3, LIK1, PRI1, 4))]
