"""C25: built-in simulators against reference processes, for every outcome of every draw (finite alphabets for the continuous ones)."""
PROPERTY = 'C25'
JOBS = 8
BOUNDS = dict(
    quick='g-and-k: 4 scenarios x parameter lattice x every uniform of 64 cells and the tails, 1-2 data; Lotka-Volterra: populations 0-3, up to 4 events, 2-3 waiting times, 9 grids of times; SIR: up to 6 events; '
          'Ricker: up to 4 steps, every noise and Poisson outcome of the alphabets; linear Gaussian: every three-valued noise, lattices of states and data; priors: every draw of 32 cells, lattices with both sides of the support',
    thorough='5-6 events, 3 data, 5 Ricker steps, more parameters')
ASSUMPTIONS = ['waiting times and exponential priors are compared to the tolerance of the 1e-6 buffer in their logarithm', 'rows of a simulation after its end (filler) and runs cut by the maximum number of events are not constrained',
               'a population with an event rate of zero in total is frozen']


def case_names(tier):
    return ['gk', 'gk-transformed', 'gk-only-a', 'gk-only-a-transformed', 'gk-prior', 'lv', 'lv-times', 'lv-scenario', 'lv-extinct', 'sir', 'sir-scenario', 'exp-prior', 'ricker', 'ricker-scenario', 'linear', 'linear-set']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, PM1, R, bits, Law, same_law
    import itertools
    from scipy.stats import norm as sn
    from mocat import abc as mabc
    S = mabc.scenarios
    from mocat.src.abc.scenarios.SIR import sir_simulate
    from mocat.src.abc.scenarios.gk import GKUniformPrior, GKTransformedUniformPrior, GKOnlyAUniformPrior, GKOnlyATransformedUniformPrior
    from mocat.src.abc.scenarios.lotka_volterra import lotka_volterra_simulate, LotkaVolterra, TransformedLotkaVolterra
    from mocat.src.abc.scenarios.SIR import SIR, TransformedSIR
    from mocat.src.abc.scenarios.ricker import ricker_simulate, Ricker
    from mocat.src.abc.scenarios.linear_gaussian import LinearGaussian
    th = tier == 'thorough'
    f32 = lambda a: jnp.array(a, dtype=jnp.float32)
    jax.config.update('jax_disable_most_optimizations', True)

    # ---------------------------------------------------------------- g-and-k
    U = bits(64) if th else bits(32)
    TAIL = [(1e-3, .25), (.02, .25), (.98, .25), (.999, .25)]

    def quantile(u, A, B, g, k, c):
        z = sn.ppf(u)
        return A + B * (1 + c * np.tanh(g * z / 2)) * z * (1 + z ** 2) ** k

    def make(cls, n, summary=True, **kw):
        class G(cls):
            n_unsummarised_data = n

            def summarise_data(self, data):
                return jnp.array([data.sum(), (data ** 2).sum(), data[0]]) if summary else data
        for q, v in kw.items():
            setattr(G, q, v)
        return G()

    def gk_match(c, lv, starts, pars, buffer, cc, alpha, n, key, alt=None, **info):
        """every uniform outcome gives the quantile at it; alt: parameters of the recorded defect"""
        for i in range(len(starts)):
            ls = [l for l in lv if l.start == i]
            def vals(P, cc=cc):
                u = buffer + (1 - 2 * buffer) * np.array([v for v, _ in alpha])
                w = [p for _, p in alpha]
                return quantile(u, *P, cc), w
            def ok(P):
                q, w = vals(P)
                want = sorted((tuple(float(q[j]) for j in js), np.prod([w[j] for j in js])) for js in itertools.product(range(len(q)), repeat=n))
                got = sorted((tuple(float(v) for v in np.asarray(l.out, float).ravel()), l.p) for l in ls)
                if len(want) != len(got):
                    return False, None, None
                a, b = np.array([v for v, _ in got]), np.array([v for v, _ in want])
                if n > 1:
                    # close ties may be sorted differently: compare columns
                    good = all(np.allclose(np.sort(a[:, j]), np.sort(b[:, j]), rtol=3e-3, atol=3e-3) for j in range(n)) and np.allclose(np.sort(a @ np.arange(1, n + 1)), np.sort(b @ np.arange(1, n + 1)), rtol=5e-3, atol=5e-3)
                else:
                    good = np.allclose(a, b, rtol=3e-3, atol=3e-3)
                return good and np.allclose([p for _, p in got], [p for _, p in want], rtol=1e-3), a[:5].tolist(), b[:5].tolist()
            good, a, b = ok(pars[i])
            if not good and alt is not None and ok(alt[i])[0]:
                c.expect(False, 'gk-onlya-exponent', 'the exponent of (1 + z^2) is c, not k', params=pars[i], got=a, want=b, **info)
            else:
                c.expect(good, key, 'data are the quantiles at the uniform draws', params=pars[i], got=a, want=b, n=len(ls), **info)
            c.trans(len(ls))
            c.trace(len(ls))
            c.state(key, n, *[round(float(v), 4) for v in pars[i]], *info.values())

    PAR4 = [(3., 1., 2., .5), (0., 2.5, 0., 0.), (-1., .5, -1.5, 1.2), (5., 9., 6., .1)] + ([(1., 1., 1., 1.), (9.9, .1, 9., .9)] if th else [])

    def gk(c):
        for nm, alpha, ns in (('body', U, (1,) + ((2,) if th else ())), ('tail', TAIL, (1, 2, 3) if th else (1, 2))):
            C.alpha = dict(uniform=alpha)
            for n in ns:
                for kw in (dict(), dict(c=.3, buffer=.01)):
                    sc = make(GKUniformPrior, n, **kw)
                    lv = explore(lambda x, k: sc.full_data_sample(x, k), [f32(p) for p in PAR4], batch=256)
                    c.explored(lv)
                    gk_match(c, lv, PAR4, PAR4, kw.get('buffer', 1e-5), kw.get('c', .8), alpha, n, 'gk', grid=nm, custom=bool(kw))
        C.alpha = dict(uniform=TAIL)
        for summ in (True, False):
            sc = make(GKUniformPrior, 2, summ)
            lv = explore(lambda x, k: (sc.likelihood_sample(x, k), sc.full_data_sample(x, k)), [f32(p) for p in PAR4], batch=64)
            for l in lv:
                d = np.asarray(l.out[1], float)
                c.close(l.out[0], [d.sum(), (d ** 2).sum(), d[0]] if summ else d, 'gk:summary', 'simulated data are the summarised full data', rtol=1e-3, atol=1e-3)
            c.explored(lv)

    def gk_transformed(c):
        for nm, alpha, ns in (('body', U, (1,)), ('tail', TAIL, (1, 2))):
            C.alpha = dict(uniform=alpha)
            for n in ns:
                for mins, maxs in ((0., 10.), (np.array([-2., .1, 0., 0.]), np.array([4., 3., 6., 1.]))):
                    sc = make(GKTransformedUniformPrior, n, prior_mins=mins if np.isscalar(mins) else f32(mins), prior_maxs=maxs if np.isscalar(maxs) else f32(maxs))
                    X = [np.array(v) for v in ([0., 0., 0., -1.5], [-1., .5, 1.2, -2.], [.3, -1.4, -.7, -1.])]
                    P = [tuple(mins + sn.cdf(x) * (maxs - mins)) for x in X]
                    lv = explore(lambda x, k: sc.full_data_sample(x, k), [f32(x) for x in X], batch=256)
                    c.explored(lv)
                    gk_match(c, lv, X, P, 1e-5, .8, alpha, n, 'gk-transformed', grid=nm, box=str(maxs))
                    c.close(jax.vmap(sc.constrain)(f32(np.stack(X))), np.stack(P), 'gk:constrain', 'constrained parameters are uniform on the box when the unconstrained are normal', rtol=1e-3, atol=1e-4)
                    c.close(jax.vmap(sc.unconstrain)(f32(np.stack(P))), np.stack(X), 'gk:unconstrain', 'unconstrain inverts constrain', rtol=2e-3, atol=2e-3)

    def gk_only(c):
        for nm, alpha, ns in (('body', U, (1,)), ('tail', TAIL, (1, 2))):
            C.alpha = dict(uniform=alpha)
            for n in ns:
                for kw in (dict(), dict(B=2., g=1., k=.2, c=.3), dict(k=.8)):
                    sc = make(GKOnlyAUniformPrior, n, **kw)
                    X = [[3.], [-1.], [9.]]
                    cc, B, g, k = kw.get('c', .8), kw.get('B', 1.), kw.get('g', 2.), kw.get('k', .5)
                    lv = explore(lambda x, q: sc.full_data_sample(x, q), [f32(x) for x in X], batch=256)
                    c.explored(lv)
                    gk_match(c, lv, X, [(x[0], B, g, k) for x in X], 1e-5, cc, alpha, n, 'gk-only-a', alt=[(x[0], B, g, cc) for x in X], grid=nm, custom=str(kw))

    def gk_only_t(c):
        for nm, alpha, ns in (('body', U, (1,)), ('tail', TAIL, (1, 2))):
            C.alpha = dict(uniform=alpha)
            for n in ns:
                for kw in (dict(), dict(B=2., g=1., k=.2, c=.3, prior_mins=-2., prior_maxs=4.)):
                    sc = make(GKOnlyATransformedUniformPrior, n, **kw)
                    X = [[0.], [-1.], [1.7]]
                    mins, maxs = kw.get('prior_mins', 0.), kw.get('prior_maxs', 10.)
                    cc, B, g, k = kw.get('c', .8), kw.get('B', 1.), kw.get('g', 2.), kw.get('k', .5)
                    A = [mins + sn.cdf(x[0]) * (maxs - mins) for x in X]
                    lv = explore(lambda x, q: sc.full_data_sample(x, q), [f32(x) for x in X], batch=256)
                    c.explored(lv)
                    gk_match(c, lv, X, [(a, B, g, k) for a in A], 1e-5, cc, alpha, n, 'gk-only-a-t', alt=[(a, B, g, cc) for a in A], grid=nm, custom=str(kw))
                    c.close(sc.constrain(f32(X)), np.array(A)[:, None], 'gk:constrain', 'constrained parameters are uniform on the box when the unconstrained are normal', rtol=1e-3, atol=1e-4)
                    c.close(sc.unconstrain(f32(np.array(A)[:, None])), X, 'gk:unconstrain', 'unconstrain inverts constrain', rtol=2e-3, atol=2e-3)

    def gk_prior(c):
        for cls, d in ((GKUniformPrior, 4), (GKOnlyAUniformPrior, 1)):
            for mins, maxs in ((0., 10.), (-2., 3.)) + (((np.array([-2., .1, 0., 0.]), np.array([4., 3., 6., 1.])),) if d == 4 else ()):
                sc = make(cls, 1, prior_mins=mins if np.isscalar(mins) else f32(mins), prior_maxs=maxs if np.isscalar(maxs) else f32(maxs))
                al = bits(4) if d == 4 else bits(32)
                C.alpha = dict(uniform=al)
                lv = explore(lambda s, k: (lambda x: (x, sc.prior_potential(x)))(sc.prior_sample(k)), [0.], batch=256)
                c.explored(lv)
                got, want = Law(), Law()
                for l in lv:
                    got.add(R(np.asarray(l.out[0], float), 3), l.p)
                    c.expect(np.isfinite(l.out[1]), 'gk-prior:support', 'draws are in the support of the potential', x=np.asarray(l.out[0]))
                for v in itertools.product([q for q, _ in al], repeat=d):
                    want.add(R(mins + np.array(v) * (maxs - mins), 3), float(len(al)) ** -d)
                same_law(c, got, want, 'gk-prior:law', 'the prior is uniform on the box', d=d, box=str(maxs))
                lo, hi = np.broadcast_to(mins, (d,)), np.broadcast_to(maxs, (d,))
                ref = float(sc.prior_potential(f32((lo + hi) / 2)))
                for fr in itertools.product((-.1, .05, .5, .95, 1.1), repeat=d):
                    fr = np.array(fr)
                    x = lo + fr * (hi - lo)
                    u = float(sc.prior_potential(f32(x)))
                    inside = np.all((fr > 0) & (fr < 1))
                    c.expect((u == ref) if inside else u == np.inf, 'gk-prior:potential', 'the potential is constant on the box and infinite outside', x=x, u=u)
                    c.trans(1)
                    c.state(d, str(maxs), *fr)
                c.trace(1)
        C.alpha = dict(normal=[(-1.2, .5), (.7, .5)])
        for cls, d in ((GKTransformedUniformPrior, 4), (GKOnlyATransformedUniformPrior, 1)):
            sc = make(cls, 1)
            lv = explore(lambda s, k: (lambda x: (x, sc.prior_potential(x)))(sc.prior_sample(k)), [0.], batch=16)
            got, want = Law(), Law()
            for l in lv:
                got.add(R(np.asarray(l.out[0], float), 3), l.p)
            for v in itertools.product((-1.2, .7), repeat=d):
                want.add(R(np.array(v), 3), 2. ** -d)
            same_law(c, got, want, 'gk-prior:normal', 'the unconstrained prior is standard normal', d=d)
            u0 = float(sc.prior_potential(jnp.zeros(d)))
            for v in itertools.product((-3., -.5, 0., 1., 2.5), repeat=d):
                c.close(float(sc.prior_potential(f32(v))) - u0, .5 * np.sum(np.square(v)), 'gk-prior:npotential', 'and its potential that of a standard normal', rtol=1e-3, atol=1e-4)
            c.explored(lv)

    # ---------------------------------------------------------------- Markov jump processes
    WAIT = [(.2, .5), (.8, .5)]

    def jumps(x0, t0, rates, moves, T, alpha, cap=40):
        """law of event histories (states, times) until past T or frozen; deepest history"""
        out, deep = [], 0
        stack = [(1., [tuple(x0)], [t0])]
        while stack:
            p, xs, ts = stack.pop()
            h = np.array(rates(xs[-1]), float)
            if ts[-1] >= T or h.sum() <= 0:
                out.append((p, xs, ts))
                deep = max(deep, len(xs) - 1)
                continue
            assert len(xs) < cap
            for u, w in alpha:
                for k, hk in enumerate(h):
                    if hk > 0:
                        stack.append((p * w * hk / h.sum(), xs + [tuple(np.add(xs[-1], moves[k]))], ts + [ts[-1] - np.log(u) / h.sum()]))
        return out, deep

    def at(xs, ts, t):
        """state of a history at time t"""
        i = 0
        while i + 1 < len(ts) and ts[i + 1] < t:
            i += 1
        return xs[i]

    LV_MOVES = [(1, 0), (-1, 1), (0, -1)]
    lv_rates = lambda q: (lambda s: (q[0] * s[0], q[1] * s[0] * s[1], q[2] * s[1]))

    def horizon(x0, t0, rates, moves, depth, alpha):
        """the latest time by which every history is past it or frozen after `depth` events: least time of event `depth`"""
        best = np.inf
        stack = [(tuple(x0), 0., 0)]
        while stack:
            x, t, k = stack.pop()
            h = np.array(rates(x), float)
            if h.sum() <= 0:
                continue
            if k == depth:
                best = min(best, t)
                continue
            for i, hk in enumerate(h):
                if hk > 0:
                    stack.append((tuple(np.add(x, moves[i])), t - np.log(max(u for u, _ in alpha)) / h.sum(), k + 1))
        return best

    DEPTH = 5 if th else 4
    QS = [(1., .5, .3), (.2, 1.5, 1.), (3., .1, 2.)]

    def lv_case(c, x0, q, t0, frac, depth=None, key='lv', alpha=WAIT, scen=None, dtype=jnp.int32, **info):
        """one population, rates and grid of times (as fractions of the horizon): law of the read-offs"""
        depth = depth or DEPTH
        H = horizon(x0, t0, lv_rates(q), LV_MOVES, depth, alpha)
        if not np.isfinite(H):
            H = 2.
        times = np.array([t0] + [t0 + f * H * .98 for f in frac])
        want = Law()
        hist, deep = jumps(x0, t0, lv_rates(q), LV_MOVES, max(times), alpha)
        # read-offs must not sit on an event
        for p, xs, ts in hist:
            for t in times[1:]:
                if any(abs(t - s) < 1e-4 for s in ts[1:]):
                    return False
        for p, xs, ts in hist:
            v = np.array([at(xs, ts, t) for t in times[1:]], float)
            c.expect(np.all(v >= 0), key + ':ref', 'non-negative')
            want.add(R(v[:, 0] if scen else v, 2), p)
        x = jnp.array(x0, dtype)
        mi = max(depth, deep) + 2
        if scen:
            sc = scen[0]
            sc.initial_prey_pred, sc.times, sc.max_iter = x, f32(times), mi
            f = jax.jit(lambda s, k: sc.likelihood_sample(s, k))
            st = [f32(scen[1](np.array(q)))]
        else:
            f = jax.jit(lambda s, k: lotka_volterra_simulate(x, f32(times), s, k, max_iter=mi))
            st = [f32(q)]
        lvs = explore(f, st, one=True, jit=False)
        c.explored(lvs)
        got = Law()
        for l in lvs:
            v = np.asarray(l.out, float)
            got.add(R(v, 2), l.p)
        same_law(c, got, want, key + ':law', 'read-offs of the jump process at the observation times', x0=x0, rates=q, times=times.tolist(), **info)
        c.state(key, *x0, *q, t0, *frac)
        c.trace(len(lvs))
        c.trans(sum(len(xs) - 1 for _, xs, _ in hist))
        return True

    POPS = [(1, 1), (2, 1), (1, 2), (3, 0), (0, 2), (2, 2)]

    def lv_(c):
        C.alpha = dict(uniform=WAIT)
        n = 0
        for x0 in POPS:
            for q in QS:
                n += lv_case(c, x0, q, 0., (.31, .97), depth=4)
        n += lv_case(c, (2, 1), QS[0], 0., (.13, .52, 1.))
        n += lv_case(c, (2, 1), QS[0], 0., (.5, 1.), depth=3, dtype=jnp.float32)
        C.alpha = dict(uniform=[(.1, 1 / 3), (.5, 1 / 3), (.9, 1 / 3)])
        n += lv_case(c, (1, 1), QS[1], 0., (.4, .9), depth=3, alpha=C.alpha['uniform'])
        c.expect(n >= 18, 'lv:coverage', 'cases explored', n=n)

    def lv_times(c):
        C.alpha = dict(uniform=WAIT)
        n = 0
        for t0 in (0., 2.5, -1.):
            for frac in ((1.,), (.01, .02), (.01, 1.), (.3, .6, .9), (.5, .5, .7), (1., .4), (.03, .2, .55, .83), (.9, .95, .99), ()):
                if frac:
                    n += lv_case(c, (2, 1), QS[0], t0, frac, depth=3, key='lv-times')
        c.expect(n >= 20, 'lv-times:coverage', 'cases explored', n=n)

    def lv_scenario(c):
        C.alpha = dict(uniform=WAIT)
        for x0 in ((2, 1), (1, 2)):
            for q in QS[:2]:
                lv_case(c, x0, q, 0., (.31, .97), depth=3, key='lv-scenario', scen=(LotkaVolterra(), lambda q: q))
                lv_case(c, x0, q, 1., (.31, .97), depth=3, key='lv-transformed', scen=(TransformedLotkaVolterra(), np.log))

    def lv_extinct(c):
        """populations that die out stay as they are"""
        C.alpha = dict(uniform=WAIT)
        for x0, q in (((0, 1), (1., 1., 2.)), ((0, 2), (1., 1., 2.)), ((1, 1), (0., 5., 2.)), ((2, 1), (0., 5., 2.)), ((2, 0), (0., 1., 1.)), ((0, 0), (1., 1., 1.))):
            T = 50.
            x, times, mi = jnp.array(x0), f32([0., T / 3 + .01, T]), 6
            f = jax.jit(lambda s, k: lotka_volterra_simulate(x, times, s, k, max_iter=mi))
            lvs = explore(f, [f32(q)], one=True, jit=False)
            c.explored(lvs)
            hist, deep = jumps(x0, 0., lv_rates(q), LV_MOVES, T, WAIT)
            want, got = Law(), Law()
            for p, xs, ts in hist:
                if p > 1e-5:
                    want.add(R(np.array([at(xs, ts, t) for t in np.asarray(times, float)[1:]], float), 2), p)
            for l in lvs:
                c.expect(np.all(np.asarray(l.out) >= 0), 'lv:negative', 'populations are not negative', got_=np.asarray(l.out))
                if l.p > 1e-5:
                    got.add(R(np.asarray(l.out, float), 2), l.p)
            same_law(c, got, want, 'lv-extinct:law', 'populations are frozen once no event is possible', tol=1e-3, x0=x0, rates=q)
            c.trace(len(lvs))
            c.trans(len(hist))
            c.state(*x0, *q)

    SIR_MOVES = [(-1, 1), (0, -1)]

    def sir_law(x0, q, N, alpha):
        rates = lambda s: (q[0] / N * s[0] * s[1], q[1] * s[1])
        return jumps(x0, 0., rates, SIR_MOVES, np.inf, alpha)

    def sir_obs(si, ts):
        """rows of a simulation up to its end"""
        si, ts = np.asarray(si, float), np.asarray(ts, float)
        end = next((i for i in range(len(si)) if si[i, 1] <= 0), len(si) - 1)
        return R(np.concatenate([si[:end + 1], ts[:end + 1, None]], 1), 2)

    def sir_pops():
        return [(1, 1), (2, 1), (0, 2), (1, 2), (0, 1), (3, 0)] + ([(2, 2)] if th else [])

    def sir(c):
        C.alpha = dict(uniform=WAIT)
        for x0 in sir_pops():
            for q in ((1.5, .7), (.4, 2.)):
                for N in (sum(x0), 10):
                    if x0[1] == 0:
                        continue
                    hist, deep = sir_law(x0, q, N, WAIT)
                    want, got = Law(), Law()
                    for p, xs, ts in hist:
                        want.add(R(np.concatenate([np.array(xs[1:], float), np.array(ts[1:])[:, None]], 1), 2), p)
                    f = jax.jit(lambda s, k: sir_simulate(jnp.array(x0), s, N, k, max_iter=deep + 1))
                    lvs = explore(f, [f32(q)], one=True, jit=False)
                    c.explored(lvs)
                    for l in lvs:
                        t, si = l.out
                        got.add(sir_obs(si, t), l.p)
                        c.expect(np.all(np.asarray(si) >= 0), 'sir:negative', 'populations are not negative', si=np.asarray(si))
                    same_law(c, got, want, 'sir:law', 'event times and populations of the epidemic until no one is infected', x0=x0, rates=q, N=N)
                    c.trace(len(lvs))
                    c.trans(sum(len(xs) - 1 for _, xs, _ in hist))
                    c.state(*x0, *q, N)

    def sir_scenario(c):
        C.alpha = dict(uniform=WAIT)
        for cls, tr in ((SIR, lambda q: q), (TransformedSIR, np.log)):
            for x0 in ((2, 1), (1, 2)):
                for q in ((1.5, .7), (.4, 2.)):
                    sc = cls()
                    hist, deep = sir_law(x0, q, sum(x0), WAIT)
                    sc.initial_si, sc.max_iter = jnp.array(x0), deep + 1
                    want, got = Law(), Law()
                    for p, xs, ts in hist:
                        want.add(R(np.concatenate([np.array(xs[1:], float), np.array(ts[1:])[:, None]], 1), 2), p)
                    f = jax.jit(lambda s, k: sc.simulate_times_and_si(s, k))
                    lvs = explore(f, [f32(tr(np.array(q)))], one=True, jit=False)
                    c.explored(lvs)
                    for l in lvs:
                        got.add(sir_obs(l.out[1], l.out[0]), l.p)
                    same_law(c, got, want, 'sir-scenario:law', 'the scenario simulates the epidemic of its parameters', x0=x0, rates=q, cls=cls.__name__)
                    c.trace(len(lvs))
                    c.trans(len(hist))
                    c.state(cls.__name__, *x0, *q)

    def exp_prior(c):
        for cls, tr, d in ((LotkaVolterra, False, 3), (TransformedLotkaVolterra, True, 3), (SIR, False, 2), (TransformedSIR, True, 2)):
            for rates in (np.ones(d), np.array([.5, 2., 3.])[:d]):
                sc = cls()
                if not np.all(rates == 1):
                    sc.prior_rates = f32(rates)
                al = bits(8)
                C.alpha = dict(uniform=al)
                lv = explore(lambda s, k: sc.prior_sample(k), [0.], batch=256)
                c.explored(lv)
                got, want = Law(), Law()
                for l in lv:
                    x = np.asarray(l.out, float)
                    got.add(R(np.exp(x) if tr else x, 3), l.p)
                for v in itertools.product([q for q, _ in al], repeat=d):
                    want.add(R(-np.log(np.array(v)) / rates, 3), 8. ** -d)
                same_law(c, got, want, 'exp-prior:law', 'rates are exponential and independent', cls=cls.__name__, rates=rates)
                pts = [np.array(v) for v in itertools.product((-1.5, -.2, .3, 1., 2.5), repeat=d)]
                base = None
                for x in pts:
                    u = float(sc.prior_potential(f32(x)))
                    if tr:
                        w = np.sum(rates * np.exp(x) - x)
                        w0 = np.sum(rates - 0.)
                        c.close(u - float(sc.prior_potential(jnp.zeros(d))), w - w0, 'exp-prior:tpotential', 'potential of the logarithm of exponential rates', x=x, rtol=1e-3, atol=1e-3, cls=cls.__name__)
                    elif np.all(x > 0):
                        c.close(u - float(sc.prior_potential(f32(np.ones(d) * .5))), np.sum(rates * (x - .5)), 'exp-prior:potential', 'potential of exponential rates', x=x, rtol=1e-3, atol=1e-3, cls=cls.__name__)
                    else:
                        c.expect(u == np.inf, 'exp-prior:support', 'negative rates have no density', x=x, u=u, cls=cls.__name__)
                    c.trans(1)
                    c.state(cls.__name__, *rates, *x)
                if tr:
                    c.close(sc.constrain(f32(pts)), np.exp(pts), 'exp-prior:constrain', 'rates are the exponentials of the parameters', rtol=1e-3)
                    c.close(sc.unconstrain(f32(np.exp(pts))), pts, 'exp-prior:unconstrain', 'unconstrain inverts constrain', rtol=1e-3, atol=1e-4)
                c.trace(1)

    # ---------------------------------------------------------------- Ricker
    Z = [(-1.2, .25), (0., .5), (1.5, .25)]
    PO = lambda lam: [(float(int(np.floor(lam))), .5), (float(int(np.floor(lam)) + 1), .3), (float(int(np.floor(lam * 3)) + 2), .2)]

    def ns_of(n0, r, s, zs):
        out = [n0]
        for z in zs:
            out.append(r * out[-1] * np.exp(-out[-1] + s * z))
        return out

    RP = [(2., .3), (5., .1), (3.8, 1.), (1., 0.)]

    def ricker(c):
        C.alpha = dict(normal=Z)
        for n0 in (1, 1., 2.5, .1):
            for steps in (1, 2, 3, 4) + ((5,) if th else ()):
                lv = explore(lambda x, k: ricker_simulate(n0, x[0], x[1], steps, k), [f32(p) for p in RP], batch=256)
                c.explored(lv)
                for i, (r, s) in enumerate(RP):
                    got, want = Law(), Law()
                    for l in lv:
                        if l.start == i:
                            got.add(R(np.asarray(l.out, float), 3), l.p)
                    for zs in itertools.product(Z, repeat=steps):
                        want.add(R(np.array(ns_of(n0, r, s, [z for z, _ in zs])), 3), np.prod([p for _, p in zs]))
                    same_law(c, got, want, 'ricker:law', 'populations of the Ricker map with log-normal noise, the initial one first', n0=n0, r=r, sd=s, steps=steps)
                    c.state(n0, steps, r, s)
                c.trace(len(lv))

    def ricker_scenario(c):
        C.alpha = dict(normal=[(-1.2, .5), (.9, .5)], poisson=lambda shape: PO)
        for inds in ([0], [2], [1, 2], [0, 2], [2, 1], [1, 1]) + (([0, 1, 2], [3, 1]) if th else ()):
            for n0 in (1, .6):
                sc = Ricker()
                sc.num_steps, sc.observation_inds, sc.initial_n = max(max(inds), 2), jnp.array(inds), n0
                P = [(2., .3, 10.), (5., 1., 2.)]
                lv = explore(lambda x, k: sc.likelihood_sample(x, k), [f32(p) for p in P], batch=128)
                c.explored(lv)
                for i, (r, s, ph) in enumerate(P):
                    got, want = Law(), Law()
                    for l in lv:
                        if l.start == i:
                            got.add(R(np.asarray(l.out, float), 3), l.p)
                    for zs in itertools.product(C.alpha['normal'], repeat=sc.num_steps):
                        ns = ns_of(n0, r, s, [z for z, _ in zs])
                        for ks in itertools.product(*[PO(ph * ns[j]) for j in inds]):
                            want.add(R(np.array([k for k, _ in ks]), 3), np.prod([p for _, p in zs]) * np.prod([p for _, p in ks]))
                    same_law(c, got, want, 'ricker-scenario:law', 'independent Poisson counts of the scaled populations at the observation indices', inds=inds, params=P[i], n0=n0)
                    c.state(*inds, n0, i)
                c.trace(len(lv))

    # ---------------------------------------------------------------- linear Gaussian
    A3 = [(-np.sqrt(1.5), 1 / 3), (0., 1 / 3), (np.sqrt(1.5), 1 / 3)]
    COV = {1: np.array([[.7]]), 2: np.array([[1., .4], [.4, .6]]), 3: np.array([[1., .4, -.2], [.4, .6, .1], [-.2, .1, .8]])}
    OBS = {(2, 1): np.array([[1., -.5]]), (2, 2): np.array([[1., -.5], [.3, 2.]]), (1, 2): np.array([[1.], [-2.]]), (3, 2): np.array([[1., -.5, .2], [.3, 2., 0.]])}

    def lin_check(c, sc, m0, S0, H, Rc, data, key, **info):
        d, p = len(m0), len(H)
        C.alpha = dict(normal=A3)
        X = [np.array(v) for v in itertools.product((-1., .25, 1.5), repeat=d)][:9]

        def gauss(ls, m, S, k):
            pr = np.array([l.p for l in ls])
            Y = np.array([np.asarray(l.out, float) for l in ls])
            c.expect(Y.shape[1:] == (len(m),), k + ':shape', 'shape of a draw', shape=Y.shape, **info)
            r = np.linalg.solve(np.linalg.cholesky(S), (Y - m).T).T
            c.close(pr @ r, np.zeros(len(m)), k + ':mean', 'mean of the draws', atol=2e-3, **info)
            c.close(np.einsum('n,ni,nj->ij', pr, r, r), np.eye(len(m)), k + ':cov', 'covariance of the draws', atol=3e-3, **info)
            c.close(np.sort((r ** 2).sum(1)), np.sort([1.5 * sum(v != 0 for v in z) for z in itertools.product((-1, 0, 1), repeat=len(m))]), k + ':gauss', 'affine in the noise', atol=5e-3, **info)
            c.trace(len(ls))
            c.trans(len(ls))
        lv = explore(lambda s, k: sc.prior_sample(k), [0.], batch=81)
        c.explored(lv)
        gauss(lv, m0, S0, key + ':prior')
        lv = explore(lambda x, k: sc.likelihood_sample(x, k), [f32(x) for x in X], batch=81)
        c.explored(lv)
        for i, x in enumerate(X):
            gauss([l for l in lv if l.start == i], H @ x, Rc, key + ':likelihood')
            c.state(key, d, p, i, *info.values())
        u = np.array([float(sc.prior_potential(f32(x))) for x in X])
        w = np.array([.5 * (x - m0) @ np.linalg.solve(S0, x - m0) + .5 * np.linalg.slogdet(2 * np.pi * S0)[1] for x in X])
        c.close(u - u[0], w - w[0], key + ':prior-potential', 'potential of the prior', rtol=2e-3, atol=3e-3, **info)
        for dat in (data, np.zeros(p) + .3):
            sc.data = f32(dat)
            u = np.array([float(sc.likelihood_potential(f32(x))) for x in X])
            w = np.array([.5 * (dat - H @ x) @ np.linalg.solve(Rc, dat - H @ x) for x in X])
            c.close(u - u[0], w - w[0], key + ':likelihood-potential', 'potential of the data', rtol=2e-3, atol=3e-3, **info)

    def linear(c):
        for (d, p), H in OBS.items():
            if d == 3 and not th:
                continue
            m0 = np.array([.5, -1., .2])[:d]
            dat = np.array([1., -.4])[:p]
            sc = LinearGaussian(prior_mean=f32(m0), prior_covariance=f32(COV[d]), data=f32(dat), likelihood_matrix=f32(H), likelihood_covariance=f32(COV[p]))
            lin_check(c, sc, m0, COV[d], H, COV[p], dat, 'linear', d=d, p_=p)
        sc = LinearGaussian(prior_mean=f32([.5, -1.]), data=f32([1., 2.]))
        lin_check(c, sc, np.array([.5, -1.]), np.eye(2), np.eye(2), np.eye(2), np.array([1., 2.]), 'linear', kind='defaults')
        sc = LinearGaussian(prior_mean=f32([.5, -1.]), prior_covariance=2., data=f32([1., 2.]), likelihood_matrix=.5, likelihood_covariance=3.)
        lin_check(c, sc, np.array([.5, -1.]), 2 * np.eye(2), .5 * np.eye(2), 3 * np.eye(2), np.array([1., 2.]), 'linear', kind='floats')
        sc = LinearGaussian(prior_mean=.3, prior_covariance=f32(COV[2]), data=f32([1.]), likelihood_matrix=f32(OBS[2, 1]), likelihood_covariance=3.)
        lin_check(c, sc, np.array([.3, .3]), COV[2], OBS[2, 1], 3 * np.eye(1), np.array([1.]), 'linear', kind='mixed')

    def linear_set(c):
        for which in itertools.product((0, 1), repeat=3):
            d, p = 2, 2
            sc = LinearGaussian(prior_mean=f32([.5, -1.]), prior_covariance=f32(COV[2]), data=f32([1., -1.]), likelihood_matrix=f32(OBS[2, 2]), likelihood_covariance=f32(COV[2][::-1, ::-1]))
            m0, S0, H, Rc = np.array([.5, -1.]), COV[2], OBS[2, 2], COV[2][::-1, ::-1]
            if which[0]:
                S0 = np.array([[2., -.5], [-.5, .5]])
                sc.prior_covariance = f32(S0)
            if which[1]:
                Rc = np.array([[2., -.5], [-.5, .5]])
                sc.likelihood_covariance = f32(Rc)
            if which[2]:
                m0, H = np.array([2., 1.]), -OBS[2, 2]
                sc.prior_mean, sc.likelihood_matrix = f32(m0), f32(H)
            lin_check(c, sc, m0, S0, H, Rc, np.array([1., -1.]), 'linear-set', set_=which)

    return [('gk', gk), ('gk-transformed', gk_transformed), ('gk-only-a', gk_only), ('gk-only-a-transformed', gk_only_t), ('gk-prior', gk_prior), ('lv', lv_), ('lv-times', lv_times), ('lv-scenario', lv_scenario),
            ('lv-extinct', lv_extinct), ('sir', sir), ('sir-scenario', sir_scenario), ('exp-prior', exp_prior), ('ricker', ricker), ('ricker-scenario', ricker_scenario), ('linear', linear), ('linear-set', linear_set)]
