"""C23: tempered ensemble Kalman inversion against a double-precision reference, over lattices of ensembles, schedules and every +-1 noise outcome."""
PROPERTY = 'C23'
JOBS = 8
BOUNDS = dict(
    quick='ensembles of 2-5 members in 1-2 dimensions with 1-2 observations x linear / nonlinear / noisy simulators x nuggets x schedules (given with and without zero, default, user, adaptive with thresholds .3-.95 and maximum temperatures .5-2): '
          'every +-1 outcome of the perturbation noise (and simulator noise) for one and two iterations; whole runs with fixed noise',
    thorough='more ensembles, two and three iterations')
ASSUMPTIONS = ['the Cholesky factor of the perturbation noise is free: laws under +-1 noise are compared through moments',
               'the given data-independent nugget regularises every inverse, as the code does']


def case_names(tier):
    return ['step-linear', 'step-nonlinear', 'step-noisy', 'step-full', 'gain', 'covariances', 'schedule', 'schedule-set', 'default', 'user', 'adaptive', 'adaptive-bisect', 'adaptive-run', 'terminate', 'nan', 'start', 'resume']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, PM1, R, cdict, Scenario, Law, law, same_law
    import itertools
    from mocat import TemperedEKI, AdaptiveTemperedEKI, run
    from mocat.src.transport.teki import calculate_covariances
    th = tier == 'thorough'
    f32 = lambda a: jnp.array(a, dtype=jnp.float32)
    jax.config.update('jax_disable_most_optimizations', True)
    PREC = 1e-4

    class Sim(Scenario):
        name = 'sim'

        def __init__(self, d, p, kind, data, noise=0.):
            self.dim, self.p, self.kind, self.noise = d, p, kind, noise
            super().__init__()
            self.data = f32(data)

        def prior_sample(self, random_key):
            return jax.random.normal(random_key, (self.dim,))

        def likelihood_sample(self, x, random_key):
            return mean_j(self.kind, x, self.p) + (self.noise * jax.random.normal(random_key, (self.p,)) if self.noise else 0.)

    A = np.array([[1., .5], [-.3, .8]])

    def mean_j(kind, x, p):
        if kind == 'linear':
            return f32(A[:p, :]) [:, :x.shape[0]] @ x + .1
        return jnp.stack([jnp.sin(x[0]) + .5 * jnp.sum(x ** 2), x[-1] ** 3 * .2 + x[0]])[:p]

    def mean_n(kind, x, p):
        if kind == 'linear':
            return A[:p, :][:, :len(x)] @ x + .1
        return np.array([np.sin(x[0]) + .5 * np.sum(x ** 2), x[-1] ** 3 * .2 + x[0]])[:p]

    # ---------------------------------------------------------------- reference
    def covs(X, Y):
        n = len(X)
        x, y = X - X.mean(0), Y - Y.mean(0)
        return x.T @ x / (n - 1), x.T @ y / (n - 1), y.T @ y / (n - 1)

    def parts(X, Y, dT, nugget):
        """gain and covariance of the perturbations"""
        cx, cxy, cy = covs(X, Y)
        p = Y.shape[1]
        cyx = cy - cxy.T @ np.linalg.inv(cx + nugget * np.eye(X.shape[1])) @ cxy
        al = 1 / dT
        K = cxy @ np.linalg.inv(cy + (al - 1) * cyx + nugget * np.eye(p))
        return K, (al - 1) * (cyx + nugget * np.eye(p)), np.linalg.inv(cyx + nugget * np.eye(p))

    def ess(u):
        w = np.exp(-(u - u.min()))
        return w.sum() ** 2 / (w ** 2).sum()

    def next_adaptive(Y, data, prec, T, mx, thr):
        """largest temperature with the threshold retained (the maximum when it retains it)"""
        r = Y - data
        u = .5 * np.einsum('ni,ij,nj->n', r, prec, r)
        f = lambda t: ess((t - T) * u) - thr * len(Y)
        if f(mx) >= 0:
            return mx
        a, b = T, mx
        for _ in range(200):
            m = .5 * (a + b)
            a, b = (m, b) if f(m) > 0 else (a, m)
        return a

    def ensembles(n, d, seed=0, k=4):
        g = np.random.RandomState(seed + 10 * n + d)
        out = [g.randint(-5, 6, (n, d)) * .4 for _ in range(3 * k)]
        out = [X for X in out if n > 1 and np.linalg.matrix_rank(X - X.mean(0)) == min(d, n - 1) and min(np.linalg.eigvalsh(np.cov(X.T).reshape(d, d) + 0.)) > (.05 if n > d else -1)]
        return out[:k]

    def one(s, sc, n, k):
        def f(start, key):
            st = cdict(value=start['value'])
            if 'sim' in start:
                st.simulated_data = start['sim']
            st, e = s.startup(sc, n, st, cdict(random_key=key))
            rows = [(jnp.asarray(st.value), jnp.asarray(st.simulated_data), jnp.asarray(st.temperature, jnp.float32), jnp.asarray(st.perturb_nan))]
            for _ in range(k):
                st, e = s.update(sc, st.copy(), e.copy())
                rows.append((jnp.asarray(st.value), jnp.asarray(st.simulated_data), jnp.asarray(st.temperature, jnp.float32), jnp.asarray(st.perturb_nan)))
            return [jnp.stack(v) for v in zip(*rows)]
        return f

    def check_step(c, lv, kind, data, sched, nugget, noise, p, **info):
        """every execution of one or more iterations; moments of the perturbation of the last one given the ones before"""
        n = None
        groups = {}
        for l in lv:
            V, Y, T, nan = (np.asarray(v, float) for v in l.out)
            k = len(V) - 1
            n, d = V.shape[1:]
            c.close(T, np.array(sched[:k + 1]), 'step:temperature', 'temperatures follow the schedule', **info)
            c.expect(nan[1:].max() == 0, 'step:nan', 'perturbations are defined', nan=nan, **info)
            for i in range(k + 1):
                m = np.stack([mean_n(kind, x, p) for x in V[i]])
                if noise:
                    c.close(np.abs(Y[i] - m), np.full_like(m, noise), 'step:simulated', 'data are simulated anew at the current positions', rtol=2e-3, atol=2e-3, **info)
                else:
                    c.close(Y[i], m, 'step:simulated', 'data are simulated anew at the current positions', rtol=2e-3, atol=2e-3, **info)
            groups.setdefault((l.start, R(V[:k], 4), R(Y[:k], 3)), []).append((l.p, V, Y))
        for (st, _, _), ls in groups.items():
            V0, Y0 = ls[0][1][-2], ls[0][2][-2]
            i = len(ls[0][1]) - 1
            K, S, _ = parts(V0, Y0, sched[i] - sched[i - 1], nugget)
            P = sum(p for p, _, _ in ls)
            base = V0 + (data - Y0) @ K.T
            U = np.array([V[-1] - base for _, V, _ in ls]).reshape(len(ls), -1)
            w = np.array([p for p, _, _ in ls]) / P
            sc_ = max(1., np.abs(base).max())
            c.close(w @ U, np.zeros(U.shape[1]), 'step:mean', 'members move by the gain applied to their own mismatch', atol=3e-3 * sc_, members=V0.tolist(), **info)
            want = np.kron(np.eye(n), K @ S @ K.T)
            c.close(np.einsum('n,ni,nj->ij', w, U, U), want, 'step:noise', 'perturbations are independent with the tempered conditional covariance', rtol=5e-3, atol=4e-3 * max(1., np.abs(want).max()), members=V0.tolist(), **info)
            c.trace(len(ls))
        c.trans(len(lv))

    def step(kind, noise=0., k=1, mode='d'):
        def run_(c):
            C.alpha = dict(normal=PM1)
            for d, p in ((1, 1), (2, 1), (2, 2), (1, 2)):
                for n in (2, 3, 4, 5):
                    bits = n * p * k + (n * p * (k if 'sim' else 0) if noise else 0)
                    if bits > (12 if th else 8):
                        continue
                    nuggets = (.05, .3) if p >= d or n <= d + 1 else (1e-2, .3)
                    if kind == 'nonlinear' and n > 3:
                        nuggets = (1e-3, .1)
                    E = ensembles(n, d, k=4 if th else 2)
                    for nugget in nuggets:
                        for sched in ([0., .25, .5, 1.], [0., .6, .9, 2.]) + (([0., .1, .7, 1.],) if th else ()):
                            data = np.array([.7, -1.2])[:p]
                            s = TemperedEKI(temperature_schedule=f32(sched), nugget=nugget)
                            sc = Sim(d, p, kind, data, noise)
                            g = np.random.RandomState(n)
                            starts = []
                            for X in E:
                                Y = np.stack([mean_n(kind, x, p) for x in X])
                                if noise:
                                    Y = Y + noise * np.sign(g.randn(n, p))
                                starts.append(dict(value=f32(X), sim=f32(Y)))
                            if not starts:
                                continue
                            lv = explore(one(s, sc, n, k), starts, batch=min(256, 2 ** bits * len(starts)))
                            c.explored(lv)
                            check_step(c, lv, kind, data, sched, nugget, noise, p, d=d, p_=p, n=n, nug=nugget, temps=sched)
                            c.state(kind, d, p, n, nugget, tuple(sched), len(starts))
        return run_

    def step_full(c):
        """an increment of one leaves no perturbation: deterministic moves"""
        C.alpha = dict(normal=PM1)
        for kind in ('linear', 'nonlinear'):
            for d, p in ((1, 1), (2, 1), (2, 2), (1, 2)):
                for n in (2, 3, 4):
                    if n * p > 8:
                        continue
                    nugget = .05
                    data = np.array([.7, -1.2])[:p]
                    s = TemperedEKI(temperature_schedule=f32([0., 1.]), nugget=nugget)
                    E = ensembles(n, d, k=4)
                    st = [dict(value=f32(X), sim=f32(np.stack([mean_n(kind, x, p) for x in X]))) for X in E]
                    if not st:
                        continue
                    lv = explore(one(s, Sim(d, p, kind, data), n, 1), st, batch=256)
                    c.explored(lv)
                    for l in lv:
                        X, Y = E[l.start], np.asarray(st[l.start]['sim'], float)
                        K, _, _ = parts(X, Y, 1., nugget)
                        c.close(l.out[0][1], X + (data - Y) @ K.T, 'full:value', 'a single increment of one moves every member by the gain times its mismatch', rtol=3e-3, atol=3e-3, kind=kind, d=d, p_=p, n=n, members=X.tolist())
                        c.trace(1)
                    c.state(kind, d, p, n)
                    c.trans(len(lv))

    def gain(c):
        """two members and one observation, all lattice ensembles: one iteration of small increments"""
        C.alpha = dict(normal=PM1)
        V = [-1., -.2, .5, 1.6]
        for dT in (.1, .5, .95):
            s = TemperedEKI(temperature_schedule=f32([0., dT, 1.]), nugget=.02)
            for n in (2, 3):
                E = [np.array(v)[:, None] for v in itertools.combinations(V, n)]
                E += [e[::-1] for e in E]
                for dat in (-2., .4):
                    st = [dict(value=f32(X), sim=f32(np.stack([mean_n('linear', x, 1) for x in X]))) for X in E]
                    lv = explore(one(s, Sim(1, 1, 'linear', [dat]), n, 1), st, batch=2 ** n * len(st))
                    c.explored(lv)
                    check_step(c, lv, 'linear', np.array([dat]), [0., dT], .02, 0., 1, n=n, dT=dT)
                    for X in E:
                        c.state(dT, n, dat, R(X))

    def covariances(c):
        for n in (2, 3, 4, 6):
            for d, p in ((1, 1), (2, 1), (1, 3), (3, 2)):
                g = np.random.RandomState(n * 100 + d * 10 + p)
                for t in range(8 if th else 4):
                    X, Y = g.randint(-6, 7, (n, d)) * .5 + 3., g.randint(-6, 7, (n, p)) * .5 - 1.
                    for got, want, nm in zip(calculate_covariances(f32(X), f32(Y)), covs(X, Y), ('x', 'xy', 'y')):
                        c.close(got, want, f'cov:{nm}', 'ensemble covariance', rtol=1e-3, atol=1e-3, n=n, d=d, p_=p)
                    m, q = X[0] + .5, Y[0] - .5
                    got = calculate_covariances(f32(X), f32(Y), f32(m), f32(q))
                    want = ((X - m).T @ (X - m) / (n - 1), (X - m).T @ (Y - q) / (n - 1), (Y - q).T @ (Y - q) / (n - 1))
                    for u, v in zip(got, want):
                        c.close(u, v, 'cov:given', 'covariance about given means', rtol=1e-3, atol=1e-3, n=n, d=d, p_=p)
                    c.trans(6)
                    c.trace(1)
                    c.state(n, d, p, t)

    # ---------------------------------------------------------------- whole runs
    HASH = ('normal', 'categorical', 'poisson', 'uniform')
    KEY = lambda k=3: jnp.array([0xFFFFFFF, k], jnp.uint32)
    X5 = np.array([[-1., .4], [.3, 1.2], [1.5, -.8], [.1, -.2], [-.6, -1.4]])

    def whole(s, sc, X=X5, key=3, n=None, state=None, **kw):
        C.hashed = HASH
        try:
            return run(sc, s, len(X) if n is None else n, KEY(key), initial_state=cdict(value=f32(X)) if state is None else state, **kw)
        finally:
            C.hashed = ()

    def check_chain(c, ch, key, temps, kind='nonlinear', p=1, nugget=1e-5, noise=0., data=None, ttol=1e-5, **info):
        T = np.asarray(ch.temperature, float)
        V, Y = np.asarray(ch.value, float), np.asarray(ch.simulated_data, float)
        c.expect(len(T) == len(temps) and len(V) == len(temps) and len(Y) == len(temps), key + ':length', 'the run ends at the end temperature', temps=T, want=temps, **info)
        if len(T) != len(temps):
            return
        c.close(T, temps, key + ':temperatures', 'temperatures of the run', rtol=1e-4, atol=ttol, **info)
        c.expect(np.all(np.diff(T) > 0), key + ':increase', 'temperatures strictly increase', temps=T, **info)
        for i in range(len(V)):
            m = np.stack([mean_n(kind, x, p) for x in V[i]])
            if not noise:
                c.close(Y[i], m, key + ':simulated', 'data are simulated at the current positions', rtol=5e-3, atol=5e-3, **info)
        # moves lie in the image of the gain: v_new - v_old = K r with a residual common in law; directions are checked
        for i in range(1, len(V)):
            K, S, _ = parts(V[i - 1], Y[i - 1], T[i] - T[i - 1], nugget)
            if p == 1:
                k = K[:, 0]
                mv = V[i] - V[i - 1]
                sc_ = max(1., np.abs(mv).max())
                r = mv @ k / (k @ k)
                c.close(mv, np.outer(r, k), key + ':direction', 'members move along the gain', rtol=2e-2, atol=2e-2 * sc_, step=i, **info)
                z = (r - (data - Y[i - 1])[:, 0]) / np.sqrt(max(S[0, 0], 1e-12)) if S[0, 0] > 1e-6 else r - (data - Y[i - 1])[:, 0]
                if S[0, 0] <= 1e-6:
                    c.close(z, np.zeros_like(z), key + ':unperturbed', 'no perturbation at increment one', atol=2e-2, step=i, **info)
                else:
                    c.close(np.abs(z), np.ones_like(z), key + ':noise', 'perturbation scale', rtol=3e-2, atol=3e-2, step=i, **info)
        c.trans(len(T) - 1)
        c.trace(1)
        c.state(key, *[R(t, 4) for t in T], *info.values())

    PLAIN = lambda noise=0.: Sim(2, 1, 'nonlinear', [.7], noise)
    D = np.array([.7])

    def schedule(c):
        C.alpha = dict(normal=PM1)
        for sched in ([1.], [0., 1.], [.5, 1.], [0., .5, 1.], [.1, .2, .4, .8], [0., .3, .31, 3.], [2.], [.05, .5, 1.5, 1.75]):
            want = ([] if sched[0] == 0 else [0.]) + sched
            info = dict(sched=tuple(sched))
            for mk in (lambda v: f32(v), lambda v: v, lambda v: tuple(v)):
                if sched[0] != 0 or mk(sched).__class__.__name__ not in ('list', 'tuple'):
                    check_chain(c, whole(TemperedEKI(temperature_schedule=mk(sched), nugget=.01), PLAIN()), 'given', want, nugget=.01, data=D, kind_=type(mk(sched)).__name__, **info)

    def schedule_set(c):
        """schedules assigned, replaced and removed on one sampler"""
        C.alpha = dict(normal=PM1)
        scheds = [[.5, 1.], [0., .25, .5, .75], [2.], None]
        for seq in itertools.product(range(4), repeat=2):
            s = TemperedEKI(nugget=.01, temperature_schedule=f32([.1, .3]))
            ran = False
            for j, q in enumerate(seq):
                s.temperature_schedule = None if scheds[q] is None else f32(scheds[q])
                if scheds[q] is not None:
                    want = [0.] * (scheds[q][0] != 0) + scheds[q]
                    check_chain(c, whole(s, PLAIN()), 'set', want, nugget=.01, data=D, seq=seq, j=j)
                elif th or seq in ((0, 3), (3, 0)):
                    s.max_iter, s.max_temperature = 10000, .05
                    want = [0.] + [min(round(2 ** (i / 50) - 1, 4), .05) for i in range(1, 5)]
                    s.max_iter = 12
                    check_chain(c, whole(s, PLAIN()), 'unset', want, nugget=.01, data=D, ttol=1.2e-4, seq=seq, j=j)
                    s.max_iter = 10000
        for kw in (dict(temperature_schedule=f32([.2, .6])), ):
            s = TemperedEKI(nugget=.01)
            check_chain(c, whole(s, PLAIN(), **kw), 'run-kwarg', [0., .2, .6], nugget=.01, data=D)

    def default(c):
        C.alpha = dict(normal=PM1)
        for mx in (1., .1, .5, .02):
            want = [0.]
            i = 0
            while want[-1] < mx - 1e-9:
                i += 1
                want.append(min(round(2 ** (i / 50) - 1, 4), mx))
            check_chain(c, whole(TemperedEKI(max_temperature=mx, nugget=.01, max_iter=70), PLAIN()), 'default', want, nugget=.01, data=D, ttol=1.2e-4, mx=mx)

    def user(c):
        C.alpha = dict(normal=PM1)
        f = lambda st, e: jnp.minimum(.3 * e.iter, 1.)
        check_chain(c, whole(TemperedEKI(next_temperature=f, nugget=.01, max_iter=20), PLAIN()), 'user', [0., .3, .6, .9, 1.], nugget=.01, data=D)
        check_chain(c, whole(TemperedEKI(next_temperature=f, nugget=.01, max_iter=2), PLAIN()), 'user-limit', [0., .3, .6], nugget=.01, data=D)
        g = lambda st, e: jnp.minimum(st.temperature * 2 + .1, 1.5)
        check_chain(c, whole(TemperedEKI(next_temperature=g, nugget=.01, max_iter=20, max_temperature=1.5), PLAIN()), 'user-state', [0., .1, .3, .7, 1.5], nugget=.01, data=D)

        class Sub(TemperedEKI):
            def next_temperature(self, st, e):
                return jnp.minimum(st.temperature + .4, self.max_temperature)
        check_chain(c, whole(Sub(nugget=.01, max_iter=20), PLAIN()), 'user-sub', [0., .4, .8, 1.], nugget=.01, data=D)

    # ---------------------------------------------------------------- adaptive
    def adaptive(c):
        """next temperature on lattices of simulated data"""
        V = [-1.5, 0., .4, 2.]
        for p in (1, 2):
            prec = np.array([[1.3]]) if p == 1 else np.array([[1.5, .4], [.4, .8]])
            data = np.array([.3, -.6])[:p]
            Ys = [np.array(v).reshape(-1, 1) for n in (2, 3, 4) for v in itertools.combinations(V, n)] if p == 1 else \
                [np.array(v) for n in (2, 3) for v in itertools.combinations(list(itertools.product([-1.5, .4, 2.], repeat=2)), n)][:: 1 if th else 3]
            for n in (2, 3, 4):
                L = [(Y, T, thr, mx) for Y in Ys if len(Y) == n for thr in (.3, .5, .7, .9, .95) for mx in (1., .5, 2.) for T in (0., .2, .45, .9) if T < mx]
                if not L:
                    continue

                def f(Y, T, thr, mx):
                    s = AdaptiveTemperedEKI(ess_threshold=thr, max_temperature=mx)
                    return s.next_temperature(cdict(temperature=T, simulated_data=Y), cdict(data=f32(data), prec_y_given_x=f32(prec), parameters=s.parameters))
                got = np.asarray(jax.jit(jax.vmap(f))(*(f32(np.stack([l[q] for l in L])) for q in range(4))), float)
                for (Y, T, thr, mx), g in zip(L, got):
                    r = Y - data
                    u = .5 * np.einsum('ni,ij,nj->n', r, prec, r)
                    want = next_adaptive(Y, data, prec, T, mx, thr)
                    info = dict(thr=thr, mx=mx, T=T, sim=Y.tolist())
                    c.expect(T < g <= mx + 1e-6, 'adaptive:range', 'the next temperature is above the current and at most the maximum', next=g, **info)
                    e = ess((g - T) * u) / n
                    if want == mx:
                        c.close(g, mx, 'adaptive:max', 'the maximum when it retains enough', **info)
                    else:
                        c.expect(abs(np.log(e) - np.log(thr)) < 2e-3, 'adaptive:ess', 'the effective sample size of the increment is the threshold', retained=e, **info)
                    c.trans(1)
                    c.state(p, thr, mx, T, R(Y))
                c.trace(len(L))

    def adaptive_bisect(c):
        """a coarse tolerance or few bisections still give a temperature above the current and at most the maximum"""
        for tol, it in ((1e-5, 1000), (1e-3, 1000), (1e-2, 1000), (1e-5, 200)):
            s = AdaptiveTemperedEKI(ess_threshold=.6, bisection_tol=tol, max_bisection_iter=it)
            for Y in ([[-1.], [0.], [2.]], [[3.], [1.], [1.5], [-2.]], [[.1], [.2]]):
                Y = np.array(Y)
                got = float(s.next_temperature(cdict(temperature=jnp.float32(.1), simulated_data=f32(Y)), cdict(data=f32([.3]), prec_y_given_x=f32([[4.]]), parameters=s.parameters)))
                want = next_adaptive(Y, np.array([.3]), np.array([[4.]]), .1, 1., .6)
                c.expect(.1 < got <= 1. and abs(np.log(ess((got - .1) * 2 * (Y[:, 0] - .3) ** 2)) - np.log(ess((want - .1) * 2 * (Y[:, 0] - .3) ** 2))) < 2 * tol + 2e-4, 'adaptive:tol', 'threshold met to the tolerance', got_=got, want_=want, tol=tol)
                c.trace(1)
                c.trans(1)
                c.state(tol, it, len(Y))

    def adaptive_run(c):
        C.alpha = dict(normal=PM1)
        for thr in (.5, .8, .9):
            for mx in (1., .4, 1.7):
                for key in (3, 4):
                    nug = .02
                    ch = whole(AdaptiveTemperedEKI(ess_threshold=thr, max_temperature=mx, nugget=nug, max_iter=40), PLAIN(), key=key)
                    T, V, Y = np.asarray(ch.temperature, float), np.asarray(ch.value, float), np.asarray(ch.simulated_data, float)
                    want = [0.]
                    for i in range(1, len(T)):
                        # the current ensemble's precision
                        _, _, prec = parts(V[i - 1], Y[i - 1], 1., nug)
                        want.append(next_adaptive(Y[i - 1], D, prec, T[i - 1], mx, thr))
                        r = Y[i - 1] - D
                        u = .5 * np.einsum('ni,ij,nj->n', r, prec, r)
                        e = ess((T[i] - T[i - 1]) * u) / len(u)
                        c.expect(T[i - 1] < T[i] <= mx + 1e-6, 'adrun:increase', 'temperatures strictly increase up to the maximum', temps=T, thr=thr)
                        c.expect(abs(np.log(e / thr)) < 5e-3 or (abs(T[i] - mx) < 1e-6 and e >= thr - 1e-3), 'adrun:ess', 'every increment retains the threshold of the current ensemble', retained=e, thr=thr, i=i, temps=T)
                    c.close(T[-1], mx, 'adrun:end', 'the run ends at the maximum temperature', thr=thr, temps=T)
                    # positions
                    c.expect(len(T) < 41 and np.all(T[:-1] < mx), 'adrun:stop', 'and stops there', temps=T)
                    check_chain(c, ch, 'adrun', list(T), nugget=nug, data=D, thr=thr, mx=mx, key_=key)

    # ---------------------------------------------------------------- termination
    def terminate(c):
        C.alpha = dict(normal=PM1)
        f = f32([.1, .3, .5, .8, 1.])
        full = [0., .1, .3, .5, .8, 1.]
        for it in (0, 1, 2, 3):
            s = TemperedEKI(temperature_schedule=f, nugget=.01)
            s.max_iter = it
            check_chain(c, whole(s, PLAIN()), 'term-iter', full[:it + 1], nugget=.01, data=D, it=it)
            g = lambda st, e: f32(full + [1.])[e.iter]
            check_chain(c, whole(TemperedEKI(next_temperature=g, nugget=.01, max_iter=it), PLAIN()), 'term-iter2', full[:it + 1], nugget=.01, data=D, it=it)
        for mx in (.1, .3, .45, .8, 1.):
            s = TemperedEKI(next_temperature=lambda st, e: jnp.minimum(f32(full + [1., 1.])[e.iter], mx), max_iter=7, max_temperature=mx, nugget=.01)
            check_chain(c, whole(s, PLAIN()), 'term-temp', [t for t in full if t < mx] + [mx], nugget=.01, data=D, mx=mx)
        # spread
        full_ch = whole(TemperedEKI(temperature_schedule=f, nugget=.01), PLAIN())
        V = np.asarray(full_ch.value, float)
        sd = np.std(V, axis=1, ddof=1)
        ratio = (sd / sd[0]).max(1)
        for i in range(1, 5):
            for eps in (-1e-3, 1e-3):
                ts = ratio[i] + eps
                stop = next((j for j in range(len(ratio)) if ratio[j] < ts), 5)
                ch = whole(TemperedEKI(temperature_schedule=f, nugget=.01, term_std=float(ts)), PLAIN())
                check_chain(c, ch, 'term-std', full[:stop + 1], nugget=.01, data=D, i=i, eps=eps)
        # constrained and user spreads
        class Con(Sim):
            def constrain(self, x):
                return jnp.exp(.5 * x)
        sdc = np.std(np.exp(.5 * V), axis=1, ddof=1)
        rc = (sdc / sd[0]).max(1)
        i = int(np.argmin(rc[1:5])) + 1
        for eps in (-1e-3, 1e-3):
            stop = next((j for j in range(len(rc)) if rc[j] < rc[i] + eps), 5)
            check_chain(c, whole(TemperedEKI(temperature_schedule=f, nugget=.01, term_std=float(rc[i] + eps)), Con(2, 1, 'nonlinear', [.7])), 'term-constrained', full[:stop + 1], nugget=.01, data=D, eps=eps)
        s = TemperedEKI(temperature_schedule=f, nugget=.01, term_std=.5)
        s.ensemble_std = lambda v: jnp.where(jnp.abs(v[0, 0] - float(V[2, 0, 0])) < 1e-5, jnp.zeros(2), jnp.ones(2) * 100)
        check_chain(c, whole(s, PLAIN()), 'term-user-std', full[:3], nugget=.01, data=D)

    def nan(c):
        """members that are not numbers end the run; perturbations that are not defined are dropped and counted"""
        C.alpha = dict(normal=PM1)

        class Bad(Sim):
            def likelihood_sample(self, x, random_key):
                y = mean_j(self.kind, x, self.p)
                return jnp.where(jnp.abs(x[0]) > 100., jnp.nan, y)
        X = np.array([[-1., .4], [.3, 1.2], [1.5, -.8], [.1, -.2], [200., -1.4]])
        ch = whole(TemperedEKI(temperature_schedule=f32([.1, .3, .5, 1.]), nugget=.01), Bad(2, 1, 'linear', [.7]), X)
        c.expect(len(ch.temperature) == 2, 'nan:stop', 'the run ends once a member is not a number', temps=np.asarray(ch.temperature))
        c.trace(1)
        # increments above one: the perturbation scale is not real
        for sched in ([1.5], [1.2, 1.5], [.2, 1.6]):
            ch = whole(TemperedEKI(temperature_schedule=f32(sched), nugget=.01), PLAIN())
            V, Y, T = np.asarray(ch.value, float), np.asarray(ch.simulated_data, float), np.asarray(ch.temperature, float)
            c.close(T, [0.] + sched, 'nan:temps', 'temperatures of the run')
            for i in range(1, len(T)):
                K, _, _ = parts(V[i - 1], Y[i - 1], T[i] - T[i - 1], .01)
                if T[i] - T[i - 1] > 1.0001:
                    c.close(V[i], V[i - 1] + (D - Y[i - 1]) @ K.T, 'nan:dropped', 'no perturbation where it is not defined', rtol=5e-3, atol=5e-3, sched=sched)
                    c.expect(int(ch.perturb_nan[i]) == V.shape[1], 'nan:count', 'dropped perturbations are counted', n=int(ch.perturb_nan[i]))
                else:
                    c.expect(int(ch.perturb_nan[i]) == 0, 'nan:count', 'dropped perturbations are counted', n=int(ch.perturb_nan[i]))
            c.trace(1)
            c.trans(len(T) - 1)
            c.state(tuple(sched))

    def start(c):
        """first ensemble: from the prior (standard normal without one), simulated data at it, or as given"""
        C.alpha = dict(normal=PM1)
        for noise in (0., .5):
            for n, d in ((2, 1), (3, 1), (2, 2)):
                sc = Sim(d, 1, 'nonlinear', [.7], noise)
                s = TemperedEKI(temperature_schedule=f32([1.]))

                def f(x, key):
                    st, e = s.startup(sc, n, None, cdict(random_key=key))
                    return st.value, st.simulated_data, jnp.asarray(st.temperature, jnp.float32)
                lv = explore(f, [0.], batch=64)
                c.explored(lv)
                got, want = Law(), Law()
                for l in lv:
                    v, y, T = (np.asarray(q, float) for q in l.out)
                    m = np.stack([mean_n('nonlinear', x, 1) for x in v])
                    c.expect(T == 0, 'start:temperature', 'starts at temperature zero', T=T)
                    c.close(np.abs(y - m), np.full_like(m, noise), 'start:simulated', 'data simulated at the first ensemble', atol=2e-3, n=n, d=d)
                    got.add((R(v, 2), R(np.sign(np.round(y - m, 3)), 0)), l.p)
                for z in itertools.product((-1., 1.), repeat=n * d):
                    for w in itertools.product((-1., 1.), repeat=n) if noise else [(0.,) * n]:
                        want.add((R(np.array(z).reshape(n, d), 2), R(np.array(w).reshape(n, 1), 0)), 2. ** -(n * d + (n if noise else 0)))
                same_law(c, got, want, 'start:law', 'independent draws of the prior and the simulator', n=n, d=d, noise=noise)
                c.state(n, d, noise)
                c.trace(len(lv))
                c.trans(len(lv))
        sim = np.array([[9.], [8.], [7.5], [7.], [6.]])
        ch = whole(TemperedEKI(temperature_schedule=f32([1.]), nugget=.01), PLAIN(), state=cdict(value=f32(X5), simulated_data=f32(sim)), n=5)
        c.close(ch.simulated_data[0], sim, 'start:given', 'given simulated data are used')
        K, _, _ = parts(X5, sim, 1., .01)
        c.close(ch.value[1], X5 + (D - sim) @ K.T, 'start:given-move', 'given simulated data are used', rtol=5e-3, atol=5e-3)
        bad = Sim(2, 1, 'linear', [.7])
        bad.data = None
        try:
            whole(TemperedEKI(temperature_schedule=f32([1.])), bad)
            c.fail('start:data', 'data are required')
        except AttributeError:
            pass

    def resume(c):
        """noisy simulators: whole runs simulate every member anew at each iteration"""
        C.alpha = dict(normal=PM1)
        for key in (3, 5):
            ch = whole(TemperedEKI(temperature_schedule=f32([.2, .5, 1.]), nugget=.01), PLAIN(.3), key=key)
            V, Y = np.asarray(ch.value, float), np.asarray(ch.simulated_data, float)
            signs = []
            for i in range(len(V)):
                m = np.stack([mean_n('nonlinear', x, 1) for x in V[i]])
                c.close(np.abs(Y[i] - m), np.full_like(m, .3), 'noisy:simulated', 'data are simulated anew at the current positions', rtol=5e-3, atol=5e-3)
                signs.append(tuple(np.sign(Y[i] - m)[:, 0]))
            c.expect(len(set(signs)) > 1, 'noisy:fresh', 'with new noise', signs=signs)
            check_chain(c, ch, 'noisy', [0., .2, .5, 1.], nugget=.01, noise=.3, data=D, key_=key)

    return [('step-linear', step('linear')), ('step-nonlinear', step('nonlinear')), ('step-noisy', step('nonlinear', .5)), ('step-full', step_full), ('gain', gain), ('covariances', covariances), ('schedule', schedule),
            ('schedule-set', schedule_set), ('default', default), ('user', user), ('adaptive', adaptive), ('adaptive-bisect', adaptive_bisect), ('adaptive-run', adaptive_run), ('terminate', terminate), ('nan', nan),
            ('start', start), ('resume', resume)]
