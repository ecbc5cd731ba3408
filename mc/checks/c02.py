"""C02: leapfrog integrators against an independent numpy integrator on a full grid; reversibility and volume; the momentum
rules of the underdamped samplers over every accept/reject pattern of several updates."""
PROPERTY = 'C02'
JOBS = 6
BOUNDS = dict(
    quick='3 targets (1d, 2d) x temperatures {0,.5,1,2} x stepsizes {.1,.7} x 1..3 leapfrog steps x 4 phase points; preconditioned: '
          '3 factor sets; momentum rules: all accept/reject patterns of 3 updates x all normal draws in {-1,1} (1d) x frictions {0,.5,inf}',
    thorough='adds stepsizes {.02,.9}, up to 6 leapfrog steps, 4 updates, 2d momentum draws')
ASSUMPTIONS = ['float32 arithmetic: agreement to 1e-3 relative', 'normal draws represented by {-1,0,1}: the momentum refreshment is '
               'shown to be the right affine map of the draw']


def case_names(tier):
    return ['leapfrog', 'leapfrog-reverse', 'leapfrog-volume', 'bfgs-leapfrog', 'bfgs-reverse', 'momentum-ud', 'momentum-ud-2d', 'momentum-qn',
            'ou-ud', 'ou-qn', 'startup', 'stochastic']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, Table, R, bits, PM1, cdict, gpot, root
    import itertools
    from mocat.src import utils
    from mocat.src.mcmc.qn_underdamped import bfgs_leapfrog
    from mocat import Underdamped, QNUnderdamped
    th = tier == 'thorough'
    A = np.array([[1.3, .4], [.4, .8]])
    Aj = jnp.asarray(A, dtype=jnp.float32)
    TARGETS = [
        ('quad', 2, lambda x, rk=None: .5 * jnp.sum((x - 1.) ** 2), lambda x, rk=None: .5 * x @ Aj @ x,
         lambda x: .5 * np.sum((x - 1.) ** 2), lambda x: .5 * x @ A @ x, lambda x: x - 1., lambda x: A @ x),
        ('well', 1, lambda x, rk=None: .5 * jnp.sum((x - 1.) ** 2), lambda x, rk=None: jnp.sum(x ** 4) / 4 - jnp.sum(x ** 2) / 2,
         lambda x: .5 * np.sum((x - 1.) ** 2), lambda x: np.sum(x ** 4) / 4 - np.sum(x ** 2) / 2, lambda x: x - 1., lambda x: x ** 3 - x),
        ('cos', 2, lambda x, rk=None: jnp.sum(jnp.cos(x)), lambda x, rk=None: jnp.sin(x[0] * x[1]) + .2 * jnp.sum(x ** 2),
         lambda x: np.sum(np.cos(x)), lambda x: np.sin(x[0] * x[1]) + .2 * np.sum(x ** 2), lambda x: -np.sin(x),
         lambda x: np.cos(x[0] * x[1]) * x[::-1] + .4 * x),
    ]
    TEMPS = [0., .5, 1., 2.]
    EPS = [.1, .7] + ([.02, .9] if th else [])
    LS = [1, 2, 3] + ([4, 6] if th else [])
    PTS = [(np.array([.3, -.8]), np.array([.5, 1.1])), (np.array([-1.2, .6]), np.array([-1.5, .2])),
           (np.array([0., 0.]), np.array([0., 1.])), (np.array([2., 1.]), np.array([0., 0.]))]

    def np_leap(G, x, p, eps, L, Minv=None):
        Minv = np.eye(len(x)) if Minv is None else Minv
        xs, ps = [x.copy()], [p.copy()]
        for _ in range(L):
            p = p - eps / 2 * G(x)
            ps.append(p.copy())
            x = x + eps * Minv @ p
            p = p - eps / 2 * G(x)
            xs.append(x.copy())
            ps.append(p.copy())
        return np.array(xs), np.array(ps)

    def start_state(scn, x, p, t):
        pp, gp = scn.prior_potential_and_grad(x, None)
        lp, gl = scn.likelihood_potential_and_grad(x, None)
        return cdict(value=x, momenta=p, prior_potential=pp, grad_prior_potential=gp, likelihood_potential=lp,
                     grad_likelihood_potential=gl, potential=pp + t * lp, grad_potential=gp + t * gl)

    def integ(scn, L, pre=None):
        def f(x, p, eps, t):
            st = start_state(scn, x, p, t)
            keys = jnp.zeros((L, 2), dtype=jnp.uint32)
            if pre is None:
                return utils.leapfrog(scn.prior_potential_and_grad, scn.likelihood_potential_and_grad, st, eps, keys, t)
            return bfgs_leapfrog(scn.prior_potential_and_grad, scn.likelihood_potential_and_grad, st, eps, keys, pre[0], pre[1], pre[2], t)
        return f

    def grid(ctx, tag, pre=None, mat=None):
        for name, d, pr, lk, npr, nlk, gpr, glk in TARGETS:
            scn = Table(d, pr, lk)
            prej = None if pre is None else tuple(jnp.asarray(a, dtype=jnp.float32) for a in (pre[0][:, :d], pre[1][:, :d], np.atleast_1d(pre[2])[:d]))
            Minv = None if pre is None else mat(pre[0][:, :d], pre[1][:, :d], np.atleast_1d(pre[2])[:d], d)
            for L in LS:
                f = jax.jit(integ(scn, L, prej))
                for t, eps, (x0, p0) in itertools.product(TEMPS, EPS, PTS):
                    x0, p0 = x0[:d], p0[:d]
                    ctx.state(tag, name, L, t, eps, R(x0), R(p0))
                    ctx.trans(L); ctx.trace()
                    o = f(jnp.asarray(x0, dtype=jnp.float32), jnp.asarray(p0, dtype=jnp.float32), eps, t)
                    G = lambda x: gpr(x) + t * glk(x)
                    xi, pi = np.asarray(o.value, float), np.asarray(o.momenta, float)
                    info = dict(target=name, L=L, temperature=t, eps=eps, x0=x0, p0=p0)
                    if not (ctx.expect(xi.shape == (L + 1, d) and pi.shape == (2 * L + 1, d), tag + ':shape', 'one row per full step, momenta at '
                                       'half and full steps', got=(xi.shape, pi.shape), **info)):
                        continue
                    kw = dict(rtol=2e-3, atol=2e-3)
                    ctx.close(xi[0], x0, tag + ':start', 'the first row is the initial state', **info)
                    ctx.close(pi[0], p0, tag + ':start', 'the first momenta are the initial ones', **info)
                    for j in range(L):      # each step from the recorded previous phase point
                        xs, ps = np_leap(G, xi[j], pi[2 * j], eps, 1, Minv)
                        if not np.abs(xs).max() <= 10:
                            break
                        ctx.close(xi[j + 1], xs[1], tag + ':value', 'position after a step', step=j, **kw, **info)
                        ctx.close(pi[2 * j + 1:2 * j + 3], ps[1:], tag + ':momenta', 'half and full step momenta', step=j, **kw, **info)
                    if not np.abs(xi).max() <= 10:
                        continue
                    xs = np.asarray(o.value, float)
                    kw = dict(rtol=1e-3, atol=1e-3)
                    for fld, fn in [('prior_potential', npr), ('likelihood_potential', nlk), ('grad_prior_potential', gpr),
                                    ('grad_likelihood_potential', glk), ('potential', lambda x: npr(x) + t * nlk(x)), ('grad_potential', G)]:
                        if hasattr(o, fld):
                            ctx.close(getattr(o, fld), np.array([fn(x) for x in xs]), tag + ':' + fld,
                                      'recorded along the trajectory is that of the visited point', **kw, **info)
                    ctx.outcome(tag, R(o.value, 2))
        ctx.sample(dict(target='quad', L=LS[-1], points=[R(p) for p in PTS[0]]))

    def rev(ctx, tag, pre=None):
        for name, d, pr, lk, *_ in TARGETS:
            scn = Table(d, pr, lk)
            prej = None if pre is None else tuple(jnp.asarray(a, dtype=jnp.float32) for a in (pre[0][:, :d], pre[1][:, :d], np.atleast_1d(pre[2])[:d]))
            for L in LS:
                f = jax.jit(integ(scn, L, prej))
                for t, eps, (x0, p0) in itertools.product([.5, 1.], EPS, PTS):
                    x0, p0 = jnp.asarray(x0[:d], dtype=jnp.float32), jnp.asarray(p0[:d], dtype=jnp.float32)
                    a = f(x0, p0, eps, t)
                    if not np.all(np.isfinite(a.value)) or np.abs(a.value).max() > 10:
                        continue
                    b = f(a.value[-1], -a.momenta[-1], eps, t)
                    ctx.state(tag, name, L, t, eps, R(x0)); ctx.trans(2 * L); ctx.trace()
                    ctx.close(b.value[-1], x0, tag + ':value', 'flip and integrate back returns to the start', rtol=2e-2, atol=2e-2, target=name, L=L, eps=eps)
                    ctx.close(-b.momenta[-1], p0, tag + ':momenta', 'flip and integrate back returns the momentum', rtol=2e-2, atol=2e-2, target=name, L=L, eps=eps)
                    ctx.close(np.asarray(b.value), np.asarray(a.value)[::-1], tag + ':path', 'the same points in reverse order', rtol=2e-2, atol=2e-2, target=name, L=L, eps=eps)

    def volume(ctx):
        for pre in (None, PRE[0]):
            for name, d, pr, lk, *_ in TARGETS:
                scn = Table(d, pr, lk)
                prej = None if pre is None else tuple(jnp.asarray(a, dtype=jnp.float32) for a in (pre[0][:, :d], pre[1][:, :d], np.atleast_1d(pre[2])[:d]))
                for L in (1, 2):
                    g = integ(scn, L, prej)

                    def flow(z, eps, t):
                        o = g(z[:d], z[d:], eps, t)
                        return jnp.concatenate([o.value[-1], o.momenta[-1]])
                    J = jax.jit(jax.jacfwd(flow))
                    for t, eps, (x0, p0) in itertools.product([1.] if not th else [.5, 1.], [.1, .4], PTS):
                        z = jnp.asarray(np.concatenate([x0[:d], p0[:d]]), dtype=jnp.float32)
                        det = np.linalg.det(np.asarray(J(z, eps, t), float))
                        ctx.state('vol', name, L, t, eps, R(z)); ctx.trans(L); ctx.trace()
                        ctx.close(det, 1., 'volume', 'the leapfrog map preserves volume', rtol=1e-2, atol=1e-2, target=name, L=L, eps=eps)

    PRE = [(np.array([[.4, .2], [-.3, .5]]), np.array([[.3, -.6], [.7, .2]]), np.array([1., 1.])),
           (np.array([[.4, .2]]), np.array([[.3, -.6]]), np.array([.5, 2.])),
           (np.zeros((2, 2)), np.zeros((2, 2)), np.array([1.5, .6]))]

    def minv(ps, qs, diag, d):
        S = np.diag(diag)
        for p, q in zip(ps, qs):
            S = S - np.outer(p, q) @ S
        return S @ S.T

    def bfgs_grid(ctx):
        for k, pre in enumerate(PRE if th else PRE[:2]):
            grid(ctx, 'bfgs', pre, minv)

    # momentum rules --------------------------------------------------------------------------------------------------
    def momentum(ctx, kind, d, nst):
        """every accept/reject pattern: u=0 accepts, u=2 rejects"""
        C.alpha = dict(normal=PM1, uniform=[(0., .5), (2., .5)])
        for name, dd, pr, lk, npr, nlk, gpr, glk in TARGETS:
            if dd != d:
                continue
            scn = Table(d, pr, lk)
            for t in ((.5, 1.) if th else (.5,)):
                scn.temperature = t
                G = lambda x: gpr(x) + t * glk(x)
                for L, eps, fr in [(1, .4, 0.), (2, .3, .5), (1, .5, np.inf)]:
                    sampler = Underdamped(stepsize=eps, leapfrog_steps=L, friction=fr)

                    def fn(start, key):
                        x, p = start
                        st, ex = sampler.startup(scn, 10, cdict(value=x, momenta=p), cdict(random_key=key))
                        o = []
                        for _ in range(nst):
                            st, ex = sampler.update(scn, st, ex)
                            o.append((st.value, st.momenta, st.alpha))
                        return tuple(o)
                    x0, p0 = PTS[0][0][:d], PTS[0][1][:d]
                    leaves = explore(fn, [(jnp.asarray(x0, dtype=jnp.float32), jnp.asarray(p0, dtype=jnp.float32))], batch=256)
                    ctx.explored(leaves)
                    e1 = float(np.exp(-fr * eps))
                    b = np.sqrt(1 - e1 ** 2)
                    want = {}
                    for z in itertools.product([-1., 1.], repeat=d * nst):
                        z = np.array(z).reshape(nst, d)
                        for acc in itertools.product([0, 1], repeat=nst):
                            x, p, out = x0, p0, []
                            for k in range(nst):
                                q = -p * e1 + b * z[k]
                                xs, ps = np_leap(G, x, q, eps, L)
                                a = min(1., np.exp(-npr(xs[-1]) - t * nlk(xs[-1]) + npr(x) + t * nlk(x) - gpot(ps[-1]) + gpot(q)))
                                x, p = (xs[-1], -ps[-1]) if acc[k] else (x, q)
                                out.append((x, p, a))
                            want[R(tuple(out), 3)] = want.get(R(tuple(out), 3), 0.) + .5 ** (nst * (d + 1))
                            ctx.state(kind, name, t, L, fr, R(tuple(out), 3))
                    got = {}
                    for l in leaves:
                        k = R(l.out, 3)
                        got[k] = got.get(k, 0.) + l.p
                    from mc.lib import same_law
                    same_law(ctx, got, want, 'momentum:' + kind, 'law of (value, momentum, alpha) over several updates',
                             target=name, L=L, eps=eps, friction=fr, temperature=t)

    def momentum_qn(ctx):
        """direction rule and refreshment of the quasi-Newton sampler, one and two updates, every accept/reject pattern"""
        C.alpha = dict(normal=PM1, uniform=[(0., .5), (2., .5)])
        for name, d, pr, lk, npr, nlk, gpr, glk in TARGETS[:2]:
            scn = Table(d, pr, lk)
            t = .5
            scn.temperature = t
            G = lambda x: gpr(x) + t * glk(x)
            U = lambda x: npr(x) + t * nlk(x)
            for L, eps, fr, D in [(1, .3, .5, 1.), (2, .3, 0., 1.), (1, .3, .5, 1.6), (2, .2, .5, np.array([.7, 1.5])[:d])]:
                sampler = QNUnderdamped(stepsize=eps, leapfrog_steps=L, friction=fr, m=3, init_hessian_sqrt_diag=D if np.isscalar(D) else jnp.asarray(D, dtype=jnp.float32))
                D = D * np.ones(d)
                nst = 3

                def fn(start, key):
                    x, p = start
                    st, ex = sampler.startup(scn, 10, cdict(value=x, momenta=p), cdict(random_key=key))
                    o = []
                    for _ in range(nst):
                        st, ex = sampler.update(scn, st, ex)
                        m = st.memory
                        o.append((st.value, st.momenta, m.ps, m.qs, m.us, m.ts, st.alpha))
                    return tuple(o)
                x0, p0 = PTS[0][0][:d], PTS[0][1][:d]
                leaves = explore(fn, [(jnp.asarray(x0, dtype=jnp.float32), jnp.asarray(p0, dtype=jnp.float32))], batch=256)
                ctx.explored(leaves)
                e1 = float(np.exp(-fr * eps))
                b = np.sqrt(1 - e1 ** 2)
                for l in leaves:
                    x, p = x0, p0
                    ctx.state('qn', name, L, fr, R(D), tuple(l.choices))
                    us_ = [c[2] for c in l.choices if c[0] == 'uniform']
                    zopt = [np.array(z) for z in itertools.product([-1., 1.], repeat=d)]
                    for k, (v, mo, ps, qs, us, ts, al) in enumerate(l.out):
                        ps, qs, us, ts = (np.asarray(a, float) for a in (ps, qs, us, ts))
                        H = np.diag(D)
                        for u_, t_ in zip(us, ts):
                            H = H - np.outer(u_, t_) @ H
                        Mi = minv(ps, qs, 1 / D, d)
                        ctx.close(Mi @ H @ H.T, np.eye(d), 'qn:inverse', 'momentum covariance and the mass matrix used are inverse', rtol=1e-2, atol=1e-2)
                        good = None
                        for z in zopt:
                            q = -p * e1 + b * H @ z
                            xs, pp = np_leap(G, x, q, eps, L, Mi)
                            if np.allclose(v, xs[-1], atol=3e-3) and np.allclose(mo, -pp[-1], atol=3e-3):
                                good = 'acc'
                            elif np.allclose(v, x, atol=3e-3) and np.allclose(mo, q, atol=3e-3):
                                good = 'rej'
                            if good:
                                a_ = min(1., np.exp(U(x) - U(xs[-1]) + .5 * q @ Mi @ q - .5 * pp[-1] @ Mi @ pp[-1]))
                                if abs(a_ - al) > 3e-3:
                                    good = 'energy'
                                    continue
                                break
                        if not ctx.expect(good == ('acc' if us_[k] == 0. else 'rej'), 'qn:momentum',
                                          'accepted: endpoint with reversed stored momentum; rejected: value kept with the refreshed momentum',
                                          step=k, u=us_[k], got=(v, mo), x=x, p=p, target=name, found=good, init=D):
                            break
                        x, p = np.asarray(v, float), np.asarray(mo, float)

    def ou(ctx, cls):
        """affine map of the draw, on forced rejection: p' = -a p + b F z with a = exp(-friction stepsize), a^2 + b^2 = 1"""
        C.alpha = dict(normal=[(0., .5), (1., .25), (-2., .25)], uniform=[(2., 1.)])
        name, d, pr, lk, npr, nlk, gpr, glk = TARGETS[0]
        scn = Table(d, pr, lk)
        for fr, eps, D in [(f, e, 1.) for f in [0., .1, 1., 5., np.inf] for e in [.05, 1.]] + ([] if cls is Underdamped else [(.1, 1., 2.), (np.inf, .05, np.array([.5, 1.5, .8])[:TARGETS[0][1]])]):
            sampler = cls(stepsize=eps, friction=fr) if cls is Underdamped else cls(stepsize=eps, friction=fr, m=3, init_hessian_sqrt_diag=D if np.isscalar(D) else jnp.asarray(D, dtype=jnp.float32))
            D = D * np.ones(d)

            def fn(start, key):
                x, p = start
                st, ex = sampler.startup(scn, 10, cdict(value=x, momenta=p), cdict(random_key=key))
                st, ex = sampler.update(scn, st, ex)
                if cls is Underdamped:
                    return st.value, st.momenta
                return st.value, st.momenta, st.memory.us, st.memory.ts, st.memory.ps, st.memory.qs
            starts = [(jnp.asarray(x, dtype=jnp.float32), jnp.asarray(p, dtype=jnp.float32)) for x, p in PTS]
            leaves = explore(fn, starts, batch=64)
            ctx.explored(leaves)
            a = float(np.exp(-fr * eps))
            b = np.sqrt(1 - a * a)
            for s, (x, p) in enumerate(PTS):
                ctx.state('ou', fr, eps, R(D), s)
                got, want = {}, {}
                F = np.eye(d)
                for l in leaves:
                    if l.start == s:
                        got[R(l.out[1], 3)] = got.get(R(l.out[1], 3), 0.) + l.p
                        if cls is QNUnderdamped:
                            F = np.diag(D)
                            for u_, t_ in zip(np.asarray(l.out[2], float), np.asarray(l.out[3], float)):
                                F = F - np.outer(u_, t_) @ F
                        ctx.close(l.out[0], x, 'ou:value', 'forced rejection keeps the value', atol=1e-6)
                for z in itertools.product([(0., .5), (1., .25), (-2., .25)], repeat=d):
                    q = -p * a + b * F @ np.array([v for v, _ in z])
                    k = R(q, 3)
                    want[k] = want.get(k, 0.) + float(np.prod([w for _, w in z]))
                from mc.lib import same_law
                same_law(ctx, got, want, f'ou:{cls.__name__}', 'momentum refreshment is the exact Ornstein-Uhlenbeck transition', friction=fr, eps=eps)

    def startup(ctx):
        C.alpha = dict(normal=PM1, uniform=bits(2))
        for name, d, pr, lk, npr, nlk, gpr, glk in TARGETS:
            scn = Table(d, pr, lk)
            for t in TEMPS:
                scn.temperature = t
                for cls in (Underdamped, QNUnderdamped):
                    for x0, p0 in PTS:
                        x0, p0 = x0[:d], p0[:d]
                        for mom in (None, p0, np.zeros(d + 1)):
                            s0 = cdict(value=jnp.asarray(x0, dtype=jnp.float32))
                            if mom is not None:
                                s0.momenta = jnp.asarray(mom, dtype=jnp.float32)
                            ctx.state('startup', name, t, cls.__name__, R(x0), None if mom is None else R(mom)); ctx.trans(); ctx.trace()
                            st, ex = cls(stepsize=.1).startup(scn, 5, s0, cdict(random_key=jnp.asarray(root(1))))
                            ctx.close(st.momenta, p0 if mom is not None and len(mom) == d else np.zeros(d), 'startup:momenta', 'initial momenta')
                            ctx.close(st.potential, npr(x0) + t * nlk(x0), 'startup:potential', 'initial potential at the temperature', rtol=1e-3)
                            ctx.close(st.grad_potential, gpr(x0) + t * glk(x0), 'startup:grad', 'initial gradient at the temperature', rtol=1e-3)

    def stochastic(ctx):
        """stochastic gradients: the trajectory uses, at every visited point, one and the same evaluation for record and momentum"""
        C.alpha = dict(normal=PM1, uniform=[(.25, .5), (.75, .5)])

        def lik(x, rk=None):
            return jnp.sum(x ** 2) * (jax.random.uniform(rk) + .5)
        scn = Table(1, lambda x, rk=None: 0. * jnp.sum(x), lik)
        for L in (1, 2, 3):
            eps = .3

            def fn(start, key):
                x, p = start
                keys = jax.random.split(key, L + 1)
                lp, gl = scn.likelihood_potential_and_grad(x, keys[0])
                st = cdict(value=x, momenta=p, prior_potential=jnp.array(0.), grad_prior_potential=jnp.zeros(1), likelihood_potential=lp,
                           grad_likelihood_potential=gl, potential=lp, grad_potential=gl)
                o = utils.leapfrog(scn.prior_potential_and_grad, scn.likelihood_potential_and_grad, st, eps, keys[1:], 1.)
                return o.value, o.momenta, o.potential
            x0, p0 = np.array([.7]), np.array([-.4])
            leaves = explore(fn, [(jnp.asarray(x0, dtype=jnp.float32), jnp.asarray(p0, dtype=jnp.float32))])
            ctx.explored(leaves)
            got, want = {}, {}
            for l in leaves:
                got[R(l.out)] = got.get(R(l.out), 0.) + l.p
            for w in itertools.product([.75, 1.25], repeat=L + 1):
                ctx.state('stoch', L, w)
                x, p = x0.copy(), p0.copy()
                xs, ps, po = [x], [p], [w[0] * np.sum(x ** 2)]
                for k in range(L):
                    p = p - eps / 2 * 2 * w[k] * x
                    ps.append(p)
                    x = x + eps * p
                    p = p - eps / 2 * 2 * w[k + 1] * x
                    xs.append(x); ps.append(p); po.append(w[k + 1] * np.sum(x ** 2))
                k = R((np.array(xs), np.array(ps), np.array(po)), 4)
                want[k] = want.get(k, 0.) + .5 ** (L + 1)
            from mc.lib import same_law
            same_law(ctx, got, want, 'stochastic', 'leapfrog with stochastic gradients', L=L)

    return [('leapfrog', lambda c: grid(c, 'leapfrog')), ('leapfrog-reverse', lambda c: rev(c, 'reverse')), ('leapfrog-volume', volume),
            ('bfgs-leapfrog', bfgs_grid), ('bfgs-reverse', lambda c: rev(c, 'bfgs-reverse', PRE[0])),
            ('momentum-ud', lambda c: momentum(c, 'ud1', 1, 4 if th else 3)), ('momentum-ud-2d', lambda c: momentum(c, 'ud2', 2, 3 if th else 2)),
            ('momentum-qn', momentum_qn), ('ou-ud', lambda c: ou(c, Underdamped)), ('ou-qn', lambda c: ou(c, QNUnderdamped)),
            ('startup', startup), ('stochastic', stochastic)]
