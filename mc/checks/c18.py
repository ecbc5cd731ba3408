"""C18: state-space potentials, samplers, gradients, smoothing potentials and simulations of one and the same model."""
PROPERTY = 'C18'
JOBS = 8
BOUNDS = dict(
    quick='every scenario (linear Gaussian time-varying and homogeneous, nonlinear Gaussian, 1-d benchmark, stochastic volatility, Lorenz 63 / 96, a user model) x default / custom / reassigned parameters x '
          'lattices of states, observations, times and time gaps; every pattern of three-valued noise; trajectories of every length 1-5; simulations of length 1-3',
    thorough='larger lattices, more times, trajectories up to length 7, simulations up to length 4')
ASSUMPTIONS = ['potentials are compared up to a constant in the states for fixed parameters and times',
               'a sampler driven by normal noise z is Gaussian when, for every pattern of three-valued z, its whitened residual has the length of z, and the residuals have mean zero and identity covariance']

MODELS = ['lg-time', 'lg', 'nlg', 'bench', 'sv', 'l63', 'l96', 'user']
KINDS = ['one-step', 'smoothing', 'simulate']


def case_names(tier):
    return [f'{m}:{k}' for m in MODELS for k in KINDS if not (m == 'user' and k == 'simulate')]


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, PM1, R
    import itertools, warnings
    from scipy.integrate import odeint
    from mocat import ssm
    from mocat.ssm import StateSpaceModel, LinearGaussian, TimeHomogenousLinearGaussian, NonLinearGaussian
    from mocat.src.ssm.scenarios.scenarios import NonLinear1DBenchmark, StochasticVolatility, Lorenz63, Lorenz96
    warnings.simplefilter('ignore')
    th = tier == 'thorough'
    f32 = lambda a: jnp.array(a, dtype=jnp.float32)
    A3 = [(-np.sqrt(1.5), 1 / 3), (0., 1 / 3), (np.sqrt(1.5), 1 / 3)]
    COV = {1: np.array([[.7]]), 2: np.array([[1., .4], [.4, .6]]), 3: np.array([[1., .4, -.2], [.4, .6, .1], [-.2, .1, .8]]),
           4: np.diag([.5, .8, 1.2, .7]) + .15 * np.ones((4, 4)), 5: np.diag([.5, .8, 1.2, .7, 1.]) + .1 * np.ones((5, 5))}
    MAT = {1: np.array([[.6]]), 2: np.array([[.8, -.3], [.5, 1.1]]), 3: np.array([[.8, -.3, .2], [.5, 1.1, 0.], [.1, -.4, .7]])}
    MEAN = {1: np.array([.5]), 2: np.array([.5, -1.]), 3: np.array([.5, -1., .3]), 4: np.array([.5, -1., .3, 2.]), 5: np.array([.5, -1., .3, 2., -.7])}
    OBS = {1: np.array([[1.5]]), 2: np.array([[1., -.5]]), 3: np.array([[1., -.5, 0.], [.2, .3, 1.]]), 4: np.array([[1., -.5, 0., .3]]), 5: np.array([[1., -.5, 0., .3, .2]])}
    sq = np.linalg.cholesky

    class Ref:
        """mean and covariance of every conditional law, in double precision"""
        def __init__(s, d, p, init, trans, lik, user=None):
            s.d, s.p, s.init, s.trans, s.lik, s.user = d, p, init, trans, lik, user

        @staticmethod
        def u(x, mS):
            m, S = mS
            r = np.asarray(x, float) - m
            return .5 * r @ np.linalg.solve(S, r) + .5 * np.linalg.slogdet(S)[1]

        def ui(s, x, t):
            return s.user[0](x, t) if s.user else s.u(x, s.init(t))

        def ut(s, x, t0, z, t1):
            return s.user[1](x, t0, z, t1) if s.user else s.u(z, s.trans(x, t0, t1))

        def ul(s, x, y, t):
            return s.user[2](x, y, t) if s.user else s.u(y, s.lik(x, t))

        def us(s, xs, ys, ts):
            return s.ui(xs[0], ts[0]) + sum(s.ut(xs[k], ts[k], xs[k + 1], ts[k + 1]) for k in range(len(ts) - 1)) + sum(s.ul(x, y, t) for x, y, t in zip(xs, ys, ts))

    def fd(f, x, h=1e-4):
        """five-point central differences in double precision"""
        x = np.asarray(x, float)
        g = np.zeros_like(x)
        for i in np.ndindex(*x.shape):
            e = np.zeros_like(x)
            e[i] = h
            g[i] = (8 * (f(x + e) - f(x - e)) - (f(x + 2 * e) - f(x - 2 * e))) / (12 * h)
        return g

    def homog(d, F, m0=None, S0=None, Q=None, H=None, Rc=None):
        p = d if H is None else len(H)
        m0 = np.zeros(d) if m0 is None else m0
        S0 = np.eye(d) if S0 is None else S0
        Q = np.eye(d) if Q is None else Q
        H = np.eye(d) if H is None else H
        Rc = np.eye(p) if Rc is None else Rc
        return Ref(d, p, lambda t: (m0, S0), lambda x, a, b: (F(x, a, b), Q), lambda x, t: (H @ x, Rc))

    class TimeLG(LinearGaussian):
        name = 'time'

        def __init__(self, d, p):
            self.dim, self.dim_obs = d, p
            self.S0, self.Q, self.F, self.H, self.Rc, self.m = f32(COV[d]), f32(COV[d][::-1, ::-1]), f32(MAT[d]), f32(OBS[d][:p]), f32(COV[p]), f32(MEAN[d])
            super().__init__()

        def s(self, t):
            return 1. + .3 * t

        def get_initial_mean(self, t):
            return self.m * self.s(t)

        def get_initial_covariance_sqrt(self, t):
            return jnp.linalg.cholesky(self.S0 * self.s(t))

        def get_initial_precision_sqrt(self, t):
            return jnp.linalg.inv(self.get_initial_covariance_sqrt(t)).T

        def get_initial_precision_det(self, t):
            return 1 / jnp.linalg.det(self.S0 * self.s(t))

        def tm(self, a, b):
            return self.Q * (b - a) * self.s(a)

        def get_transition_matrix(self, a, b):
            return self.F * (1 + .2 * (b - a) + .1 * b)

        def get_transition_covariance_sqrt(self, a, b):
            return jnp.linalg.cholesky(self.tm(a, b))

        def get_transition_precision_sqrt(self, a, b):
            return jnp.linalg.inv(self.get_transition_covariance_sqrt(a, b)).T

        def get_transition_precision_det(self, a, b):
            return 1 / jnp.linalg.det(self.tm(a, b))

        def get_likelihood_matrix(self, t):
            return self.H * (2 - .1 * t)

        def get_likelihood_covariance_sqrt(self, t):
            return jnp.linalg.cholesky(self.Rc * self.s(t))

        def get_likelihood_precision_sqrt(self, t):
            return jnp.linalg.inv(self.get_likelihood_covariance_sqrt(t)).T

        def get_likelihood_precision_det(self, t):
            return 1 / jnp.linalg.det(self.Rc * self.s(t))

    def lg_time():
        for d, p in ((2, 1), (1, 1)) + (((3, 2), ) if th else ()):
            S0, Q, F, H, Rc, m = COV[d], COV[d][::-1, ::-1], MAT[d], OBS[d][:p], COV[p], MEAN[d]
            s = lambda t: 1. + .3 * t
            ref = Ref(d, p, lambda t: (m * s(t), S0 * s(t)), lambda x, a, b: (F * (1 + .2 * (b - a) + .1 * b) @ x, Q * (b - a) * s(a)), lambda x, t: (H * (2 - .1 * t) @ x, Rc * s(t)))
            yield f'd{d}p{p}', TimeLG(d, p), ref

    def lg():
        for d in (1, 2, 3) if th else (1, 2):
            p = len(OBS[d])
            kw = dict(initial_mean=f32(MEAN[d]), initial_covariance=f32(COV[d]), transition_matrix=f32(MAT[d]), transition_covariance=f32(COV[d][::-1, ::-1] * .5), likelihood_matrix=f32(OBS[d]), likelihood_covariance=f32(COV[p]))
            F = lambda x, a, b, d=d: MAT[d] @ x
            yield f'full{d}', TimeHomogenousLinearGaussian(**kw), homog(d, F, MEAN[d], COV[d], COV[d][::-1, ::-1] * .5, OBS[d], COV[p])
            m = TimeHomogenousLinearGaussian(**kw)
            m.initial_covariance, m.transition_covariance, m.likelihood_covariance, m.initial_mean = f32(np.eye(d) * 2), f32(COV[d]), f32(COV[p] * 3), f32(-MEAN[d])
            yield f'reassigned{d}', m, homog(d, F, -MEAN[d], np.eye(d) * 2, COV[d], OBS[d], COV[p] * 3)
        yield 'default', TimeHomogenousLinearGaussian(initial_mean=f32([.3, .1])), homog(2, lambda x, a, b: x, np.array([.3, .1]))
        yield 'partial', TimeHomogenousLinearGaussian(transition_covariance=f32(COV[2])), homog(2, lambda x, a, b: x, Q=COV[2])

    class NLG(NonLinearGaussian):
        name = 'nlg'

        def transition_function(self, x, a, b):
            return jnp.sin(x) * (b - a) + .5 * x[::-1] ** 2 + .2 * a

    def nlg():
        F = lambda x, a, b: np.sin(x) * (b - a) + .5 * np.asarray(x)[::-1] ** 2 + .2 * a
        for d in (1, 2, 3) if th else (1, 2):
            p = len(OBS[d])
            kw = dict(initial_mean=f32(MEAN[d]), initial_covariance=f32(COV[d]), transition_covariance=f32(COV[d][::-1, ::-1] * .5), likelihood_matrix=f32(OBS[d]), likelihood_covariance=f32(COV[p]))
            yield f'full{d}', NLG(**kw), homog(d, F, MEAN[d], COV[d], COV[d][::-1, ::-1] * .5, OBS[d], COV[p])
            m = NLG(**kw)
            m.initial_covariance, m.transition_covariance, m.likelihood_covariance = f32(np.eye(d) * 2), f32(COV[d]), f32(COV[p] * 3)
            yield f'reassigned{d}', m, homog(d, F, MEAN[d], np.eye(d) * 2, COV[d], OBS[d], COV[p] * 3)
        yield 'square', NLG(likelihood_covariance=f32(COV[2]), likelihood_matrix=f32(MAT[2])), homog(2, F, H=MAT[2], Rc=COV[2])
        yield 'default', NLG(initial_mean=f32([.3, .1])), homog(2, F, np.array([.3, .1]))

    def bench():
        f = lambda x, a: .5 * x + 25 * x / (1 + x ** 2) + 8 * np.cos(1.2 * a)
        one = lambda v: np.array([[v]])
        for nm, m, (s0, s1, s2) in [('default', NonLinear1DBenchmark(), (2, 10, 1)), ('custom', NonLinear1DBenchmark(.5, 2., .7), (.25, 4, .49))]:
            yield nm, m, Ref(1, 1, lambda t, s0=s0: (np.zeros(1), one(s0)), lambda x, a, b, s1=s1: (f(x, a), one(s1)), lambda x, t, s2=s2: (x ** 2 / 20, one(s2)))
        m = NonLinear1DBenchmark()
        m.initial_sd, m.transition_sd, m.likelihood_sd = 2., .5, 3.
        yield 'reassigned', m, Ref(1, 1, lambda t: (np.zeros(1), one(4)), lambda x, a, b: (f(x, a), one(.25)), lambda x, t: (x ** 2 / 20, one(9)))

    def sv():
        def ref(d, m0, S0, F, Q, dg):
            return Ref(d, d, lambda t: (m0, S0), lambda x, a, b: (F @ x, Q * (b - a)), lambda x, t: (np.zeros(d), np.diag(dg * np.exp(x))))
        for d in (1, 2, 3) if th else (1, 2):
            yield f'default{d}', StochasticVolatility(dim=d), ref(d, np.zeros(d), np.eye(d), np.eye(d), np.eye(d), np.ones(d))
            dg = np.array([.5, 1.5, .8])[:d]
            kw = dict(dim=d, initial_mean=f32(MEAN[d]), initial_covariance=f32(COV[d]), transition_matrix=f32(MAT[d]), transition_covariance=f32(COV[d][::-1, ::-1] * .5), likelihood_covariance_diag=f32(dg))
            yield f'full{d}', StochasticVolatility(**kw), ref(d, MEAN[d], COV[d], MAT[d], COV[d][::-1, ::-1] * .5, dg)
            m = StochasticVolatility(**kw)
            m.initial_covariance, m.transition_covariance, m.likelihood_covariance_diag = f32(np.eye(d) * 2), f32(COV[d]), f32(dg * 2)
            yield f'reassigned{d}', m, ref(d, MEAN[d], np.eye(d) * 2, MAT[d], COV[d], dg * 2)

    def ode(dyn):
        def F(x, a, b):
            return odeint(lambda x, t: dyn(x), np.asarray(x, float), [0, b - a], rtol=1e-11, atol=1e-11)[-1]
        return F

    def l63():
        def dyn(s, r, b):
            return lambda x: np.array([s * (x[1] - x[0]), x[0] * (r - x[2]) - x[1], x[0] * x[1] - b * x[2]])
        p = 2
        yield 'default', Lorenz63(), homog(3, ode(dyn(10., 28., 8 / 3)))
        yield 'custom', Lorenz63(sigma=5., rho=14., beta=2., initial_mean=f32(MEAN[3]), initial_covariance=f32(COV[3]), transition_covariance=f32(COV[3][::-1, ::-1] * .5), likelihood_matrix=f32(OBS[3]), likelihood_covariance=f32(COV[p])), \
            homog(3, ode(dyn(5., 14., 2.)), MEAN[3], COV[3], COV[3][::-1, ::-1] * .5, OBS[3], COV[p])

    def l96():
        def dyn(fc):
            def f(x):
                d = len(x)
                i = np.arange(d)
                return (x[(i + 1) % d] - x[i - 2]) * x[i - 1] - x + fc
            return f
        for d in (4, 5):
            yield f'custom{d}', Lorenz96(dim=d, forcing_constant=3., initial_mean=f32(MEAN[d]), initial_covariance=f32(COV[d]), transition_covariance=f32(COV[d][::-1, ::-1] * .5), likelihood_matrix=f32(OBS[d])), \
                homog(d, ode(dyn(3.)), MEAN[d], COV[d], COV[d][::-1, ::-1] * .5, OBS[d], np.eye(1))
        yield 'default4', Lorenz96(dim=4), homog(4, ode(dyn(8.)))

    class User(StateSpaceModel):
        name = 'user'

        def initial_potential(self, x, t):
            return jnp.sum(x ** 4) * (1. + t) + x[0] * x[-1]

        def transition_potential(self, x, a, z, b):
            return jnp.sum((z - jnp.cos(x)) ** 4) * (b - a) + z[0] * x[-1] * a

        def likelihood_potential(self, x, y, t):
            return jnp.sum(jnp.exp(.3 * x) * jnp.sum(y ** 2)) + t * x[0] * y[0] ** 3

    def user():
        yield 'user', User(dim=2, dim_obs=2), Ref(2, 2, None, None, None, user=(
            lambda x, t: np.sum(x ** 4) * (1. + t) + x[0] * x[-1],
            lambda x, a, z, b: np.sum((z - np.cos(x)) ** 4) * (b - a) + z[0] * x[-1] * a,
            lambda x, y, t: np.sum(np.exp(.3 * x) * np.sum(y ** 2)) + t * x[0] * y[0] ** 3))

        class Own(User):
            """supplies its own gradients"""
            def grad_initial_potential(self, x, t):
                return 4 * x ** 3 * (1. + t) + jnp.array([x[-1], x[0]])

            def initial_potential_and_grad(self, x, t):
                return self.initial_potential(x, t), self.grad_initial_potential(x, t)
        yield 'own-grad', Own(dim=2, dim_obs=2), Ref(2, 2, None, None, None, user=(
            lambda x, t: np.sum(x ** 4) * (1. + t) + x[0] * x[-1],
            lambda x, a, z, b: np.sum((z - np.cos(x)) ** 4) * (b - a) + z[0] * x[-1] * a,
            lambda x, y, t: np.sum(np.exp(.3 * x) * np.sum(y ** 2)) + t * x[0] * y[0] ** 3))

    GEN = {'lg-time': lg_time, 'lg': lg, 'nlg': nlg, 'bench': bench, 'sv': sv, 'l63': l63, 'l96': l96, 'user': user}
    STIFF = ('l63', 'l96')
    V = [-1., .25, 1.5]

    def lattice(d, cap):
        """all of V^d when it has at most `cap` points, else axis points, diagonal points and mixed signs"""
        if len(V) ** d <= cap:
            return [np.array(v) for v in itertools.product(V, repeat=d)]
        pts = [np.zeros(d) + .25]
        for i in range(d):
            for v in (-1., 1.5):
                e = np.zeros(d) + .25
                e[i] = v
                pts.append(e)
        pts += [np.array([V[(i * k + k) % 3] for i in range(d)]) for k in (1, 2)]
        return pts

    def gaps(name):
        if name in STIFF:
            return [(0., .05), (1., 1.1), (.5, .7)]
        return [(0., 1.), (1., 1.5), (2., 5.)] + ([(.3, .4), (3., 4.), (7., 8.)] if th else [])
    TS = {False: [[0., 1., 1.5, 4., 4.5, 6., 7.], [2., 2.25, 5., 6., 7., 9., 9.5]], True: [[0., .05, .2, .3, .35, .5, .55], [1., 1.1, 1.15, 1.2, 1.3, 1.4, 1.5]]}
    TOLU = dict(rtol=2e-3, atol=5e-3)

    def rel(u):
        """potential differences to the first point"""
        u = np.asarray(u, float)
        return u - u[0]

    def gauss(c, leaves, mS, key, what, **info):
        m, S = mS
        L = sq(np.atleast_2d(S))
        p = np.array([l.p for l in leaves])
        X = np.array([np.asarray(l.out, float) for l in leaves])
        c.expect(X.shape[1:] == (len(m),), key + ':shape', 'a draw has the shape of a state', shape=X.shape, **info)
        r = np.linalg.solve(L, (X - m).T).T
        d = len(m)
        c.close(p @ r, np.zeros(d), key + ':mean', what + ': mean', atol=2e-3, **info)
        c.close(np.einsum('n,ni,nj->ij', p, r, r), np.eye(d), key + ':cov', what + ': covariance', atol=3e-3, **info)
        c.close(np.einsum('n,ni,nj,nk->ijk', p, r, r, r), np.zeros((d,) * 3), key + ':skew', what + ': third moments', atol=5e-3, **info)
        n2 = np.sort((r ** 2).sum(1))
        want = np.sort([1.5 * sum(v != 0 for v in z) for z in itertools.product((-1, 0, 1), repeat=d)])
        c.expect(len(n2) == len(want), key + ':gauss', 'one normal draw per component', n=len(n2), **info)
        c.close(n2, want, key + ':gauss', what + ': affine in the noise', atol=6e-3, **info)
        c.trans(len(leaves))

    def one_step(name):
        def run(c):
            C.alpha = dict(normal=A3)
            tol = TOLU
            for nm, m, ref in GEN[name]():
                X = lattice(ref.d, 30 if th else 9)
                Y = lattice(ref.p, 9)[:9]
                G = gaps(name)
                has = ref.user is None
                times = sorted({t for g in G for t in g})
                vx = f32(np.stack(X))
                ui = jax.jit(jax.vmap(m.initial_potential, (0, None)))
                gi = jax.jit(jax.vmap(m.grad_initial_potential, (0, None)))
                vi = jax.jit(jax.vmap(m.initial_potential_and_grad, (0, None)))
                ns = jax.jit(jax.vmap(jax.vmap(m.transition_potential, (None, None, 0, None)), (0, None, None, None)))
                gt = jax.jit(jax.vmap(jax.vmap(m.grad_transition_potential, (None, None, 0, None)), (0, None, None, None)))
                vt = jax.jit(jax.vmap(jax.vmap(m.transition_potential_and_grad, (None, None, 0, None)), (0, None, None, None)))
                ul = jax.jit(jax.vmap(jax.vmap(m.likelihood_potential, (None, 0, None)), (0, None, None)))
                gl = jax.jit(jax.vmap(jax.vmap(m.grad_likelihood_potential, (None, 0, None)), (0, None, None)))
                vl = jax.jit(jax.vmap(jax.vmap(m.likelihood_potential_and_grad, (None, 0, None)), (0, None, None)))
                for t in times[:3]:
                    info = dict(model=nm, t=t)
                    w = [ref.ui(x, t) for x in X]
                    c.close(rel(ui(vx, t)), rel(w), 'initial:potential', 'initial potential', **tol, **info)
                    gw = np.stack([fd(lambda x: ref.ui(x, t), x) for x in X])
                    c.close(gi(vx, t), gw, 'initial:grad', 'gradient of the initial potential', **tol, **info)
                    v, g = vi(vx, t)
                    c.close(rel(v), rel(w), 'initial:value', 'initial potential with gradient', **tol, **info)
                    c.close(g, gw, 'initial:value-grad', 'initial potential with gradient', **tol, **info)
                    c.state(nm, 'i', t)
                    c.trace(len(X))
                    if has:
                        lv = explore(lambda s, k: m.initial_sample(t, k), [0.], batch=81)
                        gauss(c, lv, ref.init(t), 'initial:sample', 'initial draws', **info)
                        c.explored(lv)
                    vy = f32(np.stack(Y))
                    w = np.array([[ref.ul(x, y, t) for y in Y] for x in X])
                    got = np.asarray(ul(vx, vy, t), float)
                    c.close(got - got[0, 0], w - w[0, 0], 'likelihood:potential', 'observation potential', **tol, **info)
                    gw = np.array([[fd(lambda x: ref.ul(x, y, t), x) for y in Y] for x in X])
                    c.close(gl(vx, vy, t), gw, 'likelihood:grad', 'gradient of the observation potential in the state', **tol, **info)
                    v, g = vl(vx, vy, t)
                    v = np.asarray(v, float)
                    c.close(v - v[0, 0], w - w[0, 0], 'likelihood:value', 'observation potential with gradient', **tol, **info)
                    c.close(g, gw, 'likelihood:value-grad', 'observation potential with gradient', **tol, **info)
                    c.trace(w.size)
                    if has:
                        lv = explore(lambda x, k: m.likelihood_sample(x, t, k), [f32(x) for x in X], batch=243)
                        for i, x in enumerate(X):
                            gauss(c, [l for l in lv if l.start == i], ref.lik(x, t), 'likelihood:sample', 'observation draws', x=x.tolist(), **info)
                            c.state(nm, 'l', t, i)
                        c.explored(lv)
                for a, b in G:
                    info = dict(model=nm, gap=(a, b))
                    Z = [x if not has else ref.trans(X[0], a, b)[0] + x for x in X]
                    vz = f32(np.stack(Z))
                    w = np.array([[ref.ut(x, a, z, b) for z in Z] for x in X])
                    got = np.asarray(ns(vx, a, vz, b), float)
                    big = dict(rtol=2e-3, atol=5e-3 + 2e-4 * np.abs(w).max())
                    c.close(got - got[0, 0], w - w[0, 0], 'transition:potential', 'transition potential', **big, **info)
                    gx = np.array([[fd(lambda q: ref.ut(q, a, z, b), x) for z in Z] for x in X])
                    gz = np.array([[fd(lambda q: ref.ut(x, a, q, b), z) for z in Z] for x in X])
                    v, g = vt(vx, a, vz, b)
                    v = np.asarray(v, float)
                    c.close(v - v[0, 0], w - w[0, 0], 'transition:value', 'transition potential with gradients', **big, **info)
                    for which, gg in (('grad', gt(vx, a, vz, b)), ('value-grad', g)):
                        c.close(gg[0], gx, f'transition:{which}-previous', 'gradient of the transition potential in the previous state', rtol=2e-3, atol=5e-3 + 3e-4 * np.abs(gx).max(), **info)
                        c.close(gg[1], gz, f'transition:{which}-new', 'gradient of the transition potential in the new state', rtol=2e-3, atol=5e-3 + 3e-4 * np.abs(gz).max(), **info)
                    c.trace(w.size)
                    if has:
                        lv = explore(lambda x, k: m.transition_sample(x, a, b, k), [f32(x) for x in X], batch=243)
                        for i, x in enumerate(X):
                            gauss(c, [l for l in lv if l.start == i], ref.trans(x, a, b), 'transition:sample', 'transition draws', x=x.tolist(), **info)
                            c.state(nm, 't', a, b, i)
                        c.explored(lv)
                c.sample(dict(model=nm, states=[x.tolist() for x in X[:3]], gaps=G))
        return run

    def smoothing(name):
        def run(c):
            for nm, m, ref in GEN[name]():
                d, p = ref.d, ref.p
                Tm = (7 if th else 5)
                for T in range(1, Tm + 1):
                    for gi, grid in enumerate(TS[name in STIFF]):
                        ts = grid[:T]
                        g = np.random.RandomState(100 * T + gi)
                        trajs = [(np.zeros((T, d)) + .1, np.zeros((T, p)) + .2)]
                        for k in range(T):
                            for j in range(d):
                                e = np.zeros((T, d)) + .1
                                e[k, j] = 1.2
                                trajs.append((e, np.zeros((T, p)) + .2))
                            for j in range(p):
                                e = np.zeros((T, p)) + .2
                                e[k, j] = -1.
                                trajs.append((np.zeros((T, d)) + .1, e))
                        trajs += [(g.randint(-4, 5, (T, d)) * .5, g.randint(-4, 5, (T, p)) * .5) for _ in range(4 if th else 2)]
                        xs, ys = f32(np.stack([x for x, _ in trajs])), f32(np.stack([y for _, y in trajs]))
                        tt = f32(ts)
                        u = jax.jit(jax.vmap(lambda x, y: m.smoothing_potential(x, y, tt)))(xs, ys)
                        gr = jax.jit(jax.vmap(lambda x, y: m.grad_smoothing_potential(x, y, tt)))(xs, ys)
                        w = np.array([ref.us(x, y, ts) for x, y in trajs])
                        info = dict(model=nm, T=T, grid=gi)
                        # relative to the first trajectory: additive constants drop out
                        c.expect(np.shape(u) == (len(trajs),), 'smoothing:shape', 'one number per trajectory', shape=np.shape(u), **info)
                        c.close(np.asarray(u, float) - float(u[0]), w - w[0], 'smoothing:potential', 'potential of a trajectory', rtol=2e-3, atol=5e-3 + 1e-4 * np.abs(w).max(), **info)
                        c.expect(np.shape(gr) == (len(trajs), T, d), 'smoothing:grad-shape', 'gradient has the shape of the trajectory', shape=np.shape(gr), **info)
                        sel = range(len(trajs)) if name not in STIFF or T <= 2 else [1, len(trajs) - 1]
                        gw = np.stack([fd(lambda x: ref.us(x, trajs[i][1], ts), trajs[i][0]) for i in sel])
                        c.close(np.asarray(gr)[list(sel)], gw, 'smoothing:grad', 'gradient of the potential of a trajectory', rtol=2e-3, atol=5e-3 + 3e-4 * np.abs(gw).max(), **info)
                        # sum of the model's own parts, constants included
                        own = [m.initial_potential(x[0], tt[0]) + sum(m.transition_potential(x[k], tt[k], x[k + 1], tt[k + 1]) for k in range(T - 1)) + sum(m.likelihood_potential(x[k], y[k], tt[k]) for k in range(T))
                               for x, y in list(zip(xs, ys))[-1:]]
                        c.close(float(u[-1]), float(own[0]), 'smoothing:sum', 'sum of the initial, transition and observation potentials', rtol=1e-3, atol=1e-2, **info)
                        c.trans(len(trajs) * T)
                        c.trace(len(trajs))
                        c.state(nm, T, gi)
        return run

    def simulate(name):
        def run(c):
            C.alpha = dict(normal=PM1)
            for nm, m, ref in GEN[name]():
                d, p = ref.d, ref.p
                cap = 14 if th else 12
                for T in range(1, 5 if th else 4):
                    if T * (d + p) > cap:
                        continue
                    for gi, grid in enumerate(TS[name in STIFF]):
                        ts = grid[:T]
                        lv = explore(lambda s, k: (lambda o: (o.x, o.y, o.t))(m.simulate(f32(ts), k)), [0.], batch=min(2 ** (T * (d + p)), 512))
                        c.explored(lv)
                        info = dict(model=nm, T=T, grid=gi)
                        c.expect(len(lv) == 2 ** (T * (d + p)), 'simulate:draws', 'one normal per state and observation component', n=len(lv), **info)
                        n = T * (d + p)
                        M1, M2, P = np.zeros(n), np.zeros((n, n)), 0.
                        cache = {}
                        for l in lv:
                            x, y, t = (np.asarray(v, float) for v in l.out)
                            if x.shape != (T, d) or y.shape != (T, p):
                                c.expect(False, 'simulate:shape', 'one state and one observation per time', shapes=[x.shape, y.shape], **info)
                                break
                            r = []
                            for k in range(T):
                                if k == 0:
                                    mm, S = ref.init(ts[0])
                                else:
                                    kk = (k, R(x[k - 1], 4))
                                    if kk not in cache:
                                        cache[kk] = ref.trans(x[k - 1], ts[k - 1], ts[k])
                                    mm, S = cache[kk]
                                r.append(np.linalg.solve(sq(S), x[k] - mm))
                            for k in range(T):
                                mm, S = ref.lik(x[k], ts[k])
                                r.append(np.linalg.solve(sq(S), y[k] - mm))
                            r = np.concatenate(r)
                            M1 += l.p * r
                            M2 += l.p * np.outer(r, r)
                            # +-1 noise: every whitened residual block has the length of its noise
                            for k in range(T):
                                c.close(r[k * d:(k + 1) * d] @ r[k * d:(k + 1) * d], d, 'simulate:state', 'a state is a draw of the transition from the one before', rtol=5e-3, atol=1e-2, **info)
                                b = T * d + k * p
                                c.close(r[b:b + p] @ r[b:b + p], p, 'simulate:observation', 'an observation is a draw given its state', rtol=5e-3, atol=1e-2, **info)
                            P += l.p
                        c.close(t, np.array(ts), 'simulate:times', 'times are kept', **info)
                        c.close(M1, np.zeros(n), 'simulate:mean', 'noise has mean zero', atol=5e-3, **info)
                        c.close(M2, np.eye(n), 'simulate:independent', 'all noises of a simulation are independent', atol=8e-3, **info)
                        c.trans(len(lv) * T)
                        c.trace(len(lv))
                        c.state(nm, T, gi)
        return run

    mk = dict(zip(KINDS, (one_step, smoothing, simulate)))
    return [(f'{m}:{k}', mk[k](m)) for m in MODELS for k in KINDS if not (m == 'user' and k == 'simulate')]
