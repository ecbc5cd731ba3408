"""C19: kernels, their derivatives and bandwidth rules, on every pair of lattice points and parameter setting."""
PROPERTY = 'C19'
JOBS = 6
BOUNDS = dict(
    quick='every pair of lattice points (1d: 7, 2d: 25, 3d: 8 points) x bandwidths (scalar / per coordinate) x IMQ (c, beta) x preconditioners; '
          'every parameter set/override/evaluate sequence of length <= 4; bandwidth rules on every ensemble of <= 4 lattice points',
    thorough='9 / 49 / 27 points, ensembles of 5, sequences of length 5')
ASSUMPTIONS = ['float32 arithmetic', 'derivatives are compared with automatic differentiation of the evaluation, which is compared with the formula']


def case_names(tier):
    return ['gaussian', 'imq', 'precond', 'sequences', 'bandwidth', 'vectorised', 'base']


def cases(tier):
    import itertools
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    import jax
    import jax.numpy as jnp
    from mocat import kernels, cdict
    th = tier == 'thorough'
    AX = {1: np.linspace(-3, 3, 9 if th else 7), 2: np.linspace(-1.5, 1.8, 7 if th else 5), 3: np.linspace(-1., 1.3, 3 if th else 2)}

    def pairs(d):
        pts = np.array(list(itertools.product(AX[d], repeat=d)))
        a, b = zip(*itertools.product(pts, pts))
        return np.array(a), np.array(b)

    def check(ctx, tag, kern, d, ref, kw, **info):
        xs, ys = pairs(d)
        ev = lambda x, y: kern(x, y, **kw)
        def allf(x, y):
            return dict(k=ev(x, y), kt=ev(y, x), gx=kern.grad_x(x, y, **kw), gy=kern.grad_y(x, y, **kw), dxy=kern.diag_grad_xy(x, y, **kw),
                        ax=jax.grad(ev, 0)(x, y), ay=jax.grad(ev, 1)(x, y), axy=jnp.diag(jax.jacfwd(jax.grad(ev, 0), 1)(x, y)))
        o = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(allf))(jnp.array(xs), jnp.array(ys)))
        want = np.array([ref(x, y) for x, y in zip(xs, ys)])
        for i in range(len(xs)):
            ctx.state(tag, d, repr(info), xs[i].tolist(), ys[i].tolist())
        ctx.trans(len(xs) * 5)
        ctx.trace(len(xs))
        for name, a, b in [('value', o['k'], want), ('symmetric', o['k'], o['kt']), ('grad_x', o['gx'], o['ax']), ('grad_y', o['gy'], o['ay']),
                           ('diag_grad_xy', o['dxy'], o['axy'])]:
            sc = np.abs(b).max() + 1e-3
            if a.shape != b.shape:
                ctx.fail(f'{tag}:{name}', f'shape of {name}', got=a.shape, want=b.shape, d=d, **info)
                continue
            err = np.abs(a - b) - 1e-4 * np.abs(b)
            j = np.unravel_index(np.argmax(np.where(np.isnan(err), np.inf, err)), err.shape)
            ctx.expect(np.all(err < 2e-5 * sc), f'{tag}:{name}', f'{name} is that of the kernel', got=a[j[0]], want=b[j[0]], px=xs[j[0]], py=ys[j[0]], d=d, **info)
            ctx.nexpect += len(xs) - 1
        ctx.sample(dict(kernel=tag, x=xs[len(xs) // 3], y=ys[len(xs) // 3], k=o['k'][len(xs) // 3], grad=o['gx'][len(xs) // 3], **info))

    def bws(d):
        out = [None, .4, 1., 2.5, jnp.array(1.7)]
        if d > 1:
            out += [jnp.array([.5, 2., 1.1][:d]), jnp.array([3., .8, .6][:d])]
        else:
            out += [jnp.array([.6])]
        return out

    def gaussian(ctx):
        for d in (1, 2, 3):
            for bw in bws(d):
                b = 1. if bw is None else np.asarray(bw, float)
                ref = lambda x, y: np.exp(-.5 * np.sum(((x - y) / b) ** 2))
                check(ctx, 'gaussian', kernels.Gaussian() if bw is None else kernels.Gaussian(bw), d, ref, {}, bw=bw)
                if bw is not None:
                    check(ctx, 'gaussian:override', kernels.Gaussian(9.), d, ref, dict(bandwidth=bw), bw=bw)

    def imq(ctx):
        for d in (1, 2, 3):
            for bw in bws(d):
                for c, be in [(None, None), (1., -.5), (.3, -.5), (2., -.25), (1.5, -1.), (1., -2.)]:
                    kw = {k: v for k, v in dict(c=c, beta=be, bandwidth=bw).items() if v is not None}
                    b = 1. if bw is None else np.asarray(bw, float)
                    ref = lambda x, y: ((1. if c is None else c) + .5 * np.sum(((x - y) / b) ** 2)) ** (-.5 if be is None else be)
                    check(ctx, 'imq', kernels.IMQ(**kw), d, ref, {}, bw=bw, c=c, beta=be)
            check(ctx, 'imq:override', kernels.IMQ(9., -3., 4.), d, lambda x, y: (.5 + .5 * np.sum(((x - y) / 1.2) ** 2)) ** -.4, dict(c=.5, beta=-.4, bandwidth=1.2))

    def precond(ctx):
        for d in (1, 2, 3):
            for off in itertools.product([-.7, 0., .4], repeat=d * (d - 1) // 2):
                for s in (1., 2.):
                    L = np.eye(d) * np.array([s, .6, 1.3])[:d]
                    L[np.tril_indices(d, -1)] = off
                    P = L @ L.T
                    for bw in (None, .5, 1.7):
                        b = 1. if bw is None else bw
                        ref = lambda x, y: np.exp(-.5 * (x - y) @ P @ (x - y) / b ** 2)
                        kw = {} if bw is None else dict(bandwidth=bw)
                        check(ctx, 'precond', kernels.PreconditionedGaussian(precision=jnp.array(P), **kw), d, ref, {}, bw=bw, P=P.tolist())
            check(ctx, 'precond:override', kernels.PreconditionedGaussian(3., jnp.eye(d)), d, lambda x, y: np.exp(-.5 * (x - y) @ P @ (x - y) / 1.44), dict(bandwidth=1.2, precision=jnp.array(P)))

    def sequences(ctx):
        """the parameters of a call are those stored last, unless overridden for that call only"""
        x, y = np.array([.3, -1.]), np.array([1.2, .4])
        d2 = np.sum((x - y) ** 2)
        ops = [('set', .5), ('set', 2.), ('call', None), ('over', 1.5), ('replace', 3.)]
        for n in range(1, 6 if th else 5):
            for seq in itertools.product(range(len(ops)), repeat=n):
                if n <= 2:
                    k, q = kernels.Gaussian(1.), kernels.IMQ()
                else:       # fresh objects recompile: longer sequences continue on the same ones, set back to the start
                    k.parameters, q.parameters = cdict(bandwidth=1.), cdict(c=1., beta=-.5, bandwidth=1.)
                cur = 1.
                for i, s in enumerate(seq):
                    op, v = ops[s]
                    ctx.state(seq[:i + 1])
                    ctx.trans()
                    if op == 'set':
                        k.parameters.bandwidth = v
                        q.parameters.bandwidth = v
                        cur = v
                    elif op == 'replace':
                        k.parameters = cdict(bandwidth=v)
                        q.parameters = cdict(c=1., beta=-.5, bandwidth=v)
                        cur = v
                    kw, b = (dict(bandwidth=v), v) if op == 'over' else ({}, cur)
                    if i == n - 1:
                        val = np.exp(-.5 * d2 / b ** 2)
                        ctx.close(k(x, y, **kw), val, 'seq:value', 'value for the current parameters', seq=seq)
                        ctx.close(k.grad_x(x, y, **kw), (y - x) / b ** 2 * val, 'seq:grad', 'gradient for the current parameters', seq=seq)
                        ctx.close(k.grad_y(x, y, **kw), (x - y) / b ** 2 * val, 'seq:grad', 'gradient for the current parameters', seq=seq)
                        ctx.close(q(x, y, **kw), (1 + .5 * d2 / b ** 2) ** -.5, 'seq:imq', 'value for the current parameters', seq=seq)
                        ctx.trace()
                ctx.close(k.parameters.bandwidth, cur, 'seq:stored', 'an override does not change the stored parameter', seq=seq)

    def bandwidth(ctx):
        for d, P, N in [(1, [-1., 0., .5, 2.], 5 if th else 4), (2, [-1., .7], 4)]:
            pts = list(itertools.product(P, repeat=d))
            for n in range(2, N + 1):
                S = np.array(list(itertools.product(pts, repeat=n)))
                if len(S) > 300 and not th:
                    S = S[::3]
                me = np.asarray(jax.vmap(kernels.mean_bandwidth_update)(jnp.array(S)))
                md = np.asarray(jax.vmap(kernels.median_bandwidth_update)(jnp.array(S)))
                for s, a, b in zip(S, me, md):
                    D = np.sqrt(((s[:, None] - s[None]) ** 2).sum(-1))
                    ctx.state(d, s.tolist())
                    ctx.trans(n)
                    ctx.trace()
                    ctx.close(a, D.mean() / np.sqrt(2 * np.log(n)), 'bandwidth:mean', 'mean pairwise distance over sqrt(2 log n)', s=s)
                    ctx.close(b, np.median(D) / np.sqrt(2 * np.log(n)), 'bandwidth:median', 'median pairwise distance over sqrt(2 log n)', s=s)

    def vectorised(ctx):
        for d in (1, 2):
            xs, ys = pairs(d)
            for kern in (kernels.Gaussian(.8), kernels.IMQ(bandwidth=1.4)):
                v = np.asarray(kern(jnp.array(xs), jnp.array(ys)))
                one = np.array([kern(x, y) for x, y in zip(xs[::7], ys[::7])])
                ctx.state(d, type(kern).__name__)
                ctx.trans(len(xs))
                ctx.trace(len(one))
                ctx.close(v[::7], one, 'vectorised', 'evaluation of stacked points is pointwise')
                b = np.asarray(kern(jnp.array(xs), jnp.array(ys[3])))
                ctx.close(b[::7], np.array([kern(x, ys[3]) for x in xs[::7]]), 'vectorised', 'against a single point')

    def base(ctx):
        """a user-defined kernel receives stored parameters, overridden by call arguments"""
        class Lin(kernels.Kernel):
            def _call(self, x, y, a, b):
                return a * jnp.dot(x, y) + b

            def _grad_x(self, x, y, a, b):
                return a * y
        x, y = np.array([1., 2.]), np.array([.5, -3.])
        for a, b in itertools.product([None, 2., -1.], repeat=2):
            k = Lin(a=1.5, b=.25)
            kw = {n: v for n, v in (('a', a), ('b', b)) if v is not None}
            aa, bb = kw.get('a', 1.5), kw.get('b', .25)
            ctx.state(a, b)
            ctx.trans()
            ctx.trace()
            ctx.close(k(x, y, **kw), aa * x @ y + bb, 'base:call', 'parameters of the call')
            ctx.close(k.grad_x(x, y, **kw), aa * y, 'base:grad', 'parameters of the call')
            ctx.expect(k.parameters.a == 1.5 and k.parameters.b == .25, 'base:stored', 'stored parameters unchanged')
            for f in (k.grad_y, k.diag_grad_xy):
                try:
                    f(x, y, **kw)
                    ok = False
                except NotImplementedError:
                    ok = True
                ctx.expect(ok, 'base:missing', 'a derivative that is not defined is not made up')

    return [('gaussian', gaussian), ('imq', imq), ('precond', precond), ('sequences', sequences), ('bandwidth', bandwidth), ('vectorised', vectorised), ('base', base)]
