"""C20: generic numeric utilities, by exhaustive enumeration of small transition systems / functions / sizes."""
PROPERTY = 'C20'
JOBS = 6
BOUNDS = dict(
    quick='while_loop_stacked: every map and every stop set on 3 states x every start x limit 0..6, three carry layouts; bisect: every lattice of '
          '4 function values out of 6 (piecewise linear) x tolerance x iteration limit; helpers: every size up to 12',
    thorough='4 states (256 maps x 16 stop sets) and limits 0..8; 5 function values out of 7; sizes up to 24')
ASSUMPTIONS = ['float32 arithmetic']


def case_names(tier):
    return ['while-array', 'while-tuple', 'while-cdict', 'while-nan', 'bisect', 'bisect-smooth', 'leave-one-out', 'distance', 'taper', 'gain',
            'covariance', 'dimension']


def cases(tier):
    import itertools
    import math
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    import jax
    import jax.numpy as jnp
    from mocat import cdict
    from mocat.src import utils
    th = tier == 'thorough'
    K = 4 if th else 3
    LIM = range(0, 9 if th else 7)

    def systems():
        for f in itertools.product(range(K), repeat=K):
            for stop in itertools.product([False, True], repeat=K):
                yield np.array(f), np.array(stop)

    def ref(f, stop, s, lim):
        out, i = [], 0
        while i < lim and not stop[s]:
            s = int(f[s])
            i += 1
            out.append((s, i))
        return out

    def loop(ctx, layout):
        if layout == 'array':
            cond = lambda st, ex: ~ex[1][st[0].astype(int)]
            body = lambda st, ex: (jnp.stack([ex[0][st[0].astype(int)].astype(float), ex[2] + 1.]), (ex[0], ex[1], ex[2] + 1.))
            make = lambda s: jnp.array([s, 0.])
            read = lambda o: [(int(a), int(b)) for a, b in np.asarray(o)]
        elif layout == 'tuple':
            cond = lambda st, ex: ~ex[1][st[0]]
            body = lambda st, ex: ((ex[0][st[0]], ex[2] + 1.), (ex[0], ex[1], ex[2] + 1.))
            make = lambda s: (jnp.array(s), jnp.array(0.))
            read = lambda o: [(int(a), int(b)) for a, b in zip(np.asarray(o[0]), np.asarray(o[1]))]
        else:
            cond = lambda st, ex: ~ex[1][st.v]

            def body(st, ex):
                return cdict(v=ex[0][st.v], k=ex[2] + 1., w=jnp.array([1., 2.]) * (ex[2] + 1)), (ex[0], ex[1], ex[2] + 1.)
            make = lambda s: cdict(v=jnp.array(s), k=jnp.array(0.), w=jnp.zeros(2))

            def read(o):
                w = np.asarray(o.w)
                assert w.shape == (len(np.asarray(o.v)), 2)
                for r, k in zip(w, np.asarray(o.k)):
                    assert np.allclose(r, [k, 2 * k])
                return [(int(a), int(b)) for a, b in zip(np.asarray(o.v), np.asarray(o.k))]
        sys_ = list(systems())
        if layout != 'array':
            sys_ = sys_[::5] if not th else sys_[::7]
        for f, stop in sys_:
            ex = (jnp.array(f), jnp.array(stop), jnp.array(0.))
            for s in range(K):
                for lim in LIM:
                    want = ref(f, stop, s, lim)
                    ctx.state(layout, f, stop, s, lim)
                    got = utils.while_loop_stacked(cond, body, (make(s), ex), lim)
                    ctx.trans(lim)
                    ctx.trace()
                    ctx.expect(read(got) == want, 'while:' + layout, 'the stacked loop returns exactly the states of the while loop',
                               f=f, stop=stop, start=s, limit=lim, got=read(got), want=want)
        ctx.sample(dict(f=f, stop=stop, start=s, limit=lim, states=repr(want)))

    def loop_nan(ctx):
        """the body is undefined once the condition has failed: what is returned must not depend on it"""
        cond = lambda st, ex: st < ex
        body = lambda st, ex: (jnp.where(st < ex, st + 1., jnp.nan), ex)
        for s in range(0, 6):
            for stop in range(0, 8):
                for lim in LIM:
                    got = np.asarray(utils.while_loop_stacked(cond, body, (jnp.array(float(s)), jnp.array(float(stop))), lim))
                    want = np.arange(s + 1, min(s + lim, max(stop, s)) + 1, dtype=float)
                    ctx.state(s, stop, lim)
                    ctx.trans(lim)
                    ctx.trace()
                    ctx.close(got, want, 'while:nan', 'states up to the stop', s=s, stop=stop, lim=lim)
                    if lim == LIM[-1]:
                        got = np.asarray(utils.while_loop_stacked(cond, body, (jnp.array(float(s)), jnp.array(float(stop)))))
                        ctx.close(got, np.arange(s + 1, max(stop, s) + 1, dtype=float), 'while:default', 'default iteration limit')

    def check_bisect(ctx, tag, fval, b0, b1, tol, mi, bounds, evals, it, **info):
        f0, f1 = fval(b0), fval(b1)
        lo, hi = float(bounds[0]), float(bounds[1])
        e0, e1 = float(evals[0]), float(evals[1])
        it = int(it)
        info.update(b0=b0, b1=b1, tol=tol, max_iter=mi, bounds=(lo, hi), evals=(e0, e1), it=it)
        ctx.expect(it <= mi, tag + ':limit', 'iteration limit honoured', **info)
        ctx.expect(min(b0, b1) - 1e-5 <= lo <= hi + 1e-5 and hi <= max(b0, b1) + 1e-5 if b0 < b1 else True, tag + ':inside', 'bounds stay inside the initial interval', **info)
        sc = 1 + abs(f0) + abs(f1)
        if min(abs(e0), abs(e1)) < 1e-6:
            # converged to rounding: the sign of the last evaluation is not determined in float32
            ctx.expect(min(abs(fval(lo)), abs(fval(hi))) < 1e-3 * sc, tag + ':root', 'one bound is a root', **info)
            return f0 * f1 < 0, True, it
        ctx.expect(abs(fval(lo) - e0) < 2e-4 * sc and abs(fval(hi) - e1) < 2e-4 * sc, tag + ':evals', 'reported evaluations are those of the bounds', **info)
        if min(abs(f0), abs(f1)) < tol or f0 * f1 > 0:
            ctx.expect(it == 0 and abs(lo - b0) < 1e-6 and abs(hi - b1) < 1e-6, tag + ':immediate', 'returns at once when there is no sign change or a bound is a root', **info)
        else:
            ctx.expect((e0 <= 0 <= e1) if f0 < 0 else (e0 >= 0 >= e1), tag + ':bracket', 'the sign change stays bracketed, each bound keeps its sign', **info)
            ctx.expect(min(abs(e0), abs(e1)) < tol or it == mi, tag + ':stop', 'stops only when converged or at the limit', **info)
        return f0 * f1 < 0, min(abs(e0), abs(e1)) < tol, it

    def bis(ctx):
        N = 5 if th else 4
        V = [-2., -.6, -.1, .1, .7, 3.] + ([0.] if th else [])
        vals = np.array(list(itertools.product(V, repeat=N)))
        xs = np.arange(N, dtype=float)
        for tol, mi in [(1e-3, 30), (1e-5, 1000), (.3, 3), (1e-4, 0)]:
            def one(v):
                return utils.bisect(lambda x: jnp.interp(x, jnp.array(xs), v), jnp.array([0., N - 1.]), mi, tol)
            B, E, I = jax.jit(jax.vmap(one))(jnp.array(vals))
            for v, b, e, i in zip(vals, np.asarray(B), np.asarray(E), np.asarray(I)):
                ctx.state(v, tol, mi)
                ctx.trans(int(i) + 1)
                ctx.trace()
                ch, conv, it = check_bisect(ctx, 'bisect', lambda x: float(np.interp(x, xs, v)), 0., N - 1., tol, mi, b, e, i, v=v)
                # increasing lattices converge quickly by regula falsi on a piecewise linear function
                if ch and mi == 1000 and tol == 1e-5:
                    ctx.outcome(conv)
                    if np.all(np.diff(v) > 0) or np.all(np.diff(v) < 0):
                        ctx.expect(conv or it == mi, 'bisect:converges', 'monotone function', v=v, it=it)
        ctx.sample(dict(v=vals[len(vals) // 3], bounds=B[len(vals) // 3], iters=I[len(vals) // 3]))

    def bis_smooth(ctx):
        fs = {'cubic': lambda x, c: x ** 3 - c, 'exp': lambda x, c: jnp.exp(x) - 1 - c, 'atan': lambda x, c: jnp.arctan(4 * x) - c,
              'neg': lambda x, c: -x ** 3 + c, 'line': lambda x, c: 2. * x - c, 'const': lambda x, c: 0 * x + c, 'square': lambda x, c: x ** 2 - c}
        for name, f in fs.items():
            for c in (-1.2, -.5, 0., .3, 1., 2.):
                for b0, b1 in [(-2., 2.), (-.5, 1.5), (1., 2.)]:
                    for tol, mi in [(1e-4, 100), (1e-6, 5)]:
                        b, e, i = utils.bisect(lambda x: f(x, c), jnp.array([b0, b1]), mi, tol)
                        ctx.state(name, c, b0, b1, tol, mi)
                        ctx.trans(int(i) + 1)
                        ctx.trace()
                        ch, conv, it = check_bisect(ctx, 'smooth', lambda x: float(f(np.float64(x), c)), b0, b1, tol, mi, b, e, i, f=name, c=c)
                        if ch and mi == 100 and (name in ('line', 'atan', 'exp') or name in ('cubic', 'neg', 'square') and c >= .3 and b0 >= -.5):
                            ctx.expect(conv, 'smooth:converges', 'a simple root is found to the tolerance', f=name, c=c, b0=b0, b1=b1, it=it)
                # list bounds and defaults
                b, e, i = utils.bisect(lambda x: f(x, c), [-2., 2.] if name == 'list' else jnp.array([-2., 2.]))
                ctx.expect(int(i) <= 1000, 'smooth:defaults', 'default limit')

    def loo(ctx):
        for n in range(1, 25 if th else 13):
            for k in range(n + 1):
                got = np.asarray(utils.leave_one_out_indices(n, k)).tolist()
                ctx.state(n, k)
                ctx.trans()
                ctx.trace()
                ctx.expect(got == [i for i in range(n + 1) if i != k], 'loo', 'all indices of 0..n but one', n=n, k=k, got=got)

    def dist(ctx):
        P = [-1.5, 0., 2.]
        for d in (1, 2):
            pts = list(itertools.product(P, repeat=d))
            for n in (1, 2, 3):
                sets = list(itertools.product(pts, repeat=n))
                if len(sets) > 800 and not th:
                    sets = sets[::3]
                out = np.asarray(jax.vmap(utils.l2_distance_matrix)(jnp.array(sets)))
                for s, o in zip(sets, out):
                    a = np.array(s)
                    ctx.state(d, s)
                    ctx.trans(n * n)
                    ctx.trace()
                    ctx.close(o, np.sqrt(((a[:, None] - a[None]) ** 2).sum(-1)), 'distance', 'pairwise Euclidean distances', s=s)

    def gc_ref(z, r):
        z = abs(z) / r
        if z < 1:
            return -z ** 5 / 4 + z ** 4 / 2 + 5 * z ** 3 / 8 - 5 * z ** 2 / 3 + 1
        if z < 2:
            return z ** 5 / 12 - z ** 4 / 2 + 5 * z ** 3 / 8 + 5 * z ** 2 / 3 - 5 * z + 4 - 2 / (3 * z)
        return 0.

    def taper(ctx):
        for n in range(1, 25 if th else 13):
            for r in (.4, .5, .8, 1., 1.5, 2., 3., 4.5, 7.):
                got = np.asarray(utils.gc_matrix(n, r))
                want = np.array([[gc_ref(min(abs(i - j), n - abs(i - j)), r) for j in range(n)] for i in range(n)])
                ctx.state(n, r)
                ctx.trans(n * n)
                ctx.trace()
                ctx.close(got, want, 'taper', 'Gaspari-Cohn correlation of the circular distance', n=n, r=r, atol=2e-5)

    def gain(ctx):
        E = [-1., 0., 2.]
        for dx, dy in [(1, 1), (2, 1), (1, 2), (2, 2)]:
            Hs = list(itertools.product(E, repeat=dx * dy))
            if len(Hs) > 30 and not th:
                Hs = Hs[::3]
            for h in Hs:
                H = np.array(h).reshape(dy, dx)
                for ci, (a, b, c) in enumerate([(1., 0., 1.), (2., .5, .7), (.5, -1., 2.)]):
                    Cs = np.array([[a, 0], [b, c]])[:dx, :dx]
                    Rs = np.array([[.8, 0], [.3, 1.2]])[:dy, :dy] * (1 + ci)
                    got = np.asarray(utils.kalman_gain(jnp.array(Cs), jnp.array(H), jnp.array(Rs)))
                    S = np.linalg.inv(H @ Cs @ Cs.T @ H.T + Rs @ Rs.T)
                    want = Cs @ Cs.T @ H.T @ S
                    ctx.state(dx, dy, h, ci)
                    ctx.trans()
                    ctx.trace()
                    ctx.close(got, want, 'gain', 'the Kalman gain', rtol=2e-3, atol=1e-4, H=H, Cs=Cs, Rs=Rs)
                    got = np.asarray(utils.kalman_gain(jnp.array(Cs), jnp.array(H), jnp.array(Rs), jnp.array(S)))
                    ctx.close(got, want, 'gain:inv', 'with the inverse supplied', rtol=2e-3, atol=1e-4, H=H)

    def covariance(ctx):
        covs = [1., .25, 4.]
        mats = [np.array(c) for c in covs] + [np.array(v) for d in (1, 2, 3) for v in itertools.product([.3, 1., 4.], repeat=d)]
        for d in (1, 2, 3):
            for off in itertools.product([-.6, 0., .5], repeat=d * (d - 1) // 2):
                for diag in itertools.product([.5, 2.], repeat=d):
                    L = np.diag(np.array(diag))
                    L[np.tril_indices(d, -1)] = off
                    mats.append(L @ L.T)
        for m in mats:
            for key in ('covariance', 'initial_covariance'):
                o = cdict()
                o.__class__ = type('O', (), {})
                utils.reset_covariance(o, key, jnp.array(m))
                pk = key.replace('covariance', 'precision')
                full = m if m.ndim == 2 else np.diag(np.atleast_1d(m))
                s, ps = np.asarray(getattr(o, key + '_sqrt')), np.asarray(getattr(o, pk + '_sqrt'))
                det = getattr(o, pk + '_det')
                mul = getattr(o, pk + '_mul')
                ctx.state(m.tolist(), key)
                ctx.trans()
                ctx.trace()
                fs = s if m.ndim == 2 else np.diag(np.atleast_1d(s))
                fp = ps if m.ndim == 2 else np.diag(np.atleast_1d(ps))
                ctx.close(fs @ fs.T, full, 'cov:sqrt', 'square root of the covariance', m=m)
                ctx.close(fp @ fp.T, np.linalg.inv(full), 'cov:prec', 'square root of the precision', rtol=2e-3, atol=1e-4, m=m)
                ctx.close(det, 1 / np.linalg.det(full), 'cov:det', 'precision determinant', rtol=2e-3, m=m)
                z = np.arange(1., full.shape[0] + 1)
                ctx.close(np.atleast_1d(np.asarray(mul(jnp.array(s), jnp.array(z)))), fs @ z, 'cov:mul', 'product with a vector', m=m)

    def dimension(ctx):
        A = [None, 2., jnp.array(1.), jnp.ones(2), jnp.ones((2, 3)), jnp.ones(1), 'x']
        for n in (1, 2, 3):
            for t in itertools.product(range(len(A)), repeat=n):
                args = [A[i] for i in t]
                want = next((a.shape[-1] for a in args if isinstance(a, jnp.ndarray) and a.ndim > 0), None)
                ctx.state(t)
                ctx.trans()
                ctx.trace()
                ctx.expect(utils.extract_dimension(*args) == want, 'dimension', 'last axis of the first array', t=t)

    return [('while-array', lambda c: loop(c, 'array')), ('while-tuple', lambda c: loop(c, 'tuple')), ('while-cdict', lambda c: loop(c, 'cdict')),
            ('while-nan', loop_nan), ('bisect', bis), ('bisect-smooth', bis_smooth), ('leave-one-out', loo), ('distance', dist), ('taper', taper),
            ('gain', gain), ('covariance', covariance), ('dimension', dimension)]
