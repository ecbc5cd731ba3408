"""C16: online fixed-lag smoothing: exact one-step law from a family of start states, by enumerating every draw."""
PROPERTY = 'C16'
JOBS = 8
BOUNDS = dict(
    quick='stitching: 2-3 particles x weights x blocks x full / capped rejection with valid or adaptive bounds; propagation: 2 particles, 1-4 earlier times, lag 1-4, '
          'weighted and unweighted starts, resampled or not, both smoother variants, full and rejection, bootstrap and guided filters; two steps in sequence',
    thorough='caps up to 3, 3 particles, more start states, two-step sequences of the backward-simulation variant')
ASSUMPTIONS = ['rejection with a bound that dominates the transition density; with a smaller bound the restart rule is compared with its reference enumeration', 'lag at least 1']


def case_names(tier):
    return ['stitch', 'stitch-rejection', 'stitch-rejection-pair', 'stitch-adaptive', 'pf-equal', 'pf-weighted', 'pf-guided', 'pf-rejection', 'pf-two-steps', 'pf-three', 'bs-1', 'bs-2', 'bs-3',
            'bs-resampled', 'bs-guided', 'bs-rejection', 'bs-marginal', 'bs-two-steps']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, R, Law, same_law, law, PM1, cdict, bits
    from mc import fssm
    import itertools
    from mocat.ssm import BootstrapFilter, propagate_particle_smoother, initiate_particles
    from mocat.src.ssm import online_smoothing as os_
    th = tier == 'thorough'
    TS = [0., 1., 3., 3.5, 5., 6.]
    YS = [.3, 1., -.7, .9, .2, -.4]
    STEP = {nm: (L, m) for nm, L, m in fssm.stepmodels()}
    SM = dict(fssm.models(2))
    PICK = dict(full=lambda w, D: fssm.choice_law(w, D))
    FPF = fssm.Guided

    def one(f, start=0., cache={}, tag=None):
        """all executions of f(start, key), compiled once per tag"""
        g = cache.setdefault(tag, jax.jit(f)) if tag is not None else jax.jit(f)
        return explore(g, [start], one=True, jit=False, max_leaves=400000)

    def stitch_ref(ssm, x0fix, t, x0, x1, lw, t1, step):
        P = ssm.P(t, t1)
        with np.errstate(divide='ignore'):
            l = np.asarray(lw, float) - np.log(np.array([P[a, b] for a, b in zip(x0, x1)]))
        return step(fssm.norm(l), np.array([[P[a, b] for b in x1] for a in x0fix]))

    def refstep(K=0, b0=0., infl=1.01, L=2):
        return fssm.choice_law if not K else (lambda w, D: fssm.rejection_law(w, D, K, b0, infl, L))

    # ------------------------------------------------------------------------------------------------ stitching itself
    def stitching(ctx, nm, n, K=0, b0=0., infl=1.01, exact=True, rows=(1, 2), tag='stitch'):
        L, ssm = STEP[nm]
        L = L if b0 <= 1. else int(round(L * b0))
        C.alpha = dict(normal=PM1, uniform=bits(L))
        S = ssm.S
        pats = [[0, 1, 1], [1, 0, 0], [1, 1, 0], [0, 0, 1]] if S == 2 else [[0, 1, 2], [2, 0, 1], [1, 1, 0], [0, 2, 2]]
        lws = [[0., 0., 0.], [-.4, .9, .2]] + ([[0., -np.inf, .3]] if K == 0 or th else [])
        for e, (i, j, k), lw, r in itertools.product(rows, [(0, 1, 2), (2, 0, 1), (1, 3, 0)], lws, (2, 3)):
            if K and (r == 3 or e == 2) and not th:
                continue
            t, t1 = TS[1], TS[2]
            early = np.array([pats[(i + q) % 4][:n] for q in range(e)], float)[::-1]
            early[-1] = pats[i][:n]
            recent = np.array([pats[j][:n], pats[k][:n]] + [[q + 5 for q in range(n)]] * (r - 2), float)
            P = ssm.P(t, t1)
            x0, x1, xf = recent[0].astype(int), recent[1].astype(int), early[-1].astype(int)
            l = np.array(lw[:n])
            alive = l > -np.inf
            if any(P[a, b] == 0 for a, b in zip(x0, x1)) or any(sum(P[a, b] for b, z in zip(x1, alive) if z) == 0 for a in xf):
                continue
            E, Rc = jnp.array(early)[..., None], jnp.array(recent)[..., None]

            def f(s, key):
                v, nte = os_.fixed_lag_stitching(ssm, s[0], t, s[1], s[2], t1, key, K, b0, infl)
                return dict(v=v)
            lv = one(f, (E, Rc, jnp.array(l)), tag=(nm, n, K, b0, infl, e, r))
            ctx.explored(lv)
            got = {}
            for q in lv:
                v = q.out['v']
                if not ctx.expect(v.shape == (e + r - 1, n, 1), 'stitch:shape', 'early block and recent block joined', shape=v.shape):
                    return
                ctx.expect(np.array_equal(v[:e, :, 0], early), 'stitch:early', 'the early block is fixed', got=v[:e, :, 0], want=early)
                cols = [tuple(c) for c in recent[1:].T]
                ctx.expect(all(tuple(v[e:, s, 0]) in cols for s in range(n)), 'stitch:recent', 'recent parts are whole candidates', got=v[e:, :, 0])
                kk = R(v[e:, :, 0], 1)
                got[kk] = got.get(kk, 0) + q.p
                ctx.state(nm, n, K, b0, early.tolist(), recent.tolist(), lw, kk)
                ctx.outcome(kk)
            want = Law()
            for a, p in stitch_ref(ssm, xf, t, x0, x1, l, t1, refstep(K if not exact else 0, b0, infl, L)).items():
                if p > 0:
                    want.add(R(recent[1:, list(a)], 1), p)
            same_law(ctx, got, want, f'{tag}:law', 'law of the stitched trajectories', model=nm, n=n, cap=K, bound=b0, early=early, recent=recent, lw=lw)
        ctx.sample(dict(case=tag, model=nm, n=n, cap=K, bound=b0))

    # ------------------------------------------------------------------------------------------------ filter-based smoother
    def fil_step(ssm, pf, x, t0, y, t1):
        init, step = fssm.kernels(ssm, pf)
        M, W = step(t0, y, t1)
        M = M / M.sum(1, keepdims=True)
        for z in itertools.product(range(ssm.S), repeat=len(x)):
            p = np.prod([M[a, b] for a, b in zip(x, z)])
            if p > 0:
                yield p, z, np.array([W[a, b] for a, b in zip(x, z)])

    def ref_pf(ssm, pf, vals, lw, y, lag, step):
        """vals: tuple of rows; returns law of (rows, log weights)"""
        T, n = len(vals), len(vals[0])
        out = {}
        pars = [(tuple(range(n)), 1.)]
        if fssm.ess(lw) < n - 1e-3:
            w = fssm.norm(lw)
            pars = [(a, np.prod(w[list(a)])) for a in itertools.product(range(n), repeat=n)]
        for a, pa in pars:
            if pa == 0:
                continue
            v = tuple(tuple(r[i] for i in a) for r in vals)
            for pz, z, l in fil_step(ssm, pf, v[-1], TS[T - 1], y, TS[T]):
                full = v + (z,)
                if T + 1 > lag:
                    c = T + 1 - lag
                    for js, pj in stitch_ref(ssm, full[c - 1], TS[c - 1], full[c - 1], full[c], l, TS[c], step).items():
                        if pj > 0:
                            k = (full[:c] + tuple(tuple(r[j] for j in js) for r in full[c:]), (0.,) * n)
                            out[k] = out.get(k, 0) + pa * pz * pj
                else:
                    k = (full, tuple(l))
                    out[k] = out.get(k, 0) + pa * pz
        return out

    def start_vals(T, n, S=2):
        a = [[0, 1, 0], [1, 0, 0], [1, 1, 0], [0, 1, 1]]
        b = [[1, 1, 0], [0, 1, 0], [1, 0, 1], [0, 0, 1]]
        return [tuple(tuple(r[:n]) for r in x[:T]) for x in (a, b)][: 2 if th else 2]

    def pf_case(ctx, ssm, pf, lws, Ts, lags, K=0, b0=0., infl=1.01, L=2, n=2, tag='pf', exact=True, dims=(1, 2)):
        C.alpha = dict(normal=PM1, uniform=bits(L))
        for T, lag in itertools.product(Ts, lags):
            for vi, vals in enumerate(start_vals(T, n)):
                for lw, nd in itertools.product(lws, dims):
                    if nd == 1 and vi == 1 and not th:
                        continue
                    lw = np.array(lw[:n])
                    LW = jnp.array(lw) if nd == 1 else jnp.array(np.vstack([np.zeros((T - 1, n)), lw[None]]))
                    p0 = dict(value=jnp.array(vals, dtype=float)[..., None], log_weight=LW, y=jnp.array(YS[:T])[:, None], t=jnp.array(TS[:T]), ess=jnp.ones(T) * n)

                    def f(s, key):
                        o = propagate_particle_smoother(ssm, pf, cdict(**s), jnp.array([YS[T]]), TS[T], key, lag, False, maximum_rejections=K, init_bound_param=b0, bound_inflation=infl)
                        return dict(v=o.value, l=o.log_weight, t=o.t, y=o.y, e=o.ess)
                    lv = one(f, p0, tag=(ctx.case, T, lag, nd, K))
                    ctx.explored(lv)
                    got = {}
                    for q in lv:
                        v = q.out['v']
                        if not ctx.expect(v.shape == (T + 1, n, 1), f'{tag}:shape', 'exactly one time step appended', shape=v.shape, T=T):
                            return
                        k = (R(v[..., 0], 1), R(q.out['l'].ravel(), 3))
                        got[k] = got.get(k, 0) + q.p
                        ctx.state(tag, ssm.name, pf.name, T, lag, vals, lw.tolist(), K, k)
                        ctx.outcome(k)
                        if T + 1 <= lag:
                            ctx.close(q.out['e'], fssm.ess(q.out['l'].ravel()), f'{tag}:ess', 'effective sample size of the weights', rtol=1e-3)
                        # before the window: whole trajectories only
                        old = [tuple(c) for c in np.array(vals, float)[:max(T + 1 - lag, 0)].T]
                        if old and T + 1 > lag:
                            ctx.expect(all(tuple(v[:T + 1 - lag, s, 0]) in old for s in range(n)), f'{tag}:early', 'trajectories before the lag window are unchanged',
                                       got=v[..., 0], before=vals, lag=lag)
                    o = lv[0].out
                    ctx.close(o['t'], TS[:T + 1], f'{tag}:t', 'times aligned')
                    ctx.close(o['y'].ravel(), YS[:T + 1], f'{tag}:y', 'observations aligned')
                    want = Law()
                    for (v, l), p in ref_pf(ssm, pf, vals, lw, YS[T], lag, refstep(K if not exact else 0, b0, infl, L)).items():
                        k = (R(np.array(v, float), 1), R(np.array(l), 3))
                        want[k] = want.get(k, 0) + p
                    same_law(ctx, got, want, f'{tag}:law', 'law of the trajectories and weights', T=T, lag=lag, start=vals, lw=lw, filter=pf.name, cap=K, bound=b0)
        ctx.sample(dict(case=tag, filter=pf.name, cap=K))

    def pf_two(ctx):
        """two updates in sequence from freshly initiated particles"""
        C.alpha = dict(normal=PM1, uniform=bits(2))
        ssm, pf, n = SM['a'], BootstrapFilter(), 2
        for lag in (1, 2, 3):
            start = cdict(value=jnp.array([[[0.], [1.]]]), log_weight=jnp.array([[-.3, .4]]), y=jnp.array([[YS[0]]]), t=jnp.array(TS[:1]), ess=jnp.ones(1) * 2.)

            def f(s, key):
                o = start
                for i, k in enumerate(jax.random.split(key)):
                    o = propagate_particle_smoother(ssm, pf, o, jnp.array([YS[1 + i]]), TS[1 + i], k, lag, False)
                return dict(v=o.value, l=o.log_weight, t=o.t, y=o.y)
            lv = one(f)
            ctx.explored(lv)
            cur = {(((0, 1),), (-.3, .4)): 1.}
            for i in range(2):
                nxt = {}
                for (v, l), p in cur.items():
                    for k, q in ref_pf(ssm, pf, v, np.array(l), YS[1 + i], lag, fssm.choice_law).items():
                        nxt[k] = nxt.get(k, 0) + p * q
                cur = nxt
            want = Law()
            for (v, l), p in cur.items():
                k = (R(np.array(v, float), 1), R(np.array(l), 3))
                want[k] = want.get(k, 0) + p
            got = law(lv, lambda o: (R(o['v'][..., 0], 1), R(o['l'], 3)))
            for k in got:
                ctx.state(lag, k)
            same_law(ctx, got, want, 'pf:two-steps', 'two updates in sequence', lag=lag)
            ctx.close(lv[0].out['t'], TS[:3], 'pf:t', 'times aligned')
            ctx.close(lv[0].out['y'].ravel(), YS[:3], 'pf:y', 'observations aligned')

    # ------------------------------------------------------------------------------------------------ backward-simulation smoother
    def ref_bs(ssm, pf, vals, mvals, mlw, mess, y, lag, thr, step):
        T, n = len(mvals), len(vals[0])
        out = {}
        N = len(mvals[0])
        pars = [(tuple(range(N)), 1.)]
        res = mess[-1] < thr * N
        if res:
            w = fssm.norm(mlw[-1])
            pars = [(a, np.prod(w[list(a)])) for a in itertools.product(range(N), repeat=N)]
        for a, pa in pars:
            if pa == 0:
                continue
            mv = mvals[:-1] + (tuple(mvals[-1][i] for i in a),)
            base = np.zeros(N) if res else np.array(mlw[-1])
            for pz, z, l in fil_step(ssm, pf, mv[-1], TS[T - 1], y, TS[T]):
                m2 = mv + (z,)
                w2 = mlw[:-1] + (tuple(base), tuple(base + l))
                c = max(T + 1 - lag - 1, 0)
                # backward simulation over the window
                cur = {}
                wl = fssm.norm(w2[-1])
                for b in itertools.product(range(N), repeat=n):
                    p = np.prod(wl[list(b)])
                    if p > 0:
                        k = (tuple(m2[-1][i] for i in b),)
                        cur[k] = cur.get(k, 0) + p
                for t in range(T - 1, c - 1, -1):
                    P = ssm.P(TS[t], TS[t + 1])
                    nxt = {}
                    for path, p in cur.items():
                        D = np.array([[P[i, j] for i in m2[t]] for j in path[0]])
                        for b, q in step(fssm.norm(w2[t]), D).items():
                            if q > 0:
                                k = (tuple(m2[t][i] for i in b),) + path
                                nxt[k] = nxt.get(k, 0) + p * q
                    cur = nxt
                for path, p in cur.items():
                    if T + 1 > lag:
                        s = T + 1 - lag
                        for js, pj in stitch_ref(ssm, vals[s - 1], TS[s - 1], path[0], path[1], np.zeros(n), TS[s], step).items():
                            if pj > 0:
                                k = (vals[:s] + tuple(tuple(r[j] for j in js) for r in path[1:]), m2, w2)
                                out[k] = out.get(k, 0) + pa * pz * p * pj
                    else:
                        k = (path, m2, w2)
                        out[k] = out.get(k, 0) + pa * pz * p
        return out

    def bs_key(v, m, w):
        return (R(np.array(v, float), 1), R(np.array(m, float), 1), R(np.array(w, float), 3))

    def bs_case(ctx, ssm, pf, Ts, lags, thr=.5, K=0, b0=0., L=2, marginal=False, tag='bs', lwset=((-.3, .4),), n=2):
        C.alpha = dict(normal=PM1, uniform=bits(L))
        for T, lag in itertools.product(Ts, lags):
            for vals, lw in itertools.product(start_vals(T, n)[: 2 if th or marginal else 1], lwset):
                mvals = start_vals(T, n)[1] if marginal else vals
                mlw = tuple((0.,) * n if i % 2 else tuple(np.array(lw) * (1 + i)) for i in range(T - 1)) + (tuple(np.array(lw, float)),)
                mess = [fssm.ess(r) for r in mlw]
                arr = lambda x: jnp.array(x, dtype=float)
                rec = dict(y=jnp.array(YS[:T])[:, None], t=jnp.array(TS[:T]))
                p0 = dict(value=arr(vals)[..., None], log_weight=arr(mlw) if not marginal else jnp.zeros(n), ess=arr(mess), **rec)
                if marginal:
                    p0['marginal_filter'] = cdict(value=arr(mvals)[..., None], log_weight=arr(mlw), ess=arr(mess), **rec)

                def f(s, key):
                    o = propagate_particle_smoother(ssm, pf, cdict(**p0), jnp.array([YS[T]]), TS[T], key, lag, True, thr, maximum_rejections=K, init_bound_param=b0)
                    m = o.marginal_filter
                    return dict(v=o.value, l=o.log_weight, t=o.t, y=o.y, e=o.ess, mv=m.value, ml=m.log_weight, mt=m.t, my=m.y, me=m.ess)
                lv = one(f)
                ctx.explored(lv)
                got = {}
                for q in lv:
                    o = q.out
                    if not ctx.expect(o['v'].shape == (T + 1, n, 1) and o['mv'].shape == (T + 1, n, 1), f'{tag}:shape', 'exactly one time step appended', shape=o['v'].shape, T=T):
                        return
                    k = bs_key(o['v'][..., 0], o['mv'][..., 0], o['ml'])
                    got[k] = got.get(k, 0) + q.p
                    ctx.state(tag, ssm.name, pf.name, T, lag, vals, lw, thr, K, marginal, k)
                    if T + 1 > lag:
                        ctx.expect(np.array_equal(o['v'][:T + 1 - lag, :, 0], np.array(vals, float)[:T + 1 - lag]), f'{tag}:early', 'trajectories before the lag window are unchanged',
                                   got=o['v'][..., 0], before=vals, lag=lag)
                    ctx.close(o['l'], np.zeros(n), f'{tag}:weights', 'smoothed trajectories are unweighted')
                    ctx.close(o['e'], fssm.ess(o['ml'][-1]), f'{tag}:ess', 'effective sample size of the filter weights', rtol=1e-3)
                    ctx.close(o['me'][-1], fssm.ess(o['ml'][-1]), f'{tag}:ess', 'effective sample size of the filter weights', rtol=1e-3)
                o = lv[0].out
                ctx.close(o['t'], TS[:T + 1], f'{tag}:t', 'times aligned')
                ctx.close(o['y'].ravel(), YS[:T + 1], f'{tag}:y', 'observations aligned')
                ctx.close(o['mt'], TS[:T + 1], f'{tag}:mt', 'filter times aligned')
                ctx.close(o['my'].ravel(), YS[:T + 1], f'{tag}:my', 'filter observations aligned')
                want = Law()
                for k, p in ref_bs(ssm, pf, vals, mvals, mlw, mess, YS[T], lag, thr, fssm.choice_law).items():
                    k = bs_key(*k)
                    want[k] = want.get(k, 0) + p
                same_law(ctx, got, want, f'{tag}:law', 'law of the trajectories and of the marginal filter', T=T, lag=lag, start=vals, lw=lw, filter=pf.name, cap=K, thr=thr)
        ctx.sample(dict(case=tag, filter=pf.name, cap=K))

    def bs_two(ctx):
        """two updates in sequence, starting from one weighted particle system"""
        C.alpha = dict(normal=PM1, uniform=bits(2))
        ssm, pf = SM['a'], BootstrapFilter()
        for lag, x, lw, steps in [(1, (0,), ((0.,),), 3), (2, (1,), ((0.,),), 4)] + ([(1, (0, 1), ((-.3, .4),), 2)] if th else []):
            start = lambda: cdict(value=jnp.array([x], dtype=float)[..., None], log_weight=jnp.array(lw), y=jnp.array([[YS[0]]]), t=jnp.array(TS[:1]), ess=jnp.array([fssm.ess(lw[0])]))

            def f(s, key):
                o = start()
                for i, k in enumerate(jax.random.split(key, steps)):
                    o = propagate_particle_smoother(ssm, pf, o, jnp.array([YS[1 + i]]), TS[1 + i], k, lag, True, .5)
                m = o.marginal_filter
                return dict(v=o.value, mv=m.value, ml=m.log_weight, t=o.t)
            lv = one(f)
            ctx.explored(lv)
            cur = {((x,), (x,), lw): 1.}
            for i in range(steps):
                nxt = {}
                for (v, m, w), p in cur.items():
                    for k, q in ref_bs(ssm, pf, v, m, w, [fssm.ess(r) for r in w], YS[1 + i], lag, .5, fssm.choice_law).items():
                        nxt[k] = nxt.get(k, 0) + p * q
                cur = nxt
            want = Law()
            for k, p in cur.items():
                k = bs_key(*k)
                want[k] = want.get(k, 0) + p
            got = law(lv, lambda o: bs_key(o['v'][..., 0], o['mv'][..., 0], o['ml']))
            for k in got:
                ctx.state(lag, k)
            same_law(ctx, got, want, 'bs:two-steps', 'two updates in sequence', lag=lag)
            ctx.close(lv[0].out['t'], TS[:steps + 1], 'bs:t', 'times aligned')

    B, G = BootstrapFilter, FPF
    EQ, WT = [[0., 0., 0.]], [[-.4, .9, .2], [.5, -1.5, 0.]]
    half = STEP['half'][1]
    return [('stitch', lambda c: [stitching(c, nm, n) for nm in STEP for n in (2, 3)]),
            ('stitch-rejection', lambda c: [stitching(c, nm, 2, K, 1., tag='stitch-rej') for nm, K in [('half', 1), ('half', 2)] + ([('quarter', 1)] if not th else [('quarter', 1), ('half', 3), ('zero', 1), ('zero', 2)])]),
            ('stitch-rejection-pair', lambda c: [stitching(c, 'half', 3, 1, 1., tag='stitch-rej'), stitching(c, 'half', 2, 1, 1.5, tag='stitch-rej')]),
            ('stitch-adaptive', lambda c: [stitching(c, 'half', 2, K, b0, infl, exact=False, tag='stitch-restart') for K in (1, 2) for b0, infl in ((0., 1.01), (.5, 1.2))]),
            ('pf-equal', lambda c: pf_case(c, SM['a'], B(), EQ, (1, 2, 3, 4), (1, 2, 3, 4))),
            ('pf-weighted', lambda c: pf_case(c, SM['a'], B(), WT[:1] if not th else WT, (1, 2, 3), (1, 2, 3))),
            ('pf-guided', lambda c: pf_case(c, SM['a'], G(), EQ + WT[:1], (1, 3), (1, 2), dims=(2,))),
            ('pf-rejection', lambda c: [pf_case(c, half, B(), EQ, (1, 2), (1, 2), K=K, b0=1., dims=(2,), tag='pf-rej') for K in ((1, 2) if not th else (1, 2, 3))]),
            ('pf-two-steps', pf_two), ('pf-three', lambda c: pf_case(c, SM['a'], B(), EQ + (WT[:1] if th else []), (1, 2), (1, 2), n=3, dims=(2,))),
            ('bs-1', lambda c: bs_case(c, SM['a'], B(), (1, 2, 3), (1,), thr=.5)), ('bs-2', lambda c: bs_case(c, SM['a'], B(), (1, 2, 3) if th else (2, 3), (2,), thr=.5)),
            ('bs-3', lambda c: bs_case(c, SM['a'], B(), (1, 2), (3,), thr=.5)), ('bs-resampled', lambda c: bs_case(c, SM['a'], B(), (1, 2), (1, 2) if th else (1,), thr=1.1)),
            ('bs-guided', lambda c: bs_case(c, SM['a'], G(), (2,), (1,), thr=.5)),
            ('bs-rejection', lambda c: bs_case(c, fssm.Steps([.5, .5], [[.5, 1.], [1., .5]], [[1., .5], [.5, 1.]], [.2, 1.1]), Fixed(), (1, 2), (1,), thr=0., K=1, b0=1., tag='bs-rej')),
            ('bs-marginal', lambda c: bs_case(c, SM['a'], B(), (2, 3), (1,), thr=.5, marginal=True)), ('bs-two-steps', bs_two)]


def Fixed():
    """filter with a degenerate proposal, so that the rejection draws are the only ones"""
    from mc import fssm
    return fssm.Guided()
