"""C15: backward simulation: exact law of the simulated trajectories by enumerating every draw."""
PROPERTY = 'C15'
JOBS = 8
BOUNDS = dict(
    quick='2-3 filter particles x 1-3 times (irregular) x weights incl. zero ones x 1-2 trajectories; full, rejection capped at 1-3 rounds with valid bound (tight and loose) '
          'and with adaptive bounds: every outcome of every draw; complete forward filtering backward simulation with 2 particles',
    thorough='caps up to 5, 3 trajectories, 4 times')
ASSUMPTIONS = ['the rejection variants have the exact law when the supplied bound dominates the transition density; with a smaller bound the restart rule is compared '
               'with its reference enumeration', 'acceptance uniforms on a grid on which the acceptance probabilities are exact']


def case_names(tier):
    return ['full', 'full-3', 'full-kinds', 'cap1', 'cap2', 'cap2-pair', 'cap3', 'tight', 'adaptive', 'adaptive-pair', 'long', 'ffbs', 'ffbs-rejection', 'resampling']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, R, Law, same_law, law, PM1, cdict, bits
    from mc import fssm
    import itertools
    from mocat.ssm import BootstrapFilter, backward_simulation, forward_filtering_backward_simulation, run_particle_filter_for_marginals
    from mocat.src.ssm import backward as bw
    th = tier == 'thorough'
    TS = [0., 1., 3., 5.]
    M = {nm: (L, m) for nm, L, m in fssm.stepmodels()}

    def particles(S, n, T, k):
        """filter output: values, weights, recorded y and t"""
        rows = [[0, 1, 2], [2, 0, 1], [1, 1, 0], [1, 2, 2]] if S == 3 else [[0, 1, 1], [1, 0, 1], [1, 0, 0], [0, 1, 0]]
        ws = [[[0., 0., 0.], [-.4, .3, -1.], [.2, -.7, .1], [0., -1., .4]],
              [[-.2, .9, .1], [0., -np.inf, .5], [.5, -.5, 0.], [0., 0., 0.]],
              [[800., 801., 799.], [-800., -800., -801.], [-np.inf, 0., 1.], [.3, -np.inf, 0.]]][k]
        v = np.array([r[:n] for r in rows[:T]], float)[..., None]
        lw = np.array([w[:n] for w in ws[:T]], float)
        return v, lw

    def cd(v, lw, T):
        return cdict(value=jnp.array(v), log_weight=jnp.array(lw), t=jnp.array(TS[:T]), y=jnp.arange(T, dtype=float)[:, None], ess=jnp.array([fssm.ess(r) for r in lw]))

    def ref(ssm, v, lw, ns, step=None):
        """law of the (index) trajectories [T][ns]; step(w, D) gives the joint law of the chosen indices"""
        step = step or fssm.choice_law
        T = len(v)
        cur = {}
        w = fssm.norm(lw[-1])
        for a in itertools.product(range(len(w)), repeat=ns):
            p = np.prod(w[list(a)])
            if p > 0:
                cur[(a,)] = p
        for t in range(T - 2, -1, -1):
            P = ssm.P(TS[t], TS[t + 1])
            x0 = v[t, :, 0].astype(int)
            wt = fssm.norm(lw[t])
            nxt, cache = {}, {}
            for path, p in cur.items():
                x1 = tuple(v[t + 1, list(path[0]), 0].astype(int))
                if x1 not in cache:
                    D = np.array([[P[i, j] for i in x0] for j in x1])
                    cache[x1] = step(wt, D)
                for a, q in cache[x1].items():
                    if q > 0:
                        nxt[(a,) + path] = nxt.get((a,) + path, 0) + p * q
            cur = nxt
        out = Law()
        for path, p in cur.items():
            k = R(np.array([v[t, list(a), 0] for t, a in enumerate(path)]), 1)
            out[k] = out.get(k, 0) + p
        return out

    def go(ctx, ssm, v, lw, ns, K=0, b0=0., infl=1.01, L=4, key='backward:law', exact=True, one=True, **info):
        T, n = v.shape[:2]
        C.alpha = dict(normal=PM1, uniform=bits(L))
        parts = cd(v, lw, T)
        before = jax.tree_util.tree_map(np.asarray, parts)

        def f(s, k):
            o = backward_simulation(ssm, parts, k, *((ns,) if ns != n else ()), **(dict(maximum_rejections=K, transition_dens_bound_parameter=b0, bound_inflation=infl) if K else {}))
            return dict(v=o.value, t=o.t, y=o.y, has=jnp.array(float(hasattr(o, 'log_weight'))), nte=jnp.asarray(o.num_transition_evals))
        if K:
            lv = explore(jax.jit(f), [0.], one=True, jit=False, max_leaves=400000)
        else:
            lv = explore(f, [0.], batch=128)
        ctx.explored(lv)
        got = {}
        for l in lv:
            k = R(l.out['v'][..., 0], 1)
            got[k] = got.get(k, 0) + l.p
            ctx.state(ssm.name, n, T, ns, K, b0, infl, repr(lw), k)
            ctx.outcome(k)
            ctx.expect(l.out['v'].shape == (T, ns, 1), 'backward:shape', 'one trajectory per requested sample', shape=l.out['v'].shape)
            ok = all(any(np.array_equal(l.out['v'][t, s], v[t, j]) for j in range(n) if lw[t, j] > -np.inf) for t in range(T) for s in range(ns))
            ctx.expect(ok, 'backward:particles', 'trajectories consist of living filter particles of the right times', got=l.out['v'][..., 0], values=v[..., 0])
        o = lv[0].out
        ctx.close(o['t'], TS[:T], 'backward:t', 'times kept')
        ctx.close(o['y'].ravel(), np.arange(T), 'backward:y', 'observations kept')
        ctx.close(o['has'], 0., 'backward:unweighted', 'trajectories are unweighted')
        for a, b in zip(jax.tree_util.tree_leaves(before), jax.tree_util.tree_leaves(parts)):
            ctx.close(b, a, 'backward:input', 'the filter output is not modified')
        want = ref(ssm, v, lw, ns, None if exact else (lambda w, D: fssm.rejection_law(w, D, K, b0, infl, L)))
        same_law(ctx, got, want, key, 'law of the trajectories', n=n, T=T, ns=ns, K=K, bound=b0, inflation=infl, lw=lw, values=v[..., 0], **info)
        if exact and K:
            alt = ref(ssm, v, lw, ns, lambda w, D: fssm.rejection_law(w, D, K, b0, infl, L))
            same_law(ctx, alt, want, 'oracle:rejection', 'the two references agree')
        ctx.sample(dict(model=ssm.name, particles=n, times=T, trajectories=ns, cap=K, bound=b0, executions=len(lv), outcomes=len(got)))

    def full(ctx):
        for nm in ('half', 'zero', 'quarter'):
            L, ssm = M[nm]
            for k in (0, 1, 2):
                for n, T, ns in [(2, 1, 1), (2, 2, 2), (2, 3, 2), (2, 3, 1)]:
                    v, lw = particles(ssm.S, n, T, k)
                    if nm == 'zero' and n == 2:
                        continue
                    go(ctx, ssm, v, lw, ns)

    def full3(ctx):
        for nm in ('quarter', 'zero'):
            L, ssm = M[nm]
            for k in (0, 1, 2):
                for n, T, ns in [(3, 2, 2), (3, 3, 1), (3, 3, 2)] + ([(3, 2, 3), (3, 4, 1)] if th else []):
                    v, lw = particles(ssm.S, n, T, k)
                    go(ctx, ssm, v, lw, ns)

    def kinds(ctx):
        """the generic finite models with smoothly time dependent transitions"""
        for S in (2, 3):
            for nm, ssm in fssm.models(S):
                for k in (0, 1):
                    v, lw = particles(S, 3, 3, k)
                    go(ctx, ssm, v, lw, 2 if th else 1)
                    go(ctx, ssm, v[:2], lw[:2], 3)

    def caps(ctx, K, ns, n=2, T=2, names=('half', 'quarter', 'zero'), b0=1.):
        for nm, n in [(nm, n) for nm in names] + ([('quarter', 3), ('zero', 3)] if th and ns == 1 and K < 3 else []):
            L, ssm = M[nm]
            for k in (0, 1, 2):
                v, lw = particles(ssm.S, n, T, k)
                if nm == 'zero' and n == 2:
                    v = np.array([[1., 0.], [0., 1.], [1., 0.]])[:T, :n, None]
                go(ctx, ssm, v, lw, ns, K=K, b0=b0, L=int(round(L * b0)) if b0 != 1 else L)

    def tight(ctx):
        """bounds looser than the maximal density, and equal to the largest density that occurs"""
        ssm = fssm.Steps([.5, .5], [[.25, .75], [.75, .5]], [[.5, .25], [.75, .25]], [.2, 1.1])
        for k in (0, 1):
            v, lw = particles(2, 2, 2, k)
            for b0, L in ((.75, 3), (1., 4), (1.5, 6)):
                for K in (1, 2):
                    go(ctx, ssm, v, lw, 1, K=K, b0=b0, L=L)
            v, lw = particles(2, 2, 3, k)
            go(ctx, ssm, v, lw, 1, K=1, b0=.75, L=3)

    def adaptive(ctx, ns):
        """bound discovered during sampling: restart of all trajectories with the inflated bound"""
        for nm in ('half', 'quarter'):
            L, ssm = M[nm]
            for k in (0, 1):
                for K in ((1, 2, 3) if ns == 1 else (1, 2)):
                    if (nm == 'quarter' and ns == 2) and K > 1:
                        continue
                    for b0, infl in ((0., 1.01), (.5, 1.2)):
                        v, lw = particles(ssm.S, 2, 2, k)
                        go(ctx, ssm, v, lw, ns, K=K, b0=b0, infl=infl, L=2, key='backward:restart', exact=False)

    def longer(ctx):
        L, ssm = M['half']
        for k in (0, 1):
            v, lw = particles(2, 2, 4 if th else 3, k)
            go(ctx, ssm, v, lw, 1, K=1, b0=1., L=2)
            if th:
                go(ctx, ssm, v[:3], lw[:3], 1, K=3, b0=1., L=2)

    def ffbs(ctx, K):
        """forward filtering backward simulation = filter, then backward simulation of its particles"""
        C.alpha = dict(normal=PM1, uniform=bits(2))
        L, ssm = M['half']
        sm = fssm.Steps([.5, .5], [[.5, .5], [.5, .5]], [[.5, .5], [.5, .5]], [.2, 1.1])
        for ssm, thr in ((sm, 0.), (sm, 1.1)) if K else ((sm, 0.), (fssm.Steps([.3, .7], [[.25, .75], [.5, .5]], [[.5, .5], [.75, .25]], [.2, 1.1]), .9)):
            y, t = jnp.array([[.3], [1.]]), jnp.array(TS[:2])
            kw = dict(maximum_rejections=K, transition_dens_bound_parameter=.5) if K else {}

            def f(s, key):
                o = forward_filtering_backward_simulation(ssm, BootstrapFilter(), y, t, 1, key, n_pf=2, ess_threshold=thr, **kw)
                return dict(v=o.value, t=o.t, y=o.y)
            jax.core.Tracer.block_until_ready = lambda self: self       # lets the whole function be compiled once
            lv = explore(jax.jit(f), [0.], one=True, jit=False)
            ctx.explored(lv)
            got = law(lv, lambda o: R(o['v'][..., 0], 1))
            want = Law()
            init, step = fssm.kernels(ssm, BootstrapFilter())
            q, w0 = init(.3, TS[0])
            P, W = step(TS[0], 1., TS[1])
            for x in itertools.product(range(2), repeat=2):
                px = q[x[0]] * q[x[1]]
                lw0 = w0[list(x)]
                pars = [((0, 1), 1., lw0)]
                if fssm.ess(lw0) < thr * 2:
                    pars = [(a, np.prod(fssm.norm(lw0)[list(a)]), np.zeros(2)) for a in itertools.product(range(2), repeat=2)]
                for a, pa, base in pars:
                    xa = [x[i] for i in a]
                    for z in itertools.product(range(2), repeat=2):
                        pz = np.prod([P[i, j] for i, j in zip(xa, z)])
                        lw1 = base + np.array([W[i, j] for i, j in zip(xa, z)])
                        for path, p in ref(ssm, np.array([x, z], float)[..., None], np.array([lw0, lw1]), 1).items():
                            want[path] = want.get(path, 0) + px * pa * pz * p
            for k in got:
                ctx.state(thr, K, k)
            same_law(ctx, got, want, 'ffbs:law', 'filtering then backward simulation', thr=thr, K=K)
            ctx.close(lv[0].out['t'], TS[:2], 'ffbs:t', 'times')
            ctx.close(lv[0].out['y'], y, 'ffbs:y', 'observations')
            ctx.sample(dict(case='ffbs', cap=K, executions=len(lv)))

    def resampling(ctx):
        """one backward step: every variant for every next state, weights and cap gives the same law"""
        for nm, (L, ssm) in M.items():
            C.alpha = dict(normal=PM1, uniform=bits(L))
            x0 = jnp.array([[0.], [1.], [ssm.S - 1.]])
            for lw in ([0., 0., 0.], [-.3, .6, .1], [0., -np.inf, .4]):
                w = fssm.norm(lw)
                for x1 in range(ssm.S):
                    for (t0, t1) in ((0., 1.), (1., 3.), (1., 4.5)):
                        D = np.array([[ssm.P(t0, t1)[int(i), x1] for i in np.asarray(x0)[:, 0]]])
                        if (D * w).sum() == 0:
                            continue
                        want = Law()
                        for a, p in fssm.choice_law(w, D).items():
                            want.add(R(np.asarray(x0)[a[0], 0], 1), p)
                        fs = {'single': lambda k: bw.full_resample_single(ssm, x0, t0, jnp.array([float(x1)]), t1, jnp.array(lw), k),
                              'all': lambda k: bw.full_resampling(ssm, x0, t0, jnp.array([[float(x1)]]), t1, jnp.array(lw), k)[0]}
                        for K in (1, 2):
                            fs[f'rejection{K}'] = lambda k, K=K: bw.rejection_resampling(ssm, x0, t0, jnp.array([[float(x1)]]), t1, jnp.array(lw), k, K, 1., 1.01)[0][0]
                        for name, fn in fs.items():
                            if name == 'rejection2' and not (nm == 'half' or th):
                                continue
                            if name.startswith('rej') and (t0, t1) != (0., 1.) and not th:
                                continue
                            lv = explore(jax.jit(lambda s, k: fn(k)), [0.], one=True, jit=False)
                            ctx.explored(lv)
                            ctx.state(nm, tuple(lw), x1, t0, t1, name)
                            same_law(ctx, law(lv, lambda o: R(float(o[0]), 1)), want, f'backward:step:{name[:9]}', 'one backward step', model=nm, lw=lw, x1=x1, variant=name)

    return [('full', full), ('full-3', full3), ('full-kinds', kinds), ('cap1', lambda c: caps(c, 1, 1)), ('cap2', lambda c: caps(c, 2, 1)),
            ('cap2-pair', lambda c: [caps(c, 1, 2, names=('half',)), caps(c, 2, 2, names=('half',))] + ([caps(c, 2, 2, names=('zero',))] if th else [])),
            ('cap3', lambda c: [caps(c, K, 1, names=('half',)) for K in ((3, 4, 5) if th else (3,))]), ('tight', tight),
            ('adaptive', lambda c: adaptive(c, 1)), ('adaptive-pair', lambda c: adaptive(c, 2)), ('long', longer), ('ffbs', lambda c: ffbs(c, 0)), ('ffbs-rejection', lambda c: ffbs(c, 2)),
            ('resampling', resampling)]
