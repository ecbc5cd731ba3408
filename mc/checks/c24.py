"""C24: sample metrics against their definitions, on every chain over small alphabets."""
PROPERTY = 'C24'
JOBS = 8
BOUNDS = dict(
    quick='autocorrelation/IAT: every chain of length <= 7 over 3 values and <= 10 over 2 values x every lag bound, plus structured chains of length 1..1500; '
          'ess: every log-weight vector of length <= 4 over 7 values (incl. -inf, +-800) x shifts; squared jumps: every chain of <= 4 lattice points in 1-2d; '
          'ksd: every set of <= 3 lattice points x gradients x kernels x weights, every batch draw for n = 3',
    thorough='chains of length <= 8 over 3 values, <= 12 over 2 values, ksd with n = 4')
ASSUMPTIONS = ['float32 arithmetic', 'chains whose window rule is decided by a float tie are skipped', 'IAT with the default window']


def case_names(tier):
    return ['autocorr3', 'autocorr2', 'long', 'iat3', 'iat2', 'ess', 'ess-errors', 'sjd', 'ksd', 'ksd-weights', 'ksd-batch', 'ksd-cdict']


def cases(tier):
    from mc.lib import np, jnp, jax, C, explore, cdict, R
    import itertools
    from mocat import autocorrelation, integrated_autocorrelation_time, ess_autocorrelation, ess_log_weight, log_ess_log_weight, \
        squared_jumping_distance, ksd
    from mocat import kernels
    th = tier == 'thorough'

    def acf_ref(v, lag):
        c = v - v.mean()
        n = len(v)
        full = np.array([np.sum(c[:n - k] * c[k:]) for k in range(min(lag, n))])
        return full / full[0]

    def chains(V, n):
        a = np.array(list(itertools.product(V, repeat=n)), dtype=float)
        return a[np.ptp(a, axis=1) > 0]

    def autocorr(ctx, V, N):
        for n in range(2, N + 1):
            ch = chains(V, n)
            if len(ch) > 1500 and not th:
                ch = ch[::2]
            for lag in sorted({1, 2, n // 2 + 1, n - 1, n, n + 3, None}, key=lambda x: -1 if x is None else x):
                if lag is not None and lag < 1:
                    continue
                kw = {} if lag is None else dict(max_lag_eval=lag)
                out = np.asarray(jax.vmap(lambda v: autocorrelation(v, **kw))(jnp.array(ch)))
                for v, o in zip(ch, out):
                    ctx.state(v, lag)
                    ctx.trans(n)
                    ctx.trace()
                    ctx.close(o, acf_ref(v, lag or 1000), 'acf', 'autocorrelation at every lag below the bound', atol=2e-5, chain=v, lag=lag)
            if n <= 3:
                for v in ch:
                    o = autocorrelation(cdict(potential=jnp.array(v), value=jnp.zeros((n, 2))), n)
                    ctx.close(o, acf_ref(v, n), 'acf:cdict', 'of the potential of a sample', atol=2e-5, chain=v)

    def iat_ref(v, lag):
        a = acf_ref(v, lag)
        t = 1 + 2 * np.cumsum(a[1:])
        m = np.arange(1, len(t) + 1) - 5 * t
        if np.any(np.abs(m) < 1e-4):
            return None
        return t[np.argmax(m > 0)] if np.any(m > 0) else t[-1]

    def iat(ctx, V, N):
        for n in range(2, N + 1):
            ch = chains(V, n)
            if len(ch) > 1500 and not th:
                ch = ch[1::2]
            for lag in sorted({2, 3, n // 2 + 1, n, 1000}):
                if lag < 2:
                    continue
                out = np.asarray(jax.vmap(lambda v: integrated_autocorrelation_time(v, max_lag_eval=lag))(jnp.array(ch)))
                es = np.asarray(jax.vmap(lambda v: ess_autocorrelation(v, max_lag_eval=lag))(jnp.array(ch)))
                for v, o, e in zip(ch, out, es):
                    w = iat_ref(v, lag)
                    if w is None:
                        continue
                    ctx.state(v, lag)
                    ctx.trans(n)
                    ctx.trace()
                    ctx.close(o, w, 'iat', 'integrated autocorrelation time at the first lag m > 5 tau(m), or the last lag', atol=5e-5, chain=v, lag=lag)
                    if abs(w) > 1e-2:
                        ctx.close(e, n / w, 'ess:autocorr', 'chain length over integrated autocorrelation time', rtol=5e-3, atol=1e-3, chain=v, lag=lag)

    def long(ctx):
        """structured chains, with the default bounds: periodic, blocks, ramps and impulses of many lengths"""
        for n in list(range(2, 40)) + [63, 64, 65, 127, 128, 129, 250, 256, 257, 999, 1000, 1001, 1024, 1500]:
            t = np.arange(n)
            fam = dict(ramp=t / n, per2=(-1.) ** t, per3=(t % 3).astype(float), per7=np.sin(2 * np.pi * t / 7), block=(t < n // 2).astype(float),
                       impulse=(t == n // 3).astype(float), blocks=((t // 5) % 2).astype(float), offset=1000. + (t % 4),
                       slow=np.cos(np.pi * t / n), last=(t == n - 1).astype(float))
            for name, v in fam.items():
                if np.ptp(v) == 0:
                    continue
                v = v.astype(np.float32).astype(float)
                ctx.state(n, name)
                ctx.trans(n)
                ctx.trace()
                big = 1e-3 if name == 'offset' else 2e-4
                ctx.close(autocorrelation(jnp.array(v)), acf_ref(v, 1000), 'acf:long', 'autocorrelation', atol=big, n=n, family=name)
                for lag in (None, 2, 10, n):
                    w = iat_ref(v, lag or 1000)
                    if w is None or name == 'offset':
                        continue
                    m = np.arange(1, min(lag or 1000, n)) - 5 * (1 + 2 * np.cumsum(acf_ref(v, lag or 1000)[1:]))
                    if np.min(np.abs(m)) < 2e-2:
                        continue
                    kw = {} if lag is None else dict(max_lag_eval=lag)
                    ctx.close(integrated_autocorrelation_time(jnp.array(v), **kw), w, 'iat:long', 'IAT', rtol=2e-3, atol=2e-3, n=n, family=name, lag=lag)
                    if abs(w) > .05:
                        ctx.close(ess_autocorrelation(cdict(potential=jnp.array(v)), **kw), n / w, 'ess:long', 'ESS', rtol=2e-2, atol=2e-2, n=n, family=name, lag=lag)

    def ess(ctx):
        V = [-np.inf, -800., -30., -2., 0., 1.5, 500.]
        for n in (1, 2, 3, 4, 5 if th else 4):
            W = np.array(list(itertools.product(V, repeat=n)))
            for shift in (0., -700., 13.25):
                o = np.asarray(jax.vmap(ess_log_weight)(jnp.array(W + shift)))
                lo = np.asarray(jax.vmap(log_ess_log_weight)(jnp.array(W + shift)))
                for w, a, la in zip(W, o, lo):
                    ctx.state(w, shift)
                    ctx.trans(n)
                    ctx.trace()
                    if np.all(np.isneginf(w)):
                        continue
                    p = np.exp(w - w.max())
                    want = p.sum() ** 2 / (p ** 2).sum()
                    ctx.close(a, want, 'ess', '(sum w)^2 / sum w^2, whatever constant is added to the log weights', rtol=2e-3, w=w, shift=shift)
                    ctx.close(la, np.log(want), 'log-ess', 'its logarithm', rtol=1e-3, atol=1e-3, w=w, shift=shift)
                    ctx.expect(1 - 2e-3 <= a <= n * (1 + 2e-3), 'ess:range', 'between one and the number of weights', w=w)

    def ess_err(ctx):
        for w in itertools.product([-1., 0., 2.], repeat=3):
            ctx.state(w)
            ctx.trans()
            ctx.trace()
            a = np.exp(np.array(w))
            want = a.sum() ** 2 / (a ** 2).sum()
            c = cdict(value=jnp.zeros((3, 1)), log_weight=jnp.array(w))
            ctx.close(ess_log_weight(c), want, 'ess:cdict', 'of the log_weight of a sample')
            ctx.close(log_ess_log_weight(c), np.log(want), 'ess:cdict', 'of the log_weight of a sample')
        for bad in (cdict(value=jnp.zeros(3)), [0., 1.], None):
            try:
                ess_log_weight(bad)
                ok = False
            except TypeError:
                ok = True
            ctx.expect(ok, 'ess:type', 'an object without log weights is refused', bad=repr(bad))
        for f in (autocorrelation, integrated_autocorrelation_time, ess_autocorrelation):
            try:
                f(jnp.zeros((3, 2)))
                ok = False
            except TypeError:
                ok = True
            ctx.expect(ok, 'acf:type', 'two dimensional values are refused')

    def sjd(ctx):
        for d in (1, 2):
            pts = list(itertools.product([-1., 0., 2.5], repeat=d))
            for n in (2, 3, 4):
                S = np.array(list(itertools.product(pts, repeat=n)))
                if len(S) > 1500 and not th:
                    S = S[::5]
                out = np.asarray(jax.vmap(squared_jumping_distance)(jnp.array(S)))
                for s, o in zip(S, out):
                    ctx.state(d, n, s.tolist())
                    ctx.trans(n)
                    ctx.trace()
                    ctx.close(o, np.mean(np.diff(s, axis=0) ** 2, axis=0), 'sjd', 'mean squared jump per coordinate', chain=s)
                ctx.close(squared_jumping_distance(cdict(value=jnp.array(S[1]))), np.mean(np.diff(S[1], axis=0) ** 2, axis=0), 'sjd:cdict', 'of a sample')
        for v in itertools.product([0., 1., -3.], repeat=4):
            ctx.close(squared_jumping_distance(jnp.array(v)), np.mean(np.diff(np.array(v)) ** 2), 'sjd:1d', 'one dimensional chain', chain=v)

    # --- ksd -------------------------------------------------------------------------------------------------------
    def kern_terms(kern, params):
        """value, gradients and diagonal mixed derivative, in float64, from the definition of the kernel"""
        kind = type(kern).__name__
        bw = params.get('bandwidth', kern.parameters.bandwidth)
        bw = np.asarray(bw, float)
        if kind == 'Gaussian':
            def f(x, y):
                dd = (x - y) / bw
                k = np.exp(-.5 * np.sum(dd ** 2))
                return k, -dd / bw * k, dd / bw * k, (1 / bw ** 2 - dd ** 2 / bw ** 2) * k
        elif kind == 'IMQ':
            c, b = float(kern.parameters.c), float(kern.parameters.beta)

            def f(x, y):
                dd = (x - y) / bw
                base = c + .5 * np.sum(dd ** 2)
                g = b * base ** (b - 1) * dd / bw
                return base ** b, g, -g, -b * base ** (b - 1) / bw ** 2 - b * (b - 1) * base ** (b - 2) * dd ** 2 / bw ** 2
        else:
            P = np.asarray(kern.parameters.precision, float)

            def f(x, y):
                dd = x - y
                k = np.exp(-.5 * dd @ P @ dd / bw ** 2)
                g = P @ dd / bw ** 2
                return k, -g * k, g * k, (np.diag(P) / bw ** 2 - g ** 2) * k
        return f

    def ksd_ref(kern, x, g, logw, batch, params, sign):
        f = kern_terms(kern, params)
        n = len(x)
        w = np.exp(logw) if logw is not None else np.ones(n)
        tot = 0.
        for i in range(n):
            for j in batch[i]:
                k, gx, gy, dxy = f(x[i], x[j])
                k0 = dxy.sum() * np.ones_like(x[i]).sum() / np.size(dxy) + sign * (gx @ g[j] + gy @ g[i]) + k * (g[i] @ g[j])
                tot += k0 * w[i] * w[j] / (w.sum() * w[batch[i]].sum())
        return np.sqrt(tot) if tot >= 0 else np.nan, tot

    def judge(ctx, got, kern, x, g, logw, batch, params, **info):
        """score = -grad_potential: k0 = sum d2k + grad_x k . s(y) + grad_y k . s(x) + k s(x).s(y)"""
        want, tw = ksd_ref(kern, x, g, logw, batch, params, -1.)
        wrong, tb = ksd_ref(kern, x, g, logw, batch, params, +1.)
        ok = lambda v, t: (np.isnan(got) and t < 1e-4) or (not np.isnan(got) and abs(float(got) ** 2 - t) < 2e-4 + 2e-4 * abs(t))
        if ok(want, tw):
            ctx.expect(True, 'ksd', '')
        elif ok(wrong, tb):
            ctx.fail('ksd-cross-sign', 'the cross terms are added with the wrong sign', got=got, want=want, **info)
        else:
            ctx.fail('ksd', 'kernel Stein discrepancy of the weighted sample', got=got, want=want, other=wrong, **info)
        ctx.nexpect += 1

    def kernels_for(d):
        ks = [(kernels.Gaussian(), {}), (kernels.Gaussian(.7), {}), (kernels.Gaussian(), dict(bandwidth=2.)), (kernels.IMQ(), {}),
              (kernels.IMQ(c=2., beta=-.3, bandwidth=1.5), {})]
        if d == 2:
            ks += [(kernels.Gaussian(jnp.array([.5, 2.])), {}), (kernels.PreconditionedGaussian(1.3, jnp.array([[2., .5], [.5, 1.]])), {})]
        return ks

    def ksd_plain(ctx, weights):
        P = [-1., .5, 2.]
        for d in (1, 2):
            pts = list(itertools.product(P, repeat=d)) if d == 1 else [(-1., .5), (0., 0.), (2., -1.), (.5, 1.5)]
            for n in ((1, 2, 3, 4) if th else (1, 2, 3)):
                S = np.array(list(itertools.product(pts, repeat=n)))
                if n == 3 and not th:
                    S = S[::2]
                G = {'std': S, 'shift': S - 1., 'neg': -.5 * S + .3, 'const': np.ones_like(S) * np.array([.7, -1.2])[:d]}
                LW = [None] if not weights else [np.array(w) for w in ([0., -1., 1.], [2., 2., 2.], [-np.inf, 0., -.5], [-3., .2, .1], [-200., -200.7, -199.2], [150.3, 150., 149.])]
                for ki, (kern, params) in enumerate(kernels_for(d)):
                    fn = jax.jit(jax.vmap((lambda s, gg, w: ksd(s, kern, gg, w, **params)) if weights else (lambda s, gg, w: ksd(s, kern, gg, **params)),
                                          in_axes=(0, 0, None)))
                    for gname, g in G.items():
                        if not th and n == 3 and gname in ('neg', 'const') and ki % 2:
                            continue
                        for lw in LW:
                            if not th and n == 3 and lw is not None and (ki + int(10 * abs(lw[1]))) % 2:
                                continue
                            if lw is not None:
                                lw = np.resize(lw, n)
                                if np.all(np.isneginf(lw)):
                                    continue
                            out = np.asarray(fn(jnp.array(S), jnp.array(g), jnp.zeros(n) if lw is None else jnp.array(lw)))
                            for s, gg, o in zip(S, g, out):
                                ctx.state(d, ki, gname, s.tolist(), None if lw is None else lw.tolist())
                                ctx.trans(n * n)
                                ctx.trace()
                                judge(ctx, o, kern, s, gg, lw, [list(range(n))] * n, params, kernel_index=ki, points=s, grads=gg, lws=lw)

    def ksd_batch(ctx):
        C.alpha = {}
        x = np.array([[-1., .5], [0., 0.], [2., -1.]])
        for n, B in ((2, 1), (2, 2), (3, 1), (3, 2)) + (((3, 3),) if False else ()):
            xs = x[:n]
            g = xs - .5
            for lw in (None, np.array([0., -1., .5])[:n]):
                kern = kernels.Gaussian(1.2)
                ls = explore(lambda st, k: ksd(st, kern, jnp.array(g), None if lw is None else jnp.array(lw), ensemble_batchsize=B, random_key=k),
                             [jnp.array(xs)], batch=128)
                ctx.explored(ls)
                allb = {}
                for b in itertools.product(range(n), repeat=n * B):
                    bb = [list(b[i * B:(i + 1) * B]) for i in range(n)]
                    for sg in (-1., 1.):
                        v = ksd_ref(kern, xs, g, lw, bb, {}, sg)[0]
                        key = R(v, 3)
                        allb.setdefault(sg, {})
                        allb[sg][key] = allb[sg].get(key, 0.) + n ** -(n * B * 1.)
                got = {}
                for l in ls:
                    ctx.state(n, B, lw is None, R(l.out, 3))
                    got[R(l.out, 3)] = got.get(R(l.out, 3), 0.) + l.p
                from mc.lib import _law_diff, _snap
                dist = {sg: min(_law_diff(got, allb[sg])[0], _law_diff(*_snap(got, allb[sg]))[0]) for sg in allb}
                if dist[-1.] < 1e-4:
                    ctx.expect(True, 'ksd:batch', '')
                elif dist[1.] < 1e-4:
                    ctx.fail('ksd-cross-sign', 'batched ksd: wrong cross sign', n=n, B=B)
                else:
                    ctx.fail('ksd:batch', 'each point is compared with a uniform batch of the ensemble', n=n, B=B, got=got, want=allb[-1.])
                ctx.nexpect += 1

    def ksd_cdict(ctx):
        S = np.array([[-1., .5], [0., 0.], [2., -1.]])
        g = S * .5 + .2
        kern = kernels.Gaussian(.9)
        for perm in itertools.permutations(range(3)):
            p = list(perm)
            ctx.state(perm)
            ctx.trans(9)
            ctx.trace()
            s = cdict(value=jnp.array(S[p]), grad_potential=jnp.array(g[p]))
            judge(ctx, np.asarray(ksd(s, kern)), kern, S[p], g[p], None, [[0, 1, 2]] * 3, {}, perm=perm)
            judge(ctx, np.asarray(ksd(s, kern, grad_potential=jnp.array(2 * g[p]))), kern, S[p], 2 * g[p], None, [[0, 1, 2]] * 3, {}, perm=perm)
        try:
            ksd(cdict(value=jnp.array(S)), kern)
            ok = False
        except TypeError:
            ok = True
        ctx.expect(ok, 'ksd:type', 'a sample without gradients is refused')

    return [('autocorr3', lambda c: autocorr(c, [-1., 0., 2.], 8 if th else 7)), ('autocorr2', lambda c: autocorr(c, [0., 1.], 12 if th else 10)),
            ('long', long), ('iat3', lambda c: iat(c, [-1., 0., 2.], 8 if th else 7)), ('iat2', lambda c: iat(c, [0., 1.], 12 if th else 10)),
            ('ess', ess), ('ess-errors', ess_err), ('sjd', sjd), ('ksd', lambda c: ksd_plain(c, False)), ('ksd-weights', lambda c: ksd_plain(c, True)),
            ('ksd-batch', ksd_batch), ('ksd-cdict', ksd_cdict)]
