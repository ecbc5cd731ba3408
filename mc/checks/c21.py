"""C21: limited-memory BFGS factors against explicit matrices, for every history over small alphabets."""
PROPERTY = 'C21'
JOBS = 8
BOUNDS = dict(
    quick='every history of <= 3 (step, gradient difference) pairs in 1d (4x4 alphabet), <= 2 in 2d (5x6), <= 1 in 3d; every admission pattern; '
          '3 initial diagonals; r in {-inf, .1, .5, 2}; factor products for every lattice of factors; sampler memories for every sequence of <= 5 pushes',
    thorough='<= 3 pairs in 2d, <= 2 in 3d, memories of every sequence of <= 6 pushes')
ASSUMPTIONS = ['float32 arithmetic; histories whose matrices have condition number above 1e4 are compared on secant and admission only',
               'r = -inf (no regularisation) only with positive curvature, as no real factor exists otherwise']


def case_names(tier):
    return ['factors-1d', 'factors-2d', 'factors-2d-m3', 'factors-3d', 'skips', 'products', 'memory', 'memory-sorted', 'sampler']


def cases(tier):
    import itertools
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    import jax
    import jax.numpy as jnp
    from mocat.src import utils
    from mocat import cdict, QNUnderdamped, Scenario
    th = tier == 'thorough'

    def explicit(prod, tprod, det, logdet, a, b, diag, d):
        eye = jnp.eye(d)
        M = jax.vmap(lambda z: prod(a, b, z, diag), out_axes=1)(eye)
        Mt = jax.vmap(lambda z: tprod(a, b, z, diag), out_axes=1)(eye)
        return M, Mt, det(a, b, diag), logdet(a, b, diag)

    def full(a, b, diag, d):
        return explicit(utils.bfgs_sqrt_prod, utils.bfgs_sqrt_transpose_prod, utils.bfgs_sqrt_det, utils.bfgs_sqrt_log_abs_det, a, b, diag, d)

    def ref(s, y, diag, r, adm):
        """explicit Hessian approximation in float64"""
        d = s.shape[1]
        D2 = np.diag((np.ones(d) * diag) ** 2)
        sb = np.array([x @ D2 @ x for x in s])
        ok = adm & (sb >= 1e-10)
        lam = 0.
        if np.any(ok) and np.isfinite(r):
            lam = max(0., max(-(s[i] @ y[i]) / sb[i] for i in range(len(s)) if ok[i]) + r)
        B = D2.copy()
        used = []
        cond = 1.
        for i in range(len(s)):
            yi = y[i] + lam * D2 @ s[i]
            sy, sBs = s[i] @ yi, s[i] @ B @ s[i]
            if not ok[i] or min(abs(sy), abs(sBs)) <= 1e-10:
                continue
            if sy < 1e-6:
                return None
            Bs = B @ s[i]
            B = B - np.outer(Bs, Bs) / sBs + np.outer(yi, yi) / sy
            used.append((i, yi))
            cond = max(cond, np.linalg.cond(B))
        return B, used, cond, lam

    def examine(ctx, tag, S, Y, ADM, diag, r):
        """S, Y: (N, m, d) histories"""
        N, m, d = S.shape
        dg = jnp.array(diag) if not isinstance(diag, float) else diag

        def one(s, y, adm):
            v = jnp.concatenate([jnp.ones((1, d)) * .3, .3 + jnp.cumsum(s, 0)])
            g = jnp.concatenate([jnp.ones((1, d)) * -.2, -.2 + jnp.cumsum(y, 0)])
            ps, qs, us, ts = utils.bfgs_sqrt_pqut(v, g, dg, r, adm)
            H = full(us, ts, dg, d)
            I = full(ps, qs, 1. / dg, d)
            return (ps, qs, us, ts), H, I
        fac, H, I = jax.tree_util.tree_map(np.asarray, jax.jit(jax.vmap(one))(jnp.array(S), jnp.array(Y), jnp.array(ADM)))
        for k in range(N):
            s, y, adm = S[k], Y[k], ADM[k].astype(bool)
            w = ref(s, y, diag, r, adm)
            if w is None or (not np.isfinite(r) and any(s[i] @ y[i] <= 0 and adm[i] and np.any(s[i]) for i in range(m))):
                continue
            B, used, cond, lam = w
            ctx.state(tag, s.tolist(), y.tolist(), adm.tolist(), repr(diag), r)
            ctx.trans(m)
            ctx.trace()
            info = dict(s=s, y=y, adm=adm, diag=repr(diag), r=r)
            sk = [i for i in range(m) if i not in [u[0] for u in used]]
            for f in fac:
                ctx.expect(np.all(f[k][sk] == 0), tag + ':skipped', 'a skipped update contributes nothing', **info)
            C, Ct, Ci, Cit = H[0][k], H[1][k], I[0][k], I[1][k]
            ctx.expect(np.all(np.isfinite(C)) and np.all(np.isfinite(Ci)), tag + ':finite', 'the factors are finite', **info)
            sc = np.abs(C).max() + 1e-3
            ctx.close(Ct / sc, C.T / sc, tag + ':transpose', 'transposed product', rtol=1e-3, atol=1e-4, **info)
            sci = np.abs(Ci).max() + 1e-3
            ctx.close(Cit / sci, Ci.T / sci, tag + ':transpose', 'transposed product of the inverse factor', rtol=1e-3, atol=1e-4, **info)
            if cond > 1e4 or max(np.abs(B).max(), 1) > 1e4:
                continue
            tol = 2e-5 * cond + 1e-3
            Bn = C.astype(float) @ C.T.astype(float)
            Hn = Ci.astype(float) @ Ci.T.astype(float)
            bs, hs = np.abs(B).max(), np.abs(np.linalg.inv(B)).max()
            ctx.close(Bn / bs, B / bs, tag + ':hessian', 'Hessian approximation equals the BFGS matrix of the admissible updates', rtol=tol, atol=tol, **info)
            ctx.close(Hn / hs, np.linalg.inv(B) / hs, tag + ':inverse', 'inverse factors represent the inverse', rtol=tol, atol=tol, **info)
            if used:
                i, yi = used[-1]
                ctx.close(Bn @ s[i] / bs, yi / bs, tag + ':secant', 'secant condition of the latest admissible update', rtol=5 * tol, atol=5 * tol, **info)
                if lam == 0:
                    ctx.close(Bn @ s[i] / bs, y[i] / bs, tag + ':secant0', 'secant condition with the gradients themselves', rtol=5 * tol, atol=5 * tol, **info)
            if np.isfinite(r):
                ctx.expect(np.all(np.linalg.eigvalsh(Bn) > 0) and np.all(np.linalg.eigvalsh(Hn) > 0), tag + ':pd', 'positive definite', **info)
            for nm, M, mat in (('det', H, C), ('inv-det', I, Ci)):
                dd = np.linalg.det(mat.astype(float))
                ctx.close(M[2][k], dd, tag + ':' + nm, 'determinant of the factor', rtol=5 * tol, atol=tol * np.abs(mat).max() ** d, **info)
                if abs(dd) > 1e-2:
                    ctx.close(M[3][k], np.log(abs(dd)), tag + ':log' + nm, 'log determinant of the factor', rtol=5 * tol, atol=5 * tol, **info)
            ctx.close(np.prod([H[2][k] ** 2]), np.linalg.det(B), tag + ':det2', 'squared determinant is that of the Hessian approximation', rtol=10 * tol, atol=10 * tol * bs ** d, **info)
        ctx.sample(dict(s=S[N // 3], y=Y[N // 3], adm=ADM[N // 3], H=H[0][N // 3]))

    S1, Y1 = [[-1.], [.5], [0.], [2.]], [[-1.], [0.], [.5], [2.]]
    S2 = [[1., 0.], [-.5, 1.], [0., 0.], [.5, .5], [0., -2.]]
    Y2 = [[1., 0.], [-.5, .5], [0., -1.], [.2, 1.5], [0., 0.], [1., -1.]]
    S3 = [[1., 0., .5], [0., -1., 1.], [0., 0., 0.], [.3, .3, -.6]]
    Y3 = [[1., .2, 0.], [-.5, -1., 1.5], [0., .4, -1.], [0., 0., 0.]]

    def factors(ctx, tag, SA, YA, ms, stride=1):
        d = len(SA[0])
        pairs = [(s, y) for s in SA for y in YA]
        diags = [1., 2., list(np.array([.5, 1.5, 2.])[:d])]
        for m in ms:
            hist = list(itertools.product(pairs, repeat=m))[::stride if m == max(ms) else 1]
            S = np.array([[p[0] for p in h] for h in hist]).reshape(len(hist), m, d)
            Y = np.array([[p[1] for p in h] for h in hist]).reshape(len(hist), m, d)
            adms = list(itertools.product([True, False], repeat=m)) if m <= 2 else [(1, 1, 1), (0, 1, 1), (1, 0, 1), (1, 1, 0), (0, 0, 1)]
            for di, diag in enumerate(diags):
                for r in (-np.inf, .1, .5, 2.):
                    for ai, adm in enumerate(adms):
                        if not th and (len(hist) > 200 and (ai > 0 and (di + ai) % 3 or r == .1) or m > 1 and r == 2. and di):
                            continue
                        examine(ctx, tag, S, Y, np.tile(np.array(adm, bool), (len(hist), 1)), diag, r)

    def skips(ctx):
        """updates not admitted leave the result exactly as if the pair were absent"""
        pairs = [(s, y) for s in S2 for y in Y2]
        good = [p for p in pairs if np.any(p[0])][::4]
        for a, b in itertools.product(good, repeat=2):
            for bad in pairs[::2] if th else pairs[::3]:
                for pos in range(3):
                    for r in (.5,):
                        seq, adm = [a, b], [True, True]
                        seq.insert(pos, bad)
                        adm.insert(pos, False)
                        s = np.array([p[0] for p in seq])
                        y = np.array([p[1] for p in seq])
                        v = np.concatenate([[[0., 0.]], np.cumsum(s, 0)])
                        g = np.concatenate([[[0., 0.]], np.cumsum(y, 0)])
                        keep = [i for i in range(3) if adm[i]]
                        ps, qs, us, ts = (np.asarray(x) for x in utils.bfgs_sqrt_pqut(jnp.array(v), jnp.array(g), 1.3, r, jnp.array(adm)))
                        s2, y2 = s[keep], y[keep]
                        v2 = np.concatenate([[[0., 0.]], np.cumsum(s2, 0)])
                        g2 = np.concatenate([[[0., 0.]], np.cumsum(y2, 0)])
                        o2 = [np.asarray(x) for x in utils.bfgs_sqrt_pqut(jnp.array(v2), jnp.array(g2), 1.3, r)]
                        ctx.state(s.tolist(), y.tolist(), adm)
                        ctx.trans(3)
                        ctx.trace()
                        for x, z in zip((ps, qs, us, ts), o2):
                            sc = 1 + np.abs(z).max()
                            ctx.close(x[keep] / sc, z / sc, 'skips', 'the admitted updates give the factors of the history without the others', rtol=1e-3, atol=1e-3, s=s, y=y, adm=adm)
                            ctx.expect(np.all(x[pos] == 0), 'skips:zero', 'the skipped update has zero factors', s=s, y=y)

    def products(ctx):
        V = [-1., 0., .5]
        for d in (1, 2, 3):
            vecs = list(itertools.product(V, repeat=d))
            for m in (1, 2, 3):
                n = 2 * m
                L, tot = len(vecs), len(vecs) ** n
                st = max(1, tot // (4000 if th else 700))       # large alphabets: an evenly spaced part of the enumeration
                st += st > 1 and st % L == 0
                F = np.array([[vecs[c // L ** j % L] for j in range(n)] for c in range(0, tot, st)])
                ps, qs = F[:, :m], F[:, m:]
                for diag in (1., -.5, np.array([.5, 2., -1.5])[:d]):
                    dg = diag if isinstance(diag, float) else jnp.array(diag)
                    M, Mt, D, LD = (np.asarray(x) for x in jax.jit(jax.vmap(lambda a, b: full(a, b, dg, d)))(jnp.array(ps), jnp.array(qs)))
                    for k in range(len(F)):
                        W = np.diag(np.ones(d) * diag)
                        for i in range(m):
                            W = (np.eye(d) - np.outer(ps[k, i], qs[k, i])) @ W
                        ctx.state(d, m, F[k].tolist(), repr(diag))
                        ctx.trans(m)
                        ctx.trace()
                        ctx.close(M[k], W, 'prod', 'product of the elementary factors', atol=1e-4, ps=ps[k], qs=qs[k], diag=diag)
                        ctx.close(Mt[k], W.T, 'tprod', 'transposed product', atol=1e-4, ps=ps[k], qs=qs[k], diag=diag)
                        ctx.close(D[k], np.linalg.det(W), 'det', 'determinant', rtol=1e-3, atol=1e-4, ps=ps[k], qs=qs[k], diag=diag)
                        if abs(np.linalg.det(W)) > 1e-3:
                            ctx.close(LD[k], np.log(abs(np.linalg.det(W))), 'logdet', 'log absolute determinant', rtol=1e-3, atol=1e-3, ps=ps[k], qs=qs[k], diag=diag)
                # the default diagonal is one
                ctx.close(utils.bfgs_sqrt_det(jnp.array(ps[-1]), jnp.array(qs[-1])), np.prod([1 - a @ b for a, b in zip(ps[-1], qs[-1])]), 'det:default', 'determinant', atol=1e-4)

    def memory(ctx, sort):
        """every sequence of pushes into the sampler's memory: it keeps the last m, and its factors are those of the admissible pairs"""
        PT = [(np.array([0., 1.]), .2, np.array([.5, 1.]), 1.5, np.array([0., .7])),
              (np.array([1., -.5]), 1., np.array([1.5, -.3]), .4, np.array([.2, -1.])),
              (np.array([-1., .3]), .6, np.array([-1., .8]), .1, np.array([-.6, .4])),
              (np.array([.4, 2.]), 2.1, np.array([.3, 2.5]), 2.2, np.array([.1, 1.4]))]
        PT = PT[:4 if th else 3]
        for m in (2, 3):
            for diag in (1., jnp.array([.5, 2.])):
                s = QNUnderdamped(stepsize=.1, m=m, init_hessian_sqrt_diag=diag, sort_bfgs=sort)
                scn = Scenario.__new__(Scenario)
                lik = lambda x, rk=None: .5 * jnp.sum(x ** 2)
                scn = type('S', (Scenario,), dict(name='s', dim=2, potential=lambda self, x, random_key=None: .5 * jnp.sum(x ** 2)))()
                st, ex = s.startup(scn, 3, cdict(value=jnp.zeros(2)), cdict(random_key=jax.random.PRNGKey(0)))
                mem0 = st.memory
                for f in ('ps', 'qs', 'us', 'ts'):
                    ctx.expect(np.all(np.asarray(getattr(mem0, f)) == 0), 'memory:empty', 'an empty memory gives the initial matrix')
                push = jax.jit(lambda mem, v, pp, gp, lp, gl, T: s.update_memory(mem.copy(), v, pp, gp, lp, gl, T))
                depth = (6 if m == 3 else 4) if th else (5 if m == 3 else 4)
                frontier = [((), mem0)]
                for step in range(depth):
                    new = []
                    for hist, mem in frontier:
                        for i, pt in enumerate(PT):
                            for T in ((1.,) if step < depth - 1 else (1., .3)):
                                mm = push(mem, *[jnp.array(x) for x in pt], T)
                                h = hist + (i,)
                                ctx.state(m, repr(diag), h, T)
                                ctx.trans()
                                ctx.trace()
                                keep = h[-m:]
                                # positions before the memory is full are its initial zeros: those pairs are not admitted
                                vals = np.array([[0., 0.]] * (m - len(keep)) + [PT[j][0] for j in keep])
                                ctx.close(mm.value, vals, 'memory:value', 'the last m positions, in order', h=h, m=m)
                                pots = [PT[j][1] + T * PT[j][3] for j in keep]
                                grads = [PT[j][2] + T * PT[j][4] for j in keep]
                                order = np.argsort(pots, kind='stable') if sort else np.arange(len(keep))
                                v = np.array([PT[keep[j]][0] for j in order])
                                g = np.array([grads[j] for j in order])
                                if len(keep) > 1:
                                    w = ref(np.diff(v, axis=0), np.diff(g, axis=0), np.asarray(diag, float), .5, np.ones(len(keep) - 1, bool))
                                    if w is None:
                                        continue
                                    B, _, cond, _ = w
                                else:
                                    B, cond = np.diag(np.ones(2) * np.asarray(diag, float) ** 2), 1.
                                if cond > 1e3:
                                    new.append((h, mm)) if T == 1. else None
                                    continue
                                C = np.stack([np.asarray(utils.bfgs_sqrt_prod(mm.us, mm.ts, jnp.array(e), diag)) for e in np.eye(2)], 1).astype(float)
                                Ci = np.stack([np.asarray(utils.bfgs_sqrt_prod(mm.ps, mm.qs, jnp.array(e), 1. / diag)) for e in np.eye(2)], 1).astype(float)
                                tol = 2e-5 * cond + 1e-3
                                bs = np.abs(B).max()
                                ctx.close(C @ C.T / bs, B / bs, 'memory:hessian', 'factors are those of the stored history at this temperature', rtol=tol, atol=tol, h=h, m=m, T=T)
                                hs = np.abs(np.linalg.inv(B)).max()
                                ctx.close(Ci @ Ci.T / hs, np.linalg.inv(B) / hs, 'memory:inverse', 'and so is the inverse', rtol=tol, atol=tol, h=h, m=m, T=T)
                                if T == 1.:
                                    new.append((h, mm))
                    frontier = new

    def sampler(ctx):
        """along a chain of the quasi-Newton sampler, the memory of each row is that of the rows before it"""
        import numpy as np
        from mocat import Uncorrected
        for sort in (False, True):
            for m in (2, 3, 5):
                for T in (1., .5):
                    s = QNUnderdamped(stepsize=.3, m=m, sort_bfgs=sort, init_hessian_sqrt_diag=1.2)
                    scn = type('S', (Scenario,), dict(name='s', dim=2, temperature=T,
                                                      prior_potential=lambda self, x, random_key=None: .2 * jnp.sum(x ** 2) + .1 * x[0] * x[1],
                                                      likelihood_potential=lambda self, x, random_key=None: .3 * jnp.sum(x ** 4) + x[1]))()
                    st, ex = s.startup(scn, 3, cdict(value=jnp.array([.7, -.4])), cdict(random_key=jax.random.PRNGKey(3)))
                    pts = []
                    for k in range(8 if th else 6):
                        pts.append((np.asarray(st.value, float), float(st.potential), np.asarray(st.grad_potential, float)))
                        st, ex = s.update(scn, st, ex)
                        keep = pts[-m:]
                        ctx.state(sort, m, T, k)
                        ctx.trans()
                        ctx.trace()
                        ctx.close(np.asarray(st.memory.value)[-len(keep):], np.array([p[0] for p in keep]), 'sampler:memory', 'the last m positions of the chain', k=k, m=m)
                        order = np.argsort([p[1] for p in keep], kind='stable') if sort else np.arange(len(keep))
                        B, cond = np.eye(2) * 1.44, 1.
                        if len(keep) > 1:
                            v = np.array([keep[j][0] for j in order])
                            g = np.array([keep[j][2] for j in order])
                            w = ref(np.diff(v, axis=0), np.diff(g, axis=0), 1.2, .5, np.ones(len(keep) - 1, bool))
                            if w is None:
                                continue
                            B, _, cond, _ = w
                        if cond > 1e3:
                            continue
                        C = np.stack([np.asarray(utils.bfgs_sqrt_prod(st.memory.us, st.memory.ts, jnp.array(e), 1.2)) for e in np.eye(2)], 1).astype(float)
                        bs = np.abs(B).max()
                        ctx.close(C @ C.T / bs, B / bs, 'sampler:hessian', 'factors are those of the last m positions at the temperature of the scenario', rtol=2e-3 + 2e-5 * cond, atol=2e-3 + 2e-5 * cond, k=k, m=m, sort=sort)

    return [('factors-1d', lambda c: factors(c, '1d', S1, Y1, (1, 2, 3), 1 if th else 5)), ('factors-2d', lambda c: factors(c, '2d', S2, Y2, (1, 2))),
            ('factors-2d-m3', lambda c: factors(c, '2dm3', S2, Y2, (3,), 7 if th else 100)), ('factors-3d', lambda c: factors(c, '3d', S3, Y3, (1, 2))),
            ('skips', skips), ('products', products), ('memory', lambda c: memory(c, False)), ('memory-sorted', lambda c: memory(c, True)), ('sampler', sampler)]
