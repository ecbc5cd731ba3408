"""C12: every short sequence of cdict operations against a reference record model."""
PROPERTY = 'C12'
JOBS = 8
BOUNDS = dict(
    quick='start objects: every choice of <= 3 fields out of 11 kinds (arrays of every rank, scalars, strings, nested / static / doubly nested records); every sequence of <= 2 operations '
          '(indexing by integers, slices, arrays; joining; copying; setting; deleting; JAX round trips) on all of them, of 3 operations on the richest; every earlier object rechecked after every operation',
    thorough='sequences of 3 operations on all, of 4 on the richest')
ASSUMPTIONS = ['arrays are JAX arrays', 'joined fields have matching trailing shapes']


def case_names(tier):
    return [f'seq-{i}' for i in range(8)] + [f'rich-{i}' for i in range(6)] + ['jax', 'copy', 'access']


def cases(tier):
    import copy
    import itertools
    import warnings
    warnings.filterwarnings('ignore')
    import numpy as np
    import jax
    import jax.numpy as jnp
    from mocat import cdict, static_cdict
    th = tier == 'thorough'

    # model: ('c' or 's', [(key, value)]) with numpy arrays for arrays, anything else verbatim
    class Rec:
        def __init__(self, static, fields):
            self.static, self.f = static, dict(fields)

        def copy(self):
            return Rec(self.static, self.f)

        def deep(self):
            return Rec(self.static, {k: v.deep() if isinstance(v, Rec) else copy.deepcopy(v) for k, v in self.f.items()})

    class Skip(Exception):
        pass

    A = lambda *s: np.arange(1, 1 + int(np.prod(s)), dtype=np.float32).reshape(s) * .5

    def kinds():
        return [('a1', A(3)), ('a2', A(3, 2)), ('a0', A()), ('i1', np.arange(3, dtype=np.int32)), ('num', 2.5), ('txt', 'abc'), ('time', 10.), ('non', None),
                ('sub', Rec(False, dict(b1=A(3) + 7, num=3, b0=A()))), ('sta', Rec(True, dict(b1=A(4), num=4.))),
                ('nest', Rec(False, dict(in_=Rec(False, dict(c2=A(3, 2) - 1)), st=Rec(True, dict(c1=A(3))))))]

    def build(r):
        return (static_cdict if r.static else cdict)(**{k: build(v) if isinstance(v, Rec) else (jnp.array(v) if isinstance(v, np.ndarray) else v) for k, v in r.f.items()})

    def agree(o, r):
        if isinstance(r, Rec):
            return type(o) is (static_cdict if r.static else cdict) and list(o.__dict__) == list(r.f) and all(agree(o.__dict__[k], v) for k, v in r.f.items())
        if isinstance(r, np.ndarray):
            return isinstance(o, jnp.ndarray) and o.shape == r.shape and o.dtype == r.dtype and np.array_equal(np.asarray(o), r)
        return type(o) is type(r) and o == r

    def agree_jit(o, r):
        """after a compiled round trip numbers are arrays"""
        if isinstance(r, Rec):
            return type(o) is (static_cdict if r.static else cdict) and list(o.__dict__) == list(r.f) and all(agree_jit(o.__dict__[k], v) for k, v in r.f.items())
        if r is None:
            return o is None
        return np.shape(o) == np.shape(r) and np.allclose(np.asarray(o), r)

    def index(r, item):
        out = r.copy()
        for k, v in r.f.items():
            if isinstance(v, np.ndarray) and v.ndim > 0:
                if v.shape[0] == 0 or (isinstance(item, (int, np.ndarray)) and np.max(item) >= v.shape[0]):
                    raise Skip
                out.f[k] = np.asarray(v[item])
            elif isinstance(v, Rec) and not v.static:
                out.f[k] = index(v, item)
        return out

    def add(r, o):
        out = r.copy()
        if o is None:
            return out
        for k, v in r.f.items():
            if k not in o.f:
                continue
            w = o.f[k]
            if isinstance(v, np.ndarray) or isinstance(w, np.ndarray):
                if isinstance(v, (Rec, str)) or isinstance(w, (Rec, str)) or v is None or w is None:
                    raise Skip
                a, b = np.atleast_1d(v), np.atleast_1d(w)
                if a.shape[1:] != b.shape[1:]:
                    raise Skip
                # the joined field has room for both
                dt = jnp.promote_types(jnp.asarray(a).dtype, jnp.asarray(b).dtype)
                out.f[k] = np.concatenate([a, b], 0).astype(dt)
            elif isinstance(v, Rec) and not v.static and isinstance(w, Rec) and not w.static:
                out.f[k] = add(v, w)
            elif k == 'time':
                if not (isinstance(v, float) and isinstance(w, float)):
                    raise Skip
                out.f[k] = v + w
        return out

    def others():
        return [Rec(False, dict(a1=A(2) * 10, a2=A(1, 2) * 10, a0=A() * 10, i1=np.array([7, 8], dtype=np.int32), num=99., txt='zzz', time=25., extra=A(2),
                                sub=Rec(False, dict(b1=A(2) + 70, num=5, b0=A() + 3, more=A(1))), sta=Rec(True, dict(b1=A(1))),
                                nest=Rec(False, dict(in_=Rec(False, dict(c2=A(2, 2) + 50)), st=Rec(True, dict(c1=A(1))))))),
                Rec(False, dict(extra=A(2), a2=A(2, 2) - 30, time=1., num=A(2) + 1)), Rec(True, dict(a1=A(1), time=2.)), Rec(False, {}),
                # other types, static where it was not and the other way round
                Rec(False, dict(a1=np.array([4, 5], dtype=np.int32), i1=A(2) + .25, a2=np.array([[7, -7]], dtype=np.int32), sub=Rec(True, dict(b1=A(2) + 70, num=5, b0=A() + 3)),
                                sta=Rec(False, dict(b1=A(1), num=9.)), nest=Rec(False, dict(in_=Rec(True, dict(c2=A(2, 2))), st=Rec(False, dict(c1=A(1)))))))]

    IDX = [('0', 0), ('-1', -1), ('1', 1), ('1:', slice(1, None)), (':2', slice(None, 2)), ('::-1', slice(None, None, -1)), ('[1,0,0]', np.array([1, 0, 0])), ('jnp[2,1]', np.array([2, 1])),
           ('i0', np.array(1))]

    def ops():
        out = []
        for nm, it in IDX:
            if nm.startswith('jnp') or nm == 'i0':
                f = lambda c, it=it: c[jnp.array(it)]
            else:
                f = lambda c, it=it: c[it]
            out.append((f'idx {nm}', f, lambda r, it=it: index(r, it)))
        for i, o in enumerate(others()):
            out.append((f'add {i}', lambda c, o=o: c + build(o), lambda r, o=o: add(r, o)))
        out += [('add none', lambda c: c + None, lambda r: r.copy()), ('add self', lambda c: c + c, lambda r: add(r, r)), ('copy', lambda c: c.copy(), lambda r: r.copy()),
                ('deepcopy', lambda c: c.deepcopy(), lambda r: r.deep())]

        def setter(key, val):
            def f(c):
                c = c.copy()
                setattr(c, key, build(val) if isinstance(val, Rec) else (jnp.array(val) if isinstance(val, np.ndarray) else val))
                return c

            def g(r):
                r = r.copy()
                r.f[key] = val
                return r
            return f, g
        for key, val in (('a1', A(4) * 3), ('num', 7.), ('a2', 1.), ('new', A(2, 2)), ('sub', Rec(False, dict(b1=A(2))))):
            out.append((f'set {key}',) + setter(key, val))

        def deleter(c):
            c = c.copy()
            ks = list(c.__dict__)
            if ks:
                delattr(c, ks[0])
            return c

        def mdel(r):
            r = r.copy()
            if r.f:
                del r.f[list(r.f)[0]]
            return r
        out.append(('del', deleter, mdel))

        def tree(c):
            leaves, td = jax.tree_util.tree_flatten(c)
            return jax.tree_util.tree_unflatten(td, leaves)
        out.append(('flatten', tree, lambda r: r.copy()))

        def tmap(c):
            return jax.tree_util.tree_map(lambda x: x * 2 if isinstance(x, jnp.ndarray) else x, c)

        def mmap(r):
            out = r.copy()
            for k, v in r.f.items():
                out.f[k] = (v if v.static else mmap(v)) if isinstance(v, Rec) else np.asarray(v * 2, v.dtype) if isinstance(v, np.ndarray) else v
            return out
        out.append(('tree_map', tmap, mmap))
        return out

    OPS = ops()
    FEW = [o for o in OPS if o[0] in ('idx 0', 'idx 1:', 'idx [1,0,0]', 'add 0', 'add self', 'copy', 'set a1', 'flatten', 'del')]

    def snapshot(r):
        return r.deep()

    def starts(n):
        K = kinds()
        for m in range(n + 1):
            for sel in itertools.combinations(range(len(K)), m):
                yield Rec(False, {K[i][0]: K[i][1] for i in sel}).deep()

    def runseq(ctx, r0, seq):
        o = build(r0)
        pool = [(o, snapshot(r0))]
        cur_o, cur_r = o, r0.deep()
        for nm, f, g in seq:
            try:
                nr = g(cur_r)
            except Skip:
                return False
            no = f(cur_o)
            if not ctx.expect(agree(no, nr), 'seq:' + nm.split()[0], 'result of the operation', op=nm, seq=[s[0] for s in seq], start=list(r0.f), out=repr(no)[:500], expected=repr({k: v.f if isinstance(v, Rec) else v for k, v in nr.f.items()})[:500]):
                return True
            for po, pr in pool:
                ctx.expect(agree(po, pr), 'seq:original', 'earlier objects are left untouched', op=nm, seq=[s[0] for s in seq], start=list(r0.f), out=repr(po)[:300])
            pool.append((no, snapshot(nr)))
            cur_o, cur_r = no, nr
            ctx.trans()
        return True

    def seqs(ctx, part):
        for i, r in enumerate(starts(3)):
            if i % 8 != part:
                continue
            for L in (1, 2):
                for s in itertools.product(OPS, repeat=L):
                    if runseq(ctx, r, s):
                        ctx.state(list(r.f), [x[0] for x in s])
                        ctx.trace()
        ctx.sample(dict(objects='<= 3 fields', operations=[o[0] for o in OPS]))

    def rich(ctx, part):
        K = kinds()
        objs = [Rec(False, dict(K)), Rec(False, {k: v for k, v in K if k in ('a2', 'sub', 'nest', 'time')})]
        for r in objs:
            for i, s in enumerate(itertools.product(OPS if th or r is objs[0] else FEW, repeat=3)):
                if i % 6 != part:
                    continue
                if runseq(ctx, r, s):
                    ctx.state(list(r.f), [x[0] for x in s])
                    ctx.trace()
            if th and part < 6:
                for i, s in enumerate(itertools.product(FEW, repeat=4)):
                    if i % 6 == part and runseq(ctx, r, s):
                        ctx.state(list(r.f), [x[0] for x in s])
                        ctx.trace()
        if th:
            for i, r in enumerate(starts(2)):
                if i % 6 == part:
                    for s in itertools.product(OPS, repeat=3):
                        if runseq(ctx, r, s):
                            ctx.state(list(r.f), [x[0] for x in s])
                            ctx.trace()

    def jaxes(ctx):
        """every transformation returns an equal record of the same type with the same keys (static records are opaque to JAX: single leaves, passed through untouched)"""
        K = [(k, v) for k, v in kinds() if k not in ('txt', 'sta')]
        K = [(k, Rec(False, dict(in_=v.f['in_'], more=Rec(False, {})))) if k == 'nest' else (k, v) for k, v in K]
        for m in range(0, 4):
            for sel in itertools.combinations(range(len(K)), m):
                r = Rec(False, {K[i][0]: K[i][1] for i in sel})
                o = build(r)
                ctx.state(sel)
                fs = dict(jit=lambda c: jax.jit(lambda x: x)(c), cond=lambda c: jax.lax.cond(True, lambda x: x, lambda x: x, c),
                          loop=lambda c: jax.lax.while_loop(lambda x: x[1] < 2, lambda x: (x[0], x[1] + 1), (c, 0))[0])
                names = ['jit'] if m > 2 and not th else list(fs)
                for nm in names:
                    out = fs[nm](o)
                    ctx.trans()
                    ctx.trace()
                    ctx.expect(agree_jit(out, r), 'jax:' + nm, 'round trip', fields=list(r.f), out=repr(out)[:400])
                # leaves come in field order
                ls = jax.tree_util.tree_leaves(o)

                def flat(r):
                    for v in r.f.values():
                        if isinstance(v, Rec):
                            yield from flat(v)
                        elif v is not None:
                            yield v
                want = list(flat(r))
                ctx.expect(len(ls) == len(want) and all(np.array_equal(np.asarray(a), b) for a, b in zip(ls, want)), 'jax:leaves', 'leaves in field order', fields=list(r.f))
                if m > 2 and not th:
                    continue
                # scan stacks along a new first axis
                _, st = jax.lax.scan(lambda c, _: (c, c), jax.tree_util.tree_map(jnp.asarray, o), None, length=2)

                def stk(r):
                    return Rec(r.static, {k: stk(v) if isinstance(v, Rec) else None if v is None else np.stack([np.asarray(v)] * 2) for k, v in r.f.items()})
                ctx.expect(agree_jit(st, stk(r)), 'jax:scan', 'stacked records', fields=list(r.f), out=repr(st)[:400])
                # vmap over the first axis of stacked records
                if ls:
                    ctx.expect(agree_jit(jax.vmap(lambda c: c)(st), stk(r)), 'jax:vmap', 'mapped records', fields=list(r.f))
                    summed = jax.vmap(lambda c: jax.tree_util.tree_map(lambda x: x + 1, c))(st)

                    def inc(r):
                        return Rec(r.static, {k: inc(v) if isinstance(v, Rec) else None if v is None else np.asarray(v + 1) for k, v in r.f.items()})
                    ctx.expect(agree_jit(summed, inc(stk(r))), 'jax:vmap', 'mapped records', fields=list(r.f))
        # a static record is one opaque leaf
        c = cdict(a=jnp.ones(2), s=static_cdict(b=jnp.array(3.)))
        ls, td = jax.tree_util.tree_flatten(c)
        ctx.expect(len(ls) == 2 and ls[1] is c.s, 'jax:static', 'a static record is a single leaf')
        c2 = jax.tree_util.tree_unflatten(td, ls)
        ctx.expect(type(c2) is cdict and c2.s is c.s, 'jax:static', 'and comes back untouched')
        # gradients with respect to a record
        c = cdict(a=jnp.array([1., 2.]), s=cdict(b=jnp.array(3.)))
        g = jax.grad(lambda c: (c.a ** 2).sum() * c.s.b)(c)
        ctx.expect(type(g) is cdict and type(g.s) is cdict, 'jax:grad', 'gradient is a record of the same type')
        ctx.close(g.a, [6., 12.], 'jax:grad', 'gradient')
        ctx.close(g.s.b, 5., 'jax:grad', 'gradient')

    def copies(ctx):
        """copy is independent in its fields, deepcopy in everything; static records stay static"""
        for r in starts(3):
            for static in (False, True):
                r2 = Rec(static, r.f)
                for how in ('copy', 'deepcopy'):
                    o = build(r2)
                    c = getattr(o, how)()
                    ctx.state(list(r.f), static, how)
                    ctx.trans()
                    ctx.trace()
                    ctx.expect(agree(c, r2), 'copy:equal', 'a copy is equal and of the same type', how=how, fields=list(r.f), static=static)
                    for k in list(r2.f):
                        setattr(c, k, 'changed')
                    c.more = 1
                    ctx.expect(agree(o, r2), 'copy:fields', 'setting fields of a copy leaves the original', how=how, fields=list(r.f))
                    c = getattr(o, how)()
                    for k in list(r2.f):
                        setattr(o, k, 'changed')
                        delattr(o, k)
                    ctx.expect(agree(c, r2), 'copy:fields', 'changing the original leaves the copy', how=how, fields=list(r.f))
                o = build(r2)
                d = o.deepcopy()

                def scramble(c):
                    for k, v in list(c.__dict__.items()):
                        if isinstance(v, cdict):
                            scramble(v)
                        setattr(c, k, 0)
                scramble(d)
                ctx.expect(agree(o, r2), 'copy:deep', 'changing anything inside a deep copy leaves the original', fields=list(r.f))

    def access(ctx):
        for r in starts(3):
            o = build(r)
            ctx.state(list(r.f))
            ctx.trans(len(r.f))
            ctx.trace()
            ctx.expect(list(o.keys()) == list(r.f) and list(o) == list(r.f), 'access:keys', 'keys in order', fields=list(r.f))
            ctx.expect(bool(o.is_empty) == (not r.f), 'access:empty', 'emptiness', fields=list(r.f))
            for k, v in r.f.items():
                ctx.expect(agree(o[k], v) and o[k] is getattr(o, k), 'access:item', 'fields by name', field=k)
            for nm, it in IDX:
                i2 = jnp.array(it) if isinstance(it, np.ndarray) else it
                try:
                    want = index(r, it)
                except Skip:
                    continue
                jitted = jax.jit(lambda c: c[i2])(build(Rec(False, {k: v for k, v in r.f.items() if k != 'txt'}))) if len(r.f) == 3 and th and not {'sta', 'nest'} & set(r.f) else None
                got = o[i2]
                ctx.expect(agree(got, want), 'access:index', 'indexing', item=nm, fields=list(r.f))
                if jitted is not None:
                    w2 = want.copy()
                    w2.f.pop('txt', None)
                    ctx.expect(agree_jit(jitted, w2), 'access:index-jit', 'indexing inside compiled code', item=nm, fields=list(r.f))
                # inside a loop: dynamic index
        o = build(Rec(False, dict(kinds())))
        o2 = cdict(**{k: v for k, v in o.__dict__.items() if k != 'txt'})
        st = jax.vmap(lambda i: {k: v for k, v in o2[i].__dict__.items() if k in ('a1', 'a2', 'sub', 'nest')}['a2'])(jnp.arange(3))
        ctx.close(st, A(3, 2), 'access:dynamic', 'indexing by a traced integer')

    return [(f'seq-{i}', lambda c, i=i: seqs(c, i)) for i in range(8)] + [(f'rich-{i}', lambda c, i=i: rich(c, i)) for i in range(6)] \
        + [('jax', jaxes), ('copy', copies), ('access', access)]
