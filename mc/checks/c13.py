"""C13: every crash point, torn write and I/O fault of a save, and every short history of saves and loads, on the real file system in a scratch directory."""
PROPERTY = 'C13'
JOBS = 8
BOUNDS = dict(
    quick='one save: every file operation of the save x (kill before it, kill after part of a write, fail with ENOSPC / EIO once or from then on, short write then fail) x '
          'old file present or not x overwrite or not x small / multi-write / unpicklable content x path forms; all pairs of crash points of two consecutive saves; '
          'every history of <= 2 operations out of 26 and of 3 out of 14 over 4 paths against a file model; round trip of every value kind up to nesting depth 3',
    thorough='all pairs of crash points with torn writes for every path form, histories of 3 operations out of 26 and of 4 out of 10')
ASSUMPTIONS = ['process death, not loss of unsynced data at power failure', 'one writer at a time', 'file operations reach the libc calls the shim interposes']
PATHS = ['plain', 'suffix', 'dotted', 'missing-dir']


def prepare(tmp):
    import os
    import subprocess
    so = os.path.join(tmp, 'shim.so')
    subprocess.run(['gcc', '-O1', '-w', '-shared', '-fPIC', '-o', so, os.path.join(os.path.dirname(os.path.dirname(__file__)), 'shim.c'), '-ldl'], check=True)
    return dict(LD_PRELOAD=so, MC_SHIM=so)


def case_names(tier):
    return ['roundtrip', 'history-2', 'history-3', 'history-deep'] + [f'crash-{p}' for p in PATHS] + ['double', 'refuse']


def cases(tier):
    import ctypes
    import itertools
    import os
    import pathlib
    import select
    import shutil
    import signal
    import tempfile
    import numpy as np
    import jax
    import jax.numpy as jnp
    from mocat import cdict, static_cdict, save_cdict, load_cdict
    th = tier == 'thorough'
    shim = ctypes.CDLL(os.environ['MC_SHIM'])
    shim.mc_arm.argtypes = [ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_int]
    KILL, TORN, FAIL, FAIL_FROM, SHORT = 1, 2, 3, 4, 5
    ENOSPC, EIO = 28, 5

    class Scratch:
        def __enter__(self):
            self.d = tempfile.mkdtemp(prefix='mc_c13_')
            os.chmod(self.d, 0o777)
            return self

        def __exit__(self, *a):
            shutil.rmtree(self.d)

        def fresh(self, name='w'):
            p = os.path.join(self.d, name)
            if os.path.exists(p):
                shutil.rmtree(p)
            os.mkdir(p)
            os.chmod(p, 0o777)
            return p

    def same(a, b):
        if isinstance(a, cdict) or isinstance(b, cdict):
            return type(a) is type(b) and list(a.__dict__) == list(b.__dict__) and all(same(a.__dict__[k], b.__dict__[k]) for k in a.__dict__)
        if isinstance(a, dict):
            return type(a) is type(b) and list(a) == list(b) and all(same(a[k], b[k]) for k in a)
        if isinstance(a, (list, tuple)):
            return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
        if isinstance(a, jnp.ndarray) or isinstance(b, jnp.ndarray) or isinstance(a, np.ndarray):
            return isinstance(a, jnp.ndarray) == isinstance(b, jnp.ndarray) and isinstance(a, np.ndarray) == isinstance(b, np.ndarray) \
                and a.dtype == b.dtype and a.shape == b.shape and np.array_equal(np.asarray(a), np.asarray(b), equal_nan=np.asarray(a).dtype.kind == 'f')
        if isinstance(a, float) and a != a:
            return isinstance(b, float) and b != b
        return type(a) is type(b) and a == b

    OLD = cdict(value=jnp.arange(6.).reshape(3, 2), tag='old')
    NEW = cdict(value=jnp.arange(4.), tag='new', sub=cdict(a=jnp.ones(2), n=3))
    BIG = cdict(value=jnp.arange(200000.), tag='big', more=jnp.ones((50000, 2)), sub=cdict(z=jnp.zeros(70000)))
    THIRD = cdict(value=jnp.array([9.]), tag='third')
    for c in (OLD, NEW, BIG, THIRD):
        jax.tree_util.tree_map(np.asarray, {k: v for k, v in c.__dict__.items() if not isinstance(v, str)})

    class Unpicklable:
        def __reduce__(self):
            raise TypeError('cannot be pickled')

    BAD = cdict(value=jnp.arange(50000.), tag='bad', late=Unpicklable())

    # ------------------------------------------------------------------------------------------------ round trip
    def roundtrip(ctx):
        leaves = [('float', 1.5), ('int', 3), ('bool', True), ('nan', float('nan')), ('inf', float('-inf')), ('str', 'abc'), ('none', None), ('list', [1, 2.5, 'x']), ('tuple', (1, (2, None))),
                  ('dict', dict(a=1, b=[2])), ('np', np.arange(3)), ('np64', np.array([1.5, 2.5])), ('npf', np.float64(2.5)),
                  ('f32', jnp.arange(6.).reshape(2, 3)), ('i32', jnp.arange(3)), ('b', jnp.array([True, False])), ('u32', jax.random.PRNGKey(3)), ('scalar', jnp.array(2.5)),
                  ('empty', jnp.zeros((0, 2))), ('nanarr', jnp.array([jnp.nan, jnp.inf, -0.])), ('f16', jnp.ones(2, dtype=jnp.float16)), ('cplx', jnp.array([1. + 2j])), ('listarr', [jnp.arange(2.), 1])]
        with Scratch() as s:
            w = s.fresh()
            n = 0

            def rt(c, key, how=0):
                nonlocal n
                n += 1
                p = os.path.join(w, f'f{n}') + ('.cdict' if how % 2 else '')
                pp = pathlib.Path(p) if how % 4 >= 2 else p
                if how >= 4:
                    c.save(pp)
                else:
                    save_cdict(c, pp)
                target = p if p.endswith('.cdict') else p + '.cdict'
                ctx.expect(os.listdir(w) and os.path.isfile(target), 'roundtrip:path', 'the file written is the path named, with the suffix added', files=os.listdir(w), path=p)
                r = load_cdict(target if how < 4 else pathlib.Path(target))
                ctx.expect(same(c, r), 'roundtrip:equal', 'loaded value equals the saved one', saved=repr(c)[:300], loaded=repr(r)[:300], which=key)
                ctx.state(key, how)
                ctx.trans(2)
                ctx.trace()
                r2 = load_cdict(target)
                ctx.expect(same(r, r2), 'roundtrip:again', 'loading twice gives the same')
                os.unlink(target)
            rt(cdict(), 'empty')
            rt(static_cdict(), 'empty static')
            for (ka, a) in leaves:
                for how in range(8):
                    rt(cdict(x=a), ka, how)
                for wrap in (lambda v: cdict(s=cdict(x=v)), lambda v: cdict(s=static_cdict(x=v)), lambda v: static_cdict(x=v), lambda v: cdict(s=cdict(t=cdict(x=v), u=static_cdict(y=v)))):
                    rt(wrap(a), ('nest', ka))
            for (ka, a), (kb, b) in itertools.product(leaves, repeat=2):
                rt(cdict(x=a, y=b), (ka, kb))
                if th:
                    rt(cdict(s=cdict(x=a), y=b, z=static_cdict(x=b, y=cdict(z=a))), ('n', ka, kb))
            # files that cannot be loaded
            for bad in ('missing.cdict', 'missing'):
                try:
                    load_cdict(os.path.join(w, bad))
                    ctx.fail('load:missing', 'loading a missing file must raise')
                except ValueError:
                    pass
            save_cdict(OLD, os.path.join(w, 'a'))
            os.rename(os.path.join(w, 'a.cdict'), os.path.join(w, 'a.txt'))
            try:
                load_cdict(os.path.join(w, 'a.txt'))
                ctx.fail('load:suffix', 'loading a file without the suffix must raise')
            except ValueError:
                pass

    # ------------------------------------------------------------------------------------------------ histories
    def target(rel):
        return rel if rel.endswith('.cdict') else rel + '.cdict'

    def ops_for(rels, contents, overs):
        return [('save', r, c, o) for r in rels for c in contents for o in overs]

    def history(ctx, ops, depth):
        with Scratch() as s:
            for L in range(1, depth + 1):
                if L < depth and depth > 2:
                    continue
                for seq in itertools.product(ops, repeat=L):
                    w = s.fresh()
                    model = {}
                    for op in seq:
                        _, rel, cname, over = op
                        c = dict(old=OLD, new=NEW, bad=BAD)[cname]
                        t = target(rel)
                        p = os.path.join(w, rel)
                        raised = None
                        try:
                            if over is None:
                                c.save(pathlib.Path(p))
                            elif rel == 'x.y':
                                c.save(p, overwrite=over)
                            else:
                                save_cdict(c, p, over)
                        except Exception as e:
                            raised = e
                        should = cname == 'bad' or (t in model and not over)
                        ctx.expect((raised is not None) == should, 'history:raise', 'a save raises exactly if the file exists without overwriting, or the value cannot be saved',
                                   seq=seq, op=op, raised=repr(raised), existed=t in model)
                        if t in model and not over and cname != 'bad':
                            ctx.expect(isinstance(raised, RuntimeError), 'history:error', 'refusal is a RuntimeError', raised=repr(raised))
                        if not should:
                            model[t] = c
                        ctx.trans()
                        ctx.state(seq)
                        files = sorted(os.path.relpath(os.path.join(d, f), w) for d, _, fs in os.walk(w) for f in fs)
                        ctx.expect(files == sorted(model), 'history:files', 'exactly the files named exist', files=files, want=sorted(model), seq=seq)
                        for t2, c2 in model.items():
                            ok = False
                            try:
                                ok = same(load_cdict(os.path.join(w, t2)), c2)
                            except Exception as e:
                                ok = False
                            ctx.expect(ok, 'history:content', 'every file holds the last value saved to it', file=t2, seq=seq)
                    ctx.trace()
            ctx.sample(dict(last=[list(map(str, o)) for o in seq]))

    # ------------------------------------------------------------------------------------------------ crashes
    def child(fn, arm=None, pid=None):
        """run fn in a forked process, armed; returns (status, operations counted, kinds)"""
        r, wfd = os.pipe()
        p = os.fork()
        if p == 0:
            try:
                os.close(r)
                try:
                    os.setgid(65534)
                    os.setuid(65534)
                except OSError:
                    pass
                if pid is not None:
                    os.getpid = lambda: pid
                os.umask(0)
                shim.mc_arm(*(arm or (0, 0, 0, 0)))
                try:
                    fn()
                    st = 'ok'
                except BaseException as e:
                    st = 'raised ' + type(e).__name__ + ' ' + str(e)[:150]
                n = shim.mc_disarm()
                kinds = ''.join(chr(shim.mc_kind(i)) for i in range(min(n, 200)))
                os.write(wfd, f'{n}|{kinds}|{st}'.encode())
            finally:
                os._exit(0)
        os.close(wfd)
        ok, _, _ = select.select([r], [], [], 60)
        data = b''
        if ok:
            data = os.read(r, 65536)
        else:
            os.kill(p, signal.SIGKILL)
        os.close(r)
        _, st = os.waitpid(p, 0)
        if data:
            n, kinds, res = data.decode().split('|', 2)
            return res, int(n), kinds, p
        if not ok:
            return 'hung', 0, '', p
        return 'killed' if os.waitstatus_to_exitcode(st) == 137 else f'died {st}', 0, '', p

    FORMS = dict(plain='f', suffix='f.cdict', dotted='run.v1.2', **{'missing-dir': 'a/b/f'})

    def setup(s, rel, old):
        w = s.fresh()
        t = os.path.join(w, target(rel))
        if old:
            os.makedirs(os.path.dirname(t), exist_ok=True)
            save_cdict(OLD, t)
            for d, ds, fs in os.walk(w):
                os.chmod(d, 0o777)
                for f in fs:
                    os.chmod(os.path.join(d, f), 0o666)
        return w, os.path.join(w, rel), t

    def content(t):
        if not os.path.lexists(t):
            return 'absent', None
        try:
            return 'file', load_cdict(t)
        except Exception as e:
            return 'unreadable', repr(e)[:200]

    def judge(ctx, t, allowed, status, info, key):
        kind, c = content(t)
        good = [nm for nm, v in allowed.items() if (kind == 'absent' and v is None) or (kind == 'file' and v is not None and same(c, v))]
        ctx.expect(bool(good), key, 'after a failed or interrupted save the path holds the complete old or the complete new content', kind=kind, content=repr(c)[:200], status=status, **info)
        return good[0] if good else None

    def faults(n, kinds):
        for k in range(n):
            yield 'kill', (KILL, k, 0, 0)
            if kinds[k:k + 1] == 'w':
                for t in (0, 1, -1):
                    yield f'torn{t}', (TORN, k, t, 0)
                for t in (0, 1):
                    yield f'short{t}', (SHORT, k, t, ENOSPC)
            for e in (ENOSPC, EIO):
                yield f'fail{e}', (FAIL, k, 0, e)
            yield 'fail-from', (FAIL_FROM, k, 0, ENOSPC)
        yield 'kill-after', (KILL, n, 0, 0)

    def crash(ctx, form):
        rel = FORMS[form]
        with Scratch() as s:
            for old, over, cname in itertools.product((False, True), (False, True), ('new', 'big', 'bad')):
                c = dict(new=NEW, big=BIG, bad=BAD)[cname]
                w, p, t = setup(s, rel, old)
                fn = lambda: save_cdict(c, p, over)
                res, n, kinds, _ = child(fn)
                refuse = old and not over
                want_ok = not refuse and cname != 'bad'
                ctx.expect((res == 'ok') == want_ok, 'crash:plain', 'an undisturbed save succeeds unless refused', res=res, old=old, over=over, content=cname)
                judge(ctx, t, dict(new=c) if want_ok else dict(old=OLD if old else None), res, dict(old=old, over=over, saved=cname), 'crash:plain')
                ctx.expect(n < 150, 'crash:ops', 'number of file operations of one save', n=n)
                for name, arm in faults(n, kinds):
                    w, p, t = setup(s, rel, old)
                    res, _, _, pid = child(fn, arm)
                    info = dict(fault=name, at=arm[1], operation=kinds[arm[1]:arm[1] + 1], old=old, over=over, saved=cname, ops=kinds)
                    ctx.state(form, old, over, cname, name, arm[1])
                    ctx.trans(max(arm[1], 1))
                    ctx.trace()
                    ctx.expect(res == 'killed' or res == 'ok' or res.startswith('raised'), 'crash:hang', 'the save ends', res=res, **info)
                    allowed = dict(old=OLD if old else None)
                    if want_ok:
                        allowed['new'] = c
                    if res == 'ok':
                        allowed = dict(new=c)
                        ctx.expect(want_ok, 'crash:ok', 'a save that must fail reports it', **info)
                    got = judge(ctx, t, allowed, res, info, 'crash:' + ('kill' if res == 'killed' else 'fault'))
                    ctx.outcome(form, name, res[:12], got)
                    # a later save is not blocked, by another process and by one that happens to get the same process id
                    exists = os.path.lexists(t)
                    r2, _, _, _ = child(lambda: save_cdict(THIRD, p, exists), pid=pid if arm[1] % 2 else None)
                    ctx.expect(r2 == 'ok', 'crash:blocked', 'a later save succeeds', later=r2, files=[f for _, _, fs in os.walk(w) for f in fs], **info)
                    judge(ctx, t, dict(new=THIRD), r2, info, 'crash:later')
            ctx.sample(dict(form=form, operations=kinds, faults=len(list(faults(n, kinds)))))

    def double(ctx):
        """two consecutive interrupted saves, then a third"""
        with Scratch() as s:
            for form in FORMS if th else ('plain', 'missing-dir'):
                rel = FORMS[form]
                for old in (False, True):
                    w, p, t = setup(s, rel, old)
                    _, n, kinds, _ = child(lambda: save_cdict(NEW, p, True))
                    modes = [(KILL, 0)] + ([(TORN, 0), (TORN, 1)] if th else [(TORN, 0)])
                    for k1, k2 in itertools.product(range(n + 1), repeat=2):
                        for (m1, t1), (m2, t2) in itertools.product(modes, repeat=2):
                            if (m1 == TORN and kinds[k1:k1 + 1] != 'w') or (m2 == TORN and kinds[k2:k2 + 1] != 'w'):
                                continue
                            w, p, t = setup(s, rel, old)
                            r1, _, _, pid = child(lambda: save_cdict(NEW, p, True), (m1, k1, t1, 0))
                            info = dict(first=k1, second=k2, modes=(m1, m2), old=old, ops=kinds)
                            first = judge(ctx, t, dict(old=OLD if old else None, new=NEW), r1, info, 'double:first')
                            cur = {'old': OLD if old else None, 'new': NEW, None: None}[first]
                            r2, _, _, _ = child(lambda: save_cdict(THIRD, p, True), (m2, k2, t2, 0), pid=pid if (k1 + k2) % 2 else None)
                            judge(ctx, t, dict(cur=cur, new=THIRD), r2, info, 'double:second')
                            r3, _, _, _ = child(lambda: save_cdict(BIG, p, True), pid=pid if k2 % 2 else None)
                            ctx.expect(r3 == 'ok', 'double:blocked', 'a later save succeeds', later=r3, **info)
                            judge(ctx, t, dict(new=BIG), r3, info, 'double:later')
                            ctx.state(form, old, k1, k2, m1, m2, t1, t2)
                            ctx.trans(k1 + k2)
                            ctx.trace()

    def refuse(ctx):
        """without overwriting, an existing file is not touched at all: same bytes, same inode, same modification time"""
        with Scratch() as s:
            for form, rel in FORMS.items():
                for c in (NEW, BIG, BAD, OLD):
                    for kw in ({}, dict(overwrite=False)):
                        for meth in (False, True):
                            w, p, t = setup(s, rel, True)
                            # the file may also have been written by something else
                            for raw in (None, b'not a cdict'):
                                if raw is not None:
                                    with open(t, 'wb') as f:
                                        f.write(raw)
                                st = os.stat(t)
                                data = open(t, 'rb').read()
                                try:
                                    c.save(p, **kw) if meth else save_cdict(c, p, **kw)
                                    ctx.fail('refuse:raise', 'refusing to overwrite raises', form=form)
                                except Exception:
                                    pass
                                st2 = os.stat(t)
                                ctx.expect((st.st_ino, st.st_mtime_ns, st.st_size) == (st2.st_ino, st2.st_mtime_ns, st2.st_size) and data == open(t, 'rb').read(),
                                           'refuse:untouched', 'an existing file is not altered unless overwriting was requested', form=form)
                                ctx.state(form, list(c.__dict__), repr(kw), meth, raw)
                                ctx.trans()
                                ctx.trace()

    ALL = ops_for(['f', 'f.cdict', 'x.y', 'd/g'], ['old', 'new', 'bad'], [False, True]) + [('save', 'f', 'old', None), ('save', 'd/g', 'new', None)]
    SOME = ops_for(['f', 'x.y', 'd/g'], ['old', 'new'], [False, True]) + [('save', 'f.cdict', 'new', True), ('save', 'f', 'bad', True)]
    FEW = ops_for(['f', 'f.cdict'], ['old', 'new'], [False, True]) + [('save', 'f', 'bad', True), ('save', 'f.cdict', 'bad', False)]
    return [('roundtrip', roundtrip), ('history-2', lambda c: history(c, ALL, 2)), ('history-3', lambda c: history(c, ALL if th else SOME, 3)),
            ('history-deep', lambda c: history(c, FEW, 4) if th else history(c, FEW, 3))] + [(f'crash-{f}', lambda c, f=f: crash(c, f)) for f in PATHS] \
        + [('double', double), ('refuse', refuse)]
