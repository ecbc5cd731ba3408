"""Controlled randomness: every jax.random draw of the code under test becomes an enumerable choice.

Installed BEFORE mocat is imported.  A key is a uint32 pair (tape id, node); `split` derives the child
nodes with a mixing function, so a node identifies the path of splits that produced the key, independent
of the tape.  Every scalar element of a draw is one choice point (node, kind, element index); the tape says
which element of a finite alphabet it takes, with its probability.  Draws go through a host callback, so
they work inside jit, scan, vmap and cond, and one compiled function serves every tape: a batch of tapes is
executed by vmapping over the keys.

explore() enumerates *all* tapes: executions run to completion, a choice point met for the first time takes
alternative 0 and its other alternatives are queued.  The probabilities of the leaves must sum to one.
"""
import itertools
import numpy as np
import jax
import jax.numpy as jnp

ROOT = np.uint32(0x1234567)
_orig = {}
SCALAR = jax.ShapeDtypeStruct((), np.float32)


class Control:
    def __init__(self):
        self.alpha = {}
        self.hashed = ()         # kinds of draws not enumerated: the node decides (used when only the structure of a run matters)
        self.reset()

    def reset(self):
        self.tapes = {}
        self.traces = {}
        self.log = None          # list of (op, tape, node, detail) when monitoring key usage

    def alphabet(self, kind, shape):
        a = self.alpha.get(kind)
        if a is None:
            raise RuntimeError(f'draw of kind {kind} not expected by this harness')
        return a(shape) if callable(a) else a


C = Control()


def _mix(x):
    x = x ^ (x >> 16)
    x = x * jnp.uint32(0x7feb352d)
    x = x ^ (x >> 15)
    x = x * jnp.uint32(0x846ca68b)
    return x ^ (x >> 16)


def _mix_np(x):
    x = int(x) & 0xffffffff
    x ^= x >> 16
    x = (x * 0x7feb352d) & 0xffffffff
    x ^= x >> 15
    x = (x * 0x846ca68b) & 0xffffffff
    return x ^ (x >> 16)


def split(key, num=2):
    key = jnp.asarray(key, dtype=jnp.uint32)
    shape = (num,) if isinstance(num, (int, np.integer)) else tuple(num)
    n = int(np.prod(shape))
    i = jnp.arange(1, n + 1, dtype=jnp.uint32)
    node = _mix(_mix(key[1] + jnp.uint32(0x9E3779B9)) ^ _mix(i * jnp.uint32(0x85EBCA6B) + jnp.uint32((n * 0x27d4eb2f) & 0xffffffff)))
    out = jnp.stack([jnp.broadcast_to(key[0], (n,)), node], axis=-1).reshape(shape + (2,))
    return out if C.log is None else _mon('split', n, key, out)


def fold_in(key, data):
    key = jnp.asarray(key, dtype=jnp.uint32)
    d = jnp.asarray(data).astype(jnp.uint32)
    node = _mix(_mix(key[1] + jnp.uint32(0x165667B1)) ^ _mix(d + jnp.uint32(0x9E3779B1)))
    out = jnp.stack([key[0], node])
    return out if C.log is None else _mon('fold_in', 0, key, out)


def PRNGKey(seed, **kw):
    return jnp.stack([jnp.uint32(0), _mix(jnp.asarray(seed).astype(jnp.uint32) + ROOT)])


def root(tape):
    return np.array([tape, ROOT], dtype=np.uint32)


def _mon(op, n, key, out):
    """log the derivation of child keys; entries (op, tape, node, (arity, 0 for fold_in, then the child nodes)).
    The children flow through the callback, so a derivation whose result is unused leaves no entry."""
    def cb(arr):
        arr = np.asarray(arr)
        if C.log is not None:
            for r in arr.reshape(-1, arr.shape[-1]):
                C.log.append((op, int(r[0]), int(r[1]), (n,) + tuple(int(x) for x in r[3::2])))
        return arr[..., 2:], np.zeros(arr.shape[:-1], np.float32)
    flat = jnp.concatenate([key.reshape(-1), out.reshape(-1)])
    return jax.pure_callback(cb, (jax.ShapeDtypeStruct((flat.shape[0] - 2,), np.uint32), SCALAR), flat, vectorized=True)[0].reshape(out.shape)


def _draw(kind, key, shape, params=None, dtype=jnp.float32, extra=None):
    key = jnp.asarray(key, dtype=jnp.uint32).reshape(-1)
    shape = tuple(int(s) for s in shape)
    op = key
    np_ = 0
    if params is not None:
        bits = jax.lax.bitcast_convert_type(params.astype(jnp.float32), jnp.uint32).reshape(-1)
        np_ = bits.shape[0]
        op = jnp.concatenate([key, bits])
    out_dt = np.dtype(dtype)

    def host(arr):
        arr = np.asarray(arr)
        b = arr.shape[:-1]
        flat = arr.reshape(-1, arr.shape[-1])
        out = np.zeros((flat.shape[0],) + shape, dtype=out_dt)
        for r in range(flat.shape[0]):
            out[r] = _resolve(kind, int(flat[r, 0]), int(flat[r, 1]), shape,
                              np.ascontiguousarray(flat[r, 2:]).view(np.float32) if np_ else None, extra)
        return out.reshape(b + shape), np.zeros(b, np.float32)

    # (the second result keeps XLA from making the call the root of a branch, which its CPU emitter cannot parse)
    return jax.pure_callback(host, (jax.ShapeDtypeStruct(shape, out_dt), SCALAR), op, vectorized=True)[0]


def _resolve(kind, tape, node, shape, params, extra):
    if C.log is not None:
        C.log.append(('draw', tape, node, kind + str(shape)))
    t = C.tapes.get(tape)
    tr = C.traces.get(tape)
    size = int(np.prod(shape)) if shape else 1
    vals = np.zeros(size)
    for e in range(size):
        if kind == 'categorical':
            lg = params.reshape(-1, extra)[e].astype(np.float64)
            alts = _softmax_alts(lg)
        elif kind == 'poisson':
            alts = C.alphabet('poisson', shape)
            if callable(alts):
                alts = alts(float(params.reshape(-1)[e if params.size > 1 else 0]))
        else:
            alts = C.alphabet(kind, shape)
        if kind in C.hashed:
            i = _mix_np(node * 31 + e * 0x9E3779B1 + 17) % len(alts)
            vals[e] = alts[i][0]
            if tr is not None:
                tr['choices'].append((kind, e, alts[i][0]))
            continue
        if t is None:           # padding row or unregistered key: default choice
            vals[e] = alts[0][0]
            continue
        site = (node, kind, size, e)
        c = t.get(site)
        if c is None:
            c = 0
            t[site] = 0
            tr['new'].append((site, len(alts)))
        elif c >= len(alts):
            raise RuntimeError('choice out of range while replaying')
        if site not in tr['seen']:
            tr['seen'].add(site)
            tr['p'] *= alts[c][1]
            tr['choices'].append((kind, e, alts[c][0]))
        vals[e] = alts[c][0]
    return vals.reshape(shape)


def _softmax_alts(lg):
    if np.any(np.isnan(lg)):
        # jax argmax over gumbel + nan returns the first nan
        return [(int(np.argmax(np.isnan(lg))), 1.0)]
    m = np.max(lg)
    if not np.isfinite(m):
        if m == -np.inf:
            return [(0, 1.0)]       # argmax of all -inf
        w = np.isposinf(lg).astype(float)
    else:
        w = np.exp(lg - m)
    w = w / w.sum()
    return [(int(i), float(w[i])) for i in range(len(w)) if w[i] > 1e-7]


def normal(key, shape=(), dtype=None):
    return _draw('normal', key, shape)


def uniform(key, shape=(), dtype=None, minval=0., maxval=1.):
    u = _draw('uniform', key, shape)
    return u * (jnp.asarray(maxval, dtype=jnp.float32) - minval) + minval


def bernoulli(key, p=0.5, shape=None):
    p = jnp.asarray(p)
    return uniform(key, p.shape if shape is None else shape) < p


def exponential(key, shape=(), dtype=None):
    return -jnp.log1p(-uniform(key, shape))


def categorical(key, logits, axis=-1, shape=None):
    logits = jnp.moveaxis(jnp.asarray(logits), axis, -1)
    batch = logits.shape[:-1]
    if shape is None:
        shape = batch
    n = logits.shape[-1]
    lg = jnp.broadcast_to(logits, tuple(shape) + (n,))
    return _draw('categorical', key, shape, lg, jnp.int32, extra=n)


def choice(key, a, shape=(), replace=True, p=None, axis=0):
    a_is_int = isinstance(a, (int, np.integer)) or jnp.ndim(a) == 0
    n = int(a) if a_is_int else jnp.shape(a)[axis]
    if not replace and int(np.prod(shape)) > 1:
        # without replacement: draw a permutation prefix element by element (Fisher-Yates with categorical choices)
        k = int(np.prod(shape))
        lp = jnp.zeros(n) if p is None else jnp.log(jnp.asarray(p))
        picks = []
        for i in range(k):
            s = categorical(fold_in(key, 1000 + i), lp)
            picks.append(s)
            lp = jnp.where(jnp.arange(n) == s, -jnp.inf, lp)
        inds = jnp.stack(picks).reshape(shape)
    else:
        lp = jnp.zeros(n) if p is None else jnp.log(jnp.asarray(p))
        inds = categorical(key, lp, shape=tuple(shape))
    return inds if a_is_int else jnp.take(jnp.asarray(a), inds, axis=axis)


def permutation(key, x, axis=0, independent=False):
    n = int(x) if isinstance(x, (int, np.integer)) else jnp.shape(x)[axis]
    inds = choice(key, n, (n,), replace=False)
    return inds if isinstance(x, (int, np.integer)) else jnp.take(jnp.asarray(x), inds, axis=axis)


def randint(key, shape, minval, maxval, dtype=None):
    return choice(key, int(maxval) - int(minval), shape) + minval


def gumbel(key, shape=(), dtype=None):
    return -jnp.log(-jnp.log(uniform(key, shape)))


def poisson(key, lam, shape=None, dtype=None):
    lam = jnp.asarray(lam, dtype=jnp.float32)
    if shape is None:
        shape = lam.shape
    return _draw('poisson', key, shape, jnp.broadcast_to(lam, shape), jnp.int32)


def multivariate_normal(key, mean, cov, shape=None, dtype=None, method='cholesky'):
    mean = jnp.asarray(mean)
    z = normal(key, (tuple(shape) if shape else ()) + mean.shape)
    return mean + z @ jnp.linalg.cholesky(cov).T


def install():
    for name in ('split', 'fold_in', 'PRNGKey', 'normal', 'uniform', 'bernoulli', 'exponential', 'categorical',
                 'choice', 'permutation', 'randint', 'gumbel', 'poisson', 'multivariate_normal'):
        _orig[name] = getattr(jax.random, name)
        setattr(jax.random, name, globals()[name])


# --------------------------------------------------------------------------------------------------------------------
class Leaf:
    __slots__ = ('p', 'out', 'choices', 'tape', 'start')

    def __init__(self, p, out, choices, tape, start):
        self.p, self.out, self.choices, self.tape, self.start = p, out, choices, tape, start


def _slice(tree, i):
    return jax.tree_util.tree_map(lambda a: np.asarray(a)[i], tree)


def explore(fn, starts, batch=64, max_leaves=200000, jit=True, check_total=True, one=False):
    """All executions of fn(start, key) for every start in `starts` (list of pytrees of equal structure).
    Returns (leaves, executions).  fn must be vmappable (one=False) or is run one tape at a time (one=True)."""
    n_starts = len(starts)
    if not one:
        f = jax.vmap(fn)
        if jit:
            f = jax.jit(f)
    queue = [(s, {}) for s in range(n_starts)]
    leaves = []
    stacked_cache = None
    first = True
    while queue:
        b = 1 if one else batch
        todo, queue = queue[-b:], queue[:-b]
        C.tapes, C.traces = {}, {}
        for i, (s, tape) in enumerate(todo):
            C.tapes[i + 1] = dict(tape)
            C.traces[i + 1] = dict(new=[], seen=set(), p=1.0, choices=[])
        if one:
            s = todo[0][0]
            out = fn(starts[s], jnp.asarray(root(1)))
            out = jax.tree_util.tree_map(np.asarray, out)
            outs = [out]
        else:
            pad = batch - len(todo)
            keys = jnp.asarray(np.array([root(i + 1) for i in range(len(todo))] + [root(0xFFFFFFF)] * pad))
            st = jax.tree_util.tree_map(lambda *a: jnp.stack([jnp.asarray(x) for x in a]),
                                        *([starts[s] for s, _ in todo] + [starts[todo[0][0]]] * pad))
            out = jax.tree_util.tree_map(np.asarray, f(st, keys))
            jax.effects_barrier()
            if first:       # determinism: the same tapes replayed must give identical observations
                C2 = {i: dict(t) for i, t in C.tapes.items()}
                tr2 = {i: dict(new=list(t['new']), seen=set(t['seen']), p=t['p'], choices=list(t['choices']))
                       for i, t in C.traces.items()}
                for i in C.traces:
                    C.traces[i] = dict(new=[], seen=set(), p=1.0, choices=[])
                out2 = jax.tree_util.tree_map(np.asarray, f(st, keys))
                for a, bb in zip(jax.tree_util.tree_leaves(out), jax.tree_util.tree_leaves(out2)):
                    if not np.array_equal(a, bb, equal_nan=a.dtype.kind == 'f'):
                        raise RuntimeError('replay of identical tapes diverged: uncontrolled nondeterminism')
                C.tapes, C.traces = C2, tr2
                first = False
            outs = [_slice(out, i) for i in range(len(todo))]
        for i, (s, tape) in enumerate(todo):
            tr = C.traces[i + 1]
            full = C.tapes[i + 1]
            leaves.append(Leaf(tr['p'], outs[i], tr['choices'], full, s))
            base = dict(tape)
            for site, arity in tr['new']:
                for alt in range(1, arity):
                    t2 = dict(base)
                    t2[site] = alt
                    queue.append((s, t2))
                base[site] = 0
        if len(leaves) > max_leaves:
            raise RuntimeError(f'more than {max_leaves} executions: bound too large for this harness')
    if check_total:
        tot = np.zeros(n_starts)
        for l in leaves:
            tot[l.start] += l.p
        if not np.allclose(tot, 1, atol=1e-4):
            raise RuntimeError(f'leaf probabilities do not sum to one: {tot}')
    return leaves


def law(leaves, key, n_starts=None, start=None):
    """Exact law of key(leaf.out)."""
    d = {}
    for l in leaves:
        if start is not None and l.start != start:
            continue
        k = key(l.out)
        d[k] = d.get(k, 0.0) + l.p
    return d


def law_distance(a, b):
    keys = set(a) | set(b)
    return max((abs(a.get(k, 0.0) - b.get(k, 0.0)) for k in keys), default=0.0)


def bits(n):
    """uniform alphabet: midpoints of n equal cells"""
    return [((i + .5) / n, 1. / n) for i in range(n)]


PM1 = [(-1., .5), (1., .5)]
