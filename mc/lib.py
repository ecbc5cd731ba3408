"""Helpers shared by the checks.  Importing this module installs the controlled randomness and imports mocat."""
import math
import warnings
warnings.filterwarnings('ignore')
import numpy as np
from mc import rng
rng.install()
import jax
import jax.numpy as jnp
import mocat
from mocat import cdict, Scenario
from mc.rng import C, explore, law, root, bits, PM1

LN2 = math.log(2.)


def R(a, nd=4):
    """hashable, rounded view of numbers / arrays / nested tuples"""
    if isinstance(a, (tuple, list)):
        return tuple(R(x, nd) for x in a)
    a = np.asarray(a)
    if a.ndim == 0:
        return _r1(a.item(), nd)
    return tuple(R(x, nd) for x in a)


def _r1(x, nd):
    if isinstance(x, (bool, int)):
        return x
    if isinstance(x, float):
        if math.isnan(x):
            return 'nan'
        if math.isinf(x):
            return 'inf' if x > 0 else '-inf'
        x = round(x, nd)
        return x + 0.0 if x != 0 else 0.0
    return x


class Law(dict):
    """reference law: accumulate probabilities under rounded observations"""

    def add(self, key, p, nd=4):
        if p == 0:
            return
        key = R(key, nd)
        self[key] = self.get(key, 0.) + p


def same_law(ctx, got, want, key, what, tol=2e-5, **info):
    """got, want: dict observation -> probability, with rounded observations. Observations are matched up to the
    last rounded digit."""
    d, worst = _law_diff(got, want)
    if d > tol:
        got2, want2 = _snap(got, want)
        d, worst = _law_diff(got2, want2)
    return ctx.expect(d <= tol, key, what, difference=d, observation=repr(worst)[:600],
                      got_p=got.get(worst, 0.), want_p=want.get(worst, 0.), **info)


def _law_diff(a, b):
    d, w = 0., None
    for k in set(a) | set(b):
        x = abs(a.get(k, 0.) - b.get(k, 0.))
        if x > d or math.isnan(x):
            d, w = (x, k) if not math.isnan(x) else (float('inf'), k)
    return d, w


def _flat(k, out):
    if isinstance(k, tuple):
        out.append('(')
        for x in k:
            _flat(x, out)
        out.append(')')
    else:
        out.append(k)
    return out


def _snap(got, want, rtol=2e-3, atol=3e-3):
    """match observations that differ by rounding only"""
    wkeys = [(k, _flat(k, [])) for k in want]
    res = {}
    for k, p in got.items():
        if k in want:
            res[k] = res.get(k, 0.) + p
            continue
        f = _flat(k, [])
        best, bd = k, None
        for wk, wf in wkeys:
            if len(f) == len(wf) and all(_near(x, y, rtol, atol) for x, y in zip(f, wf)):
                dist = sum(abs(x - y) for x, y in zip(f, wf) if not isinstance(x, (str, bool)))
                if bd is None or dist < bd:
                    best, bd = wk, dist
        res[best] = res.get(best, 0.) + p
    return res, dict(want)


def _near(x, y, rtol, atol):
    if isinstance(x, str) or isinstance(y, str) or isinstance(x, bool) or isinstance(y, bool):
        return x == y
    return abs(x - y) <= atol + rtol * max(abs(x), abs(y))


def uncontrolled(fn):
    """run fn with key nodes not registered: every draw takes its first alternative"""
    C.tapes, C.traces = {}, {}
    return fn()


class tape:
    """Run code with one fixed tape: `with tape(choices) as t:` choices is a function (kind, index) -> alternative
    index, or a list of alternatives consumed in the order the choice points are met."""

    def __init__(self, pick=None):
        self.pick = pick

    def __enter__(self):
        self.n = 0
        C.tapes = {1: _AutoTape(self)}
        C.traces = {1: dict(new=[], seen=set(), p=1.0, choices=[])}
        self.trace = C.traces[1]
        self.key = jnp.asarray(root(1))
        return self

    def __exit__(self, *a):
        try:
            jax.effects_barrier()
        except Exception:
            pass

    @property
    def choices(self):
        return self.trace['choices']


class _AutoTape(dict):
    def __init__(self, owner):
        super().__init__()
        self.owner = owner

    def get(self, site, default=None):
        if site not in self:
            o = self.owner
            i = o.n
            o.n += 1
            self[site] = int(o.pick(site[1], i)) if o.pick is not None else 0
        return self[site]


def np_tree(t):
    return jax.tree_util.tree_map(np.asarray, t)


def gpot(x, prec=1.):
    """numpy standard gaussian potential used for momenta (with its constant)"""
    x = np.atleast_1d(np.asarray(x, float))
    return 0.5 * np.sum(x ** 2 * prec) + x.shape[-1] / 2 * np.log(2 * np.pi)


class Table(Scenario):
    """Scenario whose prior and likelihood potentials are given functions."""
    name = 'table'

    def __init__(self, dim, prior=None, lik=None, prior_sample=None, temperature=None, likelihood_sample=None):
        self.dim = dim
        if lik is not None:
            self.likelihood_potential = lik
        self.prior_potential = prior if prior is not None else (lambda x, random_key=None: jnp.zeros_like(x[..., 0]))
        if prior_sample is not None:
            self.prior_sample = prior_sample
        if likelihood_sample is not None:
            self.likelihood_sample = likelihood_sample
        if temperature is not None:
            self.temperature = temperature
        super().__init__()


def lattice_pot(values, lo):
    """potential on the integer lattice: values is an array indexed by (x - lo), +inf outside.  Gradient zero."""
    vals = jnp.asarray(values, dtype=jnp.float32)
    lo = jnp.asarray(lo)
    shape = jnp.array(vals.shape)

    def pot(x, random_key=None):
        i = jnp.round(jnp.atleast_1d(jax.lax.stop_gradient(x))).astype(int) - lo
        ok = jnp.all((i >= 0) & (i < shape), axis=-1)
        v = vals[tuple(jnp.clip(i, 0, shape - 1)[..., k] for k in range(vals.ndim))]
        return jnp.where(ok, v, jnp.inf) + 0. * jnp.sum(jax.lax.stop_gradient(x))
    return pot
