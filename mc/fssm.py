"""Finite-state state-space models for exhaustive exploration, and their exact references (numpy, float64)."""
import itertools
import math
from mc.lib import np, jnp, jax, LN2
from mocat.ssm import StateSpaceModel, ParticleFilter
from jax import random


class Finite(StateSpaceModel):
    """states 0..S-1 (value shape (1,)), time dependent transitions, table potentials for the observations"""
    name = 'finite'
    dim = 1
    dim_obs = 1

    def __init__(self, p0, A, B, g, kill=None):
        self.p0, self.A, self.B, self.g, self.kill = np.array(p0), np.array(A), np.array(B), np.array(g), kill
        super().__init__()

    @property
    def S(self):
        return len(self.p0)

    # ---- reference, float64 numpy
    def P(self, t0, t1, m=np):
        w = (t0 + 2 * (t1 - t0)) / 16.
        return (1 - w) * m.asarray(self.A) + w * m.asarray(self.B)

    def init(self, t, m=np):
        w = t / 16.
        return (1 - w) * m.asarray(self.p0) + w * m.asarray(self.p0)[::-1]

    def G(self, y, t, m=np):
        """potential of observation y for every state"""
        out = m.asarray(self.g) * (1 + .25 * t) + .4 * y * m.arange(self.S)
        if self.kill is not None:
            out = m.where((m.arange(self.S) == self.kill) & (y > .5), m.inf, out)
        return out

    # ---- the model as the library sees it
    def _i(self, x):
        return jnp.round(jax.lax.stop_gradient(x[..., 0])).astype(int)

    def initial_potential(self, x, t):
        return -jnp.log(self.init(t, jnp))[self._i(x)]

    def initial_sample(self, t, random_key):
        return random.categorical(random_key, jnp.log(self.init(t, jnp)))[..., jnp.newaxis].astype(float)

    def transition_potential(self, x_previous, t_previous, x_new, t_new):
        return -jnp.log(self.P(t_previous, t_new, jnp))[self._i(x_previous), self._i(x_new)]

    def transition_sample(self, x_previous, t_previous, t_new, random_key):
        lp = jnp.log(self.P(t_previous, t_new, jnp))[self._i(x_previous)]
        return random.categorical(random_key, lp)[..., jnp.newaxis].astype(float)

    def likelihood_potential(self, x, y, t):
        return self.G(y[0], t, jnp)[self._i(x)]

    def likelihood_sample(self, x, t, random_key):
        return x


class Guided(ParticleFilter):
    """a filter whose proposals depend on the observation, with the library's own weight formula for the increments"""
    name = 'guided'

    def q0(self, ssm, y, t, m=np):
        p = ssm.init(t, m)
        w = p * m.exp(-.5 * m.arange(ssm.S) * y) + .1
        return w / w.sum()

    def q(self, ssm, t0, y, t1, m=np):
        w = ssm.P(t0, t1, m) * m.exp(.3 * m.arange(ssm.S) * y) + .1
        return w / w.sum(1)[:, None]

    def initial_potential(self, ssm_scenario, x, y, t):
        return -jnp.log(self.q0(ssm_scenario, y[0], t, jnp))[ssm_scenario._i(x)]

    def initial_sample(self, ssm_scenario, y, t, random_key):
        return random.categorical(random_key, jnp.log(self.q0(ssm_scenario, y[0], t, jnp)))[..., jnp.newaxis].astype(float)

    def initial_log_weight(self, ssm_scenario, x, y, t):
        return -ssm_scenario.initial_potential(x, t) - ssm_scenario.likelihood_potential(x, y, t) + self.initial_potential(ssm_scenario, x, y, t)

    def proposal_potential(self, ssm_scenario, x_previous, t_previous, x_new, y_new, t_new):
        return -jnp.log(self.q(ssm_scenario, t_previous, y_new[0], t_new, jnp))[ssm_scenario._i(x_previous), ssm_scenario._i(x_new)]

    def proposal_sample(self, ssm_scenario, x_previous, t_previous, y_new, t_new, random_key):
        lq = jnp.log(self.q(ssm_scenario, t_previous, y_new[0], t_new, jnp))[ssm_scenario._i(x_previous)]
        return random.categorical(random_key, lq)[..., jnp.newaxis].astype(float)


def models(S):
    if S == 2:
        yield 'a', Finite([.3, .7], [[.8, .2], [.4, .6]], [[.3, .7], [.9, .1]], [.2, 1.1])
        yield 'kill', Finite([.5, .5], [[.7, .3], [.2, .8]], [[.5, .5], [.1, .9]], [.0, .9], kill=1)
    else:
        yield 'b', Finite([.2, .5, .3], [[.6, .3, .1], [.2, .2, .6], [.3, .4, .3]], [[.1, .1, .8], [.5, .4, .1], [.2, .6, .2]], [.7, .1, 1.3])


def kernels(ssm, pf):
    """(initial law and log weight, step law and log-weight increment) of a filter: float64 tables"""
    guided = isinstance(pf, Guided)

    def init(y, t):
        if not guided:
            return ssm.init(t), -ssm.G(y, t)
        q = pf.q0(ssm, y, t)
        return q, np.log(ssm.init(t) / q) - ssm.G(y, t)

    def step(t0, y, t1):
        if not guided:
            return ssm.P(t0, t1), np.tile(-ssm.G(y, t1), (ssm.S, 1))
        q = pf.q(ssm, t0, y, t1)
        return q, np.log(ssm.P(t0, t1) / q) - ssm.G(y, t1)[None]
    return init, step


def ess(lw):
    lw = np.asarray(lw, float)
    m = lw.max()
    if m == -np.inf:
        return float('nan')
    w = np.exp(lw - m)
    return w.sum() ** 2 / (w ** 2).sum()


def norm(lw):
    lw = np.asarray(lw, float)
    w = np.exp(lw - lw.max())
    return w / w.sum()


def forward(ssm, ys, ts):
    """likelihood of the first k observations and filtering laws, for every k"""
    a = ssm.init(ts[0]) * np.exp(-ssm.G(ys[0], ts[0]))
    out = [a]
    for k in range(1, len(ts)):
        a = (a @ ssm.P(ts[k - 1], ts[k])) * np.exp(-ssm.G(ys[k], ts[k]))
        out.append(a)
    return out


class Steps(Finite):
    """transition densities on a coarse rational grid, so that acceptance probabilities are exact under a coarse uniform alphabet"""
    name = 'steps'

    def P(self, t0, t1, m=np):
        A, B = m.asarray(self.A), m.asarray(self.B)
        return m.where((t0 < 1.5) & (t1 < 4.), A, B)


def choice_law(w, D):
    """independent choices, row i of D: index j with probability proportional to w[j] D[i, j]"""
    n, m = D.shape
    q = w[None] * D
    q = q / q.sum(1, keepdims=True)
    return {a: float(np.prod([q[i, j] for i, j in enumerate(a)])) for a in itertools.product(range(m), repeat=n)}


def rejection_law(w, D, K, b0, infl, levels):
    """reference of the capped rejection sampler with an adaptive bound: uniform draws over the midpoints of `levels` equal cells"""
    n, m = D.shape
    us = (np.arange(levels) + .5) / levels
    rej = lambda r: float(np.mean(us > r))
    out = {}

    def finish(p, idx, todo):
        q = w[None] * D
        q = q / q.sum(1, keepdims=True)
        for a in itertools.product(*[range(m) if todo[i] else [idx[i]] for i in range(n)]):
            pa = p * np.prod([q[i, a[i]] for i in range(n) if todo[i]])
            if pa > 0:
                out[a] = out.get(a, 0) + pa

    def accept(p, idx, ask, b, it):
        """idx proposed for the ones asked; uniforms"""
        for r in itertools.product(*[(False, True) if ask[i] else (False,) for i in range(n)]):
            pr = p
            for i in range(n):
                if ask[i]:
                    x = rej(D[i, idx[i]] / b)
                    pr *= x if r[i] else 1 - x
            if pr > 0:
                yield pr, r

    def loop(p, idx, todo, b, it):
        if not any(todo) or it >= K:
            finish(p, idx, todo)
            return
        for a in itertools.product(*[range(m) if todo[i] else [idx[i]] for i in range(n)]):
            pa = p * np.prod([w[a[i]] for i in range(n) if todo[i]])
            if pa == 0:
                continue
            md = max(D[i, a[i]] for i in range(n) if todo[i])
            if md > b:
                loop(pa, a, (True,) * n, md * infl, it + 1)
            else:
                for pr, r in accept(pa, a, todo, b, it):
                    loop(pr, a, r, b, it + 1)

    for a in itertools.product(range(m), repeat=n):
        pa = np.prod(w[list(a)])
        if pa == 0:
            continue
        md = max(D[i, a[i]] for i in range(n))
        b = md * infl if md > b0 else b0
        for pr, r in accept(pa, a, (True,) * n, b, 1):
            loop(pr, a, r, b, 1)
    return out


def stepmodels():
    yield 'half', 2, Steps([.5, .5], [[.5, 1.], [1., .5]], [[1., .5], [.5, .5]], [.2, 1.1])
    yield 'quarter', 4, Steps([.2, .5, .3], [[.25, .75, .5], [1., .5, .25], [.5, .25, 1.]], [[.75, .5, .25], [.25, 1., .75], [.5, .5, .25]], [.7, .1, 1.3])
    yield 'zero', 2, Steps([.2, .5, .3], [[.5, 1., 0.], [1., 0., .5], [0., .5, 1.]], [[1., 0., .5], [.5, 1., 0.], [.5, .5, 1.]], [.7, .1, 1.3])
