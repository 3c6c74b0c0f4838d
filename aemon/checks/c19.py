"""C19: a step's result doesn't depend on how it is compiled and called.

The same sampler, constructed with the same seed, is compiled and called in
different ways: other modes, subsets and orders of inputs and outputs, states
and data in shared variables, givens, several functions.  Every way is given the
states of the reference chain and must produce the next state of that chain.
"""
import aesara
import aesara.tensor as at
import numpy as np
from aemcmc import construct_sampler
from aesara.compile.mode import Mode
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import ancestors
from aesara.tensor.random import RandomStream

from .. import gen, nutsstub
from .. import zoo as Z
from ..invariance import Program
from ..runner import Abort, Task
from .c11 import MODELS, name

nutsstub.install()

RULE = (
    "one execution = one call of a compiled sampler; distinct = distinct (model, way to compile and call it, state); all of them are "
    "compared with the next state of the reference chain"
)
ASSUMPTIONS = [
    "Aesara's rewrites change values by rounding errors only",
    "a Metropolis kernel stands in for aehmc's NUTS kernel",
]


def reg(**kw):
    return Z.regression(**kw)


class Built:
    """A newly constructed sampler of the model."""

    def __init__(self, model, seed, obs_values=None):
        self.model = model
        self.srng = RandomStream(seed)
        self.g = model.build(self.srng)
        obs = {}
        for k, (rv, vv) in self.g["obs"].items():
            obs[rv] = vv if obs_values is None else obs_values(k, vv)
        self.obs = {k: obs[rv] for k, (rv, vv) in self.g["obs"].items()}
        self.sampler, init = construct_sampler(obs, self.srng)
        self.names = list(self.g["rvs"])
        self.init = {k: init[v] for k, v in self.g["rvs"].items()}
        self.step = {k: self.sampler.sample_steps[v] for k, v in self.g["rvs"].items()}
        self.params = [p for ps in self.sampler.parameters.values() for p in ps]

    raveled_dim = Program.raveled_dim
    param_values = Program.param_values


def function(b, outs, mode="FAST_COMPILE", perm=None, obs=True):
    """`f(free, obs, state)` gives the values of the steps of `outs`."""
    items = [("free", k, v) for k, v in b.g["free"].items()]
    if obs:
        items += [("obs", k, v) for k, v in b.obs.items()]
    items += [("state", k, v) for k, v in b.init.items()]
    items += [("param", i, p) for i, p in enumerate(b.params)]
    if perm is not None:
        items = [items[i] for i in perm.permutation(len(items))]
    fn = aesara.function([v for _, _, v in items], [b.step[k] for k in outs], updates=b.sampler.updates, on_unused_input="ignore", mode=mode)

    def f(free, ob, state):
        b.shapes = {k: np.shape(v) for k, v in state.items()}
        src = dict(free=free, obs=ob, state=state, param=b.param_values())
        return dict(zip(outs, fn(*[src[w][k] for w, k, _ in items])))

    return f


def shared(nm, x, type=None):
    x = np.asarray(x)
    return aesara.shared(x.copy(), name=nm, shape=(None,) * x.ndim if type is None else type.shape)


def with_mode(b, mode):
    return function(b, b.names, mode=mode)


def ways(rng, m, seed, names, free, obs, st, other):
    """(name of the way, function of a new sampler that makes the step function)"""
    new = lambda **kw: Built(m, seed, **kw)
    yield "FAST_RUN", lambda: with_mode(new(), "FAST_RUN")
    yield "no rewrites", lambda: with_mode(new(), Mode("py", None))
    yield "py", lambda: with_mode(new(), Mode("py", "fast_run"))

    def order():
        b = new()
        return function(b, [b.names[i] for i in rng.permutation(len(b.names))], perm=rng)

    yield "order of inputs and outputs", order
    for k in names:
        yield f"only {k}", lambda k=k: function(new(), [k], mode=["FAST_RUN", "FAST_COMPILE"][int(rng.integers(2))])
    if len(names) > 2:
        def some():
            return function(new(), list(rng.choice(names, int(rng.integers(2, len(names))), replace=False)))
        yield "some outputs", some

    def alternating():
        b = new()
        fs = [function(b, b.names, mode=md) for md in ("FAST_COMPILE", "FAST_RUN")]
        count = iter(range(10**6))
        return lambda *a: fs[next(count) % 2](*a)

    yield "two functions", alternating

    def state_shared():
        b = new()
        sh = {k: shared(k, st[k], b.init[k].type) for k in names}
        args = list(b.g["free"].values()) + list(b.obs.values()) + b.params
        fn = aesara.function(args, [], updates={**b.sampler.updates, **{sh[k]: b.step[k] for k in names}},
                             givens={b.init[k]: sh[k] for k in names}, on_unused_input="ignore", mode="FAST_RUN")

        def f(free, ob, state):
            b.shapes = {k: np.shape(v) for k, v in state.items()}
            fn(*free.values(), *[ob[k] for k in b.obs], *b.param_values())
            return {k: sh[k].get_value() for k in names}

        f.own_state = True
        return f

    yield "state in shared variables", state_shared

    def data_given():
        b = new()
        sh = {k: shared(k, obs[k]) for k in b.obs}
        args = list(b.g["free"].values()) + list(b.init.values()) + b.params
        fn = aesara.function(args, list(b.step.values()), updates=b.sampler.updates, on_unused_input="ignore", mode="FAST_COMPILE",
                             givens={v: sh[k] for k, v in b.obs.items()})

        def f(free, ob, state):
            b.shapes = {k: np.shape(v) for k, v in state.items()}
            return dict(zip(b.step, fn(*free.values(), *[state[k] for k in b.init], *b.param_values())))

        return f

    yield "data given by shared variables", data_given

    def data_shared():
        b = new(obs_values=lambda k, vv: shared(k, obs[k]))
        return function(b, b.names, obs=False)

    yield "shared data", data_shared

    def data_set():
        # the values that the shared variables have at construction don't matter
        sh = {}

        def val(k, vv):
            sh[k] = shared(k, other[k])
            return sh[k]

        b = new(obs_values=val)
        f = function(b, b.names, obs=False)
        for k, x in obs.items():
            sh[k].set_value(np.asarray(x))
        return f

    yield "shared data that are set later", data_set

    def data_const():
        b = new(obs_values=lambda k, vv: at.as_tensor(np.asarray(obs[k])))
        return function(b, b.names, obs=False, mode="FAST_RUN")

    yield "constant data", data_const

    if m.data and m.how == "input":
        yield "model's inputs as constants", lambda: kind_of_inputs(m, seed, "const")
        yield "model's inputs as shared variables", lambda: kind_of_inputs(m, seed, "shared")

    def data_expr():
        u = {}

        def val(k, vv):
            u[k] = vv
            return vv + np.asarray(0, dtype=vv.type.dtype)

        b = new(obs_values=val)
        b.obs = u
        return function(b, b.names)

    yield "data computed from an input", data_expr


def kind_of_inputs(m, seed, how):
    """The model's own inputs, given as `how`."""
    import copy

    m2 = copy.copy(m)
    m2.how = how
    if how == "shared":
        # the values at construction don't matter
        m2.data = {k: x * x.dtype.type(1.25) if x.dtype.kind == "f" else x for k, x in m.data.items()}
    b = Built(m2, seed)
    if how == "shared":
        for v in ancestors(list(b.step.values())):
            if isinstance(v, SharedVariable) and v.name in m.data:
                v.set_value(m.data[v.name])
    f = function(b, b.names, mode="FAST_COMPILE")
    return lambda free, ob, state: f({k: free[k] for k in b.g["free"]}, ob, state)


def close(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and a.dtype == b.dtype and np.allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=True)


def compare(ctx, model, kw=None, limit=None):
    rng = ctx.rng
    m = model(**(kw or {}))
    m.step_size = 0.6
    seed = int(rng.integers(2**31))
    free = m.free_values()
    two = m.simulate(rng, 2)
    sim, other = ({k: v[i] for k, v in two.items()} for i in range(2))
    with ctx.target("construct and compile"):
        b = Built(m, seed)
        f = function(b, b.names)
    names = b.names
    obs = {k: sim[k] for k in b.obs}
    chain = [{k: np.asarray(sim[k]) for k in names}]
    with ctx.target("sampling step"):
        for _ in range(ctx.n):
            chain.append(f(free, obs, chain[-1]))
    ctx.event("executions", ctx.n)
    for s in chain:
        ctx.distinct_arrays(*s.values())
    ctx.sample(dict(model=m.name, chain=chain[:3]))
    todo = list(ways(rng, m, seed, names, free, obs, chain[0], other))
    if limit and b.params:
        todo = [todo[i] for i in rng.permutation(len(todo))[:limit]]
    for way, make in todo:
        with ctx.target(f"construct and compile ({way})"):
            g = make()
        ctx.event("ways")
        for t in range(ctx.n):
            with ctx.target(f"sampling step ({way})"):
                got = g(free, obs, chain[t])
            ctx.event("executions")
            ctx.distinct(m.name, kw, way, t, seed)
            for k, v in got.items():
                ctx.event("values compared")
                ctx.check(close(v, chain[t + 1][k]), way,
                          lambda: f"step {t}: {k} is {v!r} instead of {chain[t + 1][k]!r} from {chain[t]!r} given {obs!r}")
            if ctx.fails:
                raise Abort
    ctx.require("values compared")


EXTRA = [
    (Z.gamma_poisson, dict(how="shared")), (Z.beta_binomial, dict(how="const")), (reg, dict(how="shared")), (reg, dict(lik="nbinom", how="const")),
    (reg, dict(lik="nbinom", prior="horseshoe", h="gamma", how="shared")), (Z.scalar_readme, {}), (Z.beta_binomial_hier, {}), (Z.uniform_scale, {}),
    (reg, dict(n=2, p=2)), (reg, dict(n=3, p=3, lik="nbinom")), (reg, dict(n=2, p=3)), (reg, dict(n=1, p=1)), (reg, dict(n=3, p=3, prior="horseshoe")),
    (Z.eight_schools, {}), (Z.shared_horseshoe, {}), (Z.horseshoe_regression_tau1, {}),
]


def tasks(tier):
    q = tier == "quick"
    out = [Task(name(f, kw), compare, 3 if q else 20, model=f, kw=kw, limit=7 if q else None) for f, kw in MODELS + EXTRA]
    for s in range(800, 812 if q else 900):
        out.append(Task(f"random {s}", compare, 3 if q else 10, model=gen.random_model, kw=dict(seed=s), limit=5 if q else None))
    return out
