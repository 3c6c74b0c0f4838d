"""C13: constructing samplers leaves the model alone and can be repeated.

The graph reachable from the model's variables, names, values of shared
variables and the observation mapping are recorded before and after; what the
model computes afterwards is compared bitwise with an untouched twin.
"""
import numpy as np
import aesara
from aesara.compile.sharedvalue import SharedVariable
from aesara.graph.basic import Constant, applys_between, ancestors
from aesara.tensor.random import RandomStream
from aemcmc import construct_sampler
from aemcmc.sample import sample_prior

from .. import gen, invariance as I, lookalikes as K, nutsstub
from .. import zoo as Z
from ..runner import Abort, Task

nutsstub.install()

RULE = (
    "one execution = one construction of a sampler (or prior sampler) whose model was recorded before and after, or one call of a compiled "
    "function of the model; distinct = distinct (model, seed); recorded nodes and variables are counted separately"
)


def reg(**kw):
    return Z.regression(**kw)


MODELS = [
    (Z.gamma_poisson, dict(shape=(2, 3), how="shared")), (Z.gamma_poisson, {}), (Z.beta_binomial, dict(shape=4, how="const")), (reg, {}),
    (reg, dict(lik="nbinom", how="shared")), (reg, dict(prior="horseshoe")), (reg, dict(lik="nbinom", prior="horseshoe")),
    (reg, dict(lik="nbinom", h="gamma")), (reg, dict(lik="nbinom", prior="horseshoe", h="gamma", how="const")), (reg, dict(prior="hier")),
    (reg, dict(lik="nbinom", h="halfnormal")), (Z.normal_normal, {}), (Z.gamma_poisson_hier, {}), (Z.beta_binomial_hier, {}), (Z.two_level, {}),
    (Z.uniform_scale, {}), (Z.many_priors, {}), (Z.hyper_tree, {}), (Z.dirichlet_normal, {}), (Z.horseshoe_normal, {}), (Z.shared_horseshoe, {}),
    (Z.matrix_broadcast, {}), (Z.gamma_scale_regression, {}), (Z.uniform_conjugate, {}), (Z.vector_transforms, {}), (Z.two_regressions, {}),
    (reg, dict(lik="nbinom", prior="hier", h="gamma")),
]


def name(f, kw):
    return f.__name__ + "".join(f"_{k}={v}" for k, v in kw.items())


def value(v):
    x = v.get_value(borrow=True)
    if hasattr(x, "bit_generator"):
        return repr(x.bit_generator.state)
    return np.asarray(x).tobytes()


def default_update(v):
    """The update of a shared variable; aesara's placeholders (which every
    `OpFromGraph` leaves on its implicit inputs) stand for no update, except
    on an RNG, whose update they'd replace."""
    u = getattr(v, "default_update", None)
    if u is None or (u.owner is not None and type(u.owner.op).__name__ == "UpdatePlaceholder" and not hasattr(v.get_value(borrow=True), "bit_generator")):
        return None
    return id(u)


class Record:
    def __init__(self, srng, outs, obs):
        self.outs, self.obs, self.srng = outs, obs, srng
        self.take()

    def take(self):
        vs = list(ancestors(self.outs + list(self.obs) + list(self.obs.values())))
        self.vars = vs
        self.view = {}
        for v in vs:
            o = v.owner
            self.view[id(v)] = (
                v.name, v.type, None if o is None else (id(o), o.op, tuple(map(id, o.inputs)), tuple(map(id, o.outputs))),
                None if o is None else o.outputs.index(v),
                value(v) if isinstance(v, SharedVariable) else v.data.tobytes() if isinstance(v, Constant) and hasattr(v.data, "tobytes") else None,
                default_update(v),
            )
        self.pairs = [(id(a), id(b)) for a, b in self.obs.items()]
        self.updates = [(id(a), id(b)) for a, b in self.srng.state_updates]

    def check(self, ctx, what):
        old, pairs, ups, vs = self.view, self.pairs, self.updates, self.vars
        self.take()
        ctx.event("variables recorded", len(old))
        for i, o in old.items():
            n = self.view.get(i)
            if n != o:
                v = [v for v in vs if id(v) == i][0]
                diff = "is no longer part of the model" if n is None else "changed: " + ", ".join(
                    w for w, a, b in zip(("name", "type", "owner", "index", "value", "default update"), o, n) if a != b)
                ctx.fail("model modified", f"{what}: {v} {diff}")
                raise Abort
        ctx.check(len(self.view) == len(old), "model modified", f"{what}: the model has new variables")
        ctx.check(self.pairs == pairs, "observations modified", what)
        ctx.check(self.updates[: len(ups)] == ups, "stream modified", what)


def compiled(g, m, sampler, init):
    names = list(g["rvs"])
    params = [(k, p) for k, ps in sampler.parameters.items() for p in ps]
    ins = list(g["free"].values()) + [b for _, b in g["obs"].values()] + [init[g["rvs"][k]] for k in names] + [p for _, p in params]
    key = {v: k for k, v in g["rvs"].items()}
    fn = aesara.function(ins, [sampler.sample_steps[g["rvs"][k]] for k in names], updates=sampler.updates, on_unused_input="ignore",
                         mode="FAST_COMPILE")

    def call(obs, st):
        args = list(m.free_values().values()) + [obs[k] for k in g["obs"]] + [st[k] for k in names]
        for ker, p in params:
            d = 0
            for v in sampler.stages[ker]:
                x = np.shape(st[key[v]])
                d += int(np.prod(x)) if v.owner.op.name != "dirichlet" else int(np.prod(x)) // x[-1] * (x[-1] - 1)
            args.append(np.float64(0.6) if p.type.ndim == 0 else np.ones(d))
        return dict(zip(names, fn(*args)))

    return call


def strip(g, bare):
    """Generators whose updates are only known to the stream."""
    for i, v in enumerate([*g["rvs"].values(), *(a for a, _ in g["obs"].values())]):
        if bare[i] and isinstance(v.owner.inputs[0], SharedVariable):
            v.owner.inputs[0].default_update = None


def unmodified(ctx, model, kw=None):
    rng = ctx.rng
    for rep in range(ctx.n):
        m = model(**(kw or {}))
        seed = int(rng.integers(2**31))
        bare = rng.random(100) < 0.4
        if rng.random() < 0.5:
            m.naming = Z.NAMINGS[int(rng.integers(len(Z.NAMINGS)))]
        ctx.event(f"naming: {m.naming}")
        sim = m.simulate(rng, 2)
        st = {k: v[0] for k, v in sim.items()}
        ms = []
        for _ in range(2):
            srng = RandomStream(seed)
            g = m.build(srng)
            strip(g, bare)
            ms.append((srng, g, {a: b for a, b in g["obs"].values()}))
        (srng, g, obs), (srng0, g0, obs0) = ms
        outs = list(g["rvs"].values())
        r = Record(srng, outs, obs)
        ctx.distinct(m.name, seed)
        with ctx.target("construct"):
            s1, i1 = construct_sampler(obs, srng)
        r.check(ctx, "construct_sampler")
        with ctx.target("construct again"):
            s2, i2 = construct_sampler(obs, srng)
        r.check(ctx, "construct_sampler, again")
        shape = lambda s: [(type(k).__name__, [v.name for v in vs]) for k, vs in s.stages.items()]
        ctx.check(shape(s1) == shape(s2), "second sampler", lambda: f"{shape(s1)} at first, {shape(s2)} when it's constructed again")
        with ctx.target("sample_prior"):
            p, up = sample_prior(srng, 2, *outs)
        r.check(ctx, "sample_prior")
        ctx.event("executions", 3)
        # the untouched twin: the first sampler, compiled and called at once
        with ctx.target("twin"):
            s0, i0 = construct_sampler(obs0, srng0)
            twin = compiled(g0, m, s0, i0)
        with ctx.target("compile"):
            c2 = compiled(g, m, s2, i2)
            c1 = compiled(g, m, s1, i1)
        obsv = {k: st[k] for k in g["obs"]}
        cur = {k: st[k] for k in g["rvs"]}
        a = b = cur
        for t in range(3):
            with ctx.target("sampling step"):
                c2(obsv, cur)  # must not interfere
                a, b = c1(obsv, a), twin(obsv, b)
            ctx.event("executions", 3)
            for k in a:
                ctx.check(np.array_equal(a[k], b[k]), "interference",
                          lambda: f"{k}: {a[k]!r} after other samplers were constructed, {b[k]!r} otherwise")
        # what the model itself computes is the same as without any of this
        ev = outs + list(obs)
        ev0 = list(g0["rvs"].values()) + list(obs0)
        srng3 = RandomStream(seed)
        g3 = m.build(srng3)
        strip(g3, bare)
        ev3 = list(g3["rvs"].values()) + [a for a, _ in g3["obs"].values()]
        ins = lambda g: list(g["free"].values())
        with ctx.target("prior function"):
            x = aesara.function(ins(g), ev, on_unused_input="ignore", mode="FAST_COMPILE")(*m.free_values().values())
        y = aesara.function(ins(g3), ev3, on_unused_input="ignore", mode="FAST_COMPILE")(*m.free_values().values())
        ctx.event("executions")
        for v, p_, q_ in zip(ev, x, y):
            ctx.check(np.array_equal(p_, q_), "model's own draws", lambda: f"{v}: {p_!r} instead of {q_!r}")
    ctx.sample(dict(model=m.name, stages=shape(s1), variables=len(r.view)))
    ctx.require("variables recorded")


def second(model, kw=None):
    """A model whose sampler is constructed for the second time."""
    m = model(**(kw or {}))
    build = m.build

    def build_twice(srng):
        g = build(srng)
        construct_sampler({a: b for a, b in g["obs"].values()}, srng)
        return g

    m.build = build_twice
    return m


def tasks(tier):
    q = tier == "quick"
    out = [Task("model " + name(f, kw), unmodified, 1 if q else 8, model=f, kw=kw) for f, kw in MODELS]
    for s in range(500, 508 if q else 700):
        out.append(Task(f"model random {s}", unmodified, 1 if q else 2, model=gen.random_model, kw=dict(seed=s)))
    for nm, f in K.CASES.items():
        out.append(Task("model " + nm, unmodified, 1 if q else 3, model=f))
    for f, kw in MODELS if not q else [MODELS[i] for i in (0, 3, 6, 12, 17, 23)]:
        if kw.get("h") != "gamma":
            out.append(Task("second sampler " + name(f, kw), I.invariance, 400 if q else 3000, model=second, kw=dict(model=f, kw=kw), steps=2,
                            step_size=0.8))
    return out
