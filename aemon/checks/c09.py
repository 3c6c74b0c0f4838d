"""C09: samplers are complete, closed and well-formed.

Structure of the result, and what the compiled sampler was seen to do: every
unobserved variable gets a step and an initial value; nothing else is needed to
compile and run; states keep their type, shape and support for any admissible
state; no random draw of the prior (or of the observed variables) is consumed.
"""
import itertools

import numpy as np
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream
from aemcmc import construct_sampler

from .. import gen, nutsstub, rv
from .. import zoo as Z
from ..runner import Abort, Task

nutsstub.install()
rv.install()

RULE = (
    "one execution = one call of a compiled sampler with its draws logged; distinct = distinct (model, partition into observed and "
    "unobserved, state)"
)
ASSUMPTIONS = ["a Metropolis kernel stands in for aehmc's NUTS kernel (see C07)"]


def reg(**kw):
    return Z.regression(**kw)


MODELS = [
    (Z.gamma_poisson, {}), (Z.gamma_poisson, dict(shape=(2, 3))), (Z.gamma_poisson, dict(how="shared")), (Z.gamma_poisson, dict(how="const")),
    (Z.beta_binomial, {}), (Z.beta_binomial, dict(shape=3, how="shared")), (Z.beta_binomial, dict(how="const")),
    (reg, {}), (reg, dict(lik="nbinom")), (reg, dict(prior="scalar", how="shared")), (reg, dict(lik="nbinom", prior="scalar", how="const")),
    (reg, dict(prior="horseshoe")), (reg, dict(lik="nbinom", prior="horseshoe", how="shared")), (reg, dict(lik="nbinom", h="gamma")),
    (reg, dict(lik="nbinom", prior="horseshoe", h="gamma")), (reg, dict(lik="nbinom", h="gamma", how="shared")),
    (reg, dict(lik="nbinom", h="vector")), (reg, dict(lik="nbinom", h="input")), (reg, dict(prior="hier")), (reg, dict(lik="nbinom", h="halfnormal")),
    (reg, dict(lik="nbinom", prior="hier", h="gamma")),
    (reg, dict(p=1)), (reg, dict(n=1)), (reg, dict(n=2, p=5)), (reg, dict(lik="nbinom", n=2, p=5, prior="horseshoe")),
    (Z.normal_normal, {}), (Z.scalar_readme, {}), (Z.gamma_poisson_hier, {}), (Z.beta_binomial_hier, {}), (Z.uniform_scale, {}),
    (Z.dirichlet_normal, {}), (Z.many_priors, {}), (Z.horseshoe_normal, {}), (Z.eight_schools, {}), (Z.regression_matrix_latent, {}),
    (Z.matrix_broadcast, {}), (Z.shared_horseshoe, {}), (Z.two_level, {}), (Z.two_regressions, {}), (Z.horseshoe_regression_tau1, {}),
    (Z.gamma_scale_regression, {}), (Z.uniform_conjugate, {}), (Z.vector_transforms, {}), (Z.hyper_tree, {}),
]


def name(f, kw):
    return f.__name__ + "".join(f"_{k}={v}" for k, v in kw.items())


def float32(ctx, model, kw=None, cast=False):
    """The same in single precision, with or without data in double precision."""
    def mk(**kw):
        m = model(**kw)
        if cast:
            m.data = {k: v.astype("float32") if v.dtype == np.float64 else v for k, v in m.data.items()}
        return m

    with aesara.config.change_flags(floatX="float32"):
        wellformed(ctx, mk, kw)


def wellformed(ctx, model, kw=None, observe=()):
    """`observe`: variables of the model that are observed in addition."""
    m = model(**(kw or {}))
    rng = ctx.rng
    if observe == "some":
        lat = [n for n in m.nodes if not n.obs and not n.det]
        if len(lat) < 2:
            return ctx.event("executions", 0)
        k = int(rng.integers(1, len(lat)))
        observe = [lat[i].name for i in rng.choice(len(lat), k, replace=False)]
    for n in m.nodes:
        if n.name in observe:
            n.obs = True
    srng = RandomStream(int(rng.integers(2**31)))
    g = m.build(srng)
    obs = {rv_: vv for rv_, vv in g["obs"].values()}
    order = list(obs)
    rng.shuffle(order)
    with ctx.target("construct_sampler"):
        sampler, init = construct_sampler({k: obs[k] for k in order}, srng)
    want = set(g["rvs"].values())
    nm = lambda vs: sorted(str(v) for v in vs)
    ctx.check(set(sampler.sample_steps) == want, "steps",
              lambda: f"steps for {nm(sampler.sample_steps)}, unobserved variables are {nm(want)}")
    ctx.check(want <= set(init) and not (set(init) & set(obs)), "initial values",
              lambda: f"initial values for {nm(init)}, unobserved variables are {nm(want)}")
    staged = [v for vs in sampler.stages.values() for v in vs]
    ctx.check(len(staged) == len(set(staged)) and set(staged) == want, "stages",
              lambda: f"stages {dict(sampler.stages)} aren't a partition of {nm(want)}")
    ctx.check(set(sampler.parameters) <= set(sampler.stages), "parameters", "parameters of a kernel that isn't a stage")
    for k, vs in sampler.stages.items():
        for v in vs:
            ctx.check(sampler.sample_steps[v].owner.op == k, "stage kernel", f"{v} is in the stage of another kernel")
    if ctx.fails:
        raise Abort
    for k, v in g["rvs"].items():
        t, t2 = sampler.sample_steps[v].type, init[v].type
        ctx.check(t.dtype == v.type.dtype and t.ndim == v.type.ndim, "type of the step", lambda: f"{k}: {t} instead of {v.type}")
        ctx.check(t2.dtype == v.type.dtype and t2.ndim == v.type.ndim and t2 is not v and init[v] is not v and init[v].owner is None,
                  "type of the initial value", lambda: f"{k}: {t2} instead of {v.type}")
    ctx.check(len({id(init[v]) for v in want}) == len(want) and not {id(init[v]) for v in want} & {id(v) for v in obs.values()},
              "initial values", "a variable's initial value is that of another variable, or an observed value")
    names = list(g["rvs"])
    params = [p for ps in sampler.parameters.values() for p in ps]
    inputs = list(g["free"].values()) + [vv for _, vv in g["obs"].values()] + [init[g["rvs"][k]] for k in names] + params
    with ctx.target("compile"):
        fn = aesara.function(inputs, [sampler.sample_steps[g["rvs"][k]] for k in names], updates=sampler.updates,
                             on_unused_input="ignore", mode="FAST_COMPILE")
    # the streams of the model's own random variables
    own = {}
    for r in list(g["rvs"].values()) + list(obs):
        gen_ = r.owner.inputs[0].get_value(borrow=True)
        own[gen_.bit_generator.state["state"]["inc"]] = r.name
    sim = m.simulate(rng, ctx.n)
    free = m.free_values()
    dtype = {**{k: v.type.dtype for k, v in g["rvs"].items()}, **{k: v.type.dtype for k, (v, _) in g["obs"].items()}}
    sim = {k: np.asarray(v, dtype=dtype.get(k)) for k, v in sim.items()}
    for i in range(ctx.n):
        st = {k: sim[k][i] for k in names}
        args = list(free.values()) + [sim[k][i] for k in g["obs"]] + [st[k] for k in names]
        for ker, ps in sampler.parameters.items():
            d = 0
            for v in sampler.stages[ker]:
                (k,) = [k for k in names if g["rvs"][k] is v]
                x = np.shape(st[k])
                d += int(np.prod(x)) if v.owner.op.name != "dirichlet" else int(np.prod(x)) // x[-1] * (x[-1] - 1)
            for p in ps:
                args.append(np.asarray(0.3 if p.type.ndim == 0 else np.ones(d), dtype=aesara.config.floatX))
        kept = [np.array(a) for a in args]
        with rv.record() as log:
            with ctx.target("sampling step"):
                out = fn(*args)
        ctx.event("executions")
        ctx.event("draws logged", len(log))
        ctx.distinct_arrays(*kept)
        ctx.check(all(np.array_equal(a, b) for a, b in zip(args, kept)), "inputs", "the step modified its inputs")
        for e in log:
            ctx.check(e.inc not in own, "prior draws", lambda: f"the step drew {e.name}{e.params!r} from the stream of the model's {own[e.inc]}")
        full = {}
        for k, o in zip(names, out):
            ctx.check(np.shape(o) == np.shape(st[k]), "shape", lambda: f"{k}: {np.shape(o)} instead of {np.shape(st[k])}")
            ctx.check(o.dtype == dtype[k], "dtype", lambda: f"{k}: {o.dtype} instead of {dtype[k]}")
            full[k] = np.asarray(o)[None]
        if ctx.fails:
            raise Abort
        for k in g["obs"]:
            full[k] = np.asarray(sim[k][i])[None]
        v = m.support(full)
        ctx.check(v is None, "support", v or "")
        if i == 0:
            ctx.sample(dict(model=m.name, observed=list(g["obs"]), start=st, end=dict(zip(names, out)), draws=[e.name for e in log]))
    ctx.require("executions", "draws logged")


def tasks(tier):
    q = tier == "quick"
    out = [Task(name(f, kw), wellformed, 5 if q else 60, model=f, kw=kw) for f, kw in MODELS]
    multi = [(f, kw) for f, kw in MODELS if f in (
        Z.gamma_poisson_hier, Z.beta_binomial_hier, Z.uniform_scale, Z.many_priors, Z.horseshoe_normal, Z.eight_schools, Z.shared_horseshoe,
        Z.two_level, Z.gamma_scale_regression, Z.hyper_tree, Z.vector_transforms) or kw.get("prior") in ("horseshoe", "hier")]
    for f, kw in multi:
        for r in range(2 if q else 8):
            out.append(Task(f"partly observed {r} {name(f, kw)}", wellformed, 3 if q else 20, model=f, kw=kw, observe="some"))
    few = [MODELS[i] for i in (0, 4, 12, 14, 18)] + [(Z.many_priors, {}), (Z.horseshoe_normal, {}), (Z.two_regressions, {}), (Z.hyper_tree, {}),
                                                         (Z.scalar_readme, {}), (Z.normal_normal, {}), (Z.two_level, {}), (Z.eight_schools, {})]
    for f, kw in few if q else MODELS:
        for nm in Z.NAMINGS:
            out.append(Task(f"names={nm} {name(f, kw)}", wellformed, 2 if q else 20, model=Z.renamed, kw=dict(model=f, kw=kw, naming=nm)))
    for i, (f, kw) in enumerate(MODELS):
        if f not in (Z.dirichlet_normal, Z.vector_transforms):  # aeppl's simplex transform always gives float64 values
            out.append(Task(f"float32 {name(f, kw)}", float32, 3 if q else 30, model=f, kw=kw, cast=bool(i % 2)))
    for s in range(200, 240 if q else 500):
        out.append(Task(f"random {s}", wellformed, 3 if q else 20, model=gen.random_model, kw=dict(seed=s), observe="some" if s % 3 == 0 else ()))
    return out
