"""C16: the transform relations preserve the distribution of a variable."""
import aesara
import aesara.tensor as at
import numpy as np
import scipy.stats
from aesara.graph.basic import Constant, ancestors
from aesara.graph.fg import FunctionGraph
from aesara.graph.rewriting.kanren import KanrenRelationSub
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable
from aemcmc.transforms import invgamma_exponential, location_scale_transform

from .. import dist as D
from .. import exprs
from .. import stats as S
from ..runner import Abort, Task

RULE = (
    "one execution = one draw of the transformed expression given values of the parameters; distinct = distinct draws; for "
    "rejections: one attempt to transform a variable"
)
ASSUMPTIONS = ["Aesara's random variables and scipy's distribution functions"]
FAMILY = ["cauchy", "gumbel", "laplace", "logistic", "normal"]
OTHER = {
    "gamma": lambda s, m, sd: s.gamma(1.5, sd), "beta": lambda s, m, sd: s.beta(sd, sd), "uniform": lambda s, m, sd: s.uniform(m, m + sd),
    "exponential": lambda s, m, sd: s.exponential(sd), "halfnormal": lambda s, m, sd: s.halfnormal(m, sd),
    "halfcauchy": lambda s, m, sd: s.halfcauchy(m, sd), "lognormal": lambda s, m, sd: s.lognormal(m, sd),
    "poisson": lambda s, m, sd: s.poisson(sd), "bernoulli": lambda s, m, sd: s.bernoulli(0.3), "weibull": lambda s, m, sd: s.weibull(sd),
    "triangular": lambda s, m, sd: s.triangular(0.0, 0.5, 1.0), "vonmises": lambda s, m, sd: s.vonmises(m, sd),
    "pareto": lambda s, m, sd: s.pareto(2.0, sd), "wald": lambda s, m, sd: s.wald(sd, sd), "nbinom": lambda s, m, sd: s.nbinom(3, 0.3),
    "invgamma": lambda s, m, sd: s.invgamma(2.0, sd), "gengamma": lambda s, m, sd: s.gengamma(1.0, sd, 2.0),
    "dirichlet": lambda s, m, sd: s.dirichlet(np.ones(3)), "multivariate_normal": lambda s, m, sd: s.multivariate_normal(np.zeros(2), np.eye(2)),
}
SHAPES = [(), (3,), (2, 3), (1, 3), (2, 1), (1,)]


def transform(rel, v):
    fg = FunctionGraph(outputs=[v], clone=False)
    return KanrenRelationSub(rel).transform(fg, v.owner)


def positive(x):
    return np.round(np.exp(0.6 * x) + 0.05, 3)


def param(rng, srng, nm, shape, pos, inputs):
    """A parameter and its value; values of inputs and random variables are given to the compiled function."""
    val = np.round(rng.normal(size=shape) * 2, 2)
    if pos:
        val = positive(val)
    kind = rng.integers(5)
    if kind == 0:
        return at.as_tensor(val), val
    if kind == 1:
        return aesara.shared(np.asarray(val), name=nm, shape=shape), val
    if kind == 2:
        v = at.tensor("float64", shape=tuple(1 if d == 1 else None for d in shape), name=nm)
        inputs.append((v, val))
        return v, val
    mk = srng.halfnormal if pos else srng.normal
    v = mk(np.zeros(shape), 1.0, name=nm)
    inputs.append((v, val))
    if kind == 3:
        return v, val
    return (at.sqr(v) + 0.1, val**2 + 0.1) if pos else (2 * v + 1.0, 2 * val + 1)


def broadcast(rng):
    while True:
        a, b = SHAPES[rng.integers(6)], SHAPES[rng.integers(6)]
        try:
            return a, b, np.broadcast_shapes(a, b)
        except ValueError:
            pass


def one(ctx, srng, v, out, inputs, size_inputs, pit, label, known=None):
    """Draws of `out`, the transformed `v`, given the inputs."""
    n = ctx.per
    ctx.check(out.type.ndim == v.type.ndim and out.type.dtype == v.type.dtype, "type",
              lambda: f"{label}: {v.type} became {out.type}")
    given = {a for a, _ in inputs}
    rvs = {a.owner for a in ancestors([out], blockers=given) if a not in given and a.owner and isinstance(a.owner.op, RandomVariable)}
    ctx.check(len(rvs) == 1, "one draw", lambda: f"{label}: {len(rvs)} random variables instead of one")
    if ctx.fails:
        raise Abort
    (base,) = rvs
    ctx.check(base.inputs[0] is v.owner.inputs[0], "generator", f"{label}: another generator")
    with ctx.target("compile"):
        fn = aesara.function([a for a, _ in inputs] + [a for a, _ in size_inputs], out, updates={base.inputs[0]: base.outputs[0]},
                             no_default_updates=True, on_unused_input="ignore", mode="FAST_COMPILE")
    args = [b for _, b in inputs] + [b for _, b in size_inputs]
    xs = []
    with ctx.target("draw"):
        for _ in range(n):
            xs.append(fn(*args))
    shapes = {x.shape for x in xs}
    ctx.event("executions", n)
    want = ctx.shape
    ctx.check(shapes == {want}, "shape", lambda: f"{label}: draws of shape {shapes}, the variable has {want}")
    if ctx.fails:
        raise Abort
    x = np.stack(xs)
    for i in range(n):
        ctx.distinct_arrays(x[i])
    return x, pit(x)


def location_scale(ctx, dist):
    rng = ctx.rng
    ctx.per = 60
    us, pairs = [], []
    for _ in range(ctx.n):
        srng = RandomStream(int(rng.integers(2**31)))
        sa, sb, sh = broadcast(rng)
        inputs, size_inputs = [], []
        m, mv = param(rng, srng, "m", sa, False, inputs)
        s, sv = param(rng, srng, "s", sb, True, inputs)
        kw = {}
        r = rng.random()
        if r < 0.5:
            ok = [t for t in SHAPES + [(2, 2, 3), (3, 1)] if t and len(t) >= len(sh) and exprs.bcast(t, sh) == t] if sh != () else SHAPES[1:]
            if ok:
                sh = ok[rng.integers(len(ok))]
                kw["size"] = sh
                if rng.random() < 0.5:
                    k = at.lscalar("k")
                    size_inputs.append((k, sh[0]))
                    kw["size"] = (k,) + sh[1:]
        ctx.shape = sh
        v = getattr(srng, dist)(m, s, name="v", **kw)
        label = f"{dist}, {sa}, {sb}, {kw}"
        with ctx.target("transform"):
            res = transform(location_scale_transform, v)
        ctx.check(res, "transformed", f"{label} wasn't transformed")
        if ctx.fails:
            raise Abort
        x, u = one(ctx, srng, v, res[0], inputs, size_inputs, lambda x: D.DISTS[dist].pit(x, (mv, sv)), label)
        ctx.event("expressions")
        u = np.clip(u.reshape(ctx.per, -1), 0, 1)
        us.append(u)
        if u.shape[1] > 1:
            i, j = rng.choice(u.shape[1], 2, replace=False)
            pairs.append((u[:, i] - 0.5) * (u[:, j] - 0.5))
    ctx.p("law", S.ks_uniform(np.concatenate([u.ravel() for u in us])))
    ctx.p("moments", S.moments_uniform(np.concatenate([u.ravel() for u in us])))
    ctx.p("first element", S.ks_uniform(np.concatenate([u[:, 0] for u in us])))
    if pairs:
        ctx.p("elements are independent", S.ttest_mean(np.concatenate(pairs), R=0.25)[0])
    ctx.p("draws are independent", S.ttest_mean(np.concatenate([(u[1:, 0] - 0.5) * (u[:-1, 0] - 0.5) for u in us]), R=0.25)[0])
    ctx.sample(dict(distribution=dist, last=x[:3], pit=u[:3]))
    ctx.require("expressions")


def hierarchy(ctx, dist):
    """The joint law of a model does not change when a variable in the middle is transformed."""
    rng = ctx.rng
    n = ctx.n
    srng = RandomStream(int(rng.integers(2**31)))
    m = srng.normal(0.5, 1.0, size=2, name="m")
    s = srng.gamma(3.0, 2.0, name="s")
    x = getattr(srng, dist)(m, s, name="x")
    y = srng.normal(x, 0.4, name="y")
    fg = FunctionGraph(outputs=[m, s, x, y], clone=False)
    with ctx.target("transform"):
        res = KanrenRelationSub(location_scale_transform).transform(fg, x.owner)
    ctx.check(res, "transformed", "the variable wasn't transformed")
    if not res:
        raise Abort
    with ctx.target("replace"):
        fg.replace(fg.outputs[2], res[0])
    up = {}
    for a in ancestors(fg.outputs):
        if a.owner and isinstance(a.owner.op, RandomVariable):
            up[a.owner.inputs[0]] = a.owner.outputs[0]
    with ctx.target("compile and draw"):
        fn = aesara.function([], fg.outputs, updates=up, no_default_updates=True, mode="FAST_COMPILE")
        rows = [fn() for _ in range(n)]
    M, Sg, X, Y = [np.stack(r) for r in zip(*rows)]
    ctx.event("executions", n)
    for r in rows:
        ctx.distinct_arrays(*r)
    us = np.concatenate([D.pit_normal(M, 0.5, 1.0), D.pit_gamma(Sg, 3.0, 2.0)[:, None], D.DISTS[dist].pit(X, (M, Sg[:, None])), D.pit_normal(Y, X, 0.4)], 1)
    for j in range(us.shape[1]):
        ctx.p(f"law {j}", S.ks_uniform(us[:, j]))
    for i in range(7):
        for j in range(i):
            ctx.p(f"independence {i},{j}", S.ttest_mean((us[:, i] - 0.5) * (us[:, j] - 0.5), R=0.25)[0])
    ctx.sample(dict(m=M[0], s=Sg[0], x=X[0], y=Y[0]))


def same_law(ctx, v, out, m, sd, label):
    """Draws of a variable that isn't in the families, and of what it was transformed into."""
    n = 1500
    given = [(m, 0.3), (sd, 1.3)]
    rows = []
    ctx.check(out.type.ndim == v.type.ndim and out.type.dtype == v.type.dtype, "type", lambda: f"{label}: {v.type} became {out.type}")
    for e in (v, out):
        inputs = [a for a, _ in given if a.owner or not isinstance(a, Constant)]
        up = {a.owner.inputs[0]: a.owner.outputs[0] for a in ancestors([e], blockers=inputs)
              if a not in inputs and a.owner and isinstance(a.owner.op, RandomVariable)}
        with ctx.target("compile and draw"):
            fn = aesara.function(inputs, e, updates=up, no_default_updates=True, on_unused_input="ignore", mode="FAST_COMPILE")
            rows.append(np.stack([fn(*[b for a, b in given if a in inputs]) for _ in range(n)]))
    x, y = rows
    ctx.check(x.shape == y.shape, "shape", lambda: f"{label}: draws of shape {x.shape} became {y.shape}")
    if ctx.fails:
        raise Abort
    for j, (a, b) in enumerate(zip(x.reshape(n, -1).T, y.reshape(n, -1).T)):
        ctx.p(f"{label} became {type(out.owner.op).__name__}: law {j}", float(scipy.stats.ks_2samp(a, b).pvalue))


def others(ctx):
    """Variables outside of the families aren't transformed into something with another law."""
    rng = ctx.rng
    done = set()

    def look(rel, v, m, sd, label):
        with ctx.target("transform " + label):
            res = transform(rel, v)
        ctx.event("executions")
        if res:
            ctx.event("transformed")
            if (label, rel) not in done:
                done.add((label, rel))
                same_law(ctx, v, res[0], m, sd, f"{rel.__name__}: {label}")

    for i in range(ctx.n):
        srng = RandomStream(int(rng.integers(2**31)))
        m = srng.normal(0, 1, name="m") if i % 2 else at.scalar("m")
        sd = srng.halfnormal(0, 1, name="sd") if i % 3 else at.as_tensor(1.3)
        for nm, f in OTHER.items():
            v = f(srng, m, sd)
            for rel in (location_scale_transform, invgamma_exponential):
                look(rel, v, m, sd, nm)
                ctx.distinct(nm, rel.__name__, i % 6)
        # only the shape 1
        for a in (2.0, 0.5, np.array([1.0, 2.0]), sd):
            if a is sd and not i % 3:
                continue
            look(invgamma_exponential, srng.invgamma(a, 1.3), m, sd, f"invgamma with shape {a}")
        for dist in FAMILY:
            look(invgamma_exponential, getattr(srng, dist)(m, sd), m, sd, dist)
    ctx.sample(dict(distributions=sorted(OTHER)))


def inverse_gamma(ctx):
    rng = ctx.rng
    ctx.per = 80
    us, ks, pairs = [], [], []
    done = 0
    for i in range(ctx.n):
        srng = RandomStream(int(rng.integers(2**31)))
        inputs, size_inputs = [], []
        sh = SHAPES[rng.integers(6)]
        c, cv = param(rng, srng, "c", sh, True, inputs)
        kw = {}
        if rng.random() < 0.4:
            ok = [t for t in SHAPES + [(2, 2, 3)] if t and len(t) >= len(sh) and exprs.bcast(t, sh) == t] if sh != () else SHAPES[1:]
            if ok:
                sh = kw["size"] = ok[rng.integers(len(ok))]
        one_ = [1.0, np.float64(1), np.ones(3), np.ones((1, 1)), 1][[0, 0, 1, 2, 3, 4][rng.integers(6)]]
        if "size" in kw and np.ndim(one_):
            one_ = 1.0
        try:
            sh = np.broadcast_shapes(sh, np.shape(one_))
        except ValueError:
            one_ = 1.0
        ctx.shape = sh
        v = srng.invgamma(one_, c, name="v", **kw)
        label = f"invgamma({one_!r}, {np.shape(cv)}, {kw})"
        with ctx.target("transform"):
            res = transform(invgamma_exponential, v)
        if np.ndim(one_) == 0 and isinstance(one_, float):
            ctx.check(res, "transformed", f"{label} wasn't transformed")
        if ctx.fails:
            raise Abort
        if not res:
            ctx.event("rejected")
            continue
        done += 1
        x, u = one(ctx, srng, v, res[0], inputs, size_inputs, lambda x: D.pit_invgamma(x, 1.0, cv), label)
        k = np.exp(-1 / (x * cv))  # the recorded law: 1 / X is exponential with mean c
        us.append(u.reshape(ctx.per, -1))
        ks.append(np.broadcast_to(k, x.shape).reshape(ctx.per, -1))
        if us[-1].shape[1] > 1:
            i, j = rng.choice(us[-1].shape[1], 2, replace=False)
            # ranks of exp(-1/x): no assumption about the rate
            w = np.argsort(np.argsort(x.reshape(ctx.per, -1), 0), 0) / (ctx.per - 1) - 0.5
            pairs.append((w[:, i] * w[:, j])[: ctx.per // 2])
    ctx.event("expressions", done)
    cat = lambda a: np.concatenate([x.ravel() for x in a])
    ctx.p3("law", S.ks_uniform(cat(us)), S.ks_uniform(cat(ks)), "invgamma-exponential-rate")
    ctx.p3("moments", S.moments_uniform(cat(us)), S.moments_uniform(cat(ks)), "invgamma-exponential-rate")
    if pairs:
        ctx.p("elements are independent", S.ttest_mean(np.concatenate(pairs), R=0.25)[0])
    ctx.sample(dict(last=x[:3]))
    ctx.require("expressions")


def tasks(tier):
    q = tier == "quick"
    out = [Task("others", others, 4 if q else 40)]
    for d in FAMILY:
        for k in range(3 if q else 10):
            out.append(Task(f"location scale {d} {k}", location_scale, 40 if q else 400, dist=d))
        out.append(Task(f"hierarchy {d}", hierarchy, 4000 if q else 40000, dist=d))
    for k in range(3 if q else 10):
        out.append(Task(f"inverse gamma {k}", inverse_gamma, 40 if q else 400))
    return out
