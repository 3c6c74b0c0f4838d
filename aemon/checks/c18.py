"""C18: supported models are recognized, however they are written down.

Random spellings of the supported models: kinds of inputs, shapes, ways to write
the prior's constants, the linear predictor and the product of the shrinkage
parameters, names, order of construction, several supported parts in one model.
A variable has a special-purpose step if its kernel has no tuning parameters.
"""
import aesara
import aesara.tensor as at
import numpy as np
from aemcmc import construct_sampler
from aesara.tensor.random import RandomStream

from .. import nutsstub
from ..runner import Abort, Task

nutsstub.install()

RULE = "one execution = one model built, its sampler constructed and run; distinct = distinct (spelling, shapes, values)"
ASSUMPTIONS = ["the spellings are the ones that were recognized on the unchanged tree (see Limits in DESIGN.md for those that weren't)"]


class B:
    """Builds one model."""

    def __init__(self, rng, seed):
        self.rng = rng
        self.srng = RandomStream(seed)
        self.inputs, self.obs, self.want, self.rvs = [], {}, {}, {}
        self.spelling = []

    def pick(self, label, *options):
        i = int(self.rng.integers(len(options)))
        o = options[i]
        self.spelling.append((label, o if isinstance(o, (str, int, float, tuple, type(None))) else i))
        return o

    def value(self, nm, v, kinds=("const", "input", "shared")):
        """`v` as a constant, an input or a shared variable."""
        v = np.asarray(v)
        kind = self.pick("kind of " + nm, *kinds)
        if kind == "const":
            return at.as_tensor(v)
        if kind == "python":
            return v.tolist() if v.ndim == 0 else v
        if kind == "shared":
            return aesara.shared(v, name=nm, shape=(None,) * v.ndim) if v.ndim else aesara.shared(v, name=nm)
        if kind == "static":
            x = at.tensor(v.dtype.name, shape=v.shape, name=nm)
        elif kind == "expr":
            x = at.tensor(v.dtype.name, shape=(None,) * v.ndim, name=nm)
            self.inputs.append((x, np.log(v)))
            return at.exp(x)
        else:
            x = at.tensor(v.dtype.name, shape=(None,) * v.ndim, name=nm)
        self.inputs.append((x, v))
        return x

    def rv(self, nm, var, want, val):
        var.name = self.pick("name", nm, None, "x") if self.free_names else nm
        self.rvs[nm] = var
        self.want[nm] = want
        self.vals[nm] = np.asarray(val, dtype=var.type.dtype)
        return var

    def observe(self, var, val):
        vv = var.clone()
        var.name = self.pick("obs name", "Y", None)
        vv.name = self.pick("obs value name", "y", None)
        self.obs[var] = vv
        self.inputs.append((vv, np.asarray(val, dtype=var.type.dtype)))

    free_names = False
    vals = None


POS = ("const", "python", "input", "shared", "static", "expr")


def positive(b, nm, lo=0.5, hi=4.0, latent=True, shape=()):
    """A positive parameter, possibly a variable of the model."""
    if latent and b.rng.random() < 0.25 and shape == ():
        kind = b.pick("hyper", "halfnormal", "lognormal", "uniform")
        x = dict(halfnormal=lambda: b.srng.halfnormal(0.0, 1.0), lognormal=lambda: b.srng.lognormal(0.0, 0.4),
                 uniform=lambda: b.srng.uniform(0.1, 2.0))[kind]()
        return b.rv("hyper_" + nm, x, "general", 0.8)
    v = np.round(b.rng.uniform(lo, hi, size=shape), 2)
    return b.value(nm, v, POS)


def gamma_poisson(b, k):
    sz = b.pick("size", None, 1, 3, (2, 3), (1, 4))
    if b.pick("vector parameters", False, True) and sz == 3:
        l = b.srng.gamma(positive(b, f"a{k}", shape=(3,)), positive(b, f"b{k}"))
    else:
        l = b.srng.gamma(positive(b, f"a{k}"), positive(b, f"b{k}"), **({} if sz is None else dict(size=sz)))
    shp = () if sz is None else (sz,) if isinstance(sz, int) else sz
    b.rv(f"l{k}", l, "closed", np.full(shp, 1.3))
    b.observe(b.srng.poisson(l), b.rng.poisson(2, size=shp))


def beta_binomial(b, k):
    sz = b.pick("size", None, 1, 3, (2, 3), (1, 4))
    shp = () if sz is None else (sz,) if isinstance(sz, int) else sz
    p = b.srng.beta(positive(b, f"a{k}"), positive(b, f"b{k}"), **({} if sz is None else dict(size=sz)))
    tr = b.pick("trials", (), shp)
    # (the numbers of trials of a variable with one element must be known to have one element, too)
    n = b.value(f"n{k}", b.rng.integers(3, 9, size=tr),
                ("const", "static", "python") if 1 in tr else ("const", "input", "shared", "static", "python"))
    b.rv(f"p{k}", p, "closed", np.full(shp, 0.4))
    b.observe(b.srng.binomial(n, p), b.rng.integers(0, 3, size=shp))


def beta_nbinom(b, k):
    sz = b.pick("size", None, 1, 3, (2, 3))
    shp = () if sz is None else (sz,) if isinstance(sz, int) else sz
    p = b.srng.beta(positive(b, f"a{k}"), positive(b, f"b{k}"), **({} if sz is None else dict(size=sz)))
    tr = b.pick("trials", (), shp)
    n = b.value(f"n{k}", b.rng.integers(3, 9, size=tr).astype(float),
                ("const", "static", "python") if 1 in tr else ("const", "input", "shared", "static", "python"))
    b.rv(f"p{k}", p, "closed", np.full(shp, 0.4))
    b.observe(b.srng.nbinom(n, p), b.rng.integers(0, 3, size=shp))


def zero(b, p):
    return b.pick("zero", 0, 0.0, "zeros", "at.zeros", "as_tensor"), p


def make_zero(z):
    kind, p = z
    return {"zeros": lambda: np.zeros(p), "at.zeros": lambda: at.zeros(p), "as_tensor": lambda: at.as_tensor(0.0)}.get(kind, lambda: kind)()


def horseshoe_scale(b, k, p, psize):
    tau_size = b.pick("tau size", None, 1)
    z = b.pick("halfcauchy arguments", (0, 1), (0.0, 1.0), "default", "keyword")
    args = () if z == "default" else () if z == "keyword" else z
    kw = dict(loc=0.0, scale=1.0) if z == "keyword" else {}
    order = b.pick("order of the scales", "tau first", "lambda first")
    mk = {
        "tau": lambda: b.srng.halfcauchy(*args, **kw, **({} if tau_size is None else dict(size=tau_size))),
        "lam": lambda: b.srng.halfcauchy(*args, **kw, size=psize),
    }
    o = {}
    for nm in ("tau", "lam") if order == "tau first" else ("lam", "tau"):
        o[nm] = mk[nm]()
    b.rv(f"tau{k}", o["tau"], "special", np.full(() if tau_size is None else (1,), 0.7))
    b.rv(f"lam{k}", o["lam"], "special", np.linspace(0.5, 1.5, p))
    return b.pick("product", lambda a, c: a * c, lambda a, c: c * a, at.mul)(o["lam"], o["tau"])


def regression(b, k, lik):
    n, p = int(b.rng.integers(1, 6)), int(b.rng.integers(1, 5))
    prior = b.pick("prior", "vector", "scalar", "latent", "horseshoe", "horseshoe")
    if prior == "horseshoe":
        p = max(p, 2)
    b.spelling.append(("dims", n, p))
    Xv = b.rng.normal(size=(n, p))
    if b.pick("design", "plain", "transposed") == "plain":
        X = b.value(f"X{k}", Xv)
    else:
        X = b.value(f"X{k}", Xv.T.copy()).T
    psize = b.pick("size of beta", p, (p,), "X.shape[1]", "X.shape[1:]")
    psize = X.shape[1] if psize == "X.shape[1]" else X.shape[1:] if psize == "X.shape[1:]" else psize
    z = zero(b, p)
    if prior == "vector":
        beta = b.srng.normal(make_zero(z), b.value(f"sd{k}", np.linspace(0.5, 1.5, p)))
    else:
        if prior == "horseshoe":
            sd = horseshoe_scale(b, k, p, psize)
        elif prior == "latent":
            sd = b.rv(f"s{k}", b.srng.halfnormal(0.0, 1.0), "general", 0.9)
        else:
            sd = positive(b, f"sd{k}", latent=False)
        vec = prior == "horseshoe" or z[0] in ("zeros", "at.zeros")
        if vec and b.pick("implicit size", False, True):
            beta = b.srng.normal(make_zero(z), sd)
        else:
            beta = b.srng.normal(make_zero(z), sd, size=psize)
    b.rv(f"beta{k}", beta, "special", b.rng.normal(size=p) * 0.5)
    eta = b.pick("dot", lambda: X @ beta, lambda: at.dot(X, beta), lambda: X.dot(beta))()
    pr = b.pick("negation", lambda: at.sigmoid(-eta), lambda: at.sigmoid(at.neg(eta)), lambda: at.expit(-eta))()
    if lik == "bernoulli":
        b.observe(b.srng.bernoulli(pr), b.rng.integers(0, 2, size=n))
        return
    hk = b.pick("dispersion", "value", "vector", "gamma", "latent")
    if hk == "value":
        h = positive(b, f"h{k}", latent=False)
    elif hk == "vector":
        h = b.value(f"h{k}", np.linspace(0.5, 2, n))
    elif hk == "gamma":
        h = b.rv(f"h{k}", b.srng.gamma(positive(b, f"a{k}"), positive(b, f"b{k}")), "special", 1.4)
    else:
        h = b.rv(f"h{k}", b.srng.halfnormal(0.0, 2.0), "general", 1.4)
    b.observe(b.srng.nbinom(h, pr), b.rng.integers(0, 5, size=n))


def horseshoe_means(b, k):
    p = int(b.rng.integers(2, 6))
    sd = horseshoe_scale(b, k, p, b.pick("size of lambda", p, (p,)))
    z = zero(b, p)
    beta = b.srng.normal(make_zero(z), sd, **b.pick("explicit size", {}, dict(size=p)))
    b.rv(f"beta{k}", beta, "general", b.rng.normal(size=p))
    b.observe(b.srng.normal(beta, 0.8), b.rng.normal(size=p))


def general(b, k):
    m = b.rv(f"m{k}", b.srng.normal(0.3, 1.0), "general", 0.1)
    b.observe(b.srng.normal(m, positive(b, f"sd{k}"), size=2), b.rng.normal(size=2))


PARTS = dict(
    gp=gamma_poisson, bb=beta_binomial, bnb=beta_nbinom, bern=lambda b, k: regression(b, k, "bernoulli"),
    nb=lambda b, k: regression(b, k, "nbinom"), hs=horseshoe_means, general=general,
)


def recognized(ctx, parts):
    for i in range(ctx.n):
        rng = np.random.default_rng([ctx.seed, i])
        b = B(rng, int(rng.integers(2**31)))
        b.vals = {}
        b.free_names = bool(rng.random() < 0.3)
        ps = parts if parts else list(rng.choice(list(PARTS), size=int(rng.integers(2, 4))))
        for k, p in enumerate(ps):
            PARTS[p](b, k)
        one(ctx, b, ps)
        if ctx.fails:
            raise Abort


def one(ctx, b, ps):
    obs = list(b.obs.items())
    b.rng.shuffle(obs)
    with ctx.target(f"construct_sampler {ps} {b.spelling}"):
        sampler, init = construct_sampler(dict(obs), b.srng)
    ctx.event("executions")
    ctx.distinct(ps, b.spelling, [v.tobytes() for _, v in b.inputs])
    ctx.sample(dict(parts=ps, spelling=b.spelling, stages={type(k).__name__: len(v) for k, v in sampler.stages.items()}))
    for nm, rv in b.rvs.items():
        step = sampler.sample_steps.get(rv)
        if not ctx.check(step is not None, "step", f"no step for {nm} in {ps} {b.spelling}"):
            return
        general_ = step.owner.op in sampler.parameters
        want = b.want[nm]
        ctx.event("variables with a special-purpose step" if not general_ else "variables left to NUTS")
        ctx.check(general_ == (want == "general"), "recognized",
                  f"{nm} was {'not ' * (want != 'general')}to get a special-purpose step: {ps} {b.spelling}, kernel {step.owner.op}")
        if ctx.fails:
            return
    # closed-form steps don't depend on the current value
    closed = [nm for nm, w in b.want.items() if w == "closed"]
    names = list(b.rvs)
    st = [(init[b.rvs[nm]], b.vals[nm]) for nm in names]
    params, pv = [], []
    for ker, ps_ in sampler.parameters.items():
        d = sum(int(np.prod(b.vals[nm].shape)) for nm in names if b.rvs[nm] in sampler.stages[ker])
        for p in ps_:
            params.append(p)
            pv.append(np.float64(0.3) if p.type.ndim == 0 else np.ones(d))
    ins = [v for v, _ in b.inputs]
    with ctx.target(f"compile {ps} {b.spelling}"):
        fn = aesara.function(ins + [v for v, _ in st] + params, [sampler.sample_steps[b.rvs[nm]] for nm in names], updates=sampler.updates,
                             on_unused_input="ignore", mode="FAST_COMPILE")
        for nm in closed:
            # (raises when the variable's own value is needed)
            aesara.function(ins + [v for (v, _), k in zip(st, names) if k != nm] + params, sampler.sample_steps[b.rvs[nm]],
                            on_unused_input="ignore", mode="FAST_COMPILE")
            ctx.event("closed-form steps")
    with ctx.target(f"sampling step {ps} {b.spelling}"):
        out = fn(*[v for _, v in b.inputs], *[v for _, v in st], *pv)
    for nm, o in zip(names, out):
        ctx.check(o.shape == b.vals[nm].shape and o.dtype == b.vals[nm].dtype and np.all(np.isfinite(o)), "draw",
                  f"{nm}: {o!r} from {b.vals[nm]!r}: {ps} {b.spelling}")


def readme(ctx):
    """The examples of the documentation."""
    for named in (True, False):
        nm = (lambda s: dict(name=s)) if named else (lambda s: {})
        srng = RandomStream(0)
        p = srng.beta(1.0, 1.0, **nm("p"))
        Y = srng.binomial(10, p, **nm("Y"))
        y = Y.clone()
        with ctx.target("beta-binomial"):
            s, i = construct_sampler({Y: y}, srng)
            x = [float(aesara.function([y], s.sample_steps[p], updates=s.updates)(7)) for _ in range(5)]
        ctx.check(all(0 < a < 1 for a in x) and set(i) == {p} and not s.parameters, "beta-binomial", f"{x} {i}")

        srng = RandomStream(0)
        X = at.matrix("X")
        tau = srng.halfcauchy(0, 1, **nm("tau"))
        lam = srng.halfcauchy(0, 1, size=X.shape[1], **nm("lambda"))
        beta = srng.normal(0, lam * tau, size=X.shape[1], **nm("beta"))
        a, b = at.scalar("a"), at.scalar("b")
        h = srng.gamma(a, b, **nm("h"))
        Y = srng.nbinom(h, at.sigmoid(-(X @ beta)), **nm("Y"))
        y = Y.clone()
        with ctx.target("negative binomial horseshoe"):
            s, i = construct_sampler({Y: y}, srng)
            rvs = [tau, lam, beta, h]
            fn = aesara.function([a, b, X, y] + [i[r] for r in rvs], [s.sample_steps[r] for r in rvs], updates=s.updates)
            st = [1.0, np.ones(10), np.zeros(10), 1.0]
            rng = np.random.default_rng(1)
            Xv, yv = rng.normal(size=(50, 10)), rng.integers(0, 6, size=50)
            for _ in range(20):
                st = fn(100.0, 1.0, Xv, yv, *st)
        ctx.check(all(np.all(np.isfinite(v)) for v in st) and not s.parameters, "negative binomial horseshoe", f"{st}")
        stages = [{r for r in v} for v in s.stages.values()]
        ctx.check({tau, lam} in stages and {beta} in stages and {h} in stages and len(stages) == 3, "stages", f"{s.stages}")
        if named:
            ctx.check(s.sample_steps[h].name == "h_posterior" and s.sample_steps[beta].name == "beta_posterior"
                      and s.sample_steps[tau].name == "tau_posterior" and s.sample_steps[lam].name == "lambda_posterior", "names of the steps",
                      f"{[s.sample_steps[r].name for r in rvs]}")

        srng = RandomStream(0)
        mu = srng.normal(0, 1, **nm("mu"))
        sigma = srng.halfnormal(0.0, 1.0, **nm("sigma"))
        Y = srng.normal(mu, sigma, **nm("Y"))
        y = Y.clone()
        with ctx.target("nuts"):
            s, i = construct_sampler({Y: y}, srng)
            ((eps, mass),) = list(s.parameters.values())
            fn = aesara.function([i[mu], i[sigma], y, eps, mass], [s.sample_steps[mu], s.sample_steps[sigma]], updates=s.updates)
            st = [0.1, 1.0]
            for _ in range(5):
                st = fn(*st, 0.5, 0.3, np.ones(2))
        ctx.check(set(s.sample_steps) == {mu, sigma} and st[1] > 0, "nuts", f"{st}")
        ctx.event("executions", 3)
        ctx.event("examples", 3)
        ctx.distinct(named)
    ctx.require("examples")


def tasks(tier):
    q = tier == "quick"
    out = [Task("readme", readme, 1)]
    for p in PARTS:
        for r in range(3):
            if p != "general":
                out.append(Task(f"{p} {r}", recognized, 20 if q else 400, parts=[p]))
    out += [Task(f"several {r}", recognized, 12 if q else 200, parts=None) for r in range(8)]
    return out
