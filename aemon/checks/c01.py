"""C01: closed-form conjugate posteriors are exact."""
import numpy as np
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream
from aemcmc import construct_sampler

from .. import dist as D
from .. import stats as S
from ..runner import Task

RULE = (
    "one execution = one call of a compiled posterior step with fresh hyperparameters and data; the draw's PIT under the "
    "exact posterior is recorded; distinct = distinct (variant, hyperparameters, data); non-trivial = all (every draw is tested)"
)
ASSUMPTIONS = ["numpy's Generator draws from the distributions it documents (aesara's RVs are its wrappers)",
               "scipy's incomplete gamma/beta functions"]


def loguniform(rng, lo, hi, size):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), size))


def hyper(rng, stratum, shape):
    if stratum == "small":
        return loguniform(rng, 0.1, 1.0, shape)
    if stratum == "large":
        return loguniform(rng, 20, 2000, shape)
    return loguniform(rng, 0.3, 20, shape)


class Family:
    """draw(rng, stratum, shape) -> hyperparameters (dict), y; pit(x, h, y)"""

    top = None  # the largest value of hyperparameters that are integers

    def hyper(self, rng, stratum, shape):
        if self.top:
            hi = self.top if rng.random() < 0.7 else 5
            return rng.integers(1, hi, shape, endpoint=True).astype("float64")
        return hyper(rng, stratum, shape)


class GammaPoisson(Family):
    params = ("a", "b")
    dtypes = ("float64", "float64")

    def prior(self, srng, a, b, kw):
        return srng.gamma(a, b, name="l", **kw)

    def lik(self, srng, z, h, kw):
        return srng.poisson(z, name="Y", **kw)

    def draw(self, rng, stratum, hshape, shape):
        h = dict(a=self.hyper(rng, stratum, hshape), b=self.hyper(rng, stratum, hshape))
        if not self.top and stratum != "typical" and rng.random() < 0.7:
            # shapes near 0 (or huge) and rates of any magnitude
            h["a"] = loguniform(rng, 0.02, 0.2, hshape) if stratum == "small" else loguniform(rng, 1e3, 1e6, hshape)
            h["b"] = loguniform(rng, 1e-5, 1e6, hshape)
        h = {k: np.asarray(v, "float64") for k, v in h.items()}
        lam = rng.gamma(h["a"], 1 / h["b"], shape)
        y = rng.poisson(np.minimum(lam, 1e7))
        r = rng.random()
        if r < 0.15:
            y = np.zeros(shape, int)
        elif r < 0.3:
            y = rng.integers(0, 100000, shape)
        return h, np.asarray(y)

    def law(self, h, y):
        return lambda x: D.pit_gamma(x, h["a"] + y, h["b"] + 1.0)


class BetaBinomial(Family):
    params = ("a", "b", "n")
    dtypes = ("float64", "float64", "int64")

    def prior(self, srng, a, b, kw):
        return srng.beta(a, b, name="p", **kw)

    def lik(self, srng, z, h, kw):
        return srng.binomial(h["n"], z, name="Y", **kw)

    def draw(self, rng, stratum, hshape, shape):
        h = dict(a=np.asarray(self.hyper(rng, stratum, hshape)), b=np.asarray(self.hyper(rng, stratum, hshape)))
        if not self.top and stratum == "small" and rng.random() < 0.5:
            h["a"] = np.asarray(loguniform(rng, 0.02, 0.2, hshape))
        n = rng.integers(1, 10, hshape) if rng.random() < 0.7 else rng.integers(10, 5000, hshape)
        if self.top:
            n = self.hyper(rng, stratum, hshape)
        h["n"] = np.asarray(n, "int64")
        p = rng.beta(h["a"], h["b"], shape)
        y = rng.binomial(h["n"], p, shape)
        r = rng.random()
        if r < 0.15:
            y = np.zeros(shape, int)
        elif r < 0.3:
            y = np.broadcast_to(h["n"], shape).copy()
        elif r < 0.45:
            y = rng.integers(0, h["n"] + 1, shape)
        return h, np.asarray(y)

    def law(self, h, y):
        return lambda x: D.pit_beta(x, h["a"] + y, h["b"] + h["n"] - y)


class BetaNegBin(BetaBinomial):
    key = "beta-nbinom-swapped"

    def lik(self, srng, z, h, kw):
        return srng.nbinom(h["n"], z, name="Y", **kw)

    def draw(self, rng, stratum, hshape, shape):
        h = dict(a=np.asarray(self.hyper(rng, stratum, hshape)), b=np.asarray(self.hyper(rng, stratum, hshape)))
        h["n"] = np.asarray(self.hyper(rng, stratum, hshape) if self.top else rng.integers(1, 12, hshape), "int64")
        p = np.clip(rng.beta(h["a"], h["b"], shape), 1e-3, 1)
        y = D.rnbinom(rng, np.broadcast_to(h["n"], shape), p)
        if rng.random() < 0.2:
            y = np.zeros(shape, int)
        return h, np.asarray(np.minimum(y, 10**6))

    def law(self, h, y):
        # y failures before the n-th success: p^n (1 - p)^y
        return lambda x: D.pit_beta(x, h["a"] + h["n"], h["b"] + y)

    def known_law(self, h, y):
        return lambda x: D.pit_beta(x, h["a"] + y, h["b"] + h["n"])


INTS = dict(pyint=127, int8=127, uint8=255, int16=2000)
FAMILIES = dict(gamma_poisson=GammaPoisson, beta_binomial=BetaBinomial, beta_nbinom=BetaNegBin)


def compile_step(fam, how, hshape, size, ysize, seed, h0=None, names=None):
    srng = RandomStream(seed)
    sym, given, sh = [], {}, {}
    for k, dt in zip(fam.params, fam.dtypes):
        if how == "const":
            given[k] = at.as_tensor(h0[k])
        elif how == "pyint":
            given[k] = int(h0[k])
        elif how in INTS:
            given[k] = at.tensor(how, shape=(None,) * len(hshape), name=k)
            sym.append(given[k])
        elif how == "shared":
            sh[k] = aesara.shared(np.asarray(h0[k]), name=k, shape=(None,) * len(hshape)) if hshape else aesara.shared(h0[k], name=k)
            given[k] = sh[k]
        else:
            x = at.tensor(dt, shape=(None,) * len(hshape), name=k)
            sym.append(x)
            if how == "expr" and dt != "int64":
                given[k] = at.exp(at.log(x) + 0.0) * 2.0 - x
            elif how == "expr":
                given[k] = x + 1 - 1
            else:
                given[k] = x
    kw = {}
    size_in = []
    if size == "symbolic":
        s = at.lscalar("s")
        size_in = [s]
        kw["size"] = s
    elif size is not None:
        kw["size"] = size
    z = fam.prior(srng, given["a"], given["b"], kw)
    Y = fam.lik(srng, z, given, {} if ysize is None else {"size": ysize})
    if how == "value_expr":
        pass
    yv = Y.clone()
    yv.name = "y"
    sampler, init = construct_sampler({Y: yv}, srng)
    assert z in sampler.sample_steps, "no step for the latent variable"
    step = sampler.sample_steps[z]
    kind = [type(k).__name__ for k in sampler.stages]
    fn = aesara.function(
        sym + size_in + [yv] + [init[z]], step, updates=sampler.updates, on_unused_input="ignore"
    )
    return fn, kind, sh, bool(sampler.parameters)


def conj(ctx, family, how="input", hshape=(), size=None, ysize=None, shape=None, stratum="typical"):
    fam = FAMILIES[family]()
    rng = ctx.rng
    shape = hshape if shape is None else shape
    h0, _ = fam.draw(rng, stratum, hshape, shape)
    if how in INTS:
        fam.top = INTS[how]
    nconst = {"const": 3, "pyint": 20}.get(how, 1)
    us, uk, first = [], [], None
    lo = hi = 0
    for _ in range(nconst):
        if how in ("const", "pyint"):
            h0, _ = fam.draw(rng, stratum, hshape, shape)
        with ctx.target("construct and compile"):
            fn, kind, sh, params = compile_step(fam, how, hshape, size, ysize, int(rng.integers(2**31)), h0)
        if params:
            # not sampled in closed form: recognition is C17's business
            ctx.fail("closed form", f"the {family} model isn't sampled from its closed-form posterior but with {kind}")
            return
        for i in range(ctx.n // nconst):
            h, y = fam.draw(rng, stratum, hshape, shape)
            if how in ("const", "pyint"):
                h = h0
                if family != "gamma_poisson":
                    if family == "beta_binomial":
                        y = np.minimum(y, h["n"])
            if how == "shared":
                if i % 50 == 0:
                    for k in sh:
                        sh[k].set_value(h[k])
                    hs = h
                h = hs
                if family == "beta_binomial":
                    y = np.minimum(y, h["n"])
            args = [h[k] for k in fam.params] if how not in ("const", "pyint", "shared") else []
            if how in INTS:
                args = [a.astype(how) for a in args]
            if size == "symbolic":
                args.append(shape[0])
            start = np.full(shape, 0.5)
            with ctx.target("sample"):
                x = np.asarray(fn(*args, y, start))
            ctx.event("executions")
            if x.shape != tuple(shape):
                ctx.fail("shape", f"draw of shape {x.shape} for a variable of shape {shape}, h={h}, y={y!r}")
                return
            law = fam.law(h, y)
            u = np.ravel(law(x))
            us.append(u)
            if hasattr(fam, "known_law"):
                uk.append(np.ravel(fam.known_law(h, y)(x)))
            bad = ~np.isfinite(x) | (x < 0) | ((x > 1) if family != "gamma_poisson" else False)
            if bad.any():
                ctx.fail("support", f"draw {x!r} for h={h}, y={y!r}")
                return
            ctx.distinct(family, how, *(v.tobytes() for v in h.values()), y.tobytes())
            ctx.event("draws", x.size)
            if i == 0:
                ctx.sample(dict(variant=family, how=how, hyper=h, y=y, draw=x, pit=u))
    us = np.stack(us)
    if us.shape[1] == 0:
        return
    if uk:
        uk = np.stack(uk)
        ctx.p3("pit KS", S.ks_uniform(us), S.ks_uniform(uk), fam.key)
        ctx.p3("pit moments", S.moments_uniform(us), S.moments_uniform(uk), fam.key)
        test = uk if S.ks_uniform(us) < 1e-3 else us
    else:
        ctx.p("pit KS", S.ks_uniform(us))
        ctx.p("pit moments", S.moments_uniform(us))
        test = us
    # draws are independent of each other, across calls and elements
    ctx.p("successive draws independent", S.indep_uniform(test[1:, 0], test[:-1, 0]))
    if test.shape[1] > 1:
        ctx.p("elements independent", S.indep_uniform(test[:, 0], test[:, -1]))
        for j in (0, test.shape[1] - 1):
            if not uk is None and len(uk):
                ctx.p3(f"pit KS element {j}", S.ks_uniform(us[:, j]), S.ks_uniform(uk[:, j]), fam.key)
            else:
                ctx.p(f"pit KS element {j}", S.ks_uniform(us[:, j]))


def relation(ctx, family):
    """The relation itself, as documented in docs/source/relations.rst."""
    from kanren import run
    from unification import var
    import aemcmc.conjugates as C

    rel = dict(gamma_poisson=C.gamma_poisson_conjugateo, beta_binomial=C.beta_binomial_conjugateo,
               beta_nbinom=C.beta_negative_binomial_conjugateo)[family]
    fam = FAMILIES[family]()
    rng = ctx.rng
    with ctx.target("relation"):
        srng = RandomStream(int(rng.integers(2**31)))
        ins = [at.tensor(dt, shape=(), name=k) for k, dt in zip(fam.params, fam.dtypes)]
        given = dict(zip(fam.params, ins))
        z = fam.prior(srng, given["a"], given["b"], {})
        Y = fam.lik(srng, z, given, {})
        q = var()
        res = list(run(1, q, rel(srng, Y, q)))
    if not ctx.check(len(res) == 1, "relation", "the relation doesn't hold for the documented model"):
        return
    with ctx.target("compile"):
        fn = aesara.function(ins + [Y], res[0].evaled_obj)
    us, uk = [], []
    for i in range(ctx.n):
        h, y = fam.draw(rng, "typical", (), ())
        with ctx.target("sample"):
            x = fn(*[h[k] for k in fam.params], y)
        us.append(float(fam.law(h, y)(x)))
        if hasattr(fam, "known_law"):
            uk.append(float(fam.known_law(h, y)(x)))
        ctx.event("executions")
        ctx.distinct(family, "relation", h, int(y))
    if uk:
        ctx.p3("pit KS", S.ks_uniform(us), S.ks_uniform(uk), fam.key)
    else:
        ctx.p("pit KS", S.ks_uniform(us))
        ctx.p("pit moments", S.moments_uniform(us))


def tasks(tier):
    n = 6000 if tier == "quick" else 60000
    out = []
    for f in FAMILIES:
        V = [
            dict(how="input"),
            dict(how="input", stratum="small"),
            dict(how="input", stratum="large"),
            dict(how="input", hshape=(3,)),
            dict(how="input", hshape=(2, 3)),
            dict(how="input", size=(4,), shape=(4,)),
            dict(how="input", size=(2, 3), shape=(2, 3), ysize=(2, 3)),
            dict(how="input", size="symbolic", shape=(5,)),
            dict(how="input", hshape=(3,), size=(2, 3), shape=(2, 3)),
            dict(how="expr", hshape=(3,)),
            dict(how="expr"),
            dict(how="const"),
            dict(how="const", hshape=(3,)),
            dict(how="shared"),
            dict(how="shared", hshape=(3,)),
            dict(how="pyint"),
            dict(how="int8", hshape=(2,)),
            dict(how="uint8"),
            dict(how="int16"),
        ]
        if f == "beta_nbinom" and tier == "quick":
            V = V[:1] + V[3:4] + V[5:6] + V[11:12] + V[-4:]
        for v in V:
            nm = f + " " + ",".join(f"{k}={x}" for k, x in v.items())
            out.append(Task(nm.replace(" ", "_", 1), conj, n, family=f, **v))
        out.append(Task(f + "_relation", relation, n, family=f))
    return out
