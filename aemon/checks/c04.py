"""C04: the horseshoe shrinkage step leaves the posterior of (lambda, tau) invariant.

(tau, lambda, beta) is drawn from the prior with numpy; one or more real steps
update (lambda, tau) given beta.  The joint law of (tau', lambda', beta) must be
the prior's: all PITs uniform, no dependence between them.
"""
import numpy as np
from scipy import special as sp
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream
from aemcmc import construct_sampler, gibbs

from .. import dist as D
from .. import stats as S
from ..runner import Task

RULE = (
    "one execution = one call of the compiled shrinkage step from a fresh exact draw of (tau, lambda, beta); distinct = "
    "distinct states; every replicate's new state is tested"
)
ASSUMPTIONS = ["numpy's uniform and normal draws"]


def build(via, seed, tau_size, order, lam_size, p):
    srng = RandomStream(seed)
    if via == "direct":
        beta, lam2 = at.vectors("beta", "lam2")
        s2, tau2 = at.scalars("s2", "tau2")
        l_, t_ = gibbs.horseshoe_posterior(srng, beta, s2, lam2, tau2)
        fn = aesara.function([beta, s2, lam2, tau2], [l_, t_])
        return lambda b, s, l, t: fn(b, s, l**2, t**2), True
    extra = []
    size = p
    if lam_size == "symbolic":
        size = at.lscalar("p")
        extra = [size]
    tau = srng.halfcauchy(0, 1, name="tau", **({} if tau_size is None else dict(size=tau_size)))
    lam = srng.halfcauchy(0, 1, size=size, name="lam")
    sc = tau * lam if order else lam * tau
    kw = {} if via == "nosize" else dict(size=size)
    beta = srng.normal(0, sc, name="beta", **kw)
    if via in ("observed", "nosize"):
        bv = beta.clone()
        sampler, init = construct_sampler({beta: bv}, srng)
        ins = []
    else:
        X = at.matrix("X")
        if via == "nbinom":
            Y = srng.nbinom(2.0, at.sigmoid(-(X @ beta)), name="Y")
        else:
            Y = srng.bernoulli(at.sigmoid(-(X @ beta)), name="Y")
        yv = Y.clone()
        sampler, init = construct_sampler({Y: yv}, srng)
        bv = init[beta]
        ins = [X, yv]
    fn = aesara.function(
        extra + ins + [bv, init[lam], init[tau]], [sampler.sample_steps[lam], sampler.sample_steps[tau]],
        updates=sampler.updates, on_unused_input="ignore",
    )
    kernels = {type(k).__name__ for k in sampler.stages}

    def call(b, s, l, t):
        a = [len(b)] if extra else []
        if ins:
            a += [np.zeros((2, len(b))), np.zeros(2, "int64")]
        return fn(*a, b, l, t if tau_size is None else np.array([t]))

    return call, "HorseshoeGibbsKernel" in kernels


def task(ctx, via="direct", p=None, steps=1, tau_size=None, order=0, lam_size="symbolic", sigma=False):
    rng = ctx.rng
    with ctx.target("construct and compile"):
        fn, ok = build(via, int(rng.integers(2**31)), tau_size, order, lam_size, p)
    if not ctx.check(ok, "kernel", "the documented horseshoe model doesn't get the horseshoe kernel"):
        return
    g1, g0, kt, kl, kb = [], [], [], [], []
    moved = np.zeros(2, int)
    for i in range(ctx.n):
        k = p or int(rng.integers(1, 8))
        t = float(D.rhalfcauchy(rng, 0, 1, ()))
        l = D.rhalfcauchy(rng, 0, 1, k)
        s2 = (float(np.exp(rng.normal())) if rng.random() < 0.7 else float(10.0 ** rng.uniform(-5, 5))) if sigma else 1.0
        b = rng.normal(size=k) * l * t * np.sqrt(s2)
        l1, t1 = l, t
        for _ in range(steps):
            with ctx.target("sample"):
                l1, t1 = fn(b, s2, l1, t1)
            l1, t1 = np.asarray(l1), np.asarray(t1)
            if l1.shape != (k,) or t1.shape != (() if tau_size is None else (1,)):
                ctx.fail("shape", f"lambda {l1.shape} tau {t1.shape} for beta of shape {b.shape}")
                return
            t1 = float(t1.ravel()[0])
            ctx.event("executions")
        if not (np.all(np.isfinite(l1)) and np.isfinite(t1) and np.all(l1 >= 0) and t1 >= 0):
            ctx.fail("support", f"lambda={l1!r} tau={t1!r} from lambda={l!r} tau={t!r} beta={b!r}")
            return
        moved += (bool(np.all(l1 != l)), t1 != t)
        j = int(rng.integers(k))

        def feats(l, t):
            ut = D.pit_halfcauchy(t, 0, 1) - 0.5
            ul = D.pit_halfcauchy(l, 0, 1) - 0.5
            with np.errstate(all="ignore"):
                ub = D.pit_normal(b, 0, np.maximum(l * t * np.sqrt(s2), 1e-300)) - 0.5
            ab = 2 * np.abs(ub) - 0.5
            v = 1 / 12
            return (ut, ul, ub, [
                ut, ut**2 - v, ul[j], ul.mean(), (ul**2).mean() - v, ut * ul[j], ut * ul.mean(),
                ab.mean(), ab[j], (ab**2).mean() - v, ab[j] * ut, ab[j] * ul[j], ab.mean() * ut,
                ab.mean() * ul.mean() - 0 * v, ul[j] * ul[0] - (v if j == 0 else 0), ab[j] * ut**2, ub[j],
            ])

        ut, ul, ub, f1 = feats(l1, t1)
        kt.append(ut + 0.5)
        kl.append(ul[j] + 0.5)
        kb.append(ub[j] + 0.5)
        g1.append(f1)
        g0.append(feats(l, t)[3])
        ctx.distinct_arrays(b, l, np.array(t))
        if i == 0:
            ctx.sample(dict(beta=b, tau=t, lam=l, tau_new=t1, lam_new=l1, sigma2=s2))
    lab = ["u_tau", "u_tau^2", "u_lam[j]", "u_lam", "u_lam^2", "u_tau u_lam[j]", "u_tau u_lam", "|u_beta|", "|u_beta[j]|",
           "|u_beta|^2", "|u_beta[j]| u_tau", "|u_beta[j]| u_lam[j]", "|u_beta| u_tau", "|u_beta| u_lam", "u_lam u_lam'",
           "|u_beta| u_tau^2", "u_beta"]
    ctx.ps(lab, S.controlled_mean(np.array(g1), np.array(g0), np.zeros(len(lab))), "E ")
    ctx.p("tau KS", S.ks_uniform(kt))
    ctx.p("lambda KS", S.ks_uniform(kl))
    ctx.p("beta KS", S.ks_uniform(kb))
    if not moved.all():
        ctx.fail("stuck", f"(lambda, tau) moved in {moved.tolist()} of {ctx.n} replicates")


def ex(z):
    """exp(z) E1(z)"""
    z = np.asarray(z, dtype=float)
    with np.errstate(all="ignore"):
        a = sp.exp1(z) * np.exp(np.minimum(z, 600))
        b = (1 - 1 / z + 2 / z**2 - 6 / z**3) / z
    return np.where(z < 300, a, b)


def local_sf(u, c):
    """P(1 / lambda^2 > u) given beta, tau: the density is exp(-c u) / (1 + u), with c = beta^2 / (2 tau^2 sigma^2)."""
    with np.errstate(all="ignore"):
        return np.exp(-c * u) * ex(c * (1 + u)) / ex(c)


def local_draw(rng, c):
    v = rng.random(c.shape)
    lo, hi = np.full(c.shape, -80.0), np.full(c.shape, 80.0)
    for _ in range(46):
        m = (lo + hi) / 2
        above = local_sf(np.exp(m), c) > v
        lo, hi = np.where(above, m, lo), np.where(above, hi, m)
    return np.exp(-(lo + hi) / 4)  # lambda


class Global:
    """The marginal posterior of log(tau) given beta, on a grid."""

    def __init__(self, b, s2):
        x = np.linspace(-42, 42, 2801)
        c = b[:, None] ** 2 * np.exp(-2 * x) / (2 * s2)
        with np.errstate(all="ignore"):
            lp = np.log(np.maximum(ex(np.clip(c, 1e-300, 1e290)), 1e-300)).sum(0) - len(b) * x + x - np.logaddexp(0, 2 * x)
        w = np.exp(lp - lp.max())
        F = np.concatenate([[0], np.cumsum((w[1:] + w[:-1]) / 2)])
        self.x, self.F = x, F / F[-1]

    def draw(self, rng):
        return float(np.exp(np.interp(rng.random(), self.F, self.x)))

    def cdf(self, t):
        return float(np.interp(np.log(t), self.x, self.F))


def conditional(ctx, via="direct", law="tiny", p=None, steps=1, sigma=False):
    """Coefficients of any size, the state drawn from its exact posterior."""
    rng = ctx.rng
    with ctx.target("construct and compile"):
        fn, ok = build(via, int(rng.integers(2**31)), None, 0, "symbolic", p)
    ut, ul, other = [], [], []
    for i in range(ctx.n):
        k = p or int(rng.integers(1, 6))
        z = rng.normal(size=k)
        if law == "spread":
            b = z * 10.0 ** rng.uniform(-5, 4, k)
        elif law == "signals":
            b = np.where(rng.random(k) < 0.4, z * 10, z * 1e-4)
        else:
            b = z * dict(tiny=1e-5, small=1e-3, one=1.0, huge=1e4)[law]
        s2 = (float(np.exp(rng.normal())) if rng.random() < 0.7 else float(10.0 ** rng.uniform(-5, 5))) if sigma else 1.0
        g = Global(b, s2)
        t = g.draw(rng)
        l = local_draw(rng, b**2 / (2 * t**2 * s2))
        for _ in range(steps):
            with ctx.target("sample"):
                l1, t1 = fn(b, s2, l, t)
            l, t = np.asarray(l1), float(t1)
            ctx.event("executions")
        if not (l.shape == b.shape and np.all(np.isfinite(l)) and np.isfinite(t) and np.all(l > 0) and t > 0):
            ctx.fail("support", f"lambda={l!r} tau={t!r} for beta={b!r}")
            return
        ut.append(g.cdf(t))
        u = local_sf(l**-2.0, b**2 / (2 * t**2 * s2))
        ul.append(u[int(rng.integers(k))])
        other.append(u.mean() if k > 1 else 0.5)
        ctx.distinct_arrays(b, l)
        if i == 0:
            ctx.sample(dict(beta=b, tau_new=t, lam_new=l))
    ctx.p("tau KS", S.ks_uniform(ut))
    ctx.p("lambda KS", S.ks_uniform(ul))
    ctx.p("tau moments", S.moments_uniform(ut))
    ctx.p("lambda moments", S.moments_uniform(ul))
    ctx.p("tau, lambda independent", S.indep_uniform(ut, ul))


def tasks(tier):
    n = 10000 if tier == "quick" else 150000
    out = []

    def add(n=n, **kw):
        out.append(Task(",".join(f"{k}={v}" for k, v in kw.items()), task, n, **kw))

    add(via="direct")
    add(via="direct", sigma=True)
    add(via="direct", sigma=True, p=1)
    add(via="direct", p=2, steps=6, n=n // 4)
    add(via="direct", p=30, n=n // 2)
    add(via="direct", p=300, steps=2, n=n // 5)
    add(via="direct", p=30, steps=6, sigma=True, n=n // 5)
    add(via="observed")
    add(via="observed", order=1)
    add(via="observed", tau_size=1)
    add(via="observed", tau_size=1, order=1, lam_size="const", p=4)
    add(via="observed", lam_size="const", p=3)
    add(via="observed", p=1)
    add(via="nosize", lam_size="const", p=5)
    for via in ("direct", "observed"):
        for law in ("tiny", "small", "one", "huge", "spread", "signals"):
            for st in (1, 3) if via == "direct" else (2,):
                out.append(Task(f"conditional {via} {law} {st}", conditional, n // 8, via=via, law=law, steps=st, sigma=via == "direct"))
    out.append(Task("conditional p=20", conditional, n // 20, law="signals", p=20, steps=2))
    add(via="bern", n=n // 3)
    add(via="nbinom", n=n // 3)
    add(via="bern", tau_size=1, order=1, n=n // 3)
    return out
