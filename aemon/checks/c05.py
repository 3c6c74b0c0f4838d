"""C05: Chinese-restaurant-table draws and negative binomial dispersion steps are exact.

l | y, h is a sum of independent Bernoulli variables: its pmf is a convolution.
h' | h, y is a mixture over L = sum(l) of Gamma(a + L, rate).
"""
import numpy as np
from scipy import special as sp
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream
from aemcmc import construct_sampler, gibbs

from .. import dist as D
from .. import stats as S
from ..runner import Task

RULE = (
    "one execution = one call of the compiled step for fresh counts and parameters; the (randomized) PIT of its output under "
    "the exact conditional law is recorded; distinct = distinct inputs; trivial = all-zero counts"
)
ASSUMPTIONS = ["scipy's incomplete gamma function"]


def crt_pmf(y, h):
    """pmf of the number of tables, support 0..y."""
    pm = np.array([1.0])
    for k in range(int(y)):
        q = h / (h + k)
        pm = np.convolve(pm, [1 - q, q])
    return pm


def total_pmf(y, h):
    pm = np.array([1.0])
    for v in np.ravel(y).astype(int):
        pm = np.convolve(pm, crt_pmf(v, h))
    return pm


def rand_h(rng, wide=False):
    if wide:
        return float(10.0 ** rng.uniform(-5, 6))
    return float(np.exp(rng.normal() * (1.2 if rng.random() < 0.8 else 4)))


def rand_y(rng, shape, top=12):
    r = rng.random()
    if r < 0.2:
        return rng.integers(0, 2, shape)
    if r < 0.3:
        return np.zeros(shape, int)
    return rng.integers(0, top, shape)


def crt(ctx, shape=(3,), top=12, dtype="int64", wide=False):
    rng = ctx.rng
    with ctx.target("construct and compile"):
        srng = RandomStream(int(rng.integers(2**31)))
        y = at.tensor(dtype, shape=(None,) * len(shape), name="y")
        h = at.scalar("h")
        out, updates = gibbs.sample_CRT(srng, y, h)
        fn = aesara.function([y, h], out, updates=updates)
    us = []
    reuse = 0
    for i in range(ctx.n):
        shp = tuple(int(rng.integers(1, s + 1)) for s in shape) if i % 2 else shape
        yv, hv = rand_y(rng, shp, top), rand_h(rng, wide)
        if dtype != "int64":
            if i % 3 == 0:
                yv = np.full(shp, top)
            yv = yv.astype(dtype)
        with ctx.target("sample"):
            l_ = np.asarray(fn(yv, hv))
        ctx.event("executions")
        if l_.shape != shp:
            ctx.fail("shape", f"{l_.shape} for y of shape {shp}")
            return
        u = np.empty(shp)
        for ix in np.ndindex(*shp):
            pm = crt_pmf(yv[ix], hv)
            k = l_[ix]
            if not (0 <= k < len(pm)) or k != int(k) or pm[int(k)] == 0.0:
                ctx.fail("support", f"CRT draw {k} for y={yv[ix]}, h={hv}")
                return
            u[ix] = pm[: int(k)].sum() + rng.random() * pm[int(k)]
            ctx.event("tables with a random count", int(yv[ix] > 1))
        us.append(u.ravel())
        ctx.distinct_arrays(yv, np.array(hv))
        if i == 0:
            ctx.sample(dict(y=yv, h=hv, tables=l_))
    a = np.concatenate(us)
    ctx.p("pit KS", S.ks_uniform(a))
    ctx.p("pit moments", S.moments_uniform(a))
    f = np.array([u[0] for u in us])
    g = np.array([u[-1] for u in us])
    m = np.array([len(u) > 1 for u in us])
    ctx.p("last element KS", S.ks_uniform(g))
    ctx.p("elements independent", S.indep_uniform(f[m], g[m]))
    ctx.p("calls independent", S.indep_uniform(f[1:], f[:-1]))
    # same inputs, many calls: fresh draws every time
    yv = np.full(shape, 6, dtype)
    seq = []
    for _ in range(300):
        with ctx.target("sample"):
            seq.append(np.asarray(fn(yv, 2.0)).ravel())
    seq = np.array(seq)
    x = (seq[:, 0] - seq[:, 0].mean())
    ctx.check(len({t.tobytes() for t in seq}) > 1 and x.var() > 0, "calls repeat", "the same draw for every call with the same inputs")


def h_cdf(x, hold, a, rate, y):
    pm = total_pmf(y, hold)
    k = np.arange(len(pm))
    return float((pm * sp.gammainc(a + k, x * rate)).sum())


def direct(ctx, nobs=4, extreme=False):
    """nbinom_dispersion_posterior(h, p, a, b, y); b is the *scale* and p the probability
    of the counted outcome, as in the docstring's posterior."""
    rng = ctx.rng
    with ctx.target("construct and compile"):
        srng = RandomStream(int(rng.integers(2**31)))
        h, a, b = at.scalars("h", "a", "b")
        p = at.vector("p")
        y = at.lvector("y")
        out, updates = gibbs.nbinom_dispersion_posterior(srng, h, p, a, b, y)
        fn = aesara.function([h, p, a, b, y], out, updates=updates)
    us = []
    for i in range(ctx.n):
        k = int(rng.integers(1, nobs + 1))
        hv, av, bv = rand_h(rng), rand_h(rng), rand_h(rng)
        pv = rng.beta(1.0, 1.5, k).clip(1e-6, 1 - 1e-6)
        yv = rand_y(rng, (k,))
        if extreme:
            pv = np.where(rng.random(k) < 0.5, -np.expm1(-(10.0 ** rng.uniform(-6, 1.2, k))), -np.expm1(-10.0 ** rng.uniform(-1, 1.3, k)))
            hv, av, bv = 10.0 ** rng.uniform(-3, 3), 10.0 ** rng.uniform(-0.5, 2), 10.0 ** rng.uniform(-3, 3)
            yv = rng.integers(0, [1, 3, 50, 400][rng.integers(4)], k)
        with ctx.target("sample"):
            x = np.asarray(fn(hv, pv, av, bv, yv))
        ctx.event("executions")
        if x.shape != () or not x >= 0 or not np.isfinite(x):
            ctx.fail("draw", f"{x!r} for h={hv} p={pv} a={av} b={bv} y={yv}")
            return
        us.append(h_cdf(float(x), hv, av, 1 / bv - np.log1p(-pv).sum(), yv))
        ctx.distinct_arrays(pv, yv, np.array([hv, av, bv]))
        if i == 0:
            ctx.sample(dict(h=hv, p=pv, a=av, b=bv, y=yv, h_new=x, pit=us[-1]))
    us = np.array(us)
    ctx.p("pit KS", S.ks_uniform(us))
    ctx.p("pit moments", S.moments_uniform(us))
    ctx.p("calls independent", S.indep_uniform(us[1:], us[:-1]))


def batch(ctx, nobs=3, rows=2):
    """Several sets of counts at once, one per row of y and p."""
    rng = ctx.rng
    with ctx.target("construct and compile"):
        srng = RandomStream(int(rng.integers(2**31)))
        h, a, b = at.scalars("h", "a", "b")
        p = at.matrix("p")
        y = at.lmatrix("y")
        out, updates = gibbs.nbinom_dispersion_posterior(srng, h, p, a, b, y)
        fn = aesara.function([h, p, a, b, y], out, updates=updates)
    us = []
    for i in range(ctx.n):
        r, k = int(rng.integers(1, rows + 1)), int(rng.integers(1, nobs + 1))
        hv, av, bv = rand_h(rng), rand_h(rng), rand_h(rng)
        pv = rng.beta(1.0, 1.5, (r, k)).clip(1e-6, 1 - 1e-6)
        yv = rand_y(rng, (r, k))
        with ctx.target("sample"):
            x = np.asarray(fn(hv, pv, av, bv, yv))
        ctx.event("executions")
        if x.shape != (r,) or not np.all(x >= 0) or not np.all(np.isfinite(x)):
            ctx.fail("draw", f"{x!r} for h={hv} p={pv} a={av} b={bv} y={yv}")
            return
        us.append([h_cdf(float(v), hv, av, 1 / bv - np.log1p(-q).sum(), c) for v, q, c in zip(x, pv, yv)])
        ctx.distinct_arrays(pv, yv, np.array([hv, av, bv]))
    u = np.concatenate(us)
    ctx.p("pit KS", S.ks_uniform(u))
    ctx.p("pit moments", S.moments_uniform(u))
    m = np.array([(v[0], v[-1]) for v in us if len(v) > 1])
    ctx.p("rows independent", S.indep_uniform(m[:, 0], m[:, 1]))


def finder(ctx, prior="fixed", how="input", nobs=4, p=2):
    rng = ctx.rng
    key = "dispersion-rate"
    with ctx.target("construct and compile"):
        srng = RandomStream(int(rng.integers(2**31)))
        X = at.matrix("X")
        a, b = at.scalars("a", "b")
        ins = [X, a, b]
        if how == "const":
            a, b = at.as_tensor(2.5), at.as_tensor(1.7)
            ins = [X]
        elif how == "shared":
            a, b = aesara.shared(2.5, name="a"), aesara.shared(1.7, name="b")
            ins = [X]
        extra = []
        if prior == "horseshoe":
            tau = srng.halfcauchy(0, 1, name="tau")
            lam = srng.halfcauchy(0, 1, size=X.shape[1], name="lam")
            beta = srng.normal(0, lam * tau, size=X.shape[1], name="beta")
            extra = [tau, lam]
        else:
            beta = srng.normal(0, 1.3, size=X.shape[1], name="beta")
        h = srng.gamma(a, b, name="h")
        Y = srng.nbinom(h, at.sigmoid(-(X @ beta)), name="Y")
        y = Y.clone()
        sampler, init = construct_sampler({Y: y}, srng)
        fn = aesara.function(
            ins + [y, init[beta], init[h]] + [init[v] for v in extra],
            [sampler.sample_steps[beta], sampler.sample_steps[h]], updates=sampler.updates, on_unused_input="ignore",
        )
    if not ctx.check(not sampler.parameters, "kernel", "the documented model isn't sampled with Gibbs steps"):
        return
    us, uk = [], []
    for i in range(ctx.n):
        nn, pp = int(rng.integers(1, nobs + 1)), int(rng.integers(1, p + 1))
        Xv = rng.normal(size=(nn, pp))
        av, bv = (rand_h(rng) + 0.3, rand_h(rng)) if how == "input" else (2.5, 1.7)
        hv = max(rand_h(rng), 1e-2)  # the polyagamma library rejects shapes below 1e-4
        bt = rng.normal(size=pp)
        yv = rand_y(rng, (nn,))
        args = [Xv, av, bv] if how == "input" else [Xv]
        st = [yv, bt, hv] + ([1.0, np.ones(pp)] if extra else [])
        with ctx.target("sample"):
            b1, x = fn(*args, *st)
        ctx.event("executions")
        x = np.asarray(x)
        if x.shape != () or not x >= 0 or not np.isfinite(x):
            ctx.fail("draw", f"{x!r} for h={hv} a={av} b={bv} y={yv} X={Xv!r} beta={b1!r}")
            return
        psi = Xv @ b1
        us.append(h_cdf(float(x), hv, av, bv + np.logaddexp(0, psi).sum(), yv))
        uk.append(h_cdf(float(x), hv, av, bv + np.logaddexp(0, -psi).sum(), yv))
        ctx.distinct_arrays(Xv, yv, bt, np.array([hv, av, bv]))
        if i == 0:
            ctx.sample(dict(X=Xv, h=hv, a=av, b=bv, y=yv, beta_new=b1, h_new=x))
    us, uk = np.array(us), np.array(uk)
    ctx.p3("pit KS", S.ks_uniform(us), S.ks_uniform(uk), key)
    ctx.p3("pit moments", S.moments_uniform(us), S.moments_uniform(uk), key)
    t = uk if S.ks_uniform(us) < 1e-3 else us
    ctx.p("calls independent", S.indep_uniform(t[1:], t[:-1]))


def tasks(tier):
    n = 2500 if tier == "quick" else 30000
    out = [Task(f"crt_{s}_{top}", crt, n, shape=s, top=top) for s, top in
           [((1,), 12), ((3,), 12), ((2, 3), 8), ((6,), 5), ((2,), 60)]]
    out += [Task(f"direct_{k}", direct, 2 * n, nobs=k) for k in (1, 4, 10)]
    for top, m in ((300, 4), (3000, 20), (20000, 100)):
        out.append(Task(f"crt_(1,)_{top}", crt, n // m, shape=(1,), top=top))
    for dt, top in (("int8", 127), ("uint8", 255), ("int16", 300), ("float64", 60)):
        out.append(Task(f"crt_(2,)_{dt}", crt, n // 8, shape=(2,), top=top, dtype=dt))
    out.append(Task("crt_(2,)_wide", crt, n, shape=(2,), top=12, wide=True))
    out.append(Task("crt_(1,)_700_wide", crt, n // 3, shape=(1,), top=700, wide=True))
    out.append(Task("batch", batch, n))
    out.append(Task("direct_extreme", direct, n, nobs=3, extreme=True))
    out += [Task(f"finder_{pr}_{how}", finder, n, prior=pr, how=how)
            for pr, how in [("fixed", "input"), ("fixed", "const"), ("fixed", "shared"), ("horseshoe", "input")]]
    return out
