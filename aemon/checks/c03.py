"""C03: the steps of logistic (Bernoulli and negative binomial) regressions
leave the posterior of the coefficients invariant.

Each replicate draws a regression (n, p, X, prior scales, dispersion), then
(beta, y) from its joint law with numpy, and runs the real step.  Monitors:

1. joint law: (beta', y) must have the law of (beta, y): PITs of beta' are
   uniform, the likelihood's mid-PITs are centred given beta';
2. exact conditional: when the step draws Polya-gamma auxiliary variables with
   parameters (y + h, X beta), the recorded values w are observed, and beta'
   must be exactly N(m(w, y), V(w)).
"""
import numpy as np
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream
from aemcmc import construct_sampler, gibbs

from .. import dist as D
from .. import rv
from .. import stats as S
from ..runner import Task
from .c02 import Collect, whiten

rv.install()

RULE = (
    "one execution = one regression step of the compiled sampler on a fresh random regression (sizes, covariates, scales, "
    "dispersion, coefficients and data); distinct = distinct (X, y, beta); trivial = replicates without observations"
)
ASSUMPTIONS = ["numpy's bernoulli/gamma/poisson draws simulate the model", "C17 for the law of the Polya-gamma draws"]


def build(lik, via, how, spelling, seed, data=None):
    srng = RandomStream(seed)
    sd = at.vector("sd")
    X = at.matrix("X")
    h = at.scalar("h")
    if how == "vector_h":
        h = at.vector("h")
    ins = [sd, X, h]
    if how == "shared":
        X = aesara.shared(data["X"], name="Xs", shape=(None, None))
        sd = aesara.shared(data["sd"], name="sds", shape=(None,))
        ins = [h]
    elif how == "const":
        X = at.as_tensor(data["X"])
        sd = at.as_tensor(data["sd"])
        ins = [h]
    beta_kw = {}
    scale = sd
    if how == "scalar_sd":
        scale = sd[0]
        beta_kw = dict(size=X.shape[1])
    elif how == "scaled_sd":
        scale = at.exp(at.log(sd) * 1.0)
    elif how == "half_sd":
        scale = 0.5 * sd + sd / 2
    if via == "direct":
        b, y = at.vector("b"), at.lvector("y")
        if lik == "bern":
            out = gibbs.bern_normal_posterior(srng, b, scale, -X, y)
        else:
            out = gibbs.nbinom_normal_posterior(srng, b, scale, X, h, y)
        fn = aesara.function(ins + [b, y], out, on_unused_input="ignore")
        return fn, None
    beta = srng.normal(0.0 if how != "scalar_sd" else 0, scale, name="beta", **beta_kw)
    if spelling == "matmul":
        p = at.sigmoid(-(X @ beta))
    elif spelling == "eta":
        eta = X @ beta
        eta.name = "eta"
        p = at.sigmoid(-eta)
        p.name = "p"
    elif spelling == "dot":
        p = at.sigmoid(-at.dot(X, beta))
    else:
        p = at.sigmoid(-X.dot(beta))
    Y = srng.bernoulli(p, name="Y") if lik == "bern" else srng.nbinom(h, p, name="Y")
    y = Y.clone()
    y.name = "y"
    sampler, init = construct_sampler({Y: y}, srng)
    kernels = [type(k).__name__ for k in sampler.stages]
    fn = aesara.function(
        ins + [init[beta], y], sampler.sample_steps[beta], updates=sampler.updates, on_unused_input="ignore"
    )
    return fn, kernels


def sizes(rng, regime):
    if regime == "n<p":
        n = int(rng.integers(1, 4))
        return n, n + int(rng.integers(1, 4))
    if regime == "n==p":
        n = int(rng.integers(1, 5))
        return n, n
    if regime == "n>>p":
        return int(rng.integers(20, 40)), int(rng.integers(1, 4))
    if regime == "p>>n":
        return int(rng.integers(1, 4)), int(rng.integers(15, 30))
    p = int(rng.integers(1, 4))
    return p + int(rng.integers(0, 6)), p


def problem(rng, lik, regime, scale, how):
    n, p = sizes(rng, regime)
    xs, ss = dict(plain=(0.8, 1.2), small=(0.5, 0.2), big=(1.5, 3.0), vague=(0.8, 300.0), huge=(1.0, 1e6), tight=(0.8, 0.003),
                  mixed=(0.8, 1.0))[scale]
    X = rng.normal(size=(n, p)) * xs
    if rng.random() < 0.3:
        X[:, 0] = 1.0
    sd = ss * np.exp(rng.normal(size=p) * 0.5)
    if scale == "mixed":
        sd = 10 ** rng.uniform(-3, 3, p)
    if how == "scalar_sd":
        sd = np.full(p, sd[0])
    if lik == "nbinom":
        # the Polya-gamma draws of huge counts are slow
        X /= np.maximum(np.sqrt((X**2) @ sd**2) / 3.0, 1.0)[:, None]
    if how == "vector_h":
        h = np.exp(rng.normal(size=n) * 0.7)
    else:
        h = float(rng.integers(1, 6)) if rng.random() < 0.4 else float(np.exp(rng.normal() * 0.8))
    return X, sd, h


def step_task(ctx, lik="bern", via="finder", regime="any", scale="plain", how="input", spelling="matmul", steps=1):
    rng = ctx.rng
    seed = int(rng.integers(2**31))
    fixed = None
    if how in ("shared", "const"):
        X, sd, _ = problem(rng, lik, regime, scale, how)
        fixed = dict(X=X, sd=sd)
    with ctx.target("construct and compile"):
        fn, kernels = build(lik, via, how, spelling, seed, fixed)
    c = Collect()
    ub, ub2, uy, uprod, ks = [], [], [], [], []
    ref = []
    moved = 0
    i = tries = 0
    while i < ctx.n:
        tries += 1
        if fixed is None:
            X, sd, h = problem(rng, lik, regime, scale, how)
        else:
            X, sd = fixed["X"], fixed["sd"]
            _, _, h = problem(rng, lik, regime, scale, how)
        n, p = X.shape
        beta = rng.normal(size=p) * sd
        psi = X @ beta
        pr = D.expit(-psi)
        if lik == "bern":
            y = rng.binomial(1, pr).astype("int64")
        else:
            y = D.rnbinom(rng, h, np.maximum(pr, 1e-12)).astype("int64")
            assert y.max() < 1e10
        i += 1
        args = [sd, X, h] if fixed is None else [h]
        b1 = beta
        evs = None
        for k in range(steps):
            b0 = b1
            with ctx.target("sample"):
                with rv.record() as evs:
                    b1 = np.asarray(fn(*args, b0, y))
            if b1.shape != beta.shape or not np.all(np.isfinite(b1)):
                ctx.fail("draw", f"draw {b1!r} from state {b0!r}, X={X!r}, sd={sd!r}, h={h!r}, y={y!r}")
                return
            ctx.event("executions")
        moved += np.all(b1 != beta)
        hh = 1.0 if lik == "bern" else h
        sgn = -1.0 if lik == "bern" else 1.0
        kappa = sgn * ((y - 0.5) if lik == "bern" else (y - h) / 2)
        # 2. exact conditional given the observed auxiliary draws
        pg = [e for e in evs if e.name == "polyagamma"]
        if len(pg) == 1 and pg[0].value.shape == (n,):
            e = pg[0]
            want_h = np.broadcast_to(1.0 if lik == "bern" else y + h, (n,))
            if np.allclose(np.broadcast_to(e.params[0], (n,)), want_h) and np.allclose(
                np.abs(np.broadcast_to(e.params[1], (n,))), np.abs(X @ b0), atol=1e-9
            ):
                w = e.value
                A = X.T @ (w[:, None] * X) + np.diag(sd**-2.0)
                c.add(whiten(A, X.T @ kappa, b1))
                ctx.event("auxiliary draws observed", n)
        # 1. joint law
        u = D.pit_normal(b1, 0, sd) - 0.5
        u0 = D.pit_normal(beta, 0, sd) - 0.5
        j = int(rng.integers(p))
        j2 = int(rng.integers(p))
        ks.append(u[j] + 0.5)

        def feats(b, u):
            ps = X @ b
            q = D.expit(-ps)
            v = (D.pit_bernoulli(y, q) if lik == "bern" else D.pit_nbinom(y, h, np.maximum(q, 1e-12))) - 0.5
            t = np.tanh(ps)
            xu = (X / np.abs(X).max(axis=0, keepdims=True).clip(1e-9))[:, j]
            return [
                u[j], u.mean(), (u[j] ** 2 - 1 / 12), (u**2).mean() - 1 / 12, u[j] * u[j2] - (1 / 12 if j == j2 else 0),
                v.mean(), (v * t).mean(), (v * xu).mean(), (v * xu).mean() * u[j], v[0] * np.sign(ps[0]),
                (v * t).mean() * (u**2).mean(), v.mean() * u[j], v.mean() * np.abs(u[j]),
            ]

        ub.append(feats(b1, u))
        ref.append(feats(beta, u0))
        ctx.distinct_arrays(X, y, beta)
        if i == 1:
            ctx.sample(dict(X=X, sd=sd, h=h, y=y, beta=beta, beta_new=b1, kernels=kernels,
                            polyagamma=[e.params + [e.value] for e in pg]))
    labels = ["E u_beta", "E mean u_beta", "E u_beta^2", "E mean u_beta^2", "E u_beta u_beta'",
              "E u_y", "E u_y tanh(psi)", "E u_y x", "E u_y x u_beta", "E u_y sign(psi)", "E u_y tanh(psi) u_beta^2",
              "E u_y u_beta", "E u_y |u_beta|"]
    ps = S.controlled_mean(np.array(ub), np.array(ref), np.zeros(len(labels)))
    ctx.ps(labels, ps)
    ctx.p("u_beta KS", S.ks_uniform(ks))
    if not moved:
        ctx.fail("stuck", f"no coefficient moved in {ctx.n} replicates")
    if c.all:
        c.test(ctx, "beta | w, y")
    ctx.event("replicates", ctx.n)


def narrow_task(ctx, ydt, hdt):
    """Counts and dispersions of other numeric types give the draws that the same numbers give as 64-bit ones."""
    rng = ctx.rng
    fns = []
    seed = int(rng.integers(2**31))
    for yd, hd in ((ydt, hdt), ("int64", "float64")):
        with ctx.target("construct and compile"):
            srng = RandomStream(seed)
            b, sd, X, h, y = at.vector("b"), at.vector("sd"), at.matrix("X"), at.scalar("h", dtype=hd), at.vector("y", dtype=yd)
            fns.append(aesara.function([sd, X, h, b, y], gibbs.nbinom_normal_posterior(srng, b, sd, X, h, y)))
    top = int(min(np.iinfo(ydt).max, 10**6))
    htop = int(min(np.iinfo(hdt).max if hdt[0] != "f" else 300, 300))
    for i in range(ctx.n):
        n, p = int(rng.integers(1, 6)), int(rng.integers(1, 4))
        Xv = rng.normal(size=(n, p))
        sv = np.exp(rng.normal(size=p) * 0.5)
        bv = rng.normal(size=p) * sv
        hv = np.array(rng.integers(1, 10) if i % 2 else rng.integers(1, htop + 1), hdt)
        yv = rng.integers(0, [3, 20, top, top][rng.integers(4)], n, endpoint=True).astype(ydt)
        if i % 5 == 0:
            yv[0] = top
        with ctx.target("sample"):
            b1 = np.asarray(fns[0](sv, Xv, hv, bv, yv))
            b2 = np.asarray(fns[1](sv, Xv, hv.astype("float64"), bv, yv.astype("int64")))
        ctx.event("executions")
        ctx.distinct_arrays(Xv, yv, hv)
        if b1.shape != bv.shape or not np.allclose(b1, b2, rtol=1e-5, atol=1e-7):
            ctx.fail("other types", f"draw {b1!r} for h={hv!r}, y={yv!r}, but {b2!r} for 64-bit numbers")
            return
    ctx.sample(dict(X=Xv, sd=sv, h=hv, y=yv, beta=bv, beta_new=b1))


def tasks(tier):
    n = 2500 if tier == "quick" else 40000
    out = []

    def add(**kw):
        out.append(Task(",".join(f"{k}={v}" for k, v in kw.items()), step_task, n, **kw))

    for lik in ("bern", "nbinom"):
        for regime in ("any", "n<p", "n==p", "n>>p", "p>>n"):
            add(lik=lik, via="finder", regime=regime)
        for scale in ("small", "big", "vague", "tight", "mixed", "huge"):
            add(lik=lik, via="finder", scale=scale)
        for how in ("shared", "const", "scalar_sd", "scaled_sd", "half_sd"):
            add(lik=lik, via="finder", how=how)
        for sp in ("eta", "dot", "method"):
            add(lik=lik, via="finder", spelling=sp)
        add(lik=lik, via="finder", steps=4)
        add(lik=lik, via="direct")
        add(lik=lik, via="direct", regime="n<p")
        for scale in ("vague", "tight", "mixed", "huge"):
            add(lik=lik, via="direct", scale=scale, regime="n<p")
    add(lik="nbinom", via="finder", how="vector_h")
    for ydt, hdt in (("int8", "int8"), ("uint8", "uint8"), ("uint8", "int8"), ("int16", "float64"), ("uint16", "uint16"), ("int32", "int64")):
        out.append(Task(f"narrow,{ydt},{hdt}", narrow_task, n // 10, ydt=ydt, hdt=hdt))
    return out
