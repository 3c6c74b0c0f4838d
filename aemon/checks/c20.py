"""C20: chains started anywhere stay finite and converge to the posterior.

(theta, y) is drawn from the joint law; a chain given y is started from a state
that has nothing to do with theta.  After enough steps its state must follow the
posterior, so that (state, y) follows the joint law.  Other chains are started
from extreme states and must stay finite and inside the support.
"""
import numpy as np

from .. import gen
from .. import invariance as I
from .. import nutsstub
from .. import stats as S
from .. import zoo as Z
from ..runner import Abort, Task

nutsstub.install()

RULE = "one execution = one step of a chain started from an unrelated or extreme state; distinct = distinct (data, final state) and extreme states"
ASSUMPTIONS = [
    "the numbers of steps allowed for the convergence of each model (they suffice with a wide margin on the unchanged tree)",
    "a Metropolis kernel stands in for aehmc's NUTS kernel; models with the dispersion step are excluded from the tests of the law",
]


def reg(**kw):
    return Z.regression(**kw)


def start_state(model, sim, i, rng, kind, names):
    """A state inside the support that is unrelated to the posterior."""
    nodes = {n.name: n for n in model.nodes}
    st = {}
    for k in names:
        x = np.asarray(sim[k][i], float)
        d = nodes[k].dist
        if d in ("normal", "laplace", "cauchy", "logistic", "gumbel"):
            v = {"far": 6.0, "ones": 1.0, "small": 0.01}[kind] * np.where(rng.random(x.shape) < 0.5, -1, 1)
        elif d == "beta":
            v = np.full(x.shape, {"far": 0.999, "ones": 0.5, "small": 0.001}[kind])
        else:
            v = np.full(x.shape, {"far": 20.0, "ones": 1.0, "small": 0.05}[kind])
        st[k] = v.astype(np.asarray(sim[k][i]).dtype)
    return st


def converge(ctx, model, steps, kind, kw=None, step_size=None):
    m = model(**(kw or {}))
    if step_size:
        m.step_size = step_size
    rng = ctx.rng
    with ctx.target("construct and compile"):
        prog = I.Program(m, int(rng.integers(2**31)), mode="FAST_RUN" if not m.expect or "NUTSKernel" not in m.expect.values() else None)
    free = m.free_values()
    sim = m.simulate(rng, ctx.n)
    onames, names = list(prog.g["obs"]), prog.names
    new = []
    for i in range(ctx.n):
        obs = {k: sim[k][i] for k in onames}
        st = first = start_state(m, sim, i, rng, kind, names)
        with ctx.target("sampling step"):
            for _ in range(steps):
                st = prog(free, obs, st)
        ctx.event("executions", steps)
        for k in names:
            a = np.asarray(st[k])
            if a.shape != first[k].shape or not np.all(np.isfinite(a)):
                ctx.fail("finite", f"{k} = {a!r} after {steps} steps from {first!r}, obs {obs!r}")
                raise Abort
        new.append(st)
        ctx.distinct_arrays(*[obs[k] for k in onames], *[np.asarray(st[k]) for k in names])
    st0 = {k: sim[k] for k in names}
    ob = {k: sim[k] for k in onames}
    st1 = I.stack(new)
    viol = m.support({**st1, **ob})
    if viol:
        ctx.fail("support", viol)
        raise Abort
    ctx.event("chains", ctx.n)
    ctx.sample(dict(model=m.name, start=first, end=st, obs=obs))
    g0, mu, lab = I.features(m.pit({**st0, **ob}), ctx.n)
    g1, _, _ = I.features(m.pit({**st1, **ob}), ctx.n)
    if m.selected:
        mu = np.full_like(mu, np.nan)
    ctx.ps(lab, S.controlled_mean(g1, g0, mu))
    ctx.require("chains")


def hostile(ctx, model, steps, kw=None):
    """Long chains from extreme states."""
    m = model(**(kw or {}))
    rng = ctx.rng
    with ctx.target("construct and compile"):
        prog = I.Program(m, int(rng.integers(2**31)), mode="FAST_RUN" if "NUTSKernel" not in m.expect.values() else None)
    free = m.free_values()
    sim = m.simulate(rng, ctx.n)
    onames, names = list(prog.g["obs"]), prog.names
    nodes = {n.name: n for n in m.nodes}
    for i in range(ctx.n):
        obs = {k: np.array(sim[k][i]) for k in onames}
        for k in onames:
            # data the model hardly ever produces
            d = nodes[k].dist
            if d in ("nbinom", "poisson") and rng.random() < 0.5:
                obs[k] = np.asarray(obs[k] * 0 + rng.choice([0, 1, 30, 500]))
            if d == "nbinom" and (kw or {}).get("h") == "gamma":
                obs[k] = np.maximum(obs[k], 1)  # the polyagamma library rejects h + y <= 1e-4
            elif d == "bernoulli" and rng.random() < 0.5:
                obs[k] = np.asarray(obs[k] * 0 + rng.integers(2))
        first = {}
        for k in names:
            x = np.asarray(sim[k][i], float)
            d = nodes[k].dist
            mag = 10.0 ** rng.uniform(-5, 5, size=x.shape if rng.random() < 0.5 else ())
            if d == "normal":
                v = np.where(rng.random(x.shape) < 0.2, 0.0, mag * rng.choice([-1, 1], size=x.shape))
            elif d == "beta":
                v = np.clip(1 / (1 + mag), 1e-6, 1 - 1e-6) + 0 * x
            elif d in ("halfcauchy", "gamma", "halfnormal", "lognormal", "exponential", "invgamma"):
                v = np.clip(mag, 1e-4, 1e4) if d != "halfcauchy" else mag
                v = v + 0 * x
            else:
                v = x
            first[k] = np.asarray(v, float)
        st = first
        moved = {k: np.zeros(np.shape(first[k]), bool) for k in names}
        for t in range(steps):
            with ctx.target("sampling step"):
                nst = prog(free, obs, st)
            for k in names:
                if np.shape(nst[k]) == np.shape(st[k]):
                    moved[k] |= np.asarray(nst[k]) != st[k]
                a = np.asarray(nst[k])
                if a.shape != first[k].shape or not np.all(np.isfinite(a)):
                    ctx.fail("finite", f"{k} = {a!r} in step {t} from {st!r}, obs {obs!r}")
                    raise Abort
            st = nst
        for k in names:
            ctx.check(np.all(moved[k]), "frozen", lambda: f"elements of {k} never changed in {steps} steps from {first!r}, obs {obs!r}: {moved[k]}")
        if ctx.fails:
            raise Abort
        ctx.event("executions", steps)
        ctx.event("extreme states")
        ctx.distinct_arrays(*first.values())
        v = m.support({**{k: np.asarray(st[k])[None] for k in names}, **{k: obs[k][None] for k in onames}})
        if v:
            ctx.fail("support", v)
            raise Abort
    ctx.require("extreme states")


# model, arguments, steps, chains, kinds of start states in the quick tier
CONV = [
    (Z.gamma_poisson, dict(shape=3), 1, 300, 3), (Z.beta_binomial, dict(shape=(2, 2)), 1, 300, 3),
    (reg, dict(), 60, 300, 2), (reg, dict(lik="nbinom"), 60, 300, 2), (reg, dict(n=2, p=4, prior="scalar"), 60, 200, 1),
    (reg, dict(lik="nbinom", n=2, p=4), 60, 200, 1),
    (reg, dict(prior="horseshoe"), 150, 200, 1), (reg, dict(lik="nbinom", prior="horseshoe"), 150, 200, 1),
    (Z.two_regressions, {}, 60, 200, 1),
    (Z.gamma_poisson_hier, {}, 100, 150, 1), (Z.beta_binomial_hier, {}, 100, 150, 1), (Z.horseshoe_normal, {}, 150, 120, 1),
    (Z.normal_normal, {}, 100, 150, 1), (reg, dict(prior="hier"), 120, 120, 1),
    (Z.horseshoe_observed, dict(p=3), 200, 300, 2), (Z.horseshoe_observed, dict(p=3, lo=2000.0), 300, 200, 1),
    (Z.horseshoe_observed, dict(p=2, hi=0.01), 300, 200, 1),
]
HOSTILE = [
    (reg, {}), (reg, dict(lik="nbinom")), (reg, dict(lik="nbinom", h="gamma")), (reg, dict(n=2, p=5)), (reg, dict(lik="nbinom", n=2, p=5)),
    (reg, dict(n=30, p=3)), (reg, dict(lik="nbinom", n=30, p=3, h="gamma")),
    (reg, dict(prior="horseshoe")), (reg, dict(lik="nbinom", prior="horseshoe")), (reg, dict(lik="nbinom", prior="horseshoe", h="gamma")),
    (reg, dict(n=3, p=8, prior="horseshoe")), (reg, dict(lik="nbinom", n=3, p=8, prior="horseshoe")), (Z.horseshoe_regression_tau1, {}),
    (Z.gamma_poisson, dict(shape=4)), (Z.beta_binomial, dict(shape=4)), (Z.two_regressions, {}),
]


def name(f, kw):
    return f.__name__ + "".join(f"_{k}={v}" for k, v in kw.items())


def tasks(tier):
    q = tier == "quick"
    out = []
    for f, kw, steps, n, kinds in CONV:
        for kind in ("far", "ones", "small")[: kinds if q else 3]:
            out.append(Task(f"converge {kind} {name(f, kw)}", converge, n if q else 8 * n, model=f, kw=kw, steps=steps if q else 2 * steps,
                            kind=kind, step_size=0.8))
    for f, kw in HOSTILE:
        out.append(Task(f"hostile {name(f, kw)}", hostile, 25 if q else 400, model=f, kw=kw, steps=60 if q else 600))
    return out
