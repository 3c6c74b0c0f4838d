"""C12: prior sampling draws independent realizations of the whole model."""
import numpy as np
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream
from aemcmc.sample import sample_prior

from .. import gen, rv
from .. import stats as S
from .. import zoo as Z
from ..invariance import features
from ..runner import Abort, Task

rv.install()

RULE = (
    "one execution = one prior realization of a model drawn by the compiled function; distinct = distinct realizations; the random draws that "
    "were logged and compared are counted separately"
)


def reg(**kw):
    return Z.regression(**kw)


MODELS = [
    (Z.gamma_poisson, {}), (Z.gamma_poisson, dict(shape=(2, 3), how="shared")), (Z.beta_binomial, dict(shape=4, how="const")),
    (reg, dict(prior="horseshoe")), (reg, dict(lik="nbinom", h="gamma")), (Z.normal_normal, {}), (Z.two_level, {}), (Z.many_priors, {}),
    (Z.hyper_tree, {}), (Z.dirichlet_normal, {}), (Z.uniform_chain, {}), (Z.eight_schools, {}), (Z.two_regressions, {}),
    (Z.shared_horseshoe, {}), (Z.vector_transforms, {}), (Z.noncentered, {}), (Z.matrix_broadcast, {}),
]


def name(f, kw):
    return f.__name__ + "".join(f"_{k}={v}" for k, v in kw.items())


def prior(ctx, model, kw=None, subset=False):
    m = model(**(kw or {}))
    m._accept = None
    rng = ctx.rng
    srng = RandomStream(int(rng.integers(2**31)))
    g = m.build(srng)
    rvs = dict(g["rvs"])
    rvs.update({k: v[0] for k, v in g["obs"].items()})
    names = list(rvs)
    order = list(names)
    if subset:
        order = [order[i] for i in rng.permutation(len(order))]
    num = at.lscalar("num") if rng.random() < 0.5 else None
    block = 25
    with ctx.target("sample_prior"):
        samples, updates = sample_prior(srng, num if num is not None else block, *[rvs[k] for k in order])
    if not isinstance(samples, (list, tuple)):
        samples = [samples]
    ctx.check(len(samples) == len(order), "outputs", f"{len(samples)} outputs for {len(order)} variables")
    with ctx.target("compile"):
        fn = aesara.function(([num] if num is not None else []) + list(g["free"].values()), samples, updates=updates,
                             on_unused_input="ignore", mode="FAST_COMPILE")
    args = ([block] if num is not None else []) + list(m.free_values().values())
    rows = {k: [] for k in names}
    logs = []
    calls = max(2, ctx.n // block)
    first = None
    for c in range(calls):
        rv.new_call()
        with rv.record() as log:
            with ctx.target("call"):
                out = fn(*args)
        logs += log
        for k, o in zip(order, out):
            if o.shape[0] != block or o.dtype != rvs[k].type.dtype:
                ctx.fail("shape", f"{k}: {o.shape} {o.dtype}, {block} samples of {rvs[k].type}")
                raise Abort
            rows[k].append(o)
    n = block * calls
    ctx.event("executions", n)
    ctx.event("draws logged", len(logs))
    st = {k: np.concatenate(v) for k, v in rows.items()}
    want = m.draw(rng)
    for k in names:
        ctx.check(st[k].shape[1:] == np.shape(want[k]), "shape", lambda: f"{k}: {st[k].shape} for realizations of shape {np.shape(want[k])}")
    for i in range(n):
        ctx.distinct_arrays(*[st[k][i] for k in names])
    if ctx.fails:
        raise Abort
    bad, compared, streams = rv.overlaps(logs)
    ctx.event("draws compared with the previous one of their stream", compared)
    for a, b in bad[:1]:
        a, b = logs[a], logs[b]
        ctx.fail("random numbers used twice", f"{a.name}{a.params!r} and {b.name}{b.params!r} overlap in stream {a.inc}")
    v = m.support(st)
    ctx.check(v is None, "support", v or "")
    if v:
        raise Abort
    # every variable given its parents in the same realization
    pits = m.pit(st)
    F, mu, lab = features(pits, n)
    ok = np.isfinite(mu)
    with np.errstate(all="ignore"):
        ctx.ps([x for x, o in zip(lab, ok) if o], S.ttest_mean(F[:, ok] - mu[ok]))
    for k, u in pits.items():
        u = u.reshape(n, -1)
        if k[0] != "~":
            ctx.p(f"law of {k}", S.ks_uniform(u[:, 0]))
            # independence of consecutive realizations, within and across calls
            a = u - 0.5
            ctx.p(f"consecutive {k}", S.ttest_mean((a[:-1] * a[1:]).mean(1), R=0.25)[0])
            b = a.reshape(calls, block, -1)
            ctx.p(f"calls {k}", S.ttest_mean((b[:-1] * b[1:]).mean(-1).ravel(), R=0.25)[0])
    ctx.sample(dict(model=m.name, realization={k: st[k][0] for k in names}))
    ctx.require("draws logged")


def single(ctx):
    """One variable, one sample, and variables that are asked for repeatedly."""
    rng = ctx.rng
    for i in range(ctx.n):
        srng = RandomStream(int(rng.integers(2**31)))
        x = srng.normal(0, 1, size=2, name="x")
        y = srng.normal(x, 1e-6, name="y")
        with ctx.target("sample_prior"):
            s1, u1 = sample_prior(srng, 1, x)
            s2, u2 = sample_prior(srng, at.as_tensor(3), y, x, y)
        with ctx.target("compile"):
            f1 = aesara.function([], s1, updates=u1, mode="FAST_COMPILE")
            f2 = aesara.function([], s2, updates=u2, mode="FAST_COMPILE")
        a = f1()
        ctx.check(a.shape == (1, 2), "shape of one sample", f"{a.shape}")
        b = f1()
        ctx.check(not np.array_equal(a, b), "calls", "two calls gave the same sample")
        p, q, r = f2()
        ctx.event("executions", 5)
        ctx.distinct_arrays(p)
        ctx.check(p.shape == (3, 2) and np.array_equal(p, r), "one realization", "a variable that is asked for twice has two values")
        ctx.check(np.max(np.abs(p - q)) < 1e-4, "parents", lambda: f"y = {p!r} isn't drawn given x = {q!r} of the same realization")
        ctx.check(len({row.tobytes() for row in p}) == 3, "samples", "equal samples")
        num = at.lscalar("num")
        with ctx.target("sample_prior"):
            s3, u3 = sample_prior(srng, num, y, x)
        with ctx.target("compile"):
            f3 = aesara.function([num], s3, updates=u3, mode="FAST_COMPILE")
        seen = []
        for c in [*rng.permutation([1, 2, 7, 33]), 0]:
            if c == 0:
                # nothing is claimed of the generator after a scan of no steps (aesara replaces its state by None)
                try:
                    p, q = f3(0)
                except Exception:
                    ctx.event("no samples: rejected")
                    continue
            else:
                with ctx.target("call"):
                    p, q = f3(c)
            ctx.event("executions", int(c))
            ctx.check(p.shape[0] == c and q.shape[:1] == (c,), "number of samples", lambda: f"{p.shape} and {q.shape} for {c} samples")
            if ctx.fails:
                raise Abort
            ctx.check(not c or np.max(np.abs(p - q)) < 1e-4, "parents", lambda: f"y = {p!r} isn't drawn given x = {q!r}")
            seen += [row.tobytes() for row in q]
        ctx.check(len(set(seen)) == len(seen) == 43, "samples", "equal samples in different calls")
    ctx.sample(dict(y=p, x=q))


def bookkeeping(ctx):
    """Updates of exactly the shared variables that the sampled variables need."""
    rng = ctx.rng
    for i in range(ctx.n):
        srng = RandomStream(int(rng.integers(2**31)))
        count = aesara.shared(np.float64(rng.integers(5)), name="count")
        count.default_update = count + 1
        c0 = float(count.get_value())
        data = aesara.shared(rng.normal(size=2), name="data")
        m = srng.normal(data, 1.0, name="m")
        x = srng.normal(m + 0 * count, 1.0, name="x")
        t = srng.normal(count, 1e-7, name="t")
        z = srng.gamma(2.0, 1.0, name="z")
        child = srng.normal(x.sum() + z, 1.0, name="child")
        if i % 2:
            for v in (m, x)[: 1 + i % 3]:
                v.owner.inputs[0].default_update = None
        state = lambda v: repr(v.owner.inputs[0].get_value(borrow=True).bit_generator.state)
        before = {v: state(v) for v in (m, x, t, z, child)}
        with ctx.target("sample_prior"):
            s, up = sample_prior(srng, 4, x, t)
        with ctx.target("compile and call"):
            f = aesara.function([], s, updates=up, mode="FAST_COMPILE")
            a = [f() for _ in range(3)]
        ctx.event("executions", 12)
        xs = np.concatenate([r[0] for r in a])
        ts = np.concatenate([r[1] for r in a])
        ctx.distinct_arrays(xs)
        ctx.check(len(np.unique(xs)) == xs.size, "realizations", lambda: f"repeated values in {xs!r}")
        ctx.check(np.allclose(ts, c0 + np.arange(12), atol=1e-5), "updates of shared parameters",
                  lambda: f"{ts!r} for a counter that starts at {c0} and is updated with every realization")
        ctx.check(float(count.get_value()) == c0 + 12, "updates of shared parameters", lambda: f"the counter is at {count.get_value()} after 12 realizations from {c0}")
        for v in (m, x, t):
            ctx.check(state(v) != before[v], "own generators", lambda: f"the generator of {v} wasn't updated")
        for v in (z, child):
            ctx.check(state(v) == before[v], "other generators", lambda: f"the generator of {v}, which isn't sampled, was used")
        ctx.check(len(up) == 4, "updates", lambda: f"updates of {list(up)}")
    ctx.sample(dict(counter=ts))


def tasks(tier):
    q = tier == "quick"
    out = [Task("single", single, 3 if q else 40), Task("bookkeeping", bookkeeping, 6 if q else 60)]
    for f, kw in MODELS:
        out.append(Task("prior " + name(f, kw), prior, 1500 if q else 20000, model=f, kw=kw))
    for s in range(400, 412 if q else 500):
        out.append(Task(f"prior random {s}", prior, 800 if q else 6000, model=gen.random_model, kw=dict(seed=s), subset=True))
    return out
