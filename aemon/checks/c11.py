"""C11: random numbers are used once, and chains are reproducible.

Monitors: (1) the log of every draw of a history of calls is checked for
overlapping intervals of the same PCG64 stream; (2) chains of two builds, of
other processes (other hash seeds) and after re-seeding are compared bitwise;
(3) numpy's global generator must not move.
"""
import hashlib
import json
import os
import subprocess
import sys

import numpy as np
import aesara
from aesara.tensor.random import RandomStream
from aemcmc import construct_sampler
from aemcmc.sample import sample_prior

from .. import gen, invariance as I, nutsstub, rv
from .. import zoo as Z
from ..runner import Abort, Task

rv.install()

RULE = (
    "one execution = one call of a compiled sampler in a history of calls; distinct = distinct (model, seed, state); draws compared are "
    "counted separately"
)
ASSUMPTIONS = [
    "streams of different RNG objects are taken to be independent (numpy's SeedSequence)",
    "two draws with the same Op, stream, position and value are one draw that is computed twice",
]


def reg(**kw):
    return Z.regression(**kw)


MODELS = [
    (Z.gamma_poisson, {}), (Z.gamma_poisson, dict(shape=(2, 3))), (Z.beta_binomial, dict(shape=4)),
    (reg, {}), (reg, dict(lik="nbinom")), (reg, dict(prior="horseshoe")), (reg, dict(lik="nbinom", prior="horseshoe")),
    (reg, dict(lik="nbinom", h="gamma")), (reg, dict(lik="nbinom", prior="horseshoe", h="gamma")), (reg, dict(n=2, p=4)),
    (reg, dict(lik="nbinom", n=2, p=4)), (Z.two_regressions, {}), (reg, dict(prior="hier")), (Z.normal_normal, {}), (Z.gamma_poisson_hier, {}),
    (Z.horseshoe_normal, {}), (Z.two_level, {}), (Z.gamma_scale_regression, {}), (Z.many_priors, {}), (Z.hyper_tree, {}),
    (reg, dict(lik="nbinom", prior="hier", h="gamma")),
]


def name(f, kw):
    return f.__name__ + "".join(f"_{k}={v}" for k, v in kw.items())


def history(prog, free, obs, st, k):
    out = []
    for _ in range(k):
        rv.new_call()
        st = prog(free, obs, st)
        out.append({a: np.array(b) for a, b in st.items()})
    return out


def digest(h):
    d = hashlib.blake2b(digest_size=12)
    for st in h:
        for k in sorted(st):
            d.update(k.encode() + np.ascontiguousarray(st[k]).tobytes())
    return d.hexdigest()


def fresh(ctx, model, kw=None, real=False):
    """No random number is used twice in a history; re-seeding."""
    rng = ctx.rng
    impl = nutsstub.REAL if real else nutsstub.metropolis
    seed = int(rng.integers(2**31))
    with nutsstub.kernel(impl):
        with ctx.target("construct and compile"):
            m = model(**(kw or {}))
            prog = I.Program(m, seed)
    m.step_size = 0.6
    free = m.free_values()
    s0 = m.draw(rng) if not m.selected else {k: v[0] for k, v in m.simulate(rng, 1).items()}
    obs = {k: s0[k] for k in prog.g["obs"]}
    st = {k: s0[k] for k in prog.names}
    np.random.seed(int(rng.integers(2**31)))
    g0 = repr(np.random.get_state())
    with rv.record() as log:
        with ctx.target("sampling step"):
            h1 = history(prog, free, obs, st, ctx.n)
    ctx.event("executions", ctx.n)
    ctx.event("draws logged", len(log))
    ctx.distinct(m.name, seed)
    for s in h1:
        ctx.distinct_arrays(*s.values())
    ctx.check(repr(np.random.get_state()) == g0, "global generator", "numpy's global generator was used")
    bad, compared, streams = rv.overlaps(log)
    ctx.event("draws compared with the previous one of their stream", compared)
    ctx.event("streams", streams)
    for a, b in bad[:1]:
        a, b = log[a], log[b]
        ctx.fail("random numbers used twice",
                 f"{a.name}{a.params!r} = {a.value!r} and {b.name}{b.params!r} = {b.value!r} overlap in stream {a.inc}")
    # every call uses new random numbers
    for k in prog.names:
        if np.issubdtype(np.asarray(st[k]).dtype, np.floating) and not prog.params:
            v = [h[k].tobytes() for h in h1]
            ctx.check(len(set(v)) == len(v), "repeated draws", lambda: f"{k} took the same value twice in {[h[k] for h in h1]}")
    ctx.sample(dict(model=m.name, draws=[e.name for e in log][:20], first=h1[0], last=h1[-1]))
    ctx.require("draws logged")


def same(ctx, model, kw=None):
    """Same seed, same chain; another seed, another chain; re-seeding restarts it."""
    rng = ctx.rng
    seed = int(rng.integers(2**31))
    np.random.seed(1)
    hs, progs = [], []
    with nutsstub.kernel(nutsstub.metropolis):
        m = model(**(kw or {}))
        m.step_size = 0.6
        s0 = m.draw(rng) if not m.selected else {k: v[0] for k, v in m.simulate(rng, 1).items()}
        free = m.free_values()
        for s in (seed, seed, seed + 1):
            with ctx.target("construct and compile"):
                prog = I.Program(m, s)
            obs = {k: s0[k] for k in prog.g["obs"]}
            st = {k: s0[k] for k in prog.names}
            np.random.random(3)  # the state of the global generator has no influence
            hs.append(history(prog, free, obs, st, ctx.n))
            progs.append(prog)
            ctx.event("executions", ctx.n)
        # the chains differ; a Metropolis step can stay where it is for a while
        a, b = list(hs[0]), list(hs[2])
        for _ in range(60):
            stuck = [k for k in prog.names if all(np.array_equal(x[k], y[k]) for x, y in zip(a, b))]
            if not stuck:
                break
            a += history(progs[0], free, obs, a[-1], 10)
            b += history(progs[2], free, obs, b[-1], 10)
        prog.srng.seed(seed)
        h4 = history(prog, free, obs, st, ctx.n)
        prog.srng.seed(seed)
        h5 = history(prog, free, obs, st, ctx.n)
    ctx.distinct(m.name, seed)
    for h in hs:
        for s in h:
            ctx.distinct_arrays(*s.values())
    ctx.check(digest(hs[0]) == digest(hs[1]), "same seed", lambda: f"two builds with the same seed: {hs[0][0]!r} and {hs[1][0]!r}")
    ctx.check(not stuck, "other seed", lambda: f"{stuck} take the same values with another seed")
    ctx.check(digest(h4) == digest(h5), "re-seeding", lambda: f"the chain after srng.seed isn't reproducible: {h4[0]!r} and {h5[0]!r}")
    ctx.sample(dict(model=m.name, seed=seed, first=hs[0][0]))


SCRIPT = """
import sys, json
sys.path.insert(0, {here!r})
import aemon.env
import numpy as np
from aemon import nutsstub, gen, zoo as Z, invariance as I
from aemon.checks import c11
nutsstub.install()
out = {{}}
for nm, f, kw in c11.hashed({k}):
    m = f(**kw)
    m.step_size = 0.6
    rng = np.random.default_rng(5)
    s0 = {{k: v[0] for k, v in m.simulate(rng, 1).items()}}
    prog = I.Program(m, {seed})
    obs = {{k: s0[k] for k in prog.g["obs"]}}
    st = {{k: s0[k] for k in prog.names}}
    out[nm] = c11.digest(c11.history(prog, m.free_values(), obs, st, 4))
    out[nm + " stages"] = [[v.name for v in vs] for vs in prog.sampler.stages.values()]
print("RESULT " + json.dumps(out))
"""


def hashed(k):
    ms = [(name(f, kw), f, kw) for f, kw in MODELS] + [(f"random {s}", gen.random_model, dict(seed=s)) for s in range(300, 300 + k)]
    return ms


def processes(ctx, k):
    here = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
    seed = int(ctx.rng.integers(2**31))
    ps = []
    for h in range(ctx.n):
        env = dict(os.environ, PYTHONHASHSEED=str(h + 1 + int(ctx.rng.integers(1000)) * 10))
        env.pop("AEMON_COMPILEDIR", None)
        ps.append(subprocess.Popen([sys.executable, "-c", SCRIPT.format(here=here, k=k, seed=seed)], env=env, stdout=subprocess.PIPE,
                                   stderr=subprocess.PIPE, text=True))
    res = []
    for p in ps:
        o, e = p.communicate()
        lines = [ln for ln in o.splitlines() if ln.startswith("RESULT ")]
        if not lines:
            ctx.fail("process", e[-2000:])
            raise Abort
        res.append(json.loads(lines[0][7:]))
    for nm, d in res[0].items():
        ctx.event("executions", 4 * len(res))
        ctx.distinct(nm, seed)
        got = [r.get(nm) for r in res]
        ctx.check(all(x == d for x in got), "hash seed: " + nm, lambda: f"depends on PYTHONHASHSEED: {got}")
    ctx.event("processes", len(res))
    ctx.require("processes")


def prior_and_posterior(ctx, model, kw=None):
    """Prior draws and the sampler's draws in one function use different random numbers."""
    rng = ctx.rng
    m = model(**(kw or {}))
    with nutsstub.kernel(nutsstub.metropolis):
        srng = RandomStream(int(rng.integers(2**31)))
        g = m.build(srng)
        obs = {a: b for a, b in g["obs"].values()}
        with ctx.target("construct"):
            sampler, init = construct_sampler(obs, srng)
        with ctx.target("sample_prior"):
            pri, up = sample_prior(srng, 3, *g["rvs"].values())
    pri = pri if isinstance(pri, (list, tuple)) else [pri]
    params = [p for ps in sampler.parameters.values() for p in ps]
    names = list(g["rvs"])
    st = {k: v[0] for k, v in m.simulate(rng, 1).items()}
    ins = list(g["free"].values()) + [b for _, b in g["obs"].values()] + [init[g["rvs"][k]] for k in names] + params
    with ctx.target("compile"):
        fn = aesara.function(ins, [sampler.sample_steps[g["rvs"][k]] for k in names] + list(pri),
                             updates={**sampler.updates, **up}, on_unused_input="ignore", mode="FAST_COMPILE")
    args = list(m.free_values().values()) + [st[k] for k in g["obs"]] + [st[k] for k in names]
    for ker, ps in sampler.parameters.items():
        d = sum(int(np.prod(np.shape(st[k]))) for k in names if g["rvs"][k] in sampler.stages[ker])
        for p in ps:
            args.append(np.float64(0.3) if p.type.ndim == 0 else np.ones(d))
    with rv.record() as log:
        with ctx.target("call"):
            for _ in range(ctx.n):
                rv.new_call()
                fn(*args)
    ctx.event("executions", ctx.n)
    ctx.event("draws logged", len(log))
    ctx.distinct(m.name)
    bad, compared, streams = rv.overlaps(log)
    for a, b in bad[:1]:
        a, b = log[a], log[b]
        ctx.fail("random numbers used twice",
                 f"{a.name}{a.params!r} = {a.value!r} and {b.name}{b.params!r} = {b.value!r} overlap in stream {a.inc}")


def tasks(tier):
    q = tier == "quick"
    out = [Task("processes", processes, 3 if q else 8, k=10 if q else 80)]
    for f, kw in MODELS:
        out.append(Task("fresh " + name(f, kw), fresh, 6 if q else 60, model=f, kw=kw))
        out.append(Task("same " + name(f, kw), same, 4 if q else 20, model=f, kw=kw))
    for s in range(320, 332 if q else 450):
        out.append(Task(f"fresh random {s}", fresh, 6 if q else 40, model=gen.random_model, kw=dict(seed=s)))
        out.append(Task(f"same random {s}", same, 4 if q else 10, model=gen.random_model, kw=dict(seed=s)))
    for f, kw in MODELS:
        if f not in (Z.many_priors, Z.hyper_tree):
            out.append(Task("prior and posterior " + name(f, kw), prior_and_posterior, 2 if q else 10, model=f, kw=kw))
    out.append(Task("fresh real normal_normal", fresh, 2 if q else 10, model=Z.normal_normal, real=True))
    return out
