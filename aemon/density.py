"""Monitor of what the NUTS stage gives to, and makes of, its kernel.

The kernel is replaced with a probe that moves to positions chosen here and
reports the value of the log-density.  The oracle is the joint density of the
zoo model (numpy) and the numerical Jacobian of the observed map from positions
to values.
"""
import numpy as np

from . import invariance as I
from . import nutsstub
from .runner import Abort


def flatten(model, g, names, values):
    """Free coordinates of the sampled variables."""
    out = []
    for k in names:
        x = np.asarray(values[k], float)
        if type(g["rvs"][k].owner.op).__name__ == "DirichletRV":
            x = x[..., :-1]
        out.append(x.ravel())
    return np.concatenate(out)


def density(ctx, model, kw=None, spread=0.5):
    model = model(**(kw or {}))
    rng = ctx.rng
    probe = nutsstub.Probe()
    with nutsstub.kernel(probe.new_kernel):
        try:
            with ctx.target("construct and compile"):
                prog = I.Program(model, int(rng.integers(2**31)))
        except I.BuildError as e:
            ctx.fail("no step", str(e))
            raise Abort
    if not probe.calls:
        raise RuntimeError("the NUTS kernel wasn't constructed: nothing to observe")
    nuts = [prog.key[v] for k, vs in prog.sampler.stages.items() if k in prog.sampler.parameters for v in vs]
    free = model.free_values()
    sim = model.simulate(rng, ctx.n)
    const, worst = None, 0.0
    for i in range(ctx.n):
        obs = {k: sim[k][i] for k in prog.g["obs"]}
        st = {k: sim[k][i] for k in prog.names}
        seed = int(rng.integers(2**31))
        ss = float(np.exp(rng.normal()))
        model.step_size = ss

        def call(q):
            prog.srng.seed(seed)  # the same draws in the other steps
            probe.q.set_value(np.asarray(q, float))
            with ctx.target("sampling step"):
                out = prog(free, obs, st)
            ctx.event("executions")
            return out, float(probe.lp.get_value())

        if i == 0:
            # the first call only finds the start
            d = sum(prog.raveled_dim(k) for k in prog.sampler.parameters) if hasattr(prog, "shapes") else None
            if d is None:
                prog.shapes = {k: np.shape(v) for k, v in st.items()}
                d = sum(prog.raveled_dim(k) for k in prog.sampler.parameters)
        call(np.zeros(d))
        q0 = probe.q0.get_value()
        if not ctx.check(q0.shape == (d,) and np.all(np.isfinite(q0)), "start", f"the kernel starts from {q0!r} for state {st!r}"):
            raise Abort
        at_start = i % 2 == 0
        q = q0 if at_start else q0 + spread * rng.normal(size=d)
        out, lp = call(q)
        for k in nuts:
            if np.shape(out[k]) != np.shape(st[k]):
                ctx.fail("shape", f"{k}: {np.shape(out[k])} instead of {np.shape(st[k])}")
                raise Abort
        full = {**{k: np.asarray(v) for k, v in out.items()}, **obs}
        if at_start:
            for k in nuts:
                ctx.check(np.allclose(out[k], st[k], rtol=1e-6, atol=1e-8), f"round trip of {k}",
                          lambda: f"the step starts from {out[k]!r} instead of the current value {st[k]!r}")
            pe = float(probe.pe.get_value())
            ctx.check(np.isclose(pe, -lp, rtol=1e-8, atol=1e-8), "potential energy", f"{pe} for a log-density of {lp}")
        viol = model.support({k: np.asarray(v)[None] for k, v in full.items()})
        if viol and not at_start:
            ctx.fail("support", viol + f" at the unconstrained position {q!r}")
            raise Abort
        # Jacobian of the positions-to-values map, gradient of the log-density
        eps = 1e-5
        J, gr = np.empty((d, d)), np.empty(d)
        for j in range(d):
            e = np.zeros(d)
            e[j] = eps
            o1, l1 = call(q + e)
            o0, l0 = call(q - e)
            f1, f0 = flatten(model, prog.g, nuts, o1), flatten(model, prog.g, nuts, o0)
            if f1.size != d:
                ctx.fail("dimension", f"{d} unconstrained values for {f1.size} degrees of freedom")
                raise Abort
            J[:, j] = (f1 - f0) / (2 * eps)
            gr[j] = (l1 - l0) / (2 * eps)
        with np.errstate(all="ignore"):
            want = model.logp(full) + np.linalg.slogdet(J)[1]
        if not np.isfinite(want):
            ctx.event("skipped: the reference density isn't finite")
            continue
        if const is None:
            const = lp - want
            ctx.sample(dict(model=model.name, nuts=nuts, state=st, obs=obs, position=q, values=out, logdensity=lp, expected=want))
        err = abs(lp - want - const) / (1 + abs(want) + abs(const))
        worst = max(worst, err) if np.isfinite(err) else np.inf
        ctx.event("log-densities compared")
        ctx.distinct_arrays(q, *[np.asarray(v) for v in obs.values()])
        if not ctx.check(err < 2e-5, "log-density",
                         lambda: f"{lp} at {q!r} (values {full!r}), expected {want} + {const}: the density isn't the conditional of "
                                 f"{nuts} given the data and the other steps' values"):
            raise Abort
        if at_start:
            g = -probe.grad.get_value()
            ctx.check(np.allclose(g, gr, rtol=1e-3, atol=1e-3 * (1 + np.abs(gr).max())), "gradient",
                      lambda: f"{g!r} instead of {gr!r} at {q!r}")
        ctx.check(np.isclose(float(probe.ss.get_value()), ss), "step size", "the kernel isn't given the step size parameter")
        ctx.check(np.array_equal(probe.imm.get_value(), np.ones(d)), "mass matrix", "the kernel isn't given the mass matrix parameter")
    ctx.require("log-densities compared")


def real_nuts(ctx, model, kw=None):
    """The installed aehmc kernel: runs, stays in the support, and moves by an
    amount that depends on the step size parameter."""
    model = model(**(kw or {}))
    rng = ctx.rng
    with nutsstub.kernel(nutsstub.REAL):
        with ctx.target("construct and compile"):
            prog = I.Program(model, int(rng.integers(2**31)))
    nuts = [prog.key[v] for k, vs in prog.sampler.stages.items() if k in prog.sampler.parameters for v in vs]
    free = model.free_values()
    sim = model.simulate(rng, ctx.n)
    dist = {1e-8: [], 0.3: []}  # tiny steps are slow: trajectories have the maximum length
    for i in range(ctx.n):
        obs = {k: sim[k][i] for k in prog.g["obs"]}
        st = {k: sim[k][i] for k in prog.names}
        for ss in dist if i < 2 else (0.3,):
            model.step_size = ss
            with ctx.target("sampling step"):
                out = prog(free, obs, st)
            ctx.event("executions")
            ctx.distinct_arrays(*[np.asarray(v) for v in st.values()], np.array(ss))
            full = {**{k: np.asarray(v)[None] for k, v in out.items()}, **{k: np.asarray(v)[None] for k, v in obs.items()}}
            viol = model.support(full)
            if viol:
                ctx.fail("support", viol)
                return
            for k in nuts:
                dist[ss].append(np.max(np.abs(np.asarray(out[k]) - st[k]) / (1 + np.abs(st[k]))))
    ctx.check(max(dist[1e-8]) < 1e-3, "tiny steps", f"moved by {max(dist[1e-8])} with a step size of 1e-8 and up to 2**10 steps")
    ctx.check(np.median(dist[0.3]) > 1e-3, "steps", "doesn't move with a step size of 0.3")
    ctx.sample(dict(model=model.name, state=st, end=out, step_size=0.3))
