"""Posterior-invariance monitor.

(theta, y) is drawn from the model's joint law with numpy.  The real, compiled
sampler step turns theta into theta'.  If the step leaves the posterior
invariant, (theta', y) has the same joint law, so every mid-PIT of theta' given
its parents has mean 1/2, every centred cross-product has mean 0, and so on.
"""
import numpy as np
import aesara
from aemcmc import construct_sampler
from aesara.tensor.random import RandomStream


class BuildError(Exception):
    pass


class Program:
    """A compiled sampler for a zoo model."""

    def __init__(self, model, seed, mode=None, scan_order=None):
        self.model = model
        self.srng = RandomStream(seed)
        self.g = g = model.build(self.srng)
        obs = {rv: vv for rv, vv in g["obs"].values()}
        sampler, init = construct_sampler(obs, self.srng)
        self.sampler, self.init = sampler, init
        self.names = list(g["rvs"])
        self.key = {rv: k for k, rv in g["rvs"].items()}
        if mode is None:
            mode = model.mode
        missing = [k for k, rv in g["rvs"].items() if rv not in sampler.sample_steps]
        if missing:
            raise BuildError(f"no sampling step for {missing}")
        self.params = [p for ps in sampler.parameters.values() for p in ps]
        inputs = (
            list(g["free"].values())
            + [vv for _, vv in g["obs"].values()]
            + [init[g["rvs"][k]] for k in self.names]
            + self.params
        )
        outputs = [sampler.sample_steps[g["rvs"][k]] for k in self.names]
        self.fn = aesara.function(
            inputs, outputs, updates=sampler.updates, on_unused_input="ignore", mode=mode
        )
        self.fn.trust_input = False

    def param_values(self):
        out = []
        for kernel, ps in self.sampler.parameters.items():
            d = self.raveled_dim(kernel)
            for p in ps:
                if p.type.ndim == 0:
                    out.append(self.model.step_size)
                else:
                    out.append(np.ones(d))
        return out

    def raveled_dim(self, kernel):
        """Number of unconstrained elements sampled by a NUTS kernel."""
        d = 0
        for rv in self.sampler.stages[kernel]:
            (k,) = [k for k, v in self.g["rvs"].items() if v is rv]
            shape = self.shapes[k]
            n = int(np.prod(shape))
            if type(rv.owner.op).__name__ == "DirichletRV":
                n = n // shape[-1] * (shape[-1] - 1)
            d += n
        return d

    def __call__(self, free, obs, state):
        self.shapes = {k: np.shape(v) for k, v in state.items()}
        args = (
            [free[k] for k in self.g["free"]]
            + [obs[k] for k in self.g["obs"]]
            + [state[k] for k in self.names]
            + self.param_values()
        )
        res = self.fn(*args)
        return dict(zip(self.names, res))


def stack(states):
    return {k: np.stack([np.asarray(s[k]) for s in states]) for k in states[0]}


def features(pits, n):
    """(n, k) matrix of bounded features, their null means, and labels."""
    cols, mu, lab = [], [], []
    flat = []
    for k, u in pits.items():
        u = np.asarray(u, float).reshape(n, -1)
        cont = k[0] != "~"  # '~' marks discrete variables
        for j in range(u.shape[1]):
            flat.append((f"{k}[{j}]", u[:, j], cont, k))
    if not flat:
        raise ValueError("no features")
    for lbl, u, cont, _ in flat[:40]:
        cols.append(u)
        mu.append(0.5)
        lab.append(f"E {lbl}")
        cols.append((u - 0.5) ** 2)
        mu.append(1 / 12 if cont else np.nan)
        lab.append(f"E sq {lbl}")
    # aggregates per variable name
    names = []
    for k in dict.fromkeys(f[3] for f in flat):
        us = np.stack([f[1] for f in flat if f[3] == k], 1) - 0.5
        names.append((k, us.mean(1), np.abs(us).mean(1)))
    for i in range(len(names)):
        for j in range(i + 1, len(names)):
            cols.append(names[i][1] * names[j][1])
            mu.append(0.0)
            lab.append(f"E {names[i][0]}*{names[j][0]}")
    for i in range(min(len(flat), 8)):
        for j in range(i + 1, min(len(flat), 8)):
            cols.append((flat[i][1] - 0.5) * (flat[j][1] - 0.5))
            mu.append(0.0)
            lab.append(f"E {flat[i][0]}*{flat[j][0]}")
    return np.stack(cols, 1), np.array(mu), lab


def kernels(prog):
    out = {}
    for k, vs in prog.sampler.stages.items():
        out.setdefault(type(k).__name__, []).extend(prog.key[v] for v in vs)
    return out


def observe_some(model, seed):
    """Observe some of the latent variables, too."""
    r = np.random.default_rng([seed, 77])
    lat = [n for n in model.nodes if not n.obs and not n.det]
    if len(lat) > 1:
        for i in r.choice(len(lat), int(r.integers(1, len(lat))), replace=False):
            lat[i].obs = True
    return model


def invariance(ctx, model, kw=None, steps=1, step_size=None, chain=False):
    """The compiled sampler leaves the joint law of `model` invariant.

    `model` is a function of the zoo.  With `chain`, the data are drawn again
    from the model between the steps (joint distribution of a long history).
    """
    from . import stats as S
    from .runner import Abort

    model = model(**(kw or {}))
    n = ctx.n
    if step_size:
        model.step_size = step_size
    rng = ctx.rng
    try:
        with ctx.target("construct and compile"):
            prog = Program(model, int(rng.integers(2**31)))
    except BuildError as e:
        ctx.fail("no step", str(e))
        raise Abort
    free = model.free_values()
    sim = model.simulate(rng, n)
    onames = list(prog.g["obs"])
    orig = {k: sim[k].copy() for k in onames}
    names = prog.names
    new = []
    moved = dict.fromkeys(names, 0)
    for i in range(n):
        obs = {k: sim[k][i] for k in onames}
        st = {k: sim[k][i] for k in names}
        for t in range(steps):
            if chain and t:
                obs = model.redraw(rng, st)
                for k in onames:
                    sim[k][i] = obs[k]
            with ctx.target("sampling step"):
                nst = prog(free, obs, st)
            ctx.event("executions")
            for k in names:
                a = np.asarray(nst[k])
                if a.shape != np.shape(st[k]):
                    ctx.fail("shape", f"the shape of {k} changed from {np.shape(st[k])} to {a.shape}")
                    raise Abort
                if not np.all(np.isfinite(a)):
                    ctx.fail("finite", f"non-finite draw of {k}: {a!r} from state {st!r}, obs {obs!r}")
                    raise Abort
                moved[k] += bool(np.any(a != st[k]))
            st = nst
        new.append(st)
        ctx.distinct_arrays(*[obs[k] for k in onames], *[np.asarray(sim[k][i]) for k in names])
    st0 = {k: sim[k] for k in names}
    ob0 = {k: orig[k] for k in onames}
    st1 = stack(new)
    ob = {k: sim[k] for k in onames}
    viol = model.support({**st1, **ob})
    if viol:
        ctx.fail("support", viol)
        raise Abort
    kern = kernels(prog)
    ctx.sample(dict(model=model.name, kernels=kern,
                    start={k: st0[k][0] for k in names}, end={k: st1[k][0] for k in names}, obs={k: ob[k][0] for k in onames}))
    for k, vs in kern.items():
        ctx.event(f"variables sampled with {k}", len(vs))
    for k, c in moved.items():
        ctx.check(c > 0, f"{k} moves", f"{k} never changed in {n * steps} steps")
    g0, mu, lab = features(model.pit({**st0, **ob0}), n)
    if model.selected:
        # selecting on y preserves invariance but not the marginals
        mu = np.full_like(mu, np.nan)
    g1, _, _ = features(model.pit({**st1, **ob}), n)
    ctx.ps(lab, S.controlled_mean(g1, g0, mu))
    return prog, moved
