"""C15: the descriptions of models, samplers and generator updates are consistent.

Random descriptions are built from generated variables; every derived field
is compared with one that is computed here from the arguments.
"""
import dataclasses

import aesara
import aesara.tensor as at
import numpy as np
from aemcmc.types import Sampler, SamplingStep
from aemcmc.utils import ModelInfo, get_rv_updates, remove_constants
from aesara.compile.mode import Mode
from aesara.graph.basic import ancestors
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable

from .. import exprs, rv
from ..runner import Abort, Task

rv.install()

RULE = "one execution = one ModelInfo, Sampler, list of inputs or set of generator updates that is built; distinct = distinct arguments"
ASSUMPTIONS = ["variables are compared by identity"]

FAMILY = [
    lambda s, **k: s.normal(0, 1, **k), lambda s, **k: s.gamma(1.0, 2.0, **k), lambda s, **k: s.poisson(2.0, **k),
    lambda s, **k: s.beta(1.0, 1.0, **k), lambda s, **k: s.bernoulli(0.4, **k), lambda s, **k: s.halfcauchy(0, 1, **k),
]


def ident(xs):
    return [id(x) for x in xs]


def description(rng, srng):
    """Arguments of a ModelInfo with distinct, non-empty names."""
    n = int(rng.integers(1, 7))
    names = [f"{c}{i}" for i, c in enumerate(rng.choice(list("abcxyz"), size=4 * n + 8))]
    pop = iter(rng.permutation(names))
    rvs = []
    for i in range(n):
        kind = int(rng.integers(8))
        sz = {} if rng.random() < 0.4 else dict(size=int(rng.integers(1, 4)))
        if kind < 6:
            v = FAMILY[kind](srng, **sz)
        elif kind == 6 and rvs:
            v = srng.normal(rvs[int(rng.integers(len(rvs)))].astype("float64"), 1)
        else:
            v = at.vector()
        v.name = str(next(pop))
        rvs.append(v)
    vals = []
    for v in rvs:
        k = int(rng.integers(4))
        if k == 0 and v.type.ndim == 0:
            vv = aesara.shared(np.zeros((), v.type.dtype))
        elif k == 1:
            vv = v.type()
        else:
            vv = v.clone()
        vv.name = str(next(pop))
        vals.append(vv)
    order = rng.permutation(n)
    mapping = {rvs[i]: vals[i] for i in order}
    k = int(rng.integers(0, n + 1))
    observed = tuple(rvs[i] for i in rng.choice(n, k, replace=False))
    det = []
    for _ in range(int(rng.integers(0, 4))):
        d = at.exp(rvs[int(rng.integers(n))]) if rng.random() < 0.5 else rvs[int(rng.integers(n))] * 2
        d.name = str(next(pop))
        det.append(d)
    up = {aesara.shared(0.0): at.scalar() for _ in range(int(rng.integers(0, 3)))}
    return observed, mapping, tuple(det), up


def model_info(ctx):
    rng = ctx.rng
    srng = RandomStream(3)
    for i in range(ctx.n):
        observed, mapping, det, up = description(rng, srng)
        args = (observed, dict(mapping), det, dict(up))
        how = int(rng.integers(3))
        with ctx.target("ModelInfo"):
            if how == 0:
                m = ModelInfo(*args)
            elif how == 1:
                m = ModelInfo(observed_rvs=args[0], rvs_to_values=args[1], deterministic_vars=args[2], updates=args[3])
            else:
                m, det, up = ModelInfo(args[0], args[1]), (), {}
        ctx.event("executions")
        ctx.distinct([v.name for v in mapping], [v.name for v in observed], len(det), how, [str(v.type) for v in mapping])
        un = [v for v in mapping if id(v) not in ident(observed)]
        want = dict(
            observed_rvs=list(observed), unobserved_rvs=un, observed_values=[mapping[v] for v in observed],
            unobserved_values=[mapping[v] for v in un], deterministic_vars=list(det),
        )
        d = lambda f, w: f"{f} = {getattr(m, f)} instead of {w} (observed {observed}, mapping {mapping})"
        for f, w in want.items():
            ctx.check(isinstance(getattr(m, f), tuple) and ident(getattr(m, f)) == ident(w), f, lambda: d(f, w))
        ctx.check([(id(a), id(b)) for a, b in m.rvs_to_values.items()] == [(id(a), id(b)) for a, b in mapping.items()], "rvs_to_values",
                  lambda: d("rvs_to_values", mapping))
        ctx.check([(id(a), id(b)) for a, b in m.values_to_rvs.items()] == [(id(b), id(a)) for a, b in mapping.items()], "values_to_rvs",
                  lambda: d("values_to_rvs", "its inverse"))
        every = list(mapping) + list(mapping.values()) + list(det)
        ctx.check({k: id(v) for k, v in m.names_to_vars.items()} == {v.name: id(v) for v in every}, "names_to_vars",
                  lambda: d("names_to_vars", {v.name: v for v in every}))
        ctx.check([(id(a), id(b)) for a, b in m.updates.items()] == [(id(a), id(b)) for a, b in up.items()], "updates", lambda: d("updates", up))
        ctx.check(ident(args[0]) == ident(observed) and list(args[1].items()) == list(mapping.items()), "arguments", "the arguments were changed")
        for f in ("observed_rvs", "names_to_vars", "unobserved_values", "updates"):
            try:
                setattr(m, f, ())
                ctx.fail("frozen", f"{f} can be replaced")
            except dataclasses.FrozenInstanceError:
                ctx.event("rejected assignments")
        # invalid names
        pool = every
        bad = pool[int(rng.integers(len(pool)))]
        old = bad.name
        others = [v for v in pool if v is not bad]
        for nm in [None, ""] + ([others[int(rng.integers(len(others)))].name] if others else []):
            bad.name = nm
            try:
                ModelInfo(observed, mapping, det, up)
                ctx.fail("names", f"the name {nm!r} of {'a deterministic variable' if bad in det else bad} was accepted; all: {pool}")
            except ValueError:
                ctx.event("rejected names")
            finally:
                bad.name = old
        if ctx.fails:
            raise Abort
    # mutable defaults aren't shared
    a, b = at.vector("a"), at.vector("b")
    m1, m2 = ModelInfo((), {a: b}), ModelInfo((), {a: b})
    ctx.check(m1.updates is not m2.updates and not m1.updates, "defaults", "the default updates are shared")
    ctx.sample(dict(last=repr(m.names_to_vars)))
    ctx.require("rejected names", "rejected assignments")


def sampler_info(ctx):
    rng = ctx.rng

    class A(SamplingStep):
        pass

    class C(SamplingStep):
        default_output = 0

    for i in range(ctx.n):
        steps, groups = {}, []
        n = int(rng.integers(1, 6))
        todo = []
        for j in range(n):
            k = int(rng.integers(1, 4))
            x = [at.vector(f"x{j}{q}") for q in range(k)]
            cls = [A, C][int(rng.integers(2))] if k > 1 else A
            op = cls(x, [v + 1.5 for v in x])
            outs = op.make_node(*[v.clone() for v in x]).outputs
            rvs = [at.vector(f"rv{j}{q}") for q in range(k)]
            groups.append((op, rvs))
            todo += list(zip([j] * k, rvs, outs))
        order = list(range(len(todo)))
        if rng.random() < 0.5:
            rng.shuffle(order)
        steps = {todo[q][1]: todo[q][2] for q in order}
        seen = list(dict.fromkeys(todo[q][0] for q in order))
        given = dict(steps)
        with ctx.target("Sampler"):
            s = Sampler(given) if i % 2 else Sampler(given, {}, {})
        ctx.event("executions")
        ctx.distinct(n, order)
        want = [(groups[j][0], [todo[q][1] for q in order if todo[q][0] == j]) for j in seen]
        got = list(s.stages.items())
        ctx.check(len(got) == len(want) and all(a is c and ident(b) == ident(e) for (a, b), (c, e) in zip(got, want)), "stages",
                  lambda: f"{got} instead of {want}")
        ctx.check(list(s.sample_steps.items()) == list(steps.items()), "sample_steps", "the steps were changed")
        ctx.check(not s.updates and not s.parameters, "defaults", f"{s.updates} {s.parameters}")
        ctx.check(all(k not in s.stages for k in s.parameters), "parameters", "")
        try:
            s.stages = {}
            ctx.fail("frozen", "stages can be replaced")
        except dataclasses.FrozenInstanceError:
            ctx.event("rejected assignments")
        # the stages evaluate to the step they belong to
        ctx.check(all(s.sample_steps[v].owner.op is k for k, vs in s.stages.items() for v in vs), "stages", "a variable in the stage of another step")
        if ctx.fails:
            raise Abort
    ctx.sample(dict(stages=[len(v) for v in s.stages.values()]))


def constants(ctx):
    rng = ctx.rng
    for i in range(ctx.n):
        pool, keep = [], []
        for _ in range(int(rng.integers(0, 8))):
            k = int(rng.integers(7))
            c = rng.normal(size=int(rng.integers(0, 3)))
            v = [lambda: 1.5, lambda: c, lambda: at.as_tensor(c), lambda: at.vector("v"), lambda: aesara.shared(c), lambda: at.exp(at.vector()),
                 lambda: at.as_tensor(2) + 1][k]()
            if pool and rng.random() < 0.3:
                v, k = prev  # the same input again
            prev = v, k
            pool.append(v)
            if k >= 3:
                keep.append(v)
        given = list(pool)
        with ctx.target("remove_constants"):
            res = remove_constants(given)
        ctx.event("executions")
        ctx.distinct([str(v) for v in pool])
        ctx.check(ident(res) == ident(keep), "remove_constants", lambda: f"{res} instead of {keep}")
        ctx.check(ident(given) == ident(pool), "arguments", "the list was changed")


def updates(ctx, first):
    """The updates for some variables advance exactly the generators that their draws use."""
    rng = ctx.rng
    for s in range(first, first + ctx.n):
        srng = RandomStream(s)
        try:
            g = exprs.Graph(s, srng)
        except ValueError:
            continue
        names = list(g.rvs)
        sel = [names[i] for i in rng.choice(len(names), int(rng.integers(1, len(names) + 1)), replace=False)]
        outs = [g.rvs[k] for k in sel]
        style = int(rng.integers(4))
        extra = []
        if style == 1:
            # only the stream knows the updates
            for r, _ in srng.state_updates:
                r.default_update = None
        elif style == 2:
            # another shared variable with an update
            c = aesara.shared(0.0, name="counter")
            c.default_update = c + 1
            outs.append(outs[0] * 1.0 + c)
            extra.append(c)
            u = aesara.shared(0.0, name="unrelated")
            u.default_update = u + 1
        elif style == 3:
            # another stream
            other = RandomStream(s + 1)
            z = other.normal(0, 1)
            outs.append(outs[0] + z)
            extra.append(z.owner.inputs[0])
        nodes = [v.owner for v in ancestors(outs) if v.owner and isinstance(v.owner.op, RandomVariable)]
        want = {n.inputs[0]: n.outputs[0] for n in nodes}
        for e in extra:
            want[e] = e.default_update
        with ctx.target("get_rv_updates"):
            got = get_rv_updates(srng, *outs)
        ctx.event("executions")
        ctx.event("updates", len(got))
        ctx.distinct(s, sel, style)
        ctx.check(set(got) == set(want), "variables", lambda: f"graph {s}: updates for {list(got)} instead of {list(want)}")
        ctx.check(all(got[k] is want[k] for k in got if k in want), "updates", lambda: f"graph {s}: {got} instead of {want}")
        if ctx.fails:
            raise Abort
        before = {r: r.get_value(borrow=False) for r, _ in srng.state_updates}
        try:
            fn = aesara.function([v for v, _ in g.free.values()], outs, updates=got, no_default_updates=True, on_unused_input="ignore",
                                 mode=Mode("py", None))
            with rv.record() as log:
                fn(*[x for _, x in g.free.values()])
        except (ValueError, AssertionError):
            ctx.event("graphs that can't be evaluated")
            continue
        moved = {r for r, _ in srng.state_updates if r.get_value(borrow=True).bit_generator.state != before[r].bit_generator.state}
        # (generators of variables without elements don't move)
        used = {e.inc for e in log}
        incs = {r: r.get_value(borrow=True).bit_generator.state["state"]["inc"] for r, _ in srng.state_updates}
        ctx.check({incs[r] for r in moved} == {i for i in used if i in set(incs.values())}, "advanced generators",
                  lambda: f"graph {s}: {len(moved)} generators moved, {len(used)} were used")
        ctx.event("compiled")
    ctx.sample(dict(variables=sel, updates=[str(k) for k in got]))
    ctx.require("compiled")


def tasks(tier):
    q = tier == "quick"
    out = [Task(f"model {i}", model_info, 40 if q else 600) for i in range(6)]
    out += [Task(f"sampler {i}", sampler_info, 25 if q else 300) for i in range(4)]
    out += [Task("constants", constants, 100 if q else 2000)]
    out += [Task(f"updates {i}", updates, 10 if q else 150, first=5000 + 200 * i) for i in range(8)]
    return out
