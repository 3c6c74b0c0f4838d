"""C14: the intermediate representation of a model is the same model."""
import aesara
import numpy as np
from aesara.compile.mode import Mode, optdb
from aesara.graph.basic import ancestors
from aesara.graph.fg import FunctionGraph
from aesara.tensor.random import RandomStream
from aesara.tensor.random.op import RandomVariable
from aesara.tensor.rewriting.shape import ShapeFeature
from aemcmc.rewriting import construct_ir_fgraph, sampler_rewrites_db

from .. import exprs, gen
from .. import lookalikes as K
from .. import zoo as Z
from ..runner import Abort, Task
from .c11 import MODELS, name

PLAIN = Mode(linker="py", optimizer=None)
RULE = (
    "one execution = one evaluation of the parameters of every random variable of a graph in the model, in its intermediate "
    "representation, or in the graph that sampling steps are built on; distinct = distinct values of the variables"
)
ASSUMPTIONS = ["Aesara's evaluation of the unmodified graph is the reference"]


def params(rv):
    return list(rv.owner.inputs[3:])


def compare(ctx, tag, free, orig, new, draws, want):
    """Parameters of the variables `new` given the values `draws`."""
    for k in orig:
        a, b = orig[k].owner, new[k].owner
        ctx.check(b is not None and isinstance(b.op, RandomVariable), "measurable", lambda: f"{tag}: {k} is now {new[k].owner}")
        if ctx.fails:
            raise Abort
        ctx.check(a.op == b.op, "distribution", lambda: f"{tag}: {k} was {a.op} and is now {b.op}")
        ctx.check(a.inputs[0] is b.inputs[0], "generator", lambda: f"{tag}: {k} doesn't use its generator")
        ctx.check(len(a.inputs) == len(b.inputs), "parameters", lambda: f"{tag}: {k} has {len(b.inputs)} inputs")
    # no copies of random variables
    nodes = [v.owner for v in ancestors(list(new.values())) if v.owner and isinstance(v.owner.op, RandomVariable)]
    extra = {id(n): n for n in nodes}
    ctx.check(len(extra) == len(orig), "copies", lambda: f"{tag}: {len(extra)} random variables instead of {len(orig)}: {list(extra.values())}")
    if ctx.fails:
        raise Abort
    roots = [v for v, _ in free.values()]
    ins, outs = roots + list(new.values()), [p for v in new.values() for p in params(v)]
    sizes = [v.owner.inputs[1] for v in new.values()]
    with ctx.target("compile the graph"):
        fn = aesara.function(ins, outs + sizes, mode="FAST_COMPILE", on_unused_input="ignore", accept_inplace=True)
    for d, w in zip(draws, want):
        with ctx.target("evaluate the graph"):
            got = fn(*[x for _, x in free.values()], *[d[k] for k in new])
        ctx.event("executions")
        i = 0
        for k in new:
            for j, p in enumerate(params(new[k])):
                # parameters broadcast against each other and the size
                g, o = np.asarray(got[i], float), np.asarray(w[i], float)
                i += 1
                sh = np.shape(d[k])
                try:
                    if k in ctx.dirichlet:
                        ok = np.allclose(g, o, rtol=1e-7, atol=1e-9, equal_nan=True)
                    else:
                        ok = np.allclose(np.broadcast_to(g, sh), np.broadcast_to(o, sh), rtol=1e-7, atol=1e-9, equal_nan=True)
                except ValueError:
                    ok = False
                ctx.check(ok, "value of a parameter", lambda: f"{tag}: parameter {j} of {k} is {g!r} instead of {o!r}, given {d!r}")
        for k, s in zip(new, got[len(outs):]):
            o = w[len(outs):][list(new).index(k)]
            ctx.check(np.array_equal(s, o), "size", lambda: f"{tag}: the size of {k} is {s!r} instead of {o!r}")
    if ctx.fails:
        raise Abort


def canonical(rvs, free, draws, want):
    """Whether Aesara's canonicalization alone, without aemcmc, preserves the values."""
    fg = FunctionGraph(outputs=list(rvs.values()), clone=True, copy_inputs=False, copy_orphans=False, features=[ShapeFeature()])
    try:
        optdb.query("+canonicalize").rewrite(fg)
        new = fg.outputs
        fn = aesara.function([v for v, _ in free.values()] + new, [p for v in new for p in params(v)], mode=PLAIN, on_unused_input="ignore",
                             accept_inplace=True)
        for d, w in zip(draws, want):
            got = fn(*[x for _, x in free.values()], *[d[k] for k in rvs])
            for g, o in zip(got, w):
                if not np.allclose(*np.broadcast_arrays(g, o), rtol=1e-7, atol=1e-9, equal_nan=True):
                    return False
    except Exception:
        return False
    return True


def observe(ctx, rvs, obs_names, free, k=2, control=False):
    # nothing depends on the variables' names
    how = ctx.rng.integers(5)
    for n, v in rvs.items():
        if how < 4:
            v.name = [n, None, "x", ctx.rng.choice(["a", "b"])][how]
    ctx.event("models with equal names" if how in (2, 3) else "models with distinct or no names")
    ctx.dirichlet = {n for n, v in rvs.items() if v.owner.op.ndim_supp}
    # values of the variables, and the parameters of the model given them
    ins = [v for v, _ in free.values()]
    vals = [x for _, x in free.values()]
    sim = aesara.function(ins, list(rvs.values()), mode=PLAIN, on_unused_input="ignore")
    ref = aesara.function(ins + list(rvs.values()),
                          [p for v in rvs.values() for p in params(v)] + [v.owner.inputs[1] for v in rvs.values()],
                          mode=PLAIN, on_unused_input="ignore", accept_inplace=True)
    draws, want = [], []
    for _ in range(k):
        try:
            d = dict(zip(rvs, sim(*vals)))
        except ValueError:
            ctx.event("graphs that can't be evaluated")
            return
        draws.append(d)
        want.append(ref(*vals, *[d[n] for n in rvs]))
        ctx.distinct_arrays(*[np.asarray(x) for x in d.values()])
        ctx.event("executions")
    if control and not canonical(rvs, free, draws, want):
        ctx.event("graphs that Aesara itself doesn't canonicalize correctly")
        return
    obs = {rvs[n]: rvs[n].clone() for n in obs_names}
    with ctx.target("construct_ir_fgraph"):
        fg, obs2, memo, new_to_old = construct_ir_fgraph(dict(obs))
    ctx.check(isinstance(fg, FunctionGraph), "type", "no FunctionGraph")
    old_to_new = {o: n for n, o in new_to_old.items()}
    need = [n for n in rvs if rvs[n] in old_to_new]
    used = {v for v in ancestors([rvs[n] for n in obs_names])}
    ctx.check(set(need) == {n for n in rvs if rvs[n] in used}, "variables",
              lambda: f"{need} are tracked, the model consists of {[n for n in rvs if rvs[n] in used]}")
    ctx.check(len(old_to_new) == len(new_to_old) == len(fg.outputs) == len(set(fg.outputs)), "variables", lambda: f"{new_to_old} {fg.outputs}")
    ctx.check([id(x) for x in obs2.values()] == [id(x) for x in obs.values()], "values", "the observed values were replaced")
    if ctx.fails:
        raise Abort
    # the observed variables are known by their clones before rewriting or by the rewritten ones
    orig = {n: rvs[n] for n in need}
    sel = [list(rvs).index(n) for n in need]
    pos = np.cumsum([0] + [len(params(v)) for v in rvs.values()])
    want = [[w[j] for i in sel for j in range(pos[i], pos[i + 1])] + [w[pos[-1] + i] for i in sel] for w in want]
    new = {n: old_to_new[rvs[n]] for n in need}
    ctx.event("graphs")
    ctx.event("nodes of the representation", len(fg.apply_nodes))
    for nd in fg.apply_nodes:
        if type(nd.op).__name__ == "SubsumingElemwise":
            ctx.event("subsumed dimshuffles")
    compare(ctx, "representation", free, orig, new, draws, want)
    where = {v: i for i, v in enumerate(fg.outputs)}
    with ctx.target("rewrite"):
        sampler_rewrites_db.query("+basic").rewrite(fg)
    ctx.check(len(fg.outputs) == len(need), "variables", "the number of outputs changed")
    new2 = {n: fg.outputs[where[new[n]]] for n in need}
    compare(ctx, "expanded", free, orig, new2, draws, want)
    left = [nd for nd in fg.apply_nodes if type(nd.op).__name__ == "SubsumingElemwise"]
    ctx.check(not left, "expansion", lambda: f"{left} can't be evaluated")


def random_graphs(ctx, first):
    for s in range(first, first + ctx.n):
        try:
            g = exprs.Graph(s, RandomStream(s))
        except ValueError:  # incompatible shapes
            ctx.event("graphs that can't be built")
            continue
        observe(ctx, g.rvs, g.obs, g.free, control=True)
        if ctx.fails:
            ctx.fails[:] = [(lb, f"graph {s}: {m}", k) for lb, m, k in ctx.fails]
            raise Abort
    ctx.sample(dict(graph={k: str(aesara.pprint(v.owner.inputs[3]))[:200] for k, v in g.rvs.items()}))
    ctx.require("graphs")


def model(ctx, model, kw=None, naming=None):
    m = model(**(kw or {}))
    srng = RandomStream(int(ctx.rng.integers(2**31)))
    g = m.build(srng)
    free = {k: (v, m.free_values()[k]) for k, v in g["free"].items()}
    rvs = {**g["rvs"], **{k: a for k, (a, b) in g["obs"].items()}}
    observe(ctx, rvs, list(g["obs"]), free, k=ctx.n)
    ctx.sample(dict(model=m.name, variables=list(rvs)))


def tasks(tier):
    q = tier == "quick"
    out = []
    per = 12 if q else 100
    for i in range(50 if q else 300):
        out.append(Task(f"graphs {i}", random_graphs, per, first=i * 100))
    for f, kw in MODELS:
        out.append(Task("model " + name(f, kw), model, 3 if q else 10, model=f, kw=kw))
    for nm, f in K.CASES.items():
        out.append(Task("lookalike " + nm, model, 2 if q else 10, model=f))
    for s in range(600, 610 if q else 700):
        out.append(Task(f"random {s}", model, 2 if q else 10, model=gen.random_model, kw=dict(seed=s)))
    return out
