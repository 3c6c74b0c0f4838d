"""C08: composite samplers leave the posterior of the whole model invariant.

Models with several kinds of steps: a zoo of hand-written ones and randomly
composed ones.  The state is drawn from the joint law, the compiled sampler is
applied several times, and the result must still follow the joint law; in the
"chain" tasks the data are drawn again between the steps.
"""
from .. import gen
from .. import invariance as I
from .. import nutsstub
from .. import zoo as Z
from ..runner import Task

nutsstub.install()

RULE = (
    "one execution = one call of the compiled sampler of a composite model on a state drawn from its joint law; "
    "distinct = distinct (state, data)"
)
ASSUMPTIONS = [
    "a Metropolis kernel stands in for aehmc's NUTS kernel (see C07)",
    "models with the dispersion step are excluded (known finding of C05)",
]


def reg(**kw):
    return Z.regression(**kw)


MIXED = [
    (reg, dict(lik="bern", prior="horseshoe")),
    (reg, dict(lik="nbinom", prior="horseshoe")),
    (reg, dict(lik="bern", prior="hier")),
    (reg, dict(lik="nbinom", prior="hier")),
    (reg, dict(lik="nbinom", h="halfnormal")),
    (Z.gamma_poisson_hier, {}), (Z.beta_binomial_hier, {}), (Z.horseshoe_normal, {}), (Z.shared_horseshoe, {}), (Z.two_level, {}),
    (Z.two_regressions, {}), (Z.horseshoe_regression_tau1, {}), (Z.horseshoe_regression_tau1, dict(lik="nbinom")),
    (Z.gamma_scale_regression, {}), (Z.uniform_conjugate, {}),
]


def name(f, kw):
    return f.__name__ + "".join(f"_{v}" for v in kw.values())


def tasks(tier):
    q = tier == "quick"
    out = []
    for f, kw in MIXED:
        out.append(Task("invariance " + name(f, kw), I.invariance, 500 if q else 6000, model=f, kw=kw, steps=3, step_size=0.8))
        out.append(Task("chain " + name(f, kw), I.invariance, 300 if q else 3000, model=f, kw=kw, steps=8, step_size=0.8, chain=True))
    for s in range(12 if q else 150):
        out.append(Task(f"random {s}", I.invariance, 400 if q else 4000, model=gen.random_model, kw=dict(seed=s),
                        steps=2 + s % 3, step_size=0.8, chain=bool(s % 2)))
    return out
