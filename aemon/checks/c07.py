"""C07: the NUTS stage samples the right density, from the right state.

1. density: a probe in place of aehmc's kernel; the log-density it is given must
   be (up to a constant) the conditional density of the remaining variables
   given the data and the values just drawn by the other steps, including the
   Jacobian of the transforms; it must start from the current values and its
   positions must be mapped to values in the support.
2. invariance: a Metropolis kernel in place of aehmc's leaves the joint law of
   the model invariant.
3. the real kernel runs and stays in the support.
"""
from .. import density as DN
from .. import invariance as I
from .. import nutsstub
from .. import zoo as Z
from ..runner import Task

nutsstub.install()

RULE = (
    "one execution = one call of the compiled sampler of a model with a NUTS stage (probe, Metropolis or real kernel); "
    "distinct = distinct (state, data, position); the log-densities compared are counted separately"
)
ASSUMPTIONS = [
    "aehmc's kernel is out of scope: the installed 0.0.11 doesn't leave its target exactly invariant (see DESIGN.md)",
]

NUTS = [
    Z.normal_normal, Z.scalar_readme, Z.iid_poisson, Z.iid_binomial, Z.two_children, Z.gamma_poisson_hier, Z.beta_binomial_hier,
    Z.uniform_scale, Z.uniform_chain, Z.dirichlet_normal, Z.many_priors, Z.logistic_nonzero_mean, Z.horseshoe_normal,
    Z.eight_schools, Z.poisson_regression, Z.regression_matrix_latent, Z.wide_horseshoe, Z.noncentered, Z.matrix_broadcast,
    Z.shared_horseshoe, Z.two_level, Z.regression_intercept, Z.gamma_scale_regression, Z.uniform_conjugate, Z.vector_transforms,
    Z.dirichlet_matrix, Z.hyper_tree,
]


def reg_hier(**kw):
    return Z.regression(prior="hier", **kw)


def reg_h(**kw):
    return Z.regression("nbinom", h="halfnormal", **kw)


VARIANTS = [(f, {}) for f in NUTS] + [
    (reg_hier, dict(lik="bern")), (reg_hier, dict(lik="nbinom")), (reg_h, {}),
    (Z.normal_normal, dict(size=None)), (Z.scalar_transforms, {}),
]


def name(f, kw):
    return f.__name__ + "".join(f"_{v}" for v in kw.values())


def tasks(tier):
    q = tier == "quick"
    out = []
    out.append(Task("real normal_normal", DN.real_nuts, 12 if q else 60, model=Z.normal_normal))
    out.append(Task("real gamma_poisson_hier", DN.real_nuts, 12 if q else 60, model=Z.gamma_poisson_hier))
    for f, kw in VARIANTS:
        out.append(Task("density " + name(f, kw), DN.density, 12 if q else 150, model=f, kw=kw))
        out.append(Task("invariance " + name(f, kw), I.invariance, 500 if q else 8000, model=f, kw=kw, steps=3, step_size=1.0))
    for i, f in enumerate([Z.uniform_scale, Z.many_priors, Z.dirichlet_normal, Z.vector_transforms, Z.horseshoe_normal, Z.hyper_tree]):
        for j, nm in enumerate(Z.NAMINGS):
            if not q or i < 2 or (i + j) % 3 == 0:
                out.append(Task(f"density names={nm} {f.__name__}", DN.density, 6 if q else 50, model=Z.renamed, kw=dict(model=f, naming=nm)))
    if not q:
        out.append(Task("real dirichlet_normal", DN.real_nuts, 40, model=Z.dirichlet_normal))
        out.append(Task("real uniform_chain", DN.real_nuts, 40, model=Z.uniform_chain))
        out.append(Task("real horseshoe_normal", DN.real_nuts, 40, model=Z.horseshoe_normal))
    return out
