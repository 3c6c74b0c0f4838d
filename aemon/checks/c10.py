"""C10: models that resemble a supported structure get a valid sampler."""
import re

from .. import gen
from .. import invariance as I
from .. import lookalikes as K
from .. import nutsstub
from ..runner import Task

nutsstub.install()
GRID = re.compile(".* (add|r?sub|mul|r?div|max|min|pow) -?[0-9.]+")

RULE = (
    "one execution = one call of the compiled sampler of a model that differs from a supported structure in one respect; "
    "distinct = distinct (state, data)"
)
ASSUMPTIONS = [
    "a Metropolis kernel stands in for aehmc's NUTS kernel (see C07)",
    "a model is in scope whether it is recognized or left to NUTS: only the validity of the sampler is judged",
]


def tasks(tier):
    q = tier == "quick"
    out = []
    for nm, f in K.CASES.items():
        out.append(Task(nm, I.invariance, (250 if GRID.match(nm) else 400) if q else 5000, model=f, steps=2 if q else 3, step_size=0.8))
    for s in range(1000, 1010 if q else 1150):
        out.append(Task(f"random {s}, partly observed", I.invariance, 300 if q else 4000, model=gen.partly_observed, kw=dict(seed=s), steps=2,
                        step_size=0.8))
    return out
