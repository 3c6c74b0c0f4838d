"""Stand-ins for the kernel of the dependency `aehmc`.

`aehmc.nuts.new_kernel` is replaced (before `aemcmc` is imported) with a
dispatcher to one of

* the real kernel;
* `metropolis`: a random-walk Metropolis kernel with the same interface.
  Metropolis leaves `exp(logprob_fn)` exactly invariant, which the installed
  `aehmc` (0.0.11) does not quite do, and it is much faster;
* `Probe`: returns a position chosen by the monitor and reports the value of the
  log-density there, and the position and potential energy it was started from.

What is observed is everything `aemcmc` contributes: the variables, transforms,
log-density, realized values, state and parameters it gives to the kernel and
what it makes of the result.
"""
import contextlib

import aehmc.nuts as real

REAL = real.new_kernel
PROPOSALS = 3
_impl = REAL
CALLS = 0


def dispatch(*args, **kwargs):
    global CALLS
    CALLS += 1
    return _impl(*args, **kwargs)


real.new_kernel = dispatch


def metropolis(srng, logprob_fn, *args, **kwargs):
    import aesara.tensor as at

    def step(q, potential_energy, potential_energy_grad, step_size, inverse_mass_matrix):
        updates = {}
        for _ in range(PROPOSALS):
            z = srng.normal(0, 1, size=q.shape)
            u = srng.uniform(0, 1)
            for v in (z, u):
                r = v.owner.inputs[0]
                updates[r] = r.default_update
                # like those of the real kernel, which are used in a scan, these
                # generators only advance if the caller passes the updates on
                r.default_update = None
            prop = q + step_size * at.sqrt(inverse_mass_matrix) * z
            pe = -logprob_fn(prop)
            ok = at.log(u) < potential_energy - pe
            q = at.switch(ok, prop, q)
            potential_energy = at.switch(ok, pe, potential_energy)
        return (q, potential_energy, potential_energy_grad, u, 0, 0, 0), updates

    return step


class Probe:
    """`q` is the position that the next step returns."""

    def __init__(self):
        import aesara
        import numpy as np

        self.q = aesara.shared(np.zeros(1), name="probe_q", shape=(None,))
        self.q0 = aesara.shared(np.zeros(1), name="probe_q0", shape=(None,))
        self.lp = aesara.shared(0.0, name="probe_lp")
        self.pe = aesara.shared(0.0, name="probe_pe")
        self.grad = aesara.shared(np.zeros(1), name="probe_grad", shape=(None,))
        self.ss = aesara.shared(0.0, name="probe_ss")
        self.imm = aesara.shared(np.zeros(1), name="probe_imm", shape=(None,))
        self.calls = 0

    def new_kernel(self, srng, logprob_fn, *args, **kwargs):
        import aesara.tensor as at

        self.calls += 1

        def step(q, potential_energy, potential_energy_grad, step_size, inverse_mass_matrix):
            up = {
                self.lp: logprob_fn(self.q),
                self.q0: q,
                self.pe: potential_energy,
                self.grad: potential_energy_grad,
                self.ss: step_size,
                self.imm: inverse_mass_matrix,
            }
            up = {k: at.cast(v, "float64") for k, v in up.items()}
            # the static shapes of the updates must be unknown
            up = {k: v[at.arange(v.shape[0])] if v.type.ndim else v for k, v in up.items()}
            return (self.q, potential_energy, potential_energy_grad, 0, 0, 0, 0), up

        return step


@contextlib.contextmanager
def kernel(impl):
    """Use `impl` for the kernels that are constructed in this block."""
    global _impl
    old, _impl = _impl, impl
    try:
        yield
    finally:
        _impl = old


def install():
    global _impl
    _impl = metropolis


def uninstall():
    global _impl
    _impl = REAL
