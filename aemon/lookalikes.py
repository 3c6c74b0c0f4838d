"""Models that resemble the ones with a special-purpose step.

Each differs from a supported structure in one respect; whatever sampler is
constructed for it must be valid for the model that was written, not for the one
it resembles.
"""
import numpy as np

from .zoo import Model, Node, cap60, design

N = Node
CASES = {}


def case(name, nodes, data=None, how="input", accept=None, step_size=0.6):
    def f():
        m = Model(name, nodes, data, how, accept=accept, step_size=step_size)
        m.mode = "FAST_COMPILE"
        return m

    f.__name__ = name
    assert name not in CASES, name
    CASES[name] = f


def sig(e, x):
    return e.sigmoid(x)


A = dict(a=np.float64(2.5), b=np.float64(1.5))
G = lambda size=None: N("l", "gamma", lambda e: (e.a, e.b), size)
P = lambda size=None: N("p", "beta", lambda e: (e.a, e.b), size)
X32 = design(11, 3, 2, 0.9)
R = dict(X=X32, sd=np.array([0.8, 1.4]))
BETA = N("beta", "normal", lambda e: (0.0, e.sd))
eta = lambda e: e.X @ e.beta

# -- gamma-Poisson ----------------------------------------------------------
case("gp iid", [G(), N("Y", "poisson", lambda e: (e.l,), 3, obs=True)], A)
case("gp replicated rows", [G(3), N("Y", "poisson", lambda e: (e.l,), (2, 3), obs=True)], A)
case("gp two children", [G(), N("Y", "poisson", lambda e: (e.l,), obs=True), N("Z", "poisson", lambda e: (e.l,), obs=True)], A)
case("gp exposure", [G(), N("Y", "poisson", lambda e: (2.5 * e.l,), obs=True)], A)
case("gp vector exposure", [G(3), N("Y", "poisson", lambda e: (e.w * e.l,), obs=True)], dict(w=np.array([0.5, 1.0, 2.0]), **A))
case("gp shared rate, exposures", [G(), N("Y", "poisson", lambda e: (e.w * e.l,), obs=True)], dict(w=np.array([0.5, 1.0, 2.0]), **A))
case("gp offset", [G(), N("Y", "poisson", lambda e: (1.0 + e.l,), obs=True)], A)
case("gp square", [G(), N("Y", "poisson", lambda e: (e.l**2,), obs=True)], A)
case("gp sqrt", [G(), N("Y", "poisson", lambda e: (e.sqrt(e.l),), obs=True)], A)
case("gp reciprocal", [G(), N("Y", "poisson", lambda e: (1.0 / (0.3 + e.l),), obs=True)], A)
case("gp reversed", [G(3), N("Y", "poisson", lambda e: (e.l[::-1],), obs=True)], A)
case("gp first element", [G(2), N("Y", "poisson", lambda e: (e.l[0],), obs=True)], A)
case("gp sum", [G(2), N("Y", "poisson", lambda e: (e.l.sum(),), obs=True)], A)
case("gp outer", [G(2), N("Y", "poisson", lambda e: (e.l[:, None] * e.w,), obs=True)], dict(w=np.array([0.5, 1.0, 2.0]), **A))
case("gp transposed", [G((2, 3)), N("Y", "poisson", lambda e: (e.l.T,), obs=True)], A)
case("gp column of a matrix", [G((2, 1)), N("Y", "poisson", lambda e: (e.l + 0.0 * e.w,), obs=True)], dict(w=np.array([0.5, 1.0, 2.0]), **A))
case("gp used by a latent", [G(), N("k", "normal", lambda e: (e.l, 1.0)), N("Y", "poisson", lambda e: (e.l,), obs=True),
                            N("Z", "normal", lambda e: (e.k, 0.5), obs=True)], A)
case("gp used by a latent only", [G(), N("k", "gamma", lambda e: (2.0, e.l)), N("Y", "poisson", lambda e: (e.k,), obs=True)], A)
case("gp prior used by another", [N("a", "gamma", lambda e: (4.0, 2.0)), N("l", "gamma", lambda e: (e.a, e.b)),
                                 N("Y", "poisson", lambda e: (e.l,), obs=True), N("Z", "normal", lambda e: (e.a, 1.0), obs=True)], A)
case("gp exponential prior", [N("l", "exponential", lambda e: (1.5,)), N("Y", "poisson", lambda e: (e.l,), obs=True)])
case("gp lognormal prior", [N("l", "lognormal", lambda e: (0.2, 0.6)), N("Y", "poisson", lambda e: (e.l,), obs=True)])
case("gp inverse gamma prior", [N("l", "invgamma", lambda e: (3.0, 4.0)), N("Y", "poisson", lambda e: (e.l,), obs=True)])
case("gp min", [G(), N("Y", "poisson", lambda e: (e.xp.minimum(e.l, 2.0),), obs=True)], A)
case("gp product of two", [G(), N("m", "gamma", lambda e: (3.0, 2.0)), N("Y", "poisson", lambda e: (e.l * e.m,), obs=True)], A)
case("gp mixture of two", [G(), N("m", "gamma", lambda e: (3.0, 2.0)), N("Y", "poisson", lambda e: (e.l + e.m,), obs=True)], A)
case("gp chain", [N("l", "gamma", lambda e: (e.a, e.b)), N("m", "gamma", lambda e: (e.a, e.l)),
                  N("Y", "poisson", lambda e: (e.m,), obs=True)], dict(a=np.float64(3.0), b=np.float64(1.5)))
case("gp two pairs, one prior parameter", [N("l", "gamma", lambda e: (e.a, e.b), 2), N("m", "gamma", lambda e: (e.b, e.a)),
     N("Y", "poisson", lambda e: (e.l,), obs=True), N("Z", "poisson", lambda e: (e.m,), obs=True)], A)

for _c in (0.5, 1.0, 2.0):
    for _nm, _f in dict(add=lambda x, c: x + c, mul=lambda x, c: x * c, rdiv=lambda x, c: c / (0.3 + x), pow=lambda x, c: x**c,
                        max=None, min=None).items():
        def _lam(e, f=_f, c=_c, nm=_nm):
            return (f(e.l, c) if f else (e.xp.maximum if nm == "max" else e.xp.minimum)(e.l, c),)

        case(f"gp rate {_nm} {_c:g}", [G(), N("Y", "poisson", _lam, obs=True)], A)

# -- beta-binomial ----------------------------------------------------------
case("bb iid", [P(), N("Y", "binomial", lambda e: (6, e.p), 3, obs=True)], A)
case("bb replicated rows", [P(3), N("Y", "binomial", lambda e: (6, e.p), (2, 3), obs=True)], A)
case("bb vector of trials", [P(), N("Y", "binomial", lambda e: (e.n, e.p), obs=True)], dict(n=np.array([3, 6, 9]), **A))
case("bb complement", [P(), N("Y", "binomial", lambda e: (6, 1 - e.p), obs=True)], A)
case("bb square", [P(), N("Y", "binomial", lambda e: (6, e.p**2), obs=True)], A)
case("bb half", [P(), N("Y", "binomial", lambda e: (6, 0.5 * e.p), obs=True)], A)
case("bb two children", [P(), N("Y", "binomial", lambda e: (6, e.p), obs=True), N("Z", "bernoulli", lambda e: (e.p,), obs=True)], A)
case("bb bernoulli", [P(), N("Y", "bernoulli", lambda e: (e.p,), obs=True)], A)
case("bb uniform prior", [N("p", "uniform", lambda e: (0.0, 1.0)), N("Y", "binomial", lambda e: (6, e.p), obs=True)])
case("bb p in the prior of another", [P(), N("Y", "binomial", lambda e: (6, e.p), obs=True), N("q", "normal", lambda e: (e.p, 0.3)),
     N("Z", "normal", lambda e: (e.q, 0.3), obs=True)], A)
case("bb observed trials", [P(), N("K", "binomial", lambda e: (12, 0.6), obs=True), N("Y", "binomial", lambda e: (e.K, e.p), obs=True)], A)
case("bb trials from the same p", [P(), N("K", "binomial", lambda e: (12, e.p), obs=True), N("Y", "binomial", lambda e: (e.K, e.p), obs=True)], A)
case("bb reversed", [P(3), N("Y", "binomial", lambda e: (6, e.p[::-1]), obs=True)], A)
case("bb geometric-like nbinom, complement", [P(), N("Y", "nbinom", lambda e: (3.0, 1 - 0.5 * e.p), obs=True)], A)
case("bb nbinom iid", [P(), N("Y", "nbinom", lambda e: (3.0, 0.2 + 0.7 * e.p), 2, obs=True)], A)
case("bb product", [P(), N("q", "beta", lambda e: (2.0, 2.0)), N("Y", "binomial", lambda e: (6, e.p * e.q), obs=True)], A)
case("bb hierarchy", [P(), N("q", "beta", lambda e: (1.0 + 3 * e.p, 2.0)), N("Y", "binomial", lambda e: (6, e.q), obs=True)], A)

# -- beta-negative binomial (the recorded finding is about the model itself; these are left to NUTS) --
def B(size=None):
    return N("p", "beta", lambda e: (7.0, 3.0), size)


def nb(h=3.0, f=lambda e: e.p, name="Y", size=None):
    return N(name, "nbinom", lambda e: (h, f(e)), size, obs=True)


case("bn iid", [B(), nb(size=3)], accept=cap60)
case("bn replicated rows", [B(3), nb(size=(2, 3))], accept=cap60)
case("bn vector of dispersions", [B(), N("Y", "nbinom", lambda e: (e.n, e.p), obs=True)], dict(n=np.array([1.5, 3.0, 5.0])), accept=cap60)
case("bn matrix of dispersions", [B(3), N("Y", "nbinom", lambda e: (e.n, e.p), obs=True)],
     dict(n=np.array([[1.5, 3.0, 5.0], [2.0, 1.0, 4.0]])), accept=cap60)
case("bn two children", [B(), nb(), N("Z", "bernoulli", lambda e: (e.p,), obs=True)], accept=cap60)
case("bn two nbinom children", [B(), nb(), nb(1.5, name="Z")], accept=cap60)
case("bn two children, vectors", [B(2), nb(), nb(1.5, name="Z")], accept=cap60)
case("bn square", [B(), nb(f=lambda e: e.p**2)], accept=cap60)
case("bn complement", [N("p", "beta", lambda e: (3.0, 7.0)), nb(f=lambda e: 1 - e.p)], accept=cap60)
case("bn reversed", [B(3), nb(f=lambda e: e.p[::-1])], accept=cap60)
case("bn dispersion from p", [B(), N("Y", "nbinom", lambda e: (1.0 + e.p, e.p), obs=True)], accept=cap60)
case("bn prior of another", [B(), nb(), N("q", "normal", lambda e: (e.p, 0.3)), N("Z", "normal", lambda e: (e.q, 0.3), obs=True)], accept=cap60)
case("bn uniform prior", [N("p", "uniform", lambda e: (0.3, 0.9)), nb()], accept=cap60)
case("bn product", [B(), N("q", "beta", lambda e: (8.0, 2.0)), nb(f=lambda e: e.p * e.q)], accept=cap60)

# -- logistic regressions ---------------------------------------------------
case("reg nonzero mean", [N("beta", "normal", lambda e: (0.5, e.sd)), N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True)], R)
case("reg laplace prior", [N("beta", "laplace", lambda e: (0.0, e.sd)), N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True)], R)
case("reg cauchy prior", [N("beta", "cauchy", lambda e: (0.0, 0.5 * e.sd)), N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True)], R)
case("reg gumbel prior", [N("beta", "gumbel", lambda e: (0.0, e.sd)), N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True)], R)
case("reg positive sign", [BETA, N("Y", "bernoulli", lambda e: (sig(e, eta(e)),), obs=True)], R)
case("reg positive sign, nbinom", [BETA, N("Y", "nbinom", lambda e: (2.0, sig(e, eta(e))), obs=True)], R, accept=cap60)
case("reg negated design", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -e.X @ e.beta),), obs=True)], R)
case("reg negated beta", [BETA, N("Y", "bernoulli", lambda e: (sig(e, e.X @ -e.beta),), obs=True)], R)
case("reg double negation", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(e.X @ -e.beta)),), obs=True)], R)
case("reg scaled", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -2.0 * eta(e)),), obs=True)], R)
case("reg scaled inside", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(2.0 * eta(e))),), obs=True)], R)
case("reg scaled by a vector", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(e.w * eta(e))),), obs=True)], dict(w=np.array([1.0, -2.0, 0.5]), **R))
case("reg offset", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(1.0 + eta(e))),), obs=True)], R)
case("reg offset vector", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(e.w + eta(e))),), obs=True)], dict(w=np.array([1.0, -2.0, 0.5]), **R))
case("reg capped probability", [BETA, N("Y", "bernoulli", lambda e: (0.9 * sig(e, -eta(e)),), obs=True)], R)
case("reg complement", [BETA, N("Y", "bernoulli", lambda e: (1 - sig(e, -eta(e)),), obs=True)], R)
case("reg squared", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -eta(e)) ** 2,), obs=True)], R)
case("reg cloglog", [BETA, N("Y", "bernoulli", lambda e: (1 - e.exp(-e.exp(-eta(e))),), obs=True)], R)
case("reg explicit logistic", [BETA, N("Y", "bernoulli", lambda e: (1 / (1 + e.exp(eta(e))),), obs=True)], R)
case("reg replicated rows", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), (2, 3), obs=True)], R)
case("reg replicated rows, nbinom", [BETA, N("Y", "nbinom", lambda e: (2.0, sig(e, -eta(e))), (2, 3), obs=True)], R, accept=cap60)
case("reg two likelihoods", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True),
                            N("Z", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True)], R)
case("reg two designs", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True),
                        N("Z", "nbinom", lambda e: (1.5, sig(e, -(e.W @ e.beta))), obs=True)], dict(W=design(12, 2, 2, 0.8), **R),
     accept=lambda s: np.max(s["Z"]) <= 60)
case("reg beta in a normal likelihood", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True),
                                        N("Z", "normal", lambda e: (e.beta, 0.5), obs=True)], R)
case("reg binomial likelihood", [BETA, N("Y", "binomial", lambda e: (4, sig(e, -eta(e))), obs=True)], R)
case("reg exp beta", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(e.X @ e.exp(e.beta))),), obs=True)], R)
case("reg squared beta", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(e.X @ e.beta**2)),), obs=True)], R)
case("reg reversed beta", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(e.X @ e.beta[::-1])),), obs=True)], R)
case("reg one row", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(e.X[0] @ e.beta)),), obs=True)], R)
case("reg matrix beta", [N("beta", "normal", lambda e: (0.0, 1.2), (2, 2)), N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True)], R)
case("reg vector times scalar", [N("beta", "normal", lambda e: (0.0, 1.2)), N("Y", "bernoulli", lambda e: (sig(e, -(e.x * e.beta)),), obs=True)],
     dict(x=np.array([0.5, -1.0, 2.0])))
case("reg beta times design", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(e.beta @ e.X.T)),), obs=True)], R)
case("reg interaction", [BETA, N("Y", "bernoulli", lambda e: (sig(e, -(eta(e) + e.beta[0] * e.beta[1])),), obs=True)], R)
case("reg random design", [BETA, N("X1", "normal", lambda e: (e.X, 0.5)), N("Y", "bernoulli", lambda e: (sig(e, -(e.X1 @ e.beta)),), obs=True),
                          N("Z", "normal", lambda e: (e.X1, 0.3), obs=True)], R)
case("reg scale uses a latent", [N("s", "gamma", lambda e: (3.0, 3.0)), N("beta", "normal", lambda e: (0.0, e.s * e.sd)),
                                N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True)], R)
case("reg mean uses a latent", [N("m", "normal", lambda e: (0.0, 1.0)), N("beta", "normal", lambda e: (e.m, e.sd)),
                               N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True)], R)
case("reg zero mean expression", [N("beta", "normal", lambda e: (0.0 * e.sd, e.sd)), N("Y", "bernoulli", lambda e: (sig(e, -eta(e)),), obs=True)], R)
case("reg varying intercept", [N("a", "normal", lambda e: (0.0, 1.0), 3), BETA,
                              N("Y", "bernoulli", lambda e: (sig(e, -(e.a + eta(e))),), obs=True)], R)
case("reg sum of regressions", [BETA, N("gam", "normal", lambda e: (0.0, e.sd)),
                               N("Y", "bernoulli", lambda e: (sig(e, -(e.X @ e.beta + e.W @ e.gam)),), obs=True)], dict(W=design(14, 3, 2), **R))
case("reg nbinom dispersion of beta", [BETA, N("Y", "nbinom", lambda e: (1.0 + e.exp(e.beta[0]), sig(e, -eta(e))), obs=True)], R, accept=cap60)
case("reg nbinom dispersion of the design", [BETA, N("Y", "nbinom", lambda e: (1.0 + e.X[:, 0] ** 2, sig(e, -eta(e))), obs=True)], R, accept=cap60)
case("reg nbinom shared dispersion", [BETA, N("h", "gamma", lambda e: (3.0, 2.0)), N("Y", "nbinom", lambda e: (e.h, sig(e, -eta(e))), obs=True),
                                     N("Z", "nbinom", lambda e: (e.h, 0.6), obs=True)], R, accept=cap60)
case("reg nbinom dispersion plus one", [BETA, N("h", "gamma", lambda e: (3.0, 2.0)),
                                       N("Y", "nbinom", lambda e: (1.0 + e.h, sig(e, -eta(e))), obs=True)], R, accept=cap60)
case("reg nbinom dispersion per row", [BETA, N("h", "gamma", lambda e: (3.0, 2.0), 3),
                                      N("Y", "nbinom", lambda e: (e.h, sig(e, -eta(e))), obs=True)], R, accept=cap60)
case("reg nbinom dispersion lognormal", [BETA, N("h", "lognormal", lambda e: (0.3, 0.4)),
                                        N("Y", "nbinom", lambda e: (e.h, sig(e, -eta(e))), obs=True)], R, accept=cap60)
case("reg nbinom dispersion in the scale", [N("h", "gamma", lambda e: (3.0, 2.0)), N("beta", "normal", lambda e: (0.0, 0.3 + e.h), 2),
                                           N("Y", "nbinom", lambda e: (e.h, sig(e, -eta(e))), obs=True)], dict(X=X32), accept=cap60)
case("reg nbinom dispersion squared", [BETA, N("h", "gamma", lambda e: (3.0, 2.0)),
                                      N("Y", "nbinom", lambda e: (e.h**2, sig(e, -eta(e))), obs=True)], R, accept=cap60)
case("reg nbinom not a regression", [N("h", "gamma", lambda e: (3.0, 2.0)), N("Y", "nbinom", lambda e: (e.h, 0.4), 2, obs=True)], accept=cap60)
case("reg bernoulli capped dispersion", [BETA, N("Y", "nbinom", lambda e: (2.0, 0.1 + 0.8 * sig(e, -eta(e))), obs=True)], R, accept=cap60)

# every binary operation with a constant, before and after the design
OPS = {
    "add": lambda x, c: x + c, "sub": lambda x, c: x - c, "rsub": lambda x, c: c - x, "mul": lambda x, c: x * c, "div": lambda x, c: x / c,
    "rdiv": lambda x, c: c / (1.5 + x**2), "max": None, "min": None, "pow": lambda x, c: x**c,
}


def combine(op, c, e, x):
    if op in ("max", "min"):
        return (e.xp.maximum if op == "max" else e.xp.minimum)(x, c)
    return OPS[op](x, c)


for _op in OPS:
    for _c in (-1.0, 1.0, 2.0):
        if _op == "pow" and (_c < 0 or _c > 1):
            continue
        for _lik in ("bernoulli", "nbinom"):
            case(f"reg link {_op} {_c:g} {_lik}",
                 [BETA, N("Y", _lik, lambda e, o=_op, c=_c, k=_lik: ((sig(e, combine(o, c, e, eta(e))),) if k == "bernoulli" else (1.5, sig(e, combine(o, c, e, eta(e))))),
                          obs=True)], R, accept=cap60 if _lik == "nbinom" else None)
    for _c in (-1.0, 1.0):
        if _op in ("pow", "rdiv") and _c < 0:
            continue
        case(f"reg negated link {_op} {_c:g}",
             [BETA, N("Y", "bernoulli", lambda e, o=_op, c=_c: (sig(e, -combine(o, c, e, eta(e))),), obs=True)], R)
        if _op in ("pow", "div") and _c == 1:
            # aeppl can't build the log-density when a rewrite replaces the whole expression with `beta`
            continue
        case(f"reg coefficients {_op} {_c:g}",
             [BETA, N("Y", "bernoulli", lambda e, o=_op, c=_c: (sig(e, -(e.X @ combine(o, c, e, e.beta))),), obs=True)], R)

# -- horseshoe --------------------------------------------------------------
T = N("tau", "halfcauchy", lambda e: (0, 1))
L = N("lam", "halfcauchy", lambda e: (0, 1), 2)
YB = N("Y", "normal", lambda e: (e.beta, 0.8), obs=True)


def hs(*nodes):
    return list(nodes)


case("hs tau scale", hs(N("tau", "halfcauchy", lambda e: (0, 2)), L, N("beta", "normal", lambda e: (0, e.lam * e.tau)), YB))
case("hs lambda scale", hs(T, N("lam", "halfcauchy", lambda e: (0, 0.5), 2), N("beta", "normal", lambda e: (0, e.lam * e.tau)), YB))
case("hs lambda vector scale", hs(T, N("lam", "halfcauchy", lambda e: (0, np.array([1.0, 2.0]))), N("beta", "normal", lambda e: (0, e.lam * e.tau)), YB))
case("hs half-normal lambda", hs(T, N("lam", "halfnormal", lambda e: (0, 1), 2), N("beta", "normal", lambda e: (0, e.lam * e.tau)), YB))
case("hs half-normal tau", hs(N("tau", "halfnormal", lambda e: (0, 1)), L, N("beta", "normal", lambda e: (0, e.lam * e.tau)), YB))
case("hs scaled product", hs(T, L, N("beta", "normal", lambda e: (0, 0.5 * e.lam * e.tau)), YB))
case("hs sum", hs(T, L, N("beta", "normal", lambda e: (0, e.lam + e.tau)), YB))
case("hs ratio", hs(T, L, N("beta", "normal", lambda e: (0, e.lam / e.tau)), YB))
for _c in (0.5, 1.0, 2.0):
    for _op in OPS:
        if _op == "sub" or (_op == "rsub"):
            continue
        case(f"hs global scale {_op} {_c:g}", hs(T, L, N("beta", "normal", lambda e, o=_op, c=_c: (0, e.lam * combine(o, c, e, e.tau))), YB))
case("hs max", hs(T, L, N("beta", "normal", lambda e: (0, e.xp.maximum(e.lam, e.tau))), YB))
case("hs min", hs(T, L, N("beta", "normal", lambda e: (0, e.xp.minimum(e.lam, e.tau))), YB))
case("hs inverse ratio", hs(T, L, N("beta", "normal", lambda e: (0, e.tau / e.lam)), YB))
case("hs tau squared", hs(T, L, N("beta", "normal", lambda e: (0, e.lam * e.tau**2)), YB))
case("hs sqrt", hs(T, L, N("beta", "normal", lambda e: (0, e.sqrt(e.lam * e.tau))), YB))
case("hs product with a third", hs(T, L, N("c", "halfnormal", lambda e: (0.0, 1.0)), N("beta", "normal", lambda e: (0, e.lam * e.tau * e.c)), YB))
case("hs only tau", hs(T, N("beta", "normal", lambda e: (0, e.tau), 2), YB))
case("hs only tau squared", hs(T, N("beta", "normal", lambda e: (0, e.tau * e.tau), 2), YB))
case("hs only lambda", hs(L, N("beta", "normal", lambda e: (0, e.lam)), YB))
case("hs nonzero mean", hs(T, L, N("beta", "normal", lambda e: (0.7, e.lam * e.tau)), YB))
case("hs latent mean", hs(T, L, N("m", "normal", lambda e: (0.0, 1.0)), N("beta", "normal", lambda e: (e.m, e.lam * e.tau)), YB))
case("hs rows", hs(T, L, N("beta", "normal", lambda e: (0, e.lam * e.tau), (3, 2)), YB))
case("hs tau vector", hs(N("tau", "halfcauchy", lambda e: (0, 1), 2), L, N("beta", "normal", lambda e: (0, e.lam * e.tau)), YB))
case("hs laplace", hs(T, L, N("beta", "laplace", lambda e: (0, e.lam * e.tau)), YB))
case("hs two blocks share tau", hs(T, L, N("lam2", "halfcauchy", lambda e: (0, 1), 2), N("beta", "normal", lambda e: (0, e.lam * e.tau)),
     N("gam", "normal", lambda e: (0, e.lam2 * e.tau)), N("Y", "normal", lambda e: (e.beta + e.gam, 0.8), obs=True)))
case("hs two blocks share lambda", hs(T, L, N("tau2", "halfcauchy", lambda e: (0, 1)), N("beta", "normal", lambda e: (0, e.lam * e.tau)),
     N("gam", "normal", lambda e: (0, e.lam * e.tau2)), N("Y", "normal", lambda e: (e.beta + e.gam, 0.8), obs=True)))
case("hs two blocks", hs(T, L, N("tau2", "halfcauchy", lambda e: (0, 1)), N("lam2", "halfcauchy", lambda e: (0, 1), 2),
     N("beta", "normal", lambda e: (0, e.lam * e.tau)), N("gam", "normal", lambda e: (0, e.lam2 * e.tau2)),
     N("Y", "normal", lambda e: (e.beta + e.gam, 0.8), obs=True)))
case("hs tau in the likelihood", hs(T, L, N("beta", "normal", lambda e: (0, e.lam * e.tau)), N("Y", "normal", lambda e: (e.beta, 0.3 + e.tau), obs=True)))
case("hs lambda in the likelihood", hs(T, L, N("beta", "normal", lambda e: (0, e.lam * e.tau)), N("Y", "normal", lambda e: (e.beta, 0.3 + e.lam), obs=True)))
case("hs half-normal beta", hs(T, L, N("beta", "halfnormal", lambda e: (0, e.lam * e.tau)), YB))
case("hs tau depends on noise", hs(N("s", "halfnormal", lambda e: (0.0, 1.0)), N("tau", "halfcauchy", lambda e: (0, 0.1 + e.s)), L,
     N("beta", "normal", lambda e: (0, e.lam * e.tau)), N("Y", "normal", lambda e: (e.beta, 0.2 + e.s), obs=True)))
case("hs observed coefficients", hs(T, L, N("beta", "normal", lambda e: (0, e.lam * e.tau), obs=True)))
case("hs reversed lambda", hs(T, L, N("beta", "normal", lambda e: (0, e.lam[::-1] * e.tau)), YB))
case("hs matrix", hs(T, N("lam", "halfcauchy", lambda e: (0, 1), (2, 2)), N("beta", "normal", lambda e: (0, e.lam * e.tau)), YB))
case("hs scalar", hs(T, N("lam", "halfcauchy", lambda e: (0, 1)), N("beta", "normal", lambda e: (0, e.lam * e.tau)), YB))
case("hs scalar local scale, many coefficients", hs(T, N("lam", "halfcauchy", lambda e: (0, 1)), N("beta", "normal", lambda e: (0, e.lam * e.tau), 2), YB))
# shapes of the two scales that broadcast against each other
for _a, _b in (((3, 2), (1, 2)), ((3, 2), (3, 1)), ((3, 1), (1, 2)), ((1, 2), (3, 2)), ((2,), (3, 2)), ((2, 2), (1, 1)), ((2,), (1,)), ((1,), (2,)),
               ((1,), (1,)), ((), (1, 2)), ((1, 2), ()), ((1, 1), (2,)), ((2, 1, 2), (1, 2, 1))):
    case(f"hs shapes {_a} {_b}", hs(N("tau", "halfcauchy", lambda e: (0, 1), _b), N("lam", "halfcauchy", lambda e: (0, 1), _a),
                                   N("beta", "normal", lambda e: (0, e.lam * e.tau)), YB))
# a size of beta's own, larger than that of the scales
for _a, _b, _c in (((1,), (), 3), ((1,), (1,), 2), ((2,), (), (3, 2)), ((1, 2), (), (3, 2)), ((3, 1), (), (3, 2)), ((), (1,), 3), ((), (), 2)):
    for _o in (0, 1):
        case(f"hs shapes {_a} {_b}, size {_c}, order {_o}",
             hs(N("tau", "halfcauchy", lambda e: (0, 1), _b or None), N("lam", "halfcauchy", lambda e: (0, 1), _a or None),
                N("beta", "normal", lambda e, _o=_o: (0, e.lam * e.tau if _o else e.tau * e.lam), _c), YB))
# more observations than prior variables, along dimensions of size one
for _a, _b in (((1,), 3), ((1, 2), (3, 2)), ((2, 1), (2, 2)), ((1, 1), (2, 2)), ((1,), (2, 1)), ((2,), (1, 2))):
    case(f"gp shapes {_a} {_b}", [G(_a), N("Y", "poisson", lambda e: (e.l,), _b, obs=True)], A)
    case(f"bb shapes {_a} {_b}", [P(_a), N("Y", "binomial", lambda e: (6, e.p), _b, obs=True)], A)
    case(f"bn shapes {_a} {_b}", [B(_a), nb(size=_b)], accept=cap60)
