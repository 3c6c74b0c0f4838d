"""Reference distributions (numpy/scipy only; nothing from the code under test).

`pit_*` return mid-PIT values: F(x) for continuous laws, (F(x-1)+F(x))/2 for
discrete ones.  Under the law, a mid-PIT has mean exactly 1/2 given its
parameters.
"""
import numpy as np
from scipy import special as sp


def pit_normal(x, m, s):
    return sp.ndtr((x - m) / s)


def pit_halfnormal(x, loc, s):
    return sp.erf(np.maximum(x - loc, 0) / (s * np.sqrt(2)))


def pit_halfcauchy(x, loc, s):
    return 2 / np.pi * np.arctan(np.maximum(x - loc, 0) / s)


def pit_cauchy(x, loc, s):
    return 0.5 + np.arctan((x - loc) / s) / np.pi


def pit_gamma(x, shape, rate):
    return sp.gammainc(shape, np.maximum(x * rate, 0))


def pit_invgamma(x, shape, scale):
    return sp.gammaincc(shape, scale / np.maximum(x, 1e-300))


def pit_beta(x, a, b):
    return sp.betainc(a, b, np.clip(x, 0, 1))


def pit_exponential(x, scale):
    return -np.expm1(-np.maximum(x, 0) / scale)


def pit_uniform(x, a, b):
    return np.clip((x - a) / (b - a), 0, 1)


def pit_laplace(x, m, s):
    z = (x - m) / s
    return np.where(z < 0, 0.5 * np.exp(np.minimum(z, 0)), 1 - 0.5 * np.exp(-np.maximum(z, 0)))


def pit_logistic(x, m, s):
    return sp.expit((x - m) / s)


def pit_gumbel(x, m, s):
    return np.exp(-np.exp(-(x - m) / s))


def pit_lognormal(x, m, s):
    return sp.ndtr((np.log(np.maximum(x, 1e-300)) - m) / s)


def pit_weibull(x, a):
    return -np.expm1(-np.maximum(x, 0) ** a)


def _mid(cdf, y):
    lo = np.where(y >= 1, cdf(np.maximum(y - 1, 0)), 0.0)
    return 0.5 * (lo + cdf(y))


def pit_poisson(y, lam):
    return _mid(lambda k: sp.gammaincc(k + 1, lam), np.asarray(y, float))


def pit_binomial(y, n, p):
    y = np.asarray(y, float)
    n = np.asarray(n, float)

    def cdf(k):
        return np.where(k >= n, 1.0, sp.betainc(np.maximum(n - k, 1e-9), k + 1, 1 - p))

    return _mid(cdf, y)


def pit_bernoulli(y, p):
    y = np.asarray(y)
    return np.where(y > 0, 1 - p / 2, (1 - p) / 2)


def pit_nbinom(y, n, p):
    """Aesara/numpy convention: pmf C(y+n-1, y) p^n (1-p)^y."""
    return _mid(lambda k: sp.betainc(n, k + 1, p), np.asarray(y, float))


def pit_geometric(y, p):
    """Support 1, 2, ..."""
    y = np.asarray(y, float)
    F = lambda k: 1 - (1 - p) ** k
    return 0.5 * (F(y - 1) + F(y))


def rnbinom(rng, n, p):
    """Negative binomial through its gamma-Poisson mixture (real n allowed)."""
    n, p = np.broadcast_arrays(np.asarray(n, float), np.asarray(p, float))
    lam = rng.gamma(n, (1 - p) / p)
    return rng.poisson(np.minimum(lam, 1e15))


def rhalfcauchy(rng, loc, s, size):
    return loc + s * np.abs(np.tan(np.pi * (rng.random(size) - 0.5)))


expit = sp.expit


# --------------------------------------------------------------------------
# distributions as used by the zoo
# --------------------------------------------------------------------------
class Dist:
    discrete = False

    def __init__(self, name, draw, pit, inside, attr=None, discrete=False):
        self.name, self._draw, self._pit, self._inside = name, draw, pit, inside
        self.attr, self.discrete = attr or name, discrete

    def build(self, srng, params, kw, name):
        return getattr(srng, self.attr)(*params, name=name, **kw)

    def draw(self, rng, params, size):
        ps = [np.asarray(p) for p in params]
        if size is None:
            size = np.broadcast_shapes(*[p.shape for p in ps])
        return np.asarray(self._draw(rng, size, *ps))

    def pit(self, x, params):
        return self._pit(np.asarray(x), *[np.asarray(p) for p in params])

    def inside(self, x, params):
        return bool(np.all(np.isfinite(x)) and np.all(self._inside(np.asarray(x), *[np.asarray(p) for p in params])))


def _real(x, *a):
    return np.isfinite(x)


def _pos(x, *a):
    return x >= 0


def _count(x, *a):
    return (x >= 0) & (x == np.floor(x))


DISTS = {
    d.name: d
    for d in [
        Dist("normal", lambda r, s, m, sd: m + sd * r.standard_normal(s), pit_normal, _real),
        Dist("laplace", lambda r, s, m, b: r.laplace(m, b, s), pit_laplace, _real),
        Dist("logistic", lambda r, s, m, b: r.logistic(m, b, s), pit_logistic, _real),
        Dist("gumbel", lambda r, s, m, b: r.gumbel(m, b, s), pit_gumbel, _real),
        Dist("cauchy", lambda r, s, m, b: m + b * r.standard_cauchy(s), pit_cauchy, _real),
        Dist("halfnormal", lambda r, s, m, sd: m + sd * np.abs(r.standard_normal(s)), pit_halfnormal, lambda x, m, sd: x >= m),
        Dist("halfcauchy", lambda r, s, m, sd: m + sd * np.abs(r.standard_cauchy(s)), pit_halfcauchy, lambda x, m, sd: x >= m),
        Dist("gamma", lambda r, s, a, b: r.gamma(a, 1 / b, s), pit_gamma, _pos),
        Dist("invgamma", lambda r, s, a, b: b / r.gamma(a, 1.0, s), pit_invgamma, _pos),
        Dist("beta", lambda r, s, a, b: r.beta(a, b, s), pit_beta, lambda x, a, b: (x >= 0) & (x <= 1)),
        Dist("exponential", lambda r, s, m: r.exponential(m, s), pit_exponential, _pos),
        Dist("uniform", lambda r, s, a, b: a + (b - a) * r.random(s), pit_uniform, lambda x, a, b: (x >= a) & (x <= b)),
        Dist("lognormal", lambda r, s, m, sd: np.exp(m + sd * r.standard_normal(s)), pit_lognormal, _pos),
        Dist("weibull", lambda r, s, a: r.weibull(a, s), pit_weibull, _pos),
        Dist("dirichlet", lambda r, s, a: _rdirichlet(r, s, a), lambda x, a: pit_dirichlet(x, a),
             lambda x, a: (x >= 0) & (np.abs(x.sum(-1, keepdims=True) - 1) < 1e-6)),
        Dist("poisson", lambda r, s, m: r.poisson(m, s), lambda y, m: pit_poisson(y, m), _count, discrete=True),
        Dist("bernoulli", lambda r, s, p: r.binomial(1, p, s), pit_bernoulli, lambda x, p: (x == 0) | (x == 1), discrete=True),
        Dist("binomial", lambda r, s, n, p: r.binomial(n, p, s), pit_binomial, lambda x, n, p: (x >= 0) & (x <= n), discrete=True),
        Dist("nbinom", lambda r, s, n, p: np.broadcast_to(rnbinom(r, n, np.clip(p, 1e-12, 1)), s) if np.shape(n) == s or np.shape(p) == s
             else rnbinom(r, np.broadcast_to(n, s), np.clip(p, 1e-12, 1)), pit_nbinom, _count, discrete=True),
    ]
}


def _rdirichlet(r, s, a):
    # size None => s is the broadcast of the parameter's shape, i.e. includes the simplex dimension
    g = r.gamma(a, 1.0, s if len(s) and s[-1] == a.shape[-1] else tuple(s) + a.shape)
    return g / g.sum(-1, keepdims=True)


def pit_dirichlet(x, a):
    """Stick-breaking: independent beta variables."""
    x = np.asarray(x)
    a = np.broadcast_to(a, x.shape)
    rest = 1.0
    out = []
    for k in range(x.shape[-1] - 1):
        out.append(pit_beta(x[..., k] / np.maximum(rest, 1e-300), a[..., k], a[..., k + 1:].sum(-1)))
        rest = rest - x[..., k]
    return np.stack(out, -1)


# log-densities, up to terms that are constant given the shapes of the parameters
LOGPDF = {
    "normal": lambda x, m, s: -0.5 * ((x - m) / s) ** 2 - np.log(s),
    "laplace": lambda x, m, s: -np.abs(x - m) / s - np.log(s),
    "logistic": lambda x, m, s: -(x - m) / s - np.log(s) - 2 * np.logaddexp(0, -(x - m) / s),
    "gumbel": lambda x, m, s: -(x - m) / s - np.exp(-(x - m) / s) - np.log(s),
    "cauchy": lambda x, m, s: -np.log1p(((x - m) / s) ** 2) - np.log(s),
    "halfnormal": lambda x, m, s: -0.5 * ((x - m) / s) ** 2 - np.log(s),
    "halfcauchy": lambda x, m, s: -np.log1p(((x - m) / s) ** 2) - np.log(s),
    "gamma": lambda x, a, b: a * np.log(b) - sp.gammaln(a) + (a - 1) * np.log(x) - b * x,
    "invgamma": lambda x, a, b: a * np.log(b) - sp.gammaln(a) - (a + 1) * np.log(x) - b / x,
    "beta": lambda x, a, b: (a - 1) * np.log(x) + (b - 1) * np.log1p(-x) - sp.betaln(a, b),
    "exponential": lambda x, m: -x / m - np.log(m),
    "uniform": lambda x, a, b: -np.log(b - a) + 0 * x,
    "lognormal": lambda x, m, s: -0.5 * ((np.log(x) - m) / s) ** 2 - np.log(s) - np.log(x),
    "weibull": lambda x, a: np.log(a) + (a - 1) * np.log(x) - x**a,
    "dirichlet": lambda x, a: ((a - 1) * np.log(x)).sum(-1) + sp.gammaln(np.sum(a, -1)) - sp.gammaln(a).sum(-1),
    "poisson": lambda y, m: y * np.log(m) - m - sp.gammaln(y + 1.0),
    "bernoulli": lambda y, p: np.where(y > 0, np.log(p), np.log1p(-p)),
    "binomial": lambda y, n, p: y * np.log(p) + (n - y) * np.log1p(-p) + sp.gammaln(n + 1.0) - sp.gammaln(y + 1.0) - sp.gammaln(n - y + 1.0),
    "nbinom": lambda y, n, p: sp.gammaln(y + n) - sp.gammaln(n) - sp.gammaln(y + 1.0) + n * np.log(p) + y * np.log1p(-p),
}
