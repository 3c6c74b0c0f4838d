"""Model zoo.

A model is written once, as a list of `Node`s whose parameters are functions of
an environment `e`.  The same functions are evaluated with Aesara variables (to
build the graph the code under test gets) and with numpy arrays (to simulate the
model and to score states with the reference distributions in `dist`).
"""
import numpy as np
from . import dist as D


class Node:
    def __init__(self, name, dist, params, size=None, obs=False, det=False):
        self.__dict__.update(name=name, dist=dist, params=params, size=size, obs=obs, det=det)


class NpEnv:
    xp = np
    sigmoid = staticmethod(D.expit)
    exp = staticmethod(np.exp)
    sqrt = staticmethod(np.sqrt)

    def __init__(self, **kw):
        self.__dict__.update(kw)

    @staticmethod
    def dot(a, b):
        return a @ b

    @staticmethod
    def mat(a):
        return np.asarray(a)


class AtEnv:
    def __init__(self, **kw):
        import aesara.tensor as at

        self.xp = at
        self.sigmoid = at.sigmoid
        self.exp = at.exp
        self.sqrt = at.sqrt
        self.mat = at.as_tensor
        self.__dict__.update(kw)

    @staticmethod
    def dot(a, b):
        return a @ b


NAMINGS = ("none", "same", "reversed", "internal", "swapped")


def rename(naming, rvs, inputs):
    """Names mustn't matter."""
    if naming == "none":
        names = [None] * len(rvs)
    elif naming == "same":
        names = ["x"] * len(rvs)
    elif naming == "reversed":
        names = [v.name for v in rvs][::-1]
    elif naming == "swapped":
        # values and inputs are called like the variables, and the other way round
        old = [v.name for v in rvs]
        new = [v.name or "x" for v in inputs]
        for i, v in enumerate(rvs):
            v.name = new[i % len(new)]
        for i, v in enumerate(inputs):
            v.name = old[i % len(old)]
        return
    elif naming == "internal":
        names = ["step_size", "inverse_mass_matrix", "z_rng", "CRT sample", "beta_posterior", "lambda_posterior", "x_trans", "x_vv"]
        names = [names[i % len(names)] for i in range(len(rvs))]
    else:
        return
    for v, n in zip(rvs, names):
        v.name = n
    for v in inputs:
        v.name = names[0]


def renamed(model, naming, kw=None):
    m = model(**(kw or {}))
    m.naming = naming
    m.name += " names=" + naming
    return m


class Model:
    naming = None
    """data: constants of the model, given to Aesara as `how`:
    "input" (symbolic inputs), "const", or "shared"."""

    step_size = 0.4
    mode = None

    def __init__(self, name, nodes, data=None, how="input", accept=None, expect=None, step_size=None,
                 partial=None, rtol=None):
        self.name, self.nodes, self.how = name, nodes, how
        self.data = {k: np.asarray(v) for k, v in (data or {}).items()}
        self._accept = accept
        self.expect = expect or {}
        self.partial = partial or []
        if step_size:
            self.step_size = step_size

    # -- Aesara side -------------------------------------------------------
    def build(self, srng):
        import aesara
        import aesara.tensor as at

        e = AtEnv()
        free = {}
        for k, v in self.data.items():
            if self.how == "input":
                x = at.tensor(v.dtype.name, shape=(None,) * v.ndim, name=k)
                free[k] = x
            elif self.how == "shared":
                x = aesara.shared(v, name=k, shape=(None,) * v.ndim) if v.ndim else aesara.shared(v, name=k)
            else:
                x = at.as_tensor(v)
            setattr(e, k, x)
        rvs, obs = {}, {}
        for n in self.nodes:
            ps = n.params(e)
            if n.det:
                setattr(e, n.name, ps)
                continue
            kw = {}
            if n.size is not None:
                kw["size"] = n.size(e) if callable(n.size) else n.size
            rv = D.DISTS[n.dist].build(srng, ps, kw, n.name)
            setattr(e, n.name, rv)
            if n.obs:
                vv = rv.clone()
                vv.name = n.name.lower() + "_vv"
                obs[n.name] = (rv, vv)
            else:
                rvs[n.name] = rv
        rename(self.naming, list(rvs.values()) + [rv for rv, _ in obs.values()], list(free.values()) + [vv for _, vv in obs.values()])
        return dict(rvs=rvs, obs=obs, free=free)

    def free_values(self):
        return dict(self.data) if self.how == "input" else {}

    # -- numpy side --------------------------------------------------------
    def draw(self, rng):
        e = NpEnv(**self.data)
        s = {}
        for n in self.nodes:
            ps = n.params(e)
            if n.det:
                setattr(e, n.name, ps)
                continue
            size = n.size(e) if callable(n.size) else n.size
            if isinstance(size, (int, np.integer)):
                size = (size,)
            x = D.DISTS[n.dist].draw(rng, ps, size)
            setattr(e, n.name, x)
            s[n.name] = x
        return s

    def simulate(self, rng, n):
        out, tries = [], 0
        while len(out) < n:
            tries += 1
            if tries > 1000 * n:
                raise RuntimeError("data selection too strict: " + self.name)
            s = self.draw(rng)
            if self._accept is None or self._accept(s):
                out.append(s)
        return {k: np.stack([s[k] for s in out]) for k in out[0]}

    def redraw(self, rng, state):
        """New data given the unobserved variables."""
        for _ in range(10000):
            e = NpEnv(**self.data)
            s = {}
            for n in self.nodes:
                ps = n.params(e)
                if n.det:
                    setattr(e, n.name, ps)
                    continue
                if n.obs:
                    size = n.size(e) if callable(n.size) else n.size
                    if isinstance(size, (int, np.integer)):
                        size = (size,)
                    x = D.DISTS[n.dist].draw(rng, ps, size)
                    s[n.name] = x
                else:
                    x = np.asarray(state[n.name])
                setattr(e, n.name, x)
            if self._accept is None or self._accept(s):
                return s
        raise RuntimeError("data selection too strict: " + self.name)

    @property
    def selected(self):
        return self._accept is not None

    def score(self, s):
        """Mid-PITs of one state (dict name -> array)."""
        e = NpEnv(**self.data)
        r = {}
        for n in self.nodes:
            ps = n.params(e)
            if n.det:
                setattr(e, n.name, ps)
                continue
            d = D.DISTS[n.dist]
            x = np.asarray(s[n.name])
            setattr(e, n.name, x)
            r[("~" if d.discrete else "") + n.name] = np.atleast_1d(d.pit(x, ps))
        return r

    def logp(self, s):
        """Joint log-density of one state."""
        e = NpEnv(**self.data)
        r = 0.0
        for n in self.nodes:
            ps = n.params(e)
            if n.det:
                setattr(e, n.name, ps)
                continue
            x = np.asarray(s[n.name])
            setattr(e, n.name, x)
            x = x.astype(float)
            v = D.LOGPDF[n.dist](x, *[np.asarray(p, float) for p in ps])
            r += np.sum(v)
        return r

    def pit(self, s):
        n = len(next(iter(s.values())))
        rows = [self.score({k: v[i] for k, v in s.items()}) for i in range(n)]
        return {k: np.stack([np.ravel(r[k]) for r in rows]) for k in rows[0]}

    def support(self, s):
        """First violation of a node's support, or None."""
        n = len(next(iter(s.values())))
        for i in range(n):
            e = NpEnv(**self.data)
            for nd in self.nodes:
                ps = nd.params(e)
                if nd.det:
                    setattr(e, nd.name, ps)
                    continue
                x = np.asarray(s[nd.name][i])
                if not D.DISTS[nd.dist].inside(x, ps):
                    return f"{nd.name} = {x!r} outside the support of {nd.dist}{tuple(map(np.asarray, ps))!r}"
                setattr(e, nd.name, x)
        return None


def design(seed, n, p, scale=0.7):
    return np.random.default_rng([91, seed]).normal(size=(n, p)) * scale


def cap60(s):
    return np.max(s["Y"]) <= 60


# --------------------------------------------------------------------------
# families
# --------------------------------------------------------------------------
def gamma_poisson(a=3.0, b=2.5, shape=None, how="input"):
    return Model(
        f"gamma_poisson(a={a},b={b},shape={shape},{how})",
        [Node("l", "gamma", lambda e: (e.a, e.b), shape), Node("Y", "poisson", lambda e: (e.l,), obs=True)],
        dict(a=a, b=b), how, expect={"l": "conjugate"},
    )


def beta_binomial(a=2.0, b=3.0, n=7, shape=None, how="input"):
    return Model(
        f"beta_binomial(a={a},b={b},n={n},shape={shape},{how})",
        [Node("p", "beta", lambda e: (e.a, e.b), shape), Node("Y", "binomial", lambda e: (e.n, e.p), obs=True)],
        dict(a=a, b=b, n=n), how, expect={"p": "conjugate"},
    )


def regression(lik="bern", n=4, p=2, prior="fixed", h="const", std=1.2, hpar=(3.0, 2.0), seed=0, how="input",
               xscale=0.7, tau_size=None):
    """Logistic regression Y ~ Bern/NB(h, sigmoid(-X beta)).

    prior: "fixed" (vector std), "scalar" (scalar std), "horseshoe", "hier" (std ~ halfnormal)
    h: "const", "input", "vector", "gamma", "halfnormal"
    """
    X = design(seed, n, p, xscale)
    data = dict(X=X)
    nodes = []
    expect = {}
    kern = "BernoulliRegressionGibbsKernel" if lik == "bern" else "NBRegressionGibbsKernel"
    psize = lambda e: e.X.shape[1]
    if prior == "horseshoe":
        nodes += [
            Node("tau", "halfcauchy", lambda e: (0, 1), tau_size),
            Node("lam", "halfcauchy", lambda e: (0, 1), psize),
            Node("beta", "normal", lambda e: (0, e.lam * e.tau), psize),
        ]
        expect.update(tau="HorseshoeGibbsKernel", lam="HorseshoeGibbsKernel")
    elif prior == "hier":
        nodes += [
            Node("s", "halfnormal", lambda e: (0.0, 1.0)),
            Node("beta", "normal", lambda e: (0, e.s), psize),
        ]
        expect.update(s="NUTSKernel")
    elif prior == "scalar":
        data["sd"] = np.float64(std)
        nodes += [Node("beta", "normal", lambda e: (0, e.sd), psize)]
    else:
        data["sd"] = std * np.linspace(0.6, 1.5, p)
        nodes += [Node("beta", "normal", lambda e: (0.0, e.sd))]
    expect["beta"] = kern
    pr = lambda e: e.sigmoid(-(e.X @ e.beta))
    if lik == "bern":
        nodes.append(Node("Y", "bernoulli", lambda e: (pr(e),), obs=True))
    else:
        if h == "const":
            nodes.append(Node("Y", "nbinom", lambda e: (hpar[0], pr(e)), obs=True))
        elif h == "input":
            data["h"] = np.float64(hpar[0])
            nodes.append(Node("Y", "nbinom", lambda e: (e.h, pr(e)), obs=True))
        elif h == "vector":
            data["h"] = hpar[0] * np.linspace(0.5, 2, n)
            nodes.append(Node("Y", "nbinom", lambda e: (e.h, pr(e)), obs=True))
        else:
            if h == "gamma":
                data.update(a=np.float64(hpar[0]), b=np.float64(hpar[1]))
                nodes.append(Node("h", "gamma", lambda e: (e.a, e.b)))
                expect["h"] = "DispersionGibbsKernel"
            else:
                nodes.append(Node("h", "halfnormal", lambda e: (0.0, 2.0)))
                expect["h"] = "NUTSKernel"
            nodes.append(Node("Y", "nbinom", lambda e: (e.h, pr(e)), obs=True))
    m = Model(
        f"{lik}(n={n},p={p},prior={prior},h={h},std={std},hpar={hpar},seed={seed},{how},tau_size={tau_size})",
        nodes, data, how, accept=cap60 if lik != "bern" else None, expect=expect,
    )
    if lik != "bern" and h == "gamma":
        m.partial = ["h"]
    return m


# -- models with a NUTS stage ------------------------------------------------
def nuts_model(name, nodes, data=None, expect=None, how="input", step_size=0.4):
    m = Model(name, nodes, data, how, expect=expect or {}, step_size=step_size)
    m.mode = "FAST_COMPILE"
    for n in nodes:
        if not n.obs and not n.det:
            m.expect.setdefault(n.name, "NUTSKernel")
    return m


def normal_normal(size=3, how="input"):
    return nuts_model(f"normal_normal({size},{how})", [
        Node("mu", "normal", lambda e: (0.0, 1.0)),
        Node("sigma", "halfnormal", lambda e: (0.0, 1.0)),
        Node("Y", "normal", lambda e: (e.mu, 0.3 + e.sigma), size, obs=True)])


def scalar_readme():
    return nuts_model("readme_normal", [
        Node("mu", "normal", lambda e: (0, 1)),
        Node("sigma", "gamma", lambda e: (4.0, 4.0)),
        Node("Y", "normal", lambda e: (e.mu, e.sigma), obs=True)])


def iid_poisson(n=3):
    return nuts_model(f"iid_poisson({n})", [
        Node("l", "gamma", lambda e: (e.a, e.b)),
        Node("Y", "poisson", lambda e: (e.l,), n, obs=True)], dict(a=np.float64(3.0), b=np.float64(1.5)))


def iid_binomial(n=3):
    return nuts_model(f"iid_binomial({n})", [
        Node("p", "beta", lambda e: (e.a, e.b)),
        Node("Y", "binomial", lambda e: (5, e.p), n, obs=True)], dict(a=np.float64(3.0), b=np.float64(1.5)))


def two_children():
    return nuts_model("two_children", [
        Node("l", "gamma", lambda e: (e.a, e.b)),
        Node("Y", "poisson", lambda e: (e.l,), obs=True),
        Node("Z", "poisson", lambda e: (2.0 * e.l,), obs=True)], dict(a=np.float64(3.0), b=np.float64(1.5)))


def gamma_poisson_hier():
    return nuts_model("gamma_poisson_hier", [
        Node("a", "gamma", lambda e: (5.0, 2.0)),
        Node("b", "lognormal", lambda e: (0.0, 0.5)),
        Node("l", "gamma", lambda e: (e.a, e.b)),
        Node("Y", "poisson", lambda e: (e.l,), obs=True)], expect={"l": "conjugate"})


def beta_binomial_hier(n=3):
    return nuts_model(f"beta_binomial_hier({n})", [
        Node("a", "gamma", lambda e: (5.0, 2.0)),
        Node("p", "beta", lambda e: (e.a, 2.0), n),
        Node("Y", "binomial", lambda e: (e.n, e.p), obs=True)], dict(n=np.arange(2, 2 + n)), expect={"p": "conjugate"})


def uniform_scale():
    return nuts_model("uniform_scale", [
        Node("s", "gamma", lambda e: (4.0, 2.0)),
        Node("u", "uniform", lambda e: (0.0, e.s)),
        Node("Y", "normal", lambda e: (e.u, 0.7), obs=True)])


def uniform_chain():
    return nuts_model("uniform_chain", [
        Node("u", "uniform", lambda e: (-1.0, e.hi)),
        Node("v", "uniform", lambda e: (e.u, e.hi + 1.0), 2),
        Node("Y", "normal", lambda e: (e.v, 0.5), obs=True)], dict(hi=np.float64(2.0)))


def dirichlet_normal():
    return nuts_model("dirichlet_normal", [
        Node("w", "dirichlet", lambda e: (e.al,)),
        Node("m", "normal", lambda e: (0.0, 1.0), 2),
        Node("Y", "normal", lambda e: (e.dot(e.W, e.w) + e.m, 0.6), obs=True)],
        dict(al=np.array([2.0, 1.5, 3.0]), W=np.array([[1.0, -1.0, 0.5], [0.2, 2.0, -1.0]])))


def many_priors():
    return nuts_model("many_priors", [
        Node("b", "beta", lambda e: (2.0, 3.0)),
        Node("c", "laplace", lambda e: (0.5, 1.0)),
        Node("d", "logistic", lambda e: (0.0, 0.7)),
        Node("g", "invgamma", lambda e: (4.0, 3.0)),
        Node("x", "exponential", lambda e: (1.5,)),
        Node("Y", "normal", lambda e: (e.c + e.d + e.b, 0.2 + e.g + e.x), 2, obs=True)])


def logistic_nonzero_mean(n=3, p=2):
    return nuts_model("logistic_nonzero_mean", [
        Node("beta", "normal", lambda e: (e.m, 1.3)),
        Node("Y", "bernoulli", lambda e: (e.sigmoid(-(e.X @ e.beta)),), obs=True)],
        dict(X=design(3, n, p, 1.0), m=np.array([0.7, -0.4])))


def horseshoe_normal(n=3, p=2):
    return nuts_model(f"horseshoe_normal({n},{p})", [
        Node("tau", "halfcauchy", lambda e: (0, 1)),
        Node("lam", "halfcauchy", lambda e: (0, 1), p),
        Node("beta", "normal", lambda e: (0, e.lam * e.tau), p),
        Node("Y", "normal", lambda e: (e.X @ e.beta, 0.8), obs=True)],
        dict(X=design(4, n, p, 1.0)), expect={"tau": "HorseshoeGibbsKernel", "lam": "HorseshoeGibbsKernel"})


def horseshoe_observed(p=3, lo=0.0, hi=np.inf):
    """Observed coefficients on an extreme scale."""
    return Model(f"horseshoe_observed({p},{lo:g},{hi:g})", [
        Node("tau", "halfcauchy", lambda e: (0, 1)),
        Node("lam", "halfcauchy", lambda e: (0, 1), p),
        Node("beta", "normal", lambda e: (0, e.lam * e.tau), obs=True)],
        accept=lambda s: lo < np.max(np.abs(s["beta"])) < hi,
        expect={"tau": "HorseshoeGibbsKernel", "lam": "HorseshoeGibbsKernel"})


def eight_schools(n=3):
    return nuts_model(f"eight_schools({n})", [
        Node("mu", "normal", lambda e: (0.0, 2.0)),
        Node("tau", "halfcauchy", lambda e: (0.0, 1.0)),
        Node("th", "normal", lambda e: (e.mu, 0.3 + e.tau), n),
        Node("Y", "normal", lambda e: (e.th, e.se), obs=True)], dict(se=np.linspace(0.5, 1.5, n)), step_size=0.25)


def poisson_regression(n=4, p=2):
    return nuts_model(f"poisson_regression({n},{p})", [
        Node("beta", "normal", lambda e: (0.0, 0.7), p),
        Node("Y", "poisson", lambda e: (e.exp(e.X @ e.beta),), obs=True)], dict(X=design(5, n, p, 0.7)))


def regression_matrix_latent():
    return nuts_model("matrix_latent", [
        Node("B", "normal", lambda e: (0.0, 1.0), (2, 2)),
        Node("Y", "normal", lambda e: (e.X @ e.B, 0.5), obs=True)], dict(X=design(6, 2, 2, 1.0)))


def wide_horseshoe(p=2):
    """Not a standard horseshoe prior: everything is left to NUTS."""
    return nuts_model(f"wide_horseshoe({p})", [
        Node("tau", "halfcauchy", lambda e: (0, 2)),
        Node("lam", "halfcauchy", lambda e: (0, 1), p),
        Node("beta", "normal", lambda e: (0, e.lam * e.tau), p),
        Node("Y", "normal", lambda e: (e.beta, 0.8), obs=True)])


def noncentered(n=3):
    return nuts_model(f"noncentered({n})", [
        Node("mu", "normal", lambda e: (0.0, 2.0)),
        Node("s", "halfnormal", lambda e: (0.0, 1.0)),
        Node("z", "normal", lambda e: (0.0, 1.0), n),
        Node("Y", "normal", lambda e: (e.mu + e.s * e.z, 0.7), obs=True)])


def matrix_broadcast():
    return nuts_model("matrix_broadcast", [
        Node("r", "normal", lambda e: (0.0, 1.0), (2, 1)),
        Node("c", "gamma", lambda e: (3.0, 2.0), 3),
        Node("k", "beta", lambda e: (2.0, 2.0)),
        Node("Y", "normal", lambda e: (e.r * e.c + e.k, 0.3 + e.k), obs=True)])


def shared_horseshoe(p=2):
    """Two coefficient vectors with the same shrinkage parameters."""
    return nuts_model(f"shared_horseshoe({p})", [
        Node("tau", "halfcauchy", lambda e: (0, 1)),
        Node("lam", "halfcauchy", lambda e: (0, 1), p),
        Node("beta", "normal", lambda e: (0, e.lam * e.tau)),
        Node("gam", "normal", lambda e: (0, e.lam * e.tau)),
        Node("Y", "normal", lambda e: (e.beta - e.gam, 0.8), obs=True)])


def two_level(n=3):
    return nuts_model(f"two_level({n})", [
        Node("m", "normal", lambda e: (0.0, 1.0)),
        Node("a", "lognormal", lambda e: (e.m, 0.4)),
        Node("l", "gamma", lambda e: (e.a * e.w, 1.3)),
        Node("Y", "poisson", lambda e: (e.l,), obs=True)], dict(w=np.linspace(0.5, 2, n)), expect={"l": "conjugate"})


def regression_intercept(n=3, p=2):
    return nuts_model("regression_intercept", [
        Node("a", "normal", lambda e: (0.0, 1.0)),
        Node("beta", "normal", lambda e: (0.0, 1.0), p),
        Node("Y", "bernoulli", lambda e: (e.sigmoid(-(e.a + e.X @ e.beta)),), obs=True)], dict(X=design(8, n, p)))


def two_regressions(n=3, p=2):
    m = Model("two_regressions", [
        Node("beta", "normal", lambda e: (0.0, e.sd)),
        Node("gam", "normal", lambda e: (0.0, 2 * e.sd)),
        Node("Y", "bernoulli", lambda e: (e.sigmoid(-(e.X @ e.beta)),), obs=True),
        Node("Z", "bernoulli", lambda e: (e.sigmoid(-(e.X @ e.gam)),), obs=True)],
        dict(X=design(8, n, p), sd=np.array([0.7, 1.4])),
        expect={"beta": "BernoulliRegressionGibbsKernel", "gam": "BernoulliRegressionGibbsKernel"})
    return m


def horseshoe_regression_tau1(lik="bern", n=3, p=2):
    m = regression(lik, n, p, prior="horseshoe", tau_size=1)
    return m


def gamma_scale_regression(n=3, p=2):
    """beta's scale is a function of a variable with a conjugate step."""
    return nuts_model("gamma_scale_regression", [
        Node("s", "gamma", lambda e: (2.0, 2.0), p),
        Node("beta", "normal", lambda e: (0.0, e.s)),
        Node("Y", "bernoulli", lambda e: (e.sigmoid(-(e.X @ e.beta)),), obs=True)], dict(X=design(8, n, p)),
        expect={"beta": "BernoulliRegressionGibbsKernel"})


def uniform_conjugate():
    """The support of a NUTS variable is given by a conjugate one."""
    return nuts_model("uniform_conjugate", [
        Node("l", "gamma", lambda e: (e.a, 1.0)),
        Node("N", "poisson", lambda e: (e.l,), obs=True),
        Node("u", "uniform", lambda e: (-1.0, e.top)),
        Node("Y", "normal", lambda e: (e.u, 0.5), obs=True)],
        dict(a=np.float64(2.5), top=np.float64(2.0)), expect={"l": "conjugate"})


def vector_transforms():
    return nuts_model("vector_transforms", [
        Node("u", "uniform", lambda e: (e.lo, e.lo + 1.0)),
        Node("b", "beta", lambda e: (2.0, e.bb)),
        Node("g", "gamma", lambda e: (e.bb, 1.5)),
        Node("h", "halfcauchy", lambda e: (0.0, e.bb)),
        Node("x", "exponential", lambda e: (e.bb,)),
        Node("k", "lognormal", lambda e: (0.0, 0.5), 2),
        Node("Y", "normal", lambda e: (e.u + e.b + e.g, 0.5 + e.h), obs=True),
        Node("Z", "normal", lambda e: (e.x * e.k, 0.8), obs=True)],
        dict(lo=np.array([-1.0, 2.0]), bb=np.array([1.5, 3.0])))


def scalar_transforms():
    return nuts_model("scalar_transforms", [
        Node("w", "weibull", lambda e: (2.0,)),
        Node("x", "exponential", lambda e: (2.0,)),
        Node("gu", "gumbel", lambda e: (0.3, 0.8)),
        Node("c", "cauchy", lambda e: (0.0, 0.5)),
        Node("v", "invgamma", lambda e: (3.0, 2.0)),
        Node("Y", "normal", lambda e: (e.w + e.gu, e.x + 0.4), obs=True),
        Node("Z", "normal", lambda e: (e.c, e.v + 0.2), 2, obs=True)])


def dirichlet_matrix():
    return nuts_model("dirichlet_matrix", [
        Node("w", "dirichlet", lambda e: (e.al,), 2),
        Node("Y", "normal", lambda e: (3 * e.w, 0.5), obs=True)], dict(al=np.array([2.0, 1.5, 3.0])))


def hyper_tree():
    """Several levels, values of children used by more than one node."""
    return nuts_model("hyper_tree", [
        Node("t", "halfnormal", lambda e: (0.0, 1.0)),
        Node("m", "normal", lambda e: (0.0, 0.5 + e.t)),
        Node("u", "uniform", lambda e: (e.m - e.t - 0.1, e.m + e.t + 0.1)),
        Node("g", "gamma", lambda e: (2.0 + e.t, 1.0 + e.t)),
        Node("Y", "normal", lambda e: (e.m + e.u, 0.3 + e.g), 2, obs=True)])
