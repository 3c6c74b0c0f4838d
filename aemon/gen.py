"""Random composite models, built from blocks that share hyperparameters.

The blocks cover every kind of step (conjugate, logistic regressions, horseshoe,
NUTS) and every way in which they can depend on each other.
"""
import numpy as np

from .zoo import Model, Node, design


def random_model(seed, how=None):
    r = np.random.default_rng([seed, 1234])
    nodes, data, expect = [], {}, {}
    pos, real = [], []
    used, deps = set(), {}

    def hyper(k):
        kind = r.choice(["gamma", "halfnormal", "lognormal", "exponential", "normal", "normal", "uniform"])
        nm = f"h{k}"
        # hyperparameters can depend on earlier ones
        sc = float(np.round(r.uniform(0.5, 1.2), 2))
        dep = pos and r.random() < 0.4
        a = str(r.choice(pos)) if dep else None
        b = str(r.choice(real)) if real and r.random() < 0.4 else None
        deps[nm] = []
        s = (lambda e: 0.2 + getattr(e, a)) if a else (lambda e: sc)
        loc = (lambda e: getattr(e, b)) if b else (lambda e: 0.0)
        if a and kind not in ("lognormal",):
            deps[nm].append(a)
        if b and kind in ("lognormal", "normal"):
            deps[nm].append(b)
        if kind == "gamma":
            nodes.append(Node(nm, "gamma", lambda e: (3.0, 2.0 + s(e))))
        elif kind == "halfnormal":
            nodes.append(Node(nm, "halfnormal", lambda e: (0.0, s(e))))
        elif kind == "lognormal":
            nodes.append(Node(nm, "lognormal", lambda e: (loc(e) * 0.3, 0.4)))
        elif kind == "exponential":
            nodes.append(Node(nm, "exponential", lambda e: (1.0 + s(e),)))
        elif kind == "uniform":
            nodes.append(Node(nm, "uniform", lambda e: (0.0, 0.5 + s(e))))
        else:
            nodes.append(Node(nm, "normal", lambda e: (loc(e), s(e))))
        expect[nm] = "NUTSKernel"
        (real if kind == "normal" else pos).append(nm)

    def positive():
        """A positive parameter: a hyperparameter or a constant."""
        if pos and r.random() < 0.6:
            nm = str(r.choice(pos))
            used.add(nm)
            c = float(np.round(r.uniform(0.4, 1.0), 2))
            return lambda e: c + getattr(e, nm)
        c = float(np.round(r.uniform(0.8, 2.0), 2))
        k = f"c{len(data)}"
        if r.random() < 0.5:
            data[k] = np.float64(c)
            return lambda e: getattr(e, k)
        return lambda e: c

    def location():
        if real and r.random() < 0.6:
            nm = str(r.choice(real))
            used.add(nm)
            return lambda e: getattr(e, nm)
        return lambda e: 0.0

    def size():
        return [None, 2, 3][r.integers(3)]

    def block(k):
        kind = ["gp", "bb", "reg", "reg", "hs", "hsreg", "nn", "mix"][r.integers(8)]
        v, y = f"v{k}", f"Y{k}"
        if kind == "gp":
            a, b, sz = positive(), positive(), size()
            nodes.append(Node(v, "gamma", lambda e: (1.5 + a(e), b(e)), sz))
            nodes.append(Node(y, "poisson", lambda e: (getattr(e, v),), obs=True))
            expect[v] = "conjugate"
        elif kind == "bb":
            a, b, sz = positive(), positive(), size()
            n = int(r.integers(2, 9))
            nodes.append(Node(v, "beta", lambda e: (0.5 + a(e), 0.5 + b(e)), sz))
            nodes.append(Node(y, "binomial", lambda e: (n, getattr(e, v)), obs=True))
            expect[v] = "conjugate"
        elif kind in ("reg", "hsreg"):
            n, p = int(r.integers(2, 5)), int(r.integers(1, 4))
            X = f"X{k}"
            data[X] = design(seed * 10 + k, n, p)
            if kind == "reg":
                s = positive()
                nodes.append(Node(v, "normal", lambda e: (0.0, s(e)), p))
            else:
                tau, lam = f"tau{k}", f"lam{k}"
                p = max(p, 2)
                data[X] = design(seed * 10 + k, n, p)
                nodes.append(Node(tau, "halfcauchy", lambda e: (0, 1)))
                nodes.append(Node(lam, "halfcauchy", lambda e: (0, 1), p))
                nodes.append(Node(v, "normal", lambda e: (0, getattr(e, lam) * getattr(e, tau)), p))
                expect[tau] = expect[lam] = "HorseshoeGibbsKernel"
            if r.random() < 0.5 or kind == "hsreg":
                nodes.append(Node(y, "bernoulli", lambda e: (e.sigmoid(-(getattr(e, X) @ getattr(e, v))),), obs=True))
                expect[v] = "BernoulliRegressionGibbsKernel"
            else:
                h = positive()
                nodes.append(Node(y, "nbinom", lambda e: (1.0 + h(e), e.sigmoid(-(getattr(e, X) @ getattr(e, v)))), obs=True))
                expect[v] = "NBRegressionGibbsKernel"
        elif kind == "hs":
            p = int(r.integers(2, 4))
            tau, lam = f"tau{k}", f"lam{k}"
            nodes.append(Node(tau, "halfcauchy", lambda e: (0, 1)))
            nodes.append(Node(lam, "halfcauchy", lambda e: (0, 1), p))
            nodes.append(Node(v, "normal", lambda e: (0, getattr(e, lam) * getattr(e, tau)), p))
            nodes.append(Node(y, "normal", lambda e: (getattr(e, v), 0.8), obs=True))
            expect[tau] = expect[lam] = "HorseshoeGibbsKernel"
            expect[v] = "NUTSKernel"
        elif kind == "nn":
            m, s, s2, sz = location(), positive(), positive(), size()
            nodes.append(Node(v, "normal", lambda e: (m(e), s(e)), sz))
            nodes.append(Node(y, "normal", lambda e: (getattr(e, v), s2(e)), obs=True))
            expect[v] = "NUTSKernel"
        else:
            # the observation depends on two unknowns: neither is conjugate
            a, b = positive(), positive()
            nodes.append(Node(v, "gamma", lambda e: (1.5 + a(e), b(e))))
            m = positive()
            nodes.append(Node(y, "poisson", lambda e: (getattr(e, v) * m(e),), obs=True))
            expect[v] = None  # conjugate or not, depending on the multiplier
        pos_ok = kind in ("gp", "bb", "mix")
        return v if pos_ok else None

    nh = int(r.integers(0, 4))
    for k in range(nh):
        hyper(k)
    for k in range(int(r.integers(1, 4))):
        block(k)
    # drop the hyperparameters that nothing depends on
    todo = list(used)
    while todo:
        for d in deps[todo.pop()]:
            if d not in used:
                used.add(d)
                todo.append(d)
    nodes[:] = [nd for nd in nodes if nd.name not in deps or nd.name in used]
    expect = {k: v for k, v in expect.items() if k not in deps or k in used}
    how = how or ["input", "const", "shared"][r.integers(3)]
    m = Model(f"random{seed}", nodes, data, how, expect={k: v for k, v in expect.items() if v}, step_size=0.4)
    m.mode = "FAST_COMPILE"
    m._accept = lambda s: all(np.max(np.abs(np.asarray(s[nd.name], float))) <= 200 for nd in nodes if nd.dist in ("nbinom", "poisson"))
    return m


def partly_observed(seed):
    from .invariance import observe_some

    m = observe_some(random_model(seed), seed)
    m.name += " partly observed"
    return m


def describe(m):
    return [(n.name, n.dist, n.size) for n in m.nodes]
