"""C02: Gaussian full conditionals of linear regressions are exact.

Oracle: with A = X' diag(omega) X + diag(inv_sd^2), L = chol(A), the vector
L' (beta - A^-1 X' diag(omega) z) of every draw is exactly iid N(0, 1).
"""
import numpy as np
import scipy.linalg as sl
import scipy.sparse as ss
import aesara
import aesara.tensor as at
import aesara.sparse as asp
from aesara.tensor.random import RandomStream
from aemcmc import dists, gibbs

from .. import stats as S
from ..runner import Task

RULE = (
    "one execution = one draw of the compiled conditional for fresh matrices; the draw is whitened with the exact posterior "
    "mean and precision and must be iid N(0,1); distinct = distinct (shape regime, inputs)"
)
ASSUMPTIONS = ["numpy/scipy linear algebra", "numpy's standard_normal"]


def shapes(rng, regime):
    if regime == "over":
        p = rng.integers(1, 5)
        return p + rng.integers(1, 12), p
    if regime == "under":
        n = rng.integers(1, 5)
        return n, n + rng.integers(1, 12)
    if regime == "square":
        p = rng.integers(1, 6)
        return p, p
    if regime == "p1":
        return rng.integers(1, 8), 1
    if regime == "n1":
        return 1, rng.integers(1, 8)
    if regime == "tall":
        return rng.integers(60, 120), rng.integers(2, 5)
    if regime == "wide":
        return rng.integers(2, 5), rng.integers(40, 80)
    if regime == "huge":
        k = rng.integers(0, 3)
        if k == 0:
            return rng.integers(200, 600), rng.integers(2, 6)
        if k == 1:
            return rng.integers(2, 6), rng.integers(200, 600)
        return rng.integers(90, 130), rng.integers(90, 130)
    return rng.integers(1, 10), rng.integers(1, 10)


def problem(rng, regime, scale):
    n, p = map(int, shapes(rng, regime))
    X = rng.normal(size=(n, p))
    if scale == "collinear" and p > 1:
        X[:, -1] = X[:, 0] * (1 + 1e-6)
    if scale == "sparse":
        X *= rng.random((n, p)) < 0.3
    om = np.exp(rng.normal(size=n) * 0.7)
    isd = np.exp(rng.normal(size=p) * 0.7)
    if scale == "bad":
        X *= np.exp(rng.normal(size=p) * 1.5)
        om *= np.exp(rng.normal() * 2)
        isd *= np.exp(rng.normal(size=p) * 1.5)
    if scale == "extreme":
        om = np.exp(rng.normal(size=n) * 1.5 + rng.normal() * 5)
        isd = np.exp(rng.normal(size=p) * 1.5 + rng.normal() * 5)
        if rng.random() < 0.5:
            om[rng.integers(n)] *= 10.0 ** rng.uniform(-6, 6)
        if rng.random() < 0.5:
            isd[rng.integers(p)] *= 10.0 ** rng.uniform(-4, 4)
    if scale == "offset":  # predictors and responses that aren't centred
        X = X + rng.normal(size=p) * 100
    if scale == "zeros":
        X *= rng.random(p) < 0.6
        X *= (rng.random(n) < 0.6)[:, None]
    if scale == "weak":
        isd *= 0.05
    if scale == "strong":
        isd *= 10
    z = rng.normal(size=n) * 2
    if scale == "offset":
        z += rng.normal() * 100
    if scale == "zeros":
        z *= rng.random() < 0.7
    return X, om, isd, z


def well_posed(X, om, isd, z):
    """Whether rounding errors are negligible for any reasonable algorithm."""
    A = X.T @ (om[:, None] * X) + np.diag(isd**2)
    with np.errstate(all="ignore"):
        B = (X / isd**2) @ X.T + np.diag(1 / om)
        try:
            m = np.linalg.solve(A, X.T @ (om * z))
        except np.linalg.LinAlgError:
            return False
        size = 1 + np.sqrt(abs(m @ A @ m)) + np.linalg.norm(np.sqrt(om) * z)
        c = max(np.linalg.cond(A), np.linalg.cond(B))
    return c * size < 1e11


def whiten(A, b, x):
    L = np.linalg.cholesky(A)
    m = sl.cho_solve((L, True), b)
    return L.T @ (x - m)


class Collect:
    """White vectors of varying dimension."""

    def __init__(self):
        self.all, self.first, self.last, self.pairs, self.norm = [], [], [], [], []

    def add(self, w):
        self.all.append(w)
        self.first.append(w[0])
        self.last.append(w[-1])
        self.norm.append((float(w @ w), w.size))

    def test(self, ctx, label):
        from scipy.special import ndtr, gammainc

        a = np.concatenate(self.all)
        S.normals(a, ctx, label + " white")
        S.normals(np.array(self.first), ctx, label + " white[0]")
        S.normals(np.array(self.last), ctx, label + " white[-1]")
        u = np.array([gammainc(k / 2, q / 2) for q, k in self.norm])
        ctx.p(label + " norm KS", S.ks_uniform(u))
        f = ndtr(np.array(self.first))
        l_ = ndtr(np.array(self.last))
        multi = np.array([k > 1 for _, k in self.norm])
        if multi.sum() > 100:
            ctx.p(label + " coordinates independent", S.indep_uniform(f[multi], l_[multi]))
        ctx.p(label + " successive draws independent", S.indep_uniform(f[1:], f[:-1]))


def compile_regression(which, seed, xtype="float64", vtype="float64"):
    srng = RandomStream(seed)
    om, isd, z = (at.vector(k, dtype=vtype) for k in ("om", "isd", "z"))
    X = at.matrix("X", dtype=xtype)
    out = getattr(gibbs, which)(srng, om, isd, X, z)
    return aesara.function([om, isd, X, z], out)


def regression(ctx, which="normal_regression_posterior", regime="any", scale="plain", xtype="float64", vtype="float64"):
    rng = ctx.rng
    with ctx.target("construct and compile"):
        fn = compile_regression(which, int(rng.integers(2**31)), xtype, vtype)
    c = Collect()
    for i in range(ctx.n):
        X, om, isd, z = problem(rng, regime, scale)
        while scale == "extreme" and not well_posed(X, om, isd, z):
            ctx.event("ill-conditioned inputs skipped")
            X, om, isd, z = problem(rng, regime, scale)
        if xtype == "int64":
            X = np.rint(X).astype(xtype)
        if vtype != "float64":
            om, isd, z = (np.maximum(np.rint(3 * om), 1).astype(vtype), np.maximum(np.rint(2 * isd), 1).astype(vtype), np.rint(z).astype(vtype))
        with ctx.target("sample"):
            x = np.asarray(fn(om, isd, X, z))
        ctx.event("executions")
        if x.shape != (X.shape[1],) or not np.all(np.isfinite(x)):
            ctx.fail("draw", f"draw {x!r} for X of shape {X.shape}, omega={om!r}, inv_sd={isd!r}, X={X!r}, z={z!r}")
            return
        A = X.T @ (om[:, None] * X) + np.diag(isd**2)
        w = whiten(A, X.T @ (om * z), x)
        c.add(w)
        ctx.event("coordinates", x.size)
        ctx.event("n<p" if X.shape[0] < X.shape[1] else "n==p" if X.shape[0] == X.shape[1] else "n>p")
        ctx.distinct_arrays(X, om, isd, z)
        if i == 0:
            ctx.sample(dict(X=X, omega=om, inv_sd=isd, z=z, draw=x, whitened=w))
    c.test(ctx, which)


def rue(ctx, sparse="", extreme=False, dtype="float64"):
    rng = ctx.rng
    with ctx.target("construct and compile"):
        srng = RandomStream(int(rng.integers(2**31)))
        b = at.vector("b")
        Q = getattr(asp, sparse)("Q", dtype=dtype) if sparse else at.matrix("Q", dtype=dtype)
        fn = aesara.function([b, Q], dists.multivariate_normal_rue2005(srng, b, Q))
    c = Collect()
    for i in range(ctx.n):
        k = int(rng.integers(1, 9))
        B = rng.normal(size=(k, k + 1))
        if sparse:
            B *= rng.random(B.shape) < 0.5
        A = B @ B.T + np.diag(np.exp(rng.normal(size=k)))
        A *= np.exp(rng.normal() * 1.5)
        if extreme:
            A = B @ B.T * np.exp(rng.normal() * 8)
            A = A + np.diag(np.exp(rng.normal(size=k) * 2)) * np.trace(A) / k
        if dtype != "float64":
            B = np.rint(2 * B)
            A = (B @ B.T + np.diag(rng.integers(1, 6, k))).astype(dtype)
        bv = rng.normal(size=k) * (3 if not extreme else 3 * np.sqrt(np.trace(A)))
        with ctx.target("sample"):
            x = np.asarray(fn(bv, getattr(ss, sparse)(A) if sparse else A))
        ctx.event("executions")
        if x.shape != (k,) or not np.all(np.isfinite(x)):
            ctx.fail("draw", f"draw {x!r} for b={bv!r}, Q={A!r}")
            return
        c.add(whiten(A, bv, x))
        ctx.distinct_arrays(A, bv)
        if i == 0:
            ctx.sample(dict(b=bv, Q=A, draw=x))
    c.test(ctx, "rue2005")


def cong(ctx, regime="any"):
    rng = ctx.rng
    with ctx.target("construct and compile"):
        srng = RandomStream(int(rng.integers(2**31)))
        A, om, t = at.vectors("A", "om", "t")
        phi = at.matrix("phi")
        fn = aesara.function([A, om, phi, t], dists.multivariate_normal_cong2017(srng, A, om, phi, t))
    c = Collect()
    for i in range(ctx.n):
        X, omv, isd, z = problem(rng, regime, rng.choice(["plain", "bad", "weak", "strong", "sparse", "extreme"]))
        if not well_posed(X, omv, isd, z):
            ctx.event("ill-conditioned inputs skipped")
            continue
        with ctx.target("sample"):
            x = np.asarray(fn(isd**2, omv, X, z))
        ctx.event("executions")
        if x.shape != (X.shape[1],) or not np.all(np.isfinite(x)):
            ctx.fail("draw", f"draw {x!r} for A={isd**2!r}, omega={omv!r}, phi={X!r}, t={z!r}")
            return
        c.add(whiten(X.T @ (omv[:, None] * X) + np.diag(isd**2), X.T @ (omv * z), x))
        ctx.distinct_arrays(X, omv, isd, z)
    c.test(ctx, "cong2017")


def tasks(tier):
    n = 7000 if tier == "quick" else 60000
    out = []
    for regime in ("any", "over", "under", "square", "p1", "n1", "tall", "wide"):
        out.append(Task(f"regression_{regime}", regression, n, regime=regime))
    for scale in ("bad", "weak", "strong", "collinear", "sparse"):
        out.append(Task(f"regression_{scale}", regression, n, scale=scale))
    for regime in ("any", "over", "under", "n1", "p1"):
        out.append(Task(f"regression_extreme_{regime}", regression, n, scale="extreme", regime=regime))
    out.append(Task("rue2005_extreme", rue, n, extreme=True))
    out.append(Task("regression_huge", regression, n // 10, regime="huge"))
    for scale in ("offset", "zeros"):
        out.append(Task(f"regression_{scale}", regression, n, scale=scale))
    out.append(Task("regression_int_weights", regression, n, xtype="int64", vtype="int64"))
    out.append(Task("regression_int32_weights", regression, n, vtype="int32"))
    out.append(Task("regression_int_X", regression, n, xtype="int64"))
    for w in ("overdetermined", "underdetermined"):
        out.append(Task(w, regression, n, which=f"normal_regression_{w}_posterior", regime="any"))
    out.append(Task("rue2005_dense", rue, n))
    for f in ("csc_matrix", "csr_matrix"):
        out.append(Task(f"rue2005_sparse_{f}", rue, n, sparse=f))
    out.append(Task("rue2005_sparse_int", rue, n // 2, sparse="csr_matrix", dtype="int64"))
    out += [Task(f"rue2005_{d}", rue, n // 2, dtype=d) for d in ("int64", "int16")]
    for r in ("any", "over", "under", "square"):
        out.append(Task(f"cong2017_{r}", cong, n, regime=r))
    return out
