"""Statistical oracles.

Every oracle returns a p-value whose null distribution is known (exact, or
asymptotic with bounded statistics at n in the thousands).  The escalation rule
that turns p-values into verdicts lives in `runner.py`.
"""
import numpy as np
from scipy import stats as st


def ks_uniform(u):
    """Kolmogorov-Smirnov p-value that `u` are iid U(0,1)."""
    u = np.asarray(u, dtype=float).ravel()
    if not np.all(np.isfinite(u)) or u.size == 0:
        return 0.0
    return float(st.kstest(u, "uniform").pvalue)


def moments_uniform(u):
    """Smallest p-value (Bonferroni over 3) of mean, spread, skew of U(0,1)."""
    u = np.asarray(u, dtype=float).ravel()
    if not np.all(np.isfinite(u)) or u.size == 0:
        return 0.0
    n = u.size
    x = u - 0.5
    ps = []
    for g, m, v in (
        (x, 0.0, 1 / 12),
        (x**2, 1 / 12, 1 / 80 - 1 / 144),
        (x**3, 0.0, 1 / 448),
    ):
        z = (g.mean() - m) / np.sqrt(v / n)
        ps.append(2 * st.norm.sf(abs(z)))
    return float(min(1.0, 3 * min(ps)))


def ttest_mean(x, mu=0.0, R=0.5):
    """Two-sided test that the rows of `x` (n, k) have mean mu; array of p.

    `x - mu` is bounded by R or so.  The variance estimate is regularized with
    a few pseudo-observations at the bound, so that the p-values stay valid when
    `x` is almost constant (rare events).
    """
    x = np.asarray(x, dtype=float)
    if x.ndim == 1:
        x = x[:, None]
    n = x.shape[0]
    bad = ~np.all(np.isfinite(x), axis=0)
    with np.errstate(all="ignore"):
        m = x.mean(0) - mu
        v = n * x.var(0, ddof=1) + 9 * R**2
        t = np.where(np.abs(m) > 1e-13, n * m / np.sqrt(v), 0.0)
    p = 2 * st.t.sf(np.abs(t), n - 1)
    p = np.where(bad, 0.0, p)
    return p


def controlled_mean(g1, g0, mu):
    """p-values that E[g1] == mu, using g0 (same marginal, E[g0] == mu) as a
    control variate.  Columns with mu == nan are tested as paired differences.
    """
    g1 = np.asarray(g1, float)
    g0 = np.asarray(g0, float)
    mu = np.broadcast_to(np.asarray(mu, float), g1.shape[1:])
    known = np.isfinite(mu)
    a = g1 - np.where(known, mu, 0.0)
    b = g0 - np.where(known, mu, 0.0)
    with np.errstate(all="ignore"):
        ac, bc = a - a.mean(0), b - b.mean(0)
        c = np.where(bc.var(0) > 0, (ac * bc).mean(0) / bc.var(0), 0.0)
    c = np.where(known, np.clip(np.nan_to_num(c), 0.0, 1.0), 1.0)
    return ttest_mean(a - c * b)


def chi2_counts(counts, probs):
    """p-value of observed counts against exact cell probabilities.

    Cells of small expectation are pooled; an observation in a cell of
    probability (numerically) zero gives p = 0.
    """
    counts = np.asarray(counts, float)
    probs = np.asarray(probs, float)
    n = counts.sum()
    if np.any((probs <= 1e-15) & (counts > 0)):
        return 0.0
    e = n * probs
    order = np.argsort(-e)
    c, e = counts[order], e[order]
    small = e < 10
    if small.any():
        c = np.append(c[~small], c[small].sum())
        e = np.append(e[~small], e[small].sum())
    if e.size and e[-1] < 10 and e.size > 1:
        c = np.append(c[:-2], c[-2:].sum())
        e = np.append(e[:-2], e[-2:].sum())
    if c.size < 2:
        return 1.0
    x2 = ((c - e) ** 2 / e).sum()
    return float(st.chi2.sf(x2, c.size - 1))


def correlation_p(x, y):
    """p-value of zero correlation between two bounded iid samples."""
    x = np.asarray(x, float).ravel()
    y = np.asarray(y, float).ravel()
    x = x - x.mean()
    y = y - y.mean()
    return float(ttest_mean(x * y)[0])


def ks_exact(x, cdf):
    return ks_uniform(cdf(np.asarray(x)))


def indep_uniform(u, v):
    """p-value that the PITs u, v (n,) are uncorrelated (ranks and extremes)."""
    u = np.asarray(u, float).ravel() - 0.5
    v = np.asarray(v, float).ravel() - 0.5
    p = ttest_mean(np.stack([u * v, (u**2 - 1 / 12) * (v**2 - 1 / 12)], 1), R=0.25)
    return float(min(1.0, 2 * p.min()))


def normals(w, ctx, label):
    """Record tests that w (n, k) are iid N(0, 1)."""
    w = np.asarray(w, float)
    if w.ndim == 1:
        w = w[:, None]
    from scipy.special import ndtr

    u = ndtr(w)
    ctx.p(label + " KS", ks_uniform(u))
    ctx.p(label + " moments", moments_uniform(u))
    return u
