"""C06: forward-filtering backward-sampling draws state paths from their exact
posterior.

Every observed path (s_1, ..., s_N) is decomposed, last state first, into the
conditional probabilities p(s_N | y) and p(s_n | s_{n+1}, y_{1:n}), which are
computed in log-space with numpy.  The randomized PITs of the states are iid
uniform if and only if the path has its exact joint law.  Small problems are
also compared with the enumeration of every path.
"""
import itertools

import numpy as np
import aesara
import aesara.tensor as at
from aesara.tensor.random import RandomStream
from aemcmc.ffbs import ffbs_step

from .. import stats as S
from ..runner import Task

RULE = (
    "one execution = one call of the compiled step on fresh random inputs (initial probabilities, transition matrices, "
    "log-likelihoods), the whole path decoded into conditional PITs; distinct = distinct inputs; trivial = a single state"
)
ASSUMPTIONS = ["likelihoods of the states at one time differ by less than exp(600) (the step works with re-scaled probabilities, not logs)"]


def lse(a, axis):
    m = a.max(axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.0)
    with np.errstate(divide="ignore"):
        return np.log(np.exp(a - m).sum(axis=axis)) + m.squeeze(axis)


def filtered(g0, G, L):
    """log p(s_n, y_1..n) up to a constant per n; G (N, M, M), L (M, N)."""
    with np.errstate(divide="ignore"):
        a = np.log(g0 / g0.sum())
        lG = np.log(G)
    out = []
    for n in range(L.shape[1]):
        a = lse(a[:, None] + lG[n], 0) + L[:, n]
        a = a - a.max()
        out.append(a)
    return np.array(out), lG


def path_pits(path, g0, G, L, rng, exclude=()):
    """Randomized PITs in the order of sampling (last state first), or the
    position of an impossible state."""
    A, lG = filtered(g0, G, L)
    N = L.shape[1]
    u = np.empty(N)
    info = 0
    for n in range(N - 1, -1, -1):
        w = A[n] if n == N - 1 else A[n] + lG[n + 1][:, path[n + 1]]
        w = np.exp(w - w.max())
        w /= w.sum()
        k = path[n]
        if w[k] < 1e-13:
            return None, (n, k, w)
        u[N - 1 - n] = w[:k].sum() + rng.random() * w[k]
        info += w.max() < 0.999
    return u, info


def brute(g0, G, L):
    M, N = L.shape
    paths = list(itertools.product(range(M), repeat=N))
    p = np.empty(len(paths))
    e = np.exp(L - L.max(0))
    start = g0 / g0.sum()
    for i, s in enumerate(paths):
        v = (start @ G[0])[s[0]] * e[s[0], 0]
        for n in range(1, N):
            v *= G[n][s[n - 1], s[n]] * e[s[n], n]
        p[i] = v
    return paths, p / p.sum()


def rand_inputs(rng, M, N, gam, kind):
    conc = np.exp(rng.normal() * 1.0)
    g0 = rng.dirichlet(np.full(M, conc))
    if rng.random() < 0.5:
        g0 = g0 * np.exp(rng.normal() * 2)  # not normalized
    if rng.random() < 0.3:
        g0 = np.eye(M)[rng.integers(M)]
    K = dict(full=N, one=1, two=None)[gam]
    G = rng.dirichlet(np.full(M, np.exp(rng.normal())), size=(K or 1, M))
    if kind == "banded" and M > 1:
        # left to right chains: some transitions and states are impossible
        mask = np.triu(np.ones((M, M))) * np.tril(np.ones((M, M)), 1)
        G = G * mask + 1e-3 * mask
        G /= G.sum(-1, keepdims=True)
    scale = dict(flat=0.0, banded=1.0, mild=1.0, sharp=15.0, offset=2.0, inf=1.0, extreme=120.0).get(kind, 1.0)
    L = rng.normal(size=(M, N)) * scale
    if kind == "offset":
        L = L + rng.uniform(-2000, 2000, size=N)
    if kind == "extreme":
        L = L - rng.uniform(0, 1e5, size=N)
    if kind == "inf":
        for n in range(N):
            m = rng.random(M) < 0.4
            m[rng.integers(M)] = False
            L[m, n] = -np.inf
    if gam == "two":
        G = G[0]
    return g0, G, L


def compiled(rng, gam, how="input", M=None, bound=None, const=None):
    srng = RandomStream(int(rng.integers(2**31)))
    g0 = at.vector("gamma_0")
    if how == "ints":  # possible transitions and log-likelihoods as integers
        g0, L = at.lvector("gamma_0"), at.lmatrix("log_lik")
    G = at.matrix("Gamma") if gam == "two" else (
        at.tensor("float64", shape=(1, None, None), name="Gammas") if gam == "one" and how != "unknown" else at.tensor3("Gammas"))
    L = at.matrix("log_lik")
    args = [g0, G, L]
    ins = [g0, G, L]
    if how == "const":
        args = [const[0], at.as_tensor(const[1]), const[2]]
        ins = []
    elif how == "shared":
        args = [g0, aesara.shared(const[1], name="Gs", shape=(None,) * np.ndim(const[1])), L]
        ins = [g0, L]
    kw = {} if bound is None else dict(lower_prec_bound=bound)
    out, updates = ffbs_step(*args, srng, **kw)
    return aesara.function(ins, out, updates=updates)


def paths(ctx, M=3, N=4, gam="full", kind="mild", how="input", bound=None, fixed=False):
    rng = ctx.rng
    const = rand_inputs(rng, M, N, gam, kind)
    with ctx.target("construct and compile"):
        fn = compiled(rng, gam, how, M, bound, const)
    us = []
    while len(us) < ctx.n:
        g0, G, L = rand_inputs(rng, M, N, gam, kind)
        if how == "const":
            g0, G, L = const
        elif how == "shared":
            G = const[1]
        Gf = np.broadcast_to(G, (N, M, M))
        if kind in ("inf", "banded", "extreme"):
            A, _ = filtered(g0, Gf, L)
            with np.errstate(divide="ignore"):
                ok = np.all(np.isfinite(A.max(1)))
            if not ok or loss(g0, Gf, L) > 600:
                ctx.event("skipped: no path has a positive probability, or beyond the documented precision")
                continue
        elif how == "ints":
            g0, L = rng.integers(0, 4, M), np.rint(L).astype("int64")
            g0[rng.integers(M)] += 1
        args = {"const": (), "shared": (g0, L)}.get(how, (g0, G, L))
        with ctx.target("sample"):
            s = np.asarray(fn(*args))
        ctx.event("executions")
        if s.shape != (N,) or s.dtype.kind not in "iu" or s.min() < 0 or s.max() >= M:
            ctx.fail("path", f"{s!r} for N={N}, M={M}")
            return
        u, info = path_pits(s, g0, Gf, L, rng)
        if u is None:
            ctx.fail("impossible state", f"path {s.tolist()} at {info} for gamma_0={g0!r} Gammas={G!r} log_lik={L!r}")
            return
        ctx.event("states drawn", N)
        ctx.event("states drawn with a non-degenerate conditional", info)
        if M > 1:
            ctx.distinct_arrays(g0, G, L)
        us.append(u)
        if len(us) == 1:
            ctx.sample(dict(gamma_0=g0, Gammas=G, log_lik=L, path=s, pits=u))
    U = np.array(us)
    ctx.p("pit KS", S.ks_uniform(U))
    ctx.p("pit moments", S.moments_uniform(U))
    ctx.p("last state KS", S.ks_uniform(U[:, 0]))
    ctx.p("first state KS", S.ks_uniform(U[:, -1]))
    if N > 1:
        ctx.p("last state but one KS", S.ks_uniform(U[:, 1]))
        ctx.p("consecutive states", S.indep_uniform(U[:, :-1].ravel(), U[:, 1:].ravel()))
        ctx.p("last two states", S.indep_uniform(U[:, 0], U[:, 1]))
        ctx.p("first and last states", S.indep_uniform(U[:, 0], U[:, -1]))
    for k, j in (("last", 0), ("first", -1)):
        ctx.p(f"calls independent ({k} state)", S.indep_uniform(U[1:, j], U[:-1, j]))
    if N > 1:
        ctx.p("calls independent (across)", S.indep_uniform(U[1:, 0], U[:-1, 1]))
        ctx.p("calls independent (across, back)", S.indep_uniform(U[1:, 1], U[:-1, 0]))


def loss(g0, G, L):
    """Largest log-probability lost in one step of a normalized filter, where
    the likelihoods are scaled by their maximum."""
    a = g0 / g0.sum()
    worst = 0.0
    with np.errstate(divide="ignore"):
        la = np.log(a)
        lG = np.log(G)
    for n in range(L.shape[1]):
        la = lse(la[:, None] + lG[n], 0) + L[:, n] - L[:, n].max()
        t = la.max()
        worst = max(worst, -t)
        la = la - t
    return worst


def enumerate_paths(ctx, M=2, N=3, gam="full", kind="mild"):
    """Frequencies of all the paths for fixed inputs."""
    rng = ctx.rng
    with ctx.target("construct and compile"):
        fn = compiled(rng, gam)
    for rep in range(4):
        g0, G, L = rand_inputs(rng, M, N, gam, kind)
        Gf = np.broadcast_to(G, (N, M, M))
        if not np.all(np.isfinite(filtered(g0, Gf, L)[0].max(1))):
            continue
        ps, pr = brute(g0, Gf, L)
        ix = {p: i for i, p in enumerate(ps)}
        c = np.zeros(len(ps))
        prev, pair = None, []
        for _ in range(ctx.n // 4):
            with ctx.target("sample"):
                s = np.asarray(fn(g0, G, L))
            ctx.event("executions")
            i = ix[tuple(int(v) for v in s)]
            c[i] += 1
            pair.append(s)
        ctx.event("distinct paths seen", int((c > 0).sum()))
        ctx.distinct_arrays(g0, G, L)
        ctx.p(f"path frequencies {rep}", S.chi2_counts(c, pr))
        pair = np.array(pair, float)
        for j in (0, N - 1):
            ctx.p(f"calls independent {rep} state {j}", S.correlation_p(pair[1:, j], pair[:-1, j]))


def long(ctx, M=3, N=400, kind="mild", gam="one"):
    """Long sequences: the forward probabilities must be re-scaled."""
    rng = ctx.rng
    with ctx.target("construct and compile"):
        fn = compiled(rng, gam, "unknown")
    us = []
    for i in range(ctx.n):
        g0, G, L = rand_inputs(rng, M, N, gam, kind)
        Gf = np.broadcast_to(G, (N, M, M))
        if loss(g0, Gf, L) > 600:
            continue
        with ctx.target("sample"):
            s = np.asarray(fn(g0, G, L))
        ctx.event("executions")
        if s.shape != (N,) or s.min() < 0 or s.max() >= M:
            ctx.fail("path", f"shape {s.shape} for N={N}")
            return
        u, info = path_pits(s, g0, Gf, L, rng)
        if u is None:
            ctx.fail("impossible state", f"at {info} of a sequence of length {N}")
            return
        ctx.event("states drawn", N)
        ctx.event("states drawn with a non-degenerate conditional", info)
        ctx.distinct_arrays(g0, G, L)
        us.append(u)
    U = np.array(us)
    ctx.p("pit KS", S.ks_uniform(U))
    ctx.p("pit moments", S.moments_uniform(U))
    for lag in (1, 2):
        ctx.p(f"states at lag {lag}", S.indep_uniform(U[:, :-lag].ravel(), U[:, lag:].ravel()))
    q = N // 4
    for j in range(4):
        ctx.p(f"quarter {j} KS", S.ks_uniform(U[:, j * q:(j + 1) * q]))


def tasks(tier):
    q = tier == "quick"
    n = 1500 if q else 20000
    T = []

    def add(f, n, **kw):
        T.append(Task(f.__name__ + "_" + "_".join(str(v) for v in kw.values()), f, n, **kw))

    for gam in ("full", "one", "two"):
        add(paths, n, M=3, N=4, gam=gam, kind="mild")
    for kind in ("flat", "sharp", "offset", "inf", "banded", "extreme"):
        add(paths, n, M=4, N=5, gam="full", kind=kind)
    add(paths, n, M=1, N=3, gam="full", kind="mild")
    add(paths, n, M=2, N=1, gam="full", kind="mild")
    add(paths, n, M=3, N=1, gam="one", kind="offset")
    add(paths, n, M=2, N=2, gam="full", kind="mild")
    add(paths, n, M=6, N=10, gam="full", kind="mild")
    for M, N in ((12, 6), (40, 4), (300, 2)):
        add(paths, n if M < 100 else n // 8, M=M, N=N, gam="full", kind="mild")
    add(paths, n, M=20, N=5, gam="one", kind="sharp")
    for kind in ("mild", "sharp"):
        add(paths, n, M=3, N=4, gam="full", kind=kind, how="ints")
    add(paths, n, M=3, N=4, gam="one", kind="mild", how="unknown")
    add(paths, n, M=3, N=4, gam="full", kind="mild", how="const")
    add(paths, n, M=3, N=4, gam="one", kind="mild", how="shared")
    for b in (0.5, 1e-3, 1e-100):
        add(paths, n, M=3, N=12, gam="full", kind="mild", how="input", bound=b)
    for M, N, gam, kind in [(2, 3, "full", "mild"), (3, 3, "one", "mild"), (2, 4, "two", "offset"), (3, 2, "full", "inf"), (3, 3, "full", "banded")]:
        add(enumerate_paths, 2 * n, M=M, N=N, gam=gam, kind=kind)
    m = 6 if q else 60
    add(long, m, M=3, N=400, kind="mild", gam="one")
    add(long, m, M=4, N=400, kind="sharp", gam="full")
    add(long, m // 2, M=2, N=2000, kind="offset", gam="one")
    add(long, m // 2, M=5, N=1500, kind="flat", gam="full")
    return T
