"""C17: the Polya-gamma random variable.

Oracle: the characteristic function of PG(h, z), which is known in closed form.
"""
import aesara
import aesara.tensor as at
import numpy as np
from aemcmc.dists import polyagamma
from aesara.tensor.random import RandomStream

from .. import rv
from .. import stats as S
from ..runner import Abort, Task

rv.install()

RULE = "one execution = one draw of an array of Polya-gamma variables; distinct = distinct (parameters, draw)"
ASSUMPTIONS = [
    "the polyagamma library's approximations: errors of the characteristic function below 0.03 (0.08 for h > 50) are accepted",
    "the library rejects h below 1e-4",
]
C = np.array([0.5, 1.0, 2.0, 4.0])


def logcosh(w):
    return w + np.log1p(np.exp(-2 * w)) - np.log(2)


def moments(h, z):
    z = np.abs(np.asarray(z, float))
    h = np.asarray(h, float)
    with np.errstate(all="ignore"):
        m = np.where(z < 1e-3, h / 4, h / (2 * z) * np.tanh(z / 2))
        zz = np.minimum(z, 200)
        v = np.where(z < 1e-3, h / 24, np.where(z < 100, h / (4 * zz**3) * (np.sinh(zz) - zz) / np.cosh(zz / 2) ** 2, h / (2 * z**3)))
        # (series for small z)
        v = np.where((z >= 1e-3) & (z < 0.05), h / 24, v)
    return m, np.sqrt(v)


def cf(h, z, s, m):
    """E exp(i s (w - m))."""
    z = np.abs(np.asarray(z, float))
    w0 = z / 2 + 0j
    w = np.sqrt((z**2 / 2 - 1j * s) / 2 + 0j)
    # w0 - w without cancellation
    d = (0.5j * s) / (w0 + w)
    return np.exp(h * (d + np.log1p(np.exp(-2 * w0)) - np.log1p(np.exp(-2 * w))) - 1j * s * m)


def features(x, h, z):
    m, sd = moments(h, z)
    cols, mu = [], []
    for c in C:
        s = c / sd
        f = cf(h, z, s, m)
        cols += [np.cos(s * (x - m)), np.sin(s * (x - m))]
        mu += [f.real, f.imag]
    return cols, mu


def margin_mean(x, mu, margin):
    """p-values that |E x - mu| <= margin."""
    x = np.asarray(x, float)
    d = x.mean(0) - mu
    return S.ttest_mean(x - mu - np.clip(d, -margin, margin), 0.0, R=1.0)


def values(rng, shape, pos):
    if pos:
        kind = rng.integers(4)
        if kind == 0:
            return rng.integers(1, 12, size=shape)
        if kind == 1:
            return np.round(np.exp(rng.uniform(np.log(0.02), np.log(8), size=shape)), 4)
        if kind == 2:
            return np.round(np.exp(rng.uniform(np.log(1), np.log(3000), size=shape)), 3)
        return rng.integers(1, 400, size=shape) + rng.choice([0.5, 1.3, 0.1], size=shape)
    kind = rng.integers(4)
    if kind == 0:
        return np.round(rng.normal(size=shape) * 3, 3)
    if kind == 1:
        return np.round(rng.normal(size=shape) * 0.3, 3)
    if kind == 2:
        return np.round(rng.choice([-1, 1], size=shape) * np.exp(rng.uniform(np.log(1), np.log(1000), size=shape)), 2)
    return rng.integers(-3, 4, size=shape)


TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "float32", "float64"]


def retype(rng, v):
    v = np.asarray(v)
    if rng.random() < 0.4:
        return v
    if rng.random() < 0.2:  # the ends of the range of a small type
        v = np.where(rng.random(v.shape) < 0.5, np.where(v < 0, -128, 127), np.rint(v).clip(-128, 127) + (v.min(initial=1) > 0) * (np.rint(v) < 1))
    ok = [t for t in TYPES if np.array_equal(v.astype(t).astype(float), v)]
    return v.astype(rng.choice(ok)) if ok else v


SHAPES = [
    ((), (), None), ((3,), (), None), ((), (3,), None), ((2, 3), (3,), None), ((2, 1), (1, 3), None), ((), (), (4,)), ((3,), (), (2, 3)),
    ((), (2, 3), (2, 3)), ((3,), (3,), (4, 2, 3)), ((1,), (1,), None), ((), (0,), None), ((0, 2), (2,), None), ((), (), ()),
]


def param(rng, nm, v, inputs):
    k = rng.integers(3)
    if k == 0:
        return at.as_tensor(v)
    if k == 1:
        return aesara.shared(np.asarray(v), name=nm, shape=np.shape(v))
    x = at.tensor(np.asarray(v).dtype.name, shape=tuple(1 if d == 1 else None for d in np.shape(v)), name=nm)
    inputs.append((x, np.asarray(v)))
    return x


def law(ctx, k, ends=None):
    rng = ctx.rng
    sh, sz, size = SHAPES[k % len(SHAPES)]
    h, z = values(rng, sh, True), values(rng, sz, False)
    # any integer or floating-point types that represent the values
    h, z = retype(rng, h), retype(rng, z)
    if ends:
        h = rng.choice([1, 3, 9, 60, 127], size=sh).astype(ends)
        z = rng.choice([np.iinfo(ends).min, np.iinfo(ends).max, -np.iinfo(ends).max if ends[0] == "i" else 30], size=sz).astype(ends)
    srng = RandomStream(int(rng.integers(2**31)))
    inputs = []
    ht, zt = param(rng, "h", h, inputs), param(rng, "z", z, inputs)
    kw = {} if size is None else dict(size=size)
    with ctx.target("build and compile"):
        x = srng.gen(polyagamma, ht, zt, **kw)
        fn = aesara.function([a for a, _ in inputs], [x, x.shape], mode="FAST_COMPILE")
    want = np.broadcast_shapes(sh, sz) if size is None or size == () else tuple(size)
    ctx.check(x.type.ndim == len(want) and x.type.dtype == "float64", "type", f"{x.type} for the shapes {sh}, {sz}, size {size}")
    args = [b for _, b in inputs]
    kept = [b.copy() for b in args]
    xs = []
    np.random.seed(3)
    g0 = repr(np.random.get_state())
    with rv.record() as log:
        for i in range(ctx.n):
            rv.new_call()
            with ctx.target("draw"):
                a, shp = fn(*args)
            ctx.event("executions")
            ctx.check(a.shape == want and tuple(shp) == want, "shape", f"{a.shape}, inferred {tuple(shp)}, should be {want}")
            ctx.check(np.all(np.isfinite(a)) and np.all((a > 0) | (np.asarray(h) < 0.1)), "support", f"{a} with h={h}, z={z}")
            if ctx.fails:
                raise Abort
            xs.append(a)
    ctx.check(all(np.array_equal(a, b) for a, b in zip(args, kept)), "inputs", "the draw modified its parameters")
    ctx.check(repr(np.random.get_state()) == g0, "global generator", "numpy's global generator was used")
    ctx.check(len(log) == ctx.n, "one draw per call", f"{len(log)} draws in {ctx.n} calls")
    bad, _, _ = rv.overlaps(log)
    if 0 not in want:
        ctx.check(not bad, "random numbers used twice", f"{bad[:3]}")
        ctx.check(len({a.tobytes() for a in xs}) == len(xs), "repeated draws", "")
    xs = np.stack(xs)
    ctx.distinct_arrays(np.asarray(h), np.asarray(z))
    for a in xs[:200]:
        ctx.distinct_arrays(a)
    ctx.sample(dict(h=h, z=z, size=size, first=xs[0]))
    if 0 in want:
        return
    hb, zb = np.broadcast_to(h, want).ravel(), np.broadcast_to(z, want).ravel()
    xs = xs.reshape(ctx.n, -1)
    cols, mu, mg = [], [], []
    stdz = []
    for j in range(xs.shape[1]):
        f, m = features(xs[:, j], float(hb[j]), float(zb[j]))
        cols += f
        mu += m
        mg += [0.03 if hb[j] <= 50 else 0.08] * len(f)
        a, b = moments(float(hb[j]), float(zb[j]))
        stdz.append(np.clip((xs[:, j] - a) / b, -4, 4))
    ps = margin_mean(np.stack(cols, 1), np.array(mu), np.array(mg))
    ctx.p("law", min(1.0, ps.min() * len(ps)))
    if len(stdz) > 1:
        w = np.stack(stdz, 1)
        w = w - w.mean(0)
        i, j = np.triu_indices(min(w.shape[1], 12), 1)
        ps = S.ttest_mean(w[:, i] * w[:, j], 0.0, R=4.0)
        ctx.p("elements are independent", min(1.0, ps.min() * len(ps)))
    w = stdz[0] - np.mean(stdz[0])
    ctx.p("draws are independent", float(S.ttest_mean(w[1:] * w[:-1], R=4.0)[0]))


def streams(ctx):
    """Seeds, generators, default arguments, precision, and use in loops."""
    rng = ctx.rng
    for i in range(ctx.n):
        seed = int(rng.integers(2**31))
        h, z = values(rng, (3,), True), values(rng, (3,), False)
        ctor = [np.random.default_rng, np.random.RandomState][i % 2]
        out = []
        for s in (seed, seed, seed + 1):
            with ctx.target("build and compile"):
                srng = RandomStream(s, rng_ctor=ctor)
                a, b = srng.gen(polyagamma, h, z), srng.gen(polyagamma, h, z)
                fn = aesara.function([], [a, b], mode="FAST_COMPILE")
            with ctx.target("draw"):
                out.append([np.array(v) for _ in range(3) for v in fn()])
            ctx.event("executions", 6)
        same = all(np.array_equal(p, q) for p, q in zip(out[0], out[1]))
        ctx.check(same, "same seed", lambda: f"{out[0][:2]} and {out[1][:2]}")
        allv = [v.tobytes() for v in out[0] + out[2]]
        ctx.check(len(set(allv)) == len(allv), "other stream, call or seed", lambda: f"equal draws: {out[0]}, {out[2]}")
        with ctx.target("re-seeding"):
            srng = RandomStream(seed, rng_ctor=ctor)
            x = srng.gen(polyagamma, h, z)
            fn = aesara.function([], x, mode="FAST_COMPILE")
            p = [fn(), fn()]
            srng.seed(seed)
            q = [fn(), fn()]
            srng.seed(seed)
        ctx.check(all(np.array_equal(u, v) for u, v in zip(p, q)), "re-seeding", lambda: f"{p} and {q}")
        # without updates the stream doesn't move
        with ctx.target("no updates"):
            fn0 = aesara.function([], x, no_default_updates=True, mode="FAST_COMPILE")
            u, v = fn0(), fn0()
        ctx.check(np.array_equal(u, v), "functional draw", lambda: f"a draw moved the generator it was given: {u} and {v}")
        # a loop
        k = 4
        with ctx.target("scan"):
            srng = RandomStream(seed)
            ys, up = aesara.scan(lambda zz: srng.gen(polyagamma, h, zz), sequences=[at.as_tensor(np.tile(np.asarray(z, float), (k, 1)))])
            w = aesara.function([], ys, updates=up, mode="FAST_COMPILE")
            w1, w2 = w(), w()
        ctx.check(w1.shape == (k, 3) and len({r.tobytes() for r in np.concatenate([w1, w2])}) == 2 * k, "draws in a loop", lambda: f"{w1}, {w2}")
        ctx.event("executions", 2 * k + 6)
        ctx.distinct(seed)
    # default arguments and float32
    srng = RandomStream(int(rng.integers(2**31)))
    with ctx.target("default arguments"):
        x = aesara.function([], srng.gen(polyagamma, size=(2000,)))()
    f, m = features(x, 1.0, 0.0)
    ps = margin_mean(np.stack(f, 1), np.array(m), 0.03)
    ctx.p("default arguments", min(1.0, ps.min() * len(ps)))
    old = aesara.config.floatX
    try:
        aesara.config.floatX = "float32"
        with ctx.target("float32"):
            y = srng.gen(polyagamma, np.array([2.0, 1.0], "float32"), np.array([0.5, 30.0], "float32"))
            v = aesara.function([], y)()
    finally:
        aesara.config.floatX = old
    ctx.check(y.type.dtype == "float32" and v.dtype == np.float32 and v.shape == (2,) and np.all(v > 0), "float32", f"{y.type}, {v!r}")
    for bad in (0.0, -1.0, np.array([1.0, 0.0]), np.array([2.0, -0.5])):
        for zz in (0.0, 30.0):
            try:
                r = aesara.function([], srng.gen(polyagamma, bad, zz))()
            except ValueError:
                ctx.event("rejected")
                continue
            ctx.check(np.any(np.isnan(r)), "invalid shape parameters", f"h={bad} gave {r}")
    ctx.require("rejected")


def tasks(tier):
    q = tier == "quick"
    out = [Task(f"law {k}", law, 2500 if q else 20000, k=k) for k in range(len(SHAPES) * (6 if q else 30))]
    out += [Task(f"law {e} {k}", law, 2500 if q else 20000, k=k, ends=e) for e in ("int8", "uint8", "int16") for k in (1, 2, 3, 8)]
    out += [Task(f"streams {k}", streams, 5 if q else 30) for k in range(2 if q else 8)]
    return out
