"""Random Aesara graphs of random variables.

The expressions cover elementwise operations with broadcasting, constants of all
shapes, shared variables, dimshuffles, reductions, products, indexing and casts:
whatever canonicalization and the subsumption of dimshuffles have to deal with.
"""
import aesara
import aesara.tensor as at
import numpy as np

SHAPES = [(), (3,), (2, 3), (1, 3), (2, 1), (1,)]


def bcast(a, b):
    try:
        return np.broadcast_shapes(a, b)
    except ValueError:
        return None


class Graph:
    """`rvs` (name -> variable), `free` (name -> variable, value)."""

    def __init__(self, seed, srng):
        self.r = np.random.default_rng([seed, 4242])
        self.srng = srng
        self.free, self.rvs, self.shape = {}, {}, {}
        self.pool = []
        r = self.r
        for i in range(int(r.integers(2, 5))):
            self.leaf()
        for i in range(int(r.integers(1, 5))):
            self.rv(f"v{i}")
        for i in range(int(r.integers(1, 3))):
            self.rv(f"Y{i}", obs=True)
        self.obs = [k for k in self.rvs if k[0] == "Y"]

    def add(self, v, shape):
        self.pool.append((v, tuple(shape)))
        return v, tuple(shape)

    def leaf(self):
        r = self.r
        sh = SHAPES[r.integers(len(SHAPES))]
        kind = r.integers(4)
        val = np.round(r.normal(size=sh), 2)
        if kind == 0:
            val = r.choice([0.0, 1.0, -1.0, 2.0, 0.5, -2.0], size=sh) if r.random() < 0.5 else val
            return self.add(at.as_tensor(val), sh)
        if kind == 1:
            v = aesara.shared(np.asarray(val), name=f"s{len(self.pool)}", shape=sh)
            return self.add(v, sh)
        nm = f"x{len(self.free)}"
        if r.random() < 0.5:
            v = at.tensor("float64", shape=sh, name=nm)
        else:
            v = at.tensor("float64", shape=tuple(1 if d == 1 else None for d in sh), name=nm)
        self.free[nm] = (v, val)
        return self.add(v, sh)

    def const(self):
        r = self.r
        c = [0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 3.0][r.integers(7)]
        k = r.integers(4)
        if k == 0:
            return c, ()
        if k == 1:
            return int(c), ()
        sh = SHAPES[r.integers(len(SHAPES))]
        v = np.full(sh, c) if k == 2 else np.round(r.normal(size=sh), 2)
        return at.as_tensor(v), sh

    def atom(self):
        r = self.r
        if r.random() < 0.3 or not self.pool:
            return self.const()
        # prefer random variables
        if self.rvs and r.random() < 0.6:
            k = list(self.rvs)[r.integers(len(self.rvs))]
            if k[0] == "v":
                return self.rvs[k], self.shape[k]
        return self.pool[r.integers(len(self.pool))]

    def expr(self, depth):
        r = self.r
        if depth == 0 or r.random() < 0.1:
            return self.atom()
        x, sx = self.expr(depth - 1)
        kind = r.integers(16)
        if kind < 8:  # n-ary
            y, sy = self.expr(depth - 1) if r.random() < 0.5 else self.atom()
            out = bcast(sx, sy)
            if out is None:
                y, sy = self.const()
                out = bcast(sx, sy)
                if out is None:
                    y, sy, out = 2.0, (), sx
            op = r.integers(14)
            if op in (0, 1):
                v = x + y
            elif op in (2, 3):
                v = x * y
            elif op == 4:
                v = x - y
            elif op == 5:
                v = x / (1.0 + at.sqr(y))
            elif op == 6:
                v = at.maximum(x, y)
            elif op == 7:
                v = at.minimum(x, y)
            elif op == 8:
                v = at.switch(at.gt(x, y), x, 0.5)
            elif op == 9:
                v = at.switch(at.lt(x, 0.1), 1.0, y)
            elif op == 10:
                v = (0.5 + at.sqr(x)) ** at.tanh(y)
            elif op == 11:
                v = at.arctan2(x, 1.0 + at.sqr(y))
            elif op == 12:
                z, sz = self.atom()
                o2 = bcast(out, sz)
                if o2 is None:
                    z, o2 = 1.5, out
                out = o2
                v = at.add(x, y, z) if r.random() < 0.5 else at.mul(x, y, z)
            else:
                v = at.and_(at.gt(x, 0), at.lt(y, 1)) + x
            return v, out
        x = at.as_tensor(x)
        if kind == 8:
            return [at.neg, at.sqr, at.tanh, at.sigmoid, at.abs][r.integers(5)](x), sx
        if kind == 9:
            return [lambda v: at.exp(at.tanh(v)), lambda v: at.log1p(at.sqr(v)), lambda v: 1.0 / (1.0 + at.exp(v)), lambda v: 1 - v, lambda v: -1 * v,
                    lambda v: at.sqrt(at.abs(v)), lambda v: 0.0 * v, lambda v: at.cast(at.cast(3 * v, "int32"), "float64"), lambda v: 1.0 * v,
                    lambda v: at.log(at.exp(v)), lambda v: at.clip(v, -0.5, 0.7)][r.integers(11)](x), sx
        if kind == 10:
            red = [at.sum, at.mean, at.max, at.prod][r.integers(4)]
            if not sx:
                return red(x), ()
            ax = int(r.integers(len(sx)))
            keep = bool(r.random() < 0.4)
            out = tuple(1 if i == ax else d for i, d in enumerate(sx)) if keep else sx[:ax] + sx[ax + 1:]
            return red(x, axis=ax, keepdims=keep), out
        if kind == 11 and len(sx) == 2:
            y = at.as_tensor(np.round(r.normal(size=(sx[1], 3)), 1))
            return x @ y, (sx[0], 3)
        if kind == 11 and sx == (3,):
            X = np.round(r.normal(size=(2, 3)), 1)
            return (at.as_tensor(X) @ x)[:, None], (2, 1)
        if kind == 12 and len(sx) < 2:
            if len(sx) == 0:
                return x.dimshuffle("x"), (1,)
            if sx == (1,):
                return x.dimshuffle("x", 0), (1, 1)
            return x.dimshuffle("x", 0), (1, 3)
        if kind == 13 and len(sx) == 2:
            t = (sx[1], sx[0])
            y = x.dimshuffle(1, 0)
            if bcast(t, (2, 3)) is None:
                return y[:1, :1], (1, 1)
            return y, t
        if kind == 14 and sx and sx[-1] == 3:
            return [(x[..., ::-1], sx), (x[..., 0], sx[:-1]), (x[..., 1:2], sx[:-1] + (1,))][r.integers(3)]
        if kind == 15:
            sh = [s for s in SHAPES if bcast(s, sx) == s]
            sh = sh[r.integers(len(sh))] if sh else sx
            return (at.alloc(x, *sh), sh) if r.random() < 0.5 else (at.fill(at.as_tensor(np.zeros(sh)), x), sh)
        return at.tanh(x), sx

    def rv(self, nm, obs=False):
        r = self.r
        depth = int(r.integers(0, 4))
        m, sm = self.expr(depth)
        s, ss = self.expr(int(r.integers(0, 3)))
        if bcast(sm, ss) is None:
            s, ss = 1.0, ()
        s = 0.3 + at.tanh(at.sqr(s))
        m = 2 * at.tanh(at.as_tensor(m) / 2)
        out = bcast(sm, ss)
        size = None
        if r.random() < 0.3:
            ok = [t for t in SHAPES + [(3, 2, 3)] if bcast(t, out) == t and (obs or len(t) < 3)]
            if ok:
                size = out = ok[r.integers(len(ok))]
                if size == ():
                    size = None
        kind = r.integers(4)
        if kind <= 1:
            v = self.srng.normal(m, s, size=size, name=nm)
        elif kind == 2:
            v = self.srng.gamma(0.5 + at.sqr(m), s, size=size, name=nm)
        else:
            v = self.srng.laplace(m, s, size=size, name=nm)
        self.rvs[nm], self.shape[nm] = v, tuple(out)
        if not obs and len(out) <= 2:
            self.add(v, out)
