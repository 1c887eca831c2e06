from .common import *
import contextlib
import jax

TITLE = "parameter samplers stay in range and respect the ordering"
S1, S2 = "ripplegw:get_M_eta_sampler", "ripplegw:get_m1_m2_sampler"


@contextlib.contextmanager
def contract(us):
    """jax.random.uniform replaced by its contract: each entry of the result is
    minval + (maxval - minval) u with an unknown u in [0, 1)"""
    import jax.random as jr
    import jax.numpy as jnp
    old, calls = jr.uniform, []

    def uniform(key, shape=(), dtype=float, minval=0.0, maxval=1.0, **kw):
        shape = tuple(shape)
        k = int(np.prod(shape[1:], dtype=int)) if len(shape) > 1 else 1
        off = sum(calls)
        calls.append(k)
        if off + k > us.shape[1]:
            raise Undecided("more random draws than the sampler's output needs")
        u = us[:, off:off + k]
        u = u.reshape(shape) if len(shape) > 1 else u[:, 0]
        minval, maxval = jnp.asarray(minval), jnp.asarray(maxval)
        return minval + (maxval - minval) * u
    jr.uniform = uniform
    try:
        yield calls
    finally:
        jr.uniform = old


def sampled(M, which):
    """rows of the sampler's output for ranges [a, a + w], [b, b + v]; n is symbolic"""
    a, w, b, v = M.var("a"), M.var("w", 0, INF), M.var("b"), M.var("v", 0, INF)
    u1, u2 = M.lane("u1", 0, 1), M.lane("u2", 0, 1)
    n = X.symdim()

    key = jax.random.PRNGKey(0)

    def fn(r, us):
        with contract(us):
            s = resolve(which)((r[0], r[1]), (r[2], r[3]))
            return s(key, n)
    from vc.machine import trace_paths, run_paths
    paths = trace_paths(fn, (X.sds((4,)), X.sds((n, 2))))
    for _, cj in paths:
        sh = cj.out_avals[0].shape
        if len(sh) != 2 or str(sh[0]) != "n" or sh[1] != 2:
            raise Undecided("the sampler's output has shape %s, not (n, 2)" % (sh,))
    us = np.empty((1, 2), object)
    us[0, 0], us[0, 1] = u1.p, u2.p
    out, = run_paths(M.ev, paths, [M.arr([a, a + w, b, b + v], (4,)), us])
    x, y = a + w * u1, b + v * u2
    return Sym(M.R, out[0, 0]), Sym(M.R, out[0, 1]), x, y


def mx(M, x, y):
    R = M.R
    c = R.lt(x.p, y.p)
    return Sym(R, R.ite(c, y.p, x.p)), Sym(R, R.ite(c, x.p, y.p))


def law1(M):
    """every row is (a + w u1, b + v u2), u in [0, 1): first entry in [a, a+w], second in [b, b+v]"""
    p, q, x, y = sampled(M, S1)
    return [(p, x), (q, y)]


def law2(M):
    """every row is (max, min) of a + w u1 and b + v u2: a reordering of one draw per range, larger first"""
    p, q, x, y = sampled(M, S2)
    hi, lo = mx(M, x, y)
    return [(p, hi), (q, lo)]


RANGES = [((1., 2.), (3., 9.)), ((5., 50.), (1., 3.)), ((10., 60.), (10., 60.)), ((2., 40.), (.05, .25)), ((0.5, 0.5), (1., 1.)), ((1., 80.), (20., 21.)), ((-3., 4.), (-5., -1.)), ((1., 2.), (2., 8.))]


def replay(which, ordered):
    def f(self):
        import jax, jax.numpy as jnp
        n_in = 0
        reps = 3 if TIER == "quick" else 40
        for (r1, r2) in RANGES:
            for dt in (False,):
                s = resolve(which)(r1, r2)
                for k in range(reps):
                    for n in (1, 2, 3, 200):
                        out = np.asarray(s(jax.random.PRNGKey(1000 * SEED + k), n))
                        n_in += n
                        eps = 1e-6 * (abs(r1[0]) + abs(r1[1]) + abs(r2[0]) + abs(r2[1]))
                        inr = lambda z, r: (z >= r[0] - eps) & (z <= r[1] + eps)
                        ok = out.shape == (n, 2) and bool(np.all(np.isfinite(out)))
                        if ok and not ordered:
                            good = inr(out[:, 0], r1) & inr(out[:, 1], r2)
                        elif ok:
                            good = (out[:, 0] >= out[:, 1]) & ((inr(out[:, 0], r1) & inr(out[:, 1], r2)) | (inr(out[:, 0], r2) & inr(out[:, 1], r1)))
                        if not ok or not good.all():
                            i = 0 if not ok else int(np.nonzero(~good)[0][0])
                            return {"ranges": [r1, r2], "key": 1000 * SEED + k, "n": n, "row": i, "shape": list(out.shape), "draw": out[i].tolist() if ok else None}, n_in
        return None, n_in
    return f


class Sampler(Law):
    def __init__(self, name, law, which, ordered):
        super().__init__(name, law, numeric=False, box={})
        self.real = replay(which, ordered)

    def run(self):
        r = super().run()
        try:
            ce, n = self.real(self)
        except Exception as ex:
            ce, n = {"exception": repr(ex)[:300]}, 0
        r["explored_inputs"] = n
        if ce:
            r.update(status="violated", ce=ce)
        return r

    def replay(self, ce):
        c, n = self.real(self)
        return bool(c), str(c)


def obligations():
    return [Sampler("C04.chirp_sampler", law1, S1, False), Sampler("C04.ordered_sampler", law2, S2, True)]
