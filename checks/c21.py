from .common import *
from vc.check import Ineq
import jax, jax.numpy as jnp

TITLE = "the tidal taper"
Q = "ripplegw.waveforms.IMRPhenomD_NRTidalv2:get_planck_taper"
A = Fraction(6, 5)


def plain(fn):
    """the window itself, without the derivative rule attached to it"""
    while isinstance(fn, (jax.custom_jvp, jax.custom_vjp)):
        fn = fn.fun
    return fn


def rep_y(fn):
    return lambda x, y: jax.jvp(lambda b: fn(x, b), (y,), (1.0,))[1]


def true_y(fn):
    return rep_y(plain(fn))


def true_x(fn):
    g = plain(fn)
    return lambda x, y: jax.jvp(lambda b: g(b, y), (x,), (1.0,))[1]


def xy(M):
    y = M.var("y", 0, INF, True)
    return M.var("x", 0, INF, True), y


def below(M):
    """the window is 1 below y and the reported derivative is 0"""
    x, y = xy(M)
    w, d = M.call(Q, x, y), M.call(Q, x, y, wrap=rep_y, tag="ry")
    return [(w, 0 * x + 1), (d, 0 * x)]


def above(M):
    """the window is exactly 0 from 1.2 y on and the reported derivative is 0"""
    x, y = xy(M)
    w, d = M.call(Q, x, y), M.call(Q, x, y, wrap=rep_y, tag="ry")
    return [(w, 0 * x), (d, 0 * x)]


def tangent(M):
    """the reported derivative with respect to y is the derivative of the window"""
    x, y = xy(M)
    return [(M.call(Q, x, y, wrap=rep_y, tag="ry"), M.call(Q, x, y, wrap=true_y, tag="ty"))]


def band(M):
    t, y = M.var("t", 0, 1, True), M.var("y", 0, INF, True)
    return y * (1 + t / 5), y, t


def inside(M):
    """strictly between 0 and 1, decreasing in the frequency, all over y < x < 1.2 y"""
    x, y, t = band(M)
    w = M.call(Q, x, y)
    d = M.call(Q, x, y, wrap=true_x, tag="tx")
    return [1 - w, w / (1 - w), -d * y]


def edges(self):
    """bounded: both ends of the band, to the last bit: defined, in [0, 1], derivative 0"""
    fn = resolve(Q)
    rng = np.random.default_rng(SEED)
    y = np.concatenate([np.exp(rng.uniform(-8, 9, 400)), [1.0, 1000.0, 1024.0, 1e-3, 1234.5, 2137.0]])
    yp = 1.2 * y
    d = rep_y(fn)
    f = jax.jit(jax.vmap(fn)), jax.jit(jax.vmap(d))
    n = 0
    for nm, x, want, tol in (("x = y", y, 1.0, 1e-9), ("x = 1.2 y", yp, 0.0, 0.0), ("x = y (1+ulp)", np.nextafter(y, INF), 1.0, 1e-9),
                             ("x = y (1-ulp)", np.nextafter(y, 0), 1.0, 0.0), ("x = 1.2 y (1-ulp)", np.nextafter(yp, 0), 0.0, 1e-9),
                             ("x = 1.2 y (1+ulp)", np.nextafter(yp, INF), 0.0, 0.0), ("x = 1.0001 y", y * 1.0001, 1.0, 1e-9), ("x = 1.1999 y", y * 1.1999, 0.0, 1e-9)):
        w, g = np.asarray(f[0](x, y)), np.asarray(f[1](x, y))
        n += len(y)
        bad = ~(np.abs(w - want) <= tol) | ~(np.abs(g) * y <= 1e-6)
        if bad.any():
            i = int(np.nonzero(bad)[0][0])
            e = float(fn(jnp.asarray(x[i]), jnp.asarray(y[i]))), float(d(jnp.asarray(x[i]), jnp.asarray(y[i])))
            return Result(self.name, "violated", level="bounded", bound="%d points" % n,
                          ce={"inputs": {"x": float(x[i]), "y": float(y[i])}, "where": nm, "window": e[0], "expected": want, "derivative": e[1]}, functions=[Q])
    # arrays: the grid holds points of every region at once
    g = np.concatenate([np.linspace(0.2, 2.2, 4001), [1.0, 1.2, np.nextafter(1.0, 2), np.nextafter(1.2, 0)]])
    g.sort()
    for yy in (1.0, 877.0):
        w = np.asarray(fn(jnp.asarray(g * yy), yy))
        n += len(g)
        if not (np.isfinite(w).all() and (np.diff(w) <= 1e-15).all() and w.min() == 0.0 and w.max() == 1.0):
            i = int(np.argmax(np.diff(w)))
            return Result(self.name, "violated", level="bounded", bound="%d points" % n,
                          ce={"inputs": {"y": yy, "x": [g[i] * yy, g[i + 1] * yy]}, "window": [float(w[i]), float(w[i + 1])]}, functions=[Q])
    return Result(self.name, "proved", level="bounded", bound="%d points" % n, explored_inputs=n)


def O(lo, hi):
    return {"y": lambda v, r: np.exp(r.uniform(-5, 8, (v.B, 1))),
            "x": lambda v, r: v["y"] * np.where(r.random((v.B, 1)) < .5, r.uniform(lo, hi, (v.B, 1)), lo * (hi / lo) ** r.random((v.B, 1))),
            "t": lambda v, r: r.uniform(0.03, 0.97, (v.B, 1))}


def obligations():
    def c(*rel):
        def f(M):
            x, y = xy(M)
            t = {"x<y": (x - y, "lt"), "x=y": (x - y, "eq"), "x>y": (x - y, "gt"), "x<yp": (x - A * y, "lt"),
                 "x=yp": (x - A * y, "eq"), "x>yp": (x - A * y, "gt")}
            return [[t[k] for k in row] for row in rel]
        return f
    K = dict(lanes=("x", "y"), abs_floor=1e-300, box={"t": (0, 1)})
    return [Law("C21.below", below, cases=c(["x<y", "x<yp"]), over=O(0.05, 1.0), **K),
            Law("C21.above", above, cases=c(["x>y", "x=yp"], ["x>y", "x>yp"]), over=O(1.2, 9.0), **K),
            Law("C21.derivative", tangent, cases=c(["x>y", "x<yp"]), over=O(1.006, 1.194), **K),
            Ineq("C21.between_and_monotone", inside, over=O(1, 1.2), box={"t": (0, 1)}, lanes=("t",),
                 assume=lambda M: [(M.var("t", 0, 1, True), "gt"), (M.var("t", 0, 1, True) - 1, "lt")]),
            Custom("C21.ends", edges)]
