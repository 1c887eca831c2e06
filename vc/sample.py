"""Inputs for the replay of laws on the real code (exploration and counterexample search)."""
from __future__ import annotations
import math, zlib
import numpy as np

GT = 4.925490947641267e-06     # only used to place sample frequencies


class Vals(dict):
    """Lazily drawn named inputs, (B,1) arrays; frequencies (B,n)."""

    def __init__(self, B, n, seed, generic=False, over=None):
        super().__init__()
        self.B, self.n, self.seed, self.generic = B, n, seed, generic
        self.over = over or {}

    def rng(self, name):
        return np.random.default_rng([self.seed, zlib.crc32(name.encode())])

    def __missing__(self, name):
        if name in self.over:
            v = self.over[name](self, self.rng(name))
        else:
            v = self.draw(name)
        self[name] = v
        return v

    def draw(self, name):
        r = self.rng(name)
        B = self.B
        u = r.random((B, 1))
        k = r.integers(0, 10, (B, 1))
        g = self.generic
        logu = lambda a, b: np.exp(np.log(a) + (np.log(b) - np.log(a)) * u)
        lin = lambda a, b: a + (b - a) * u
        if name == "Mc":
            return logu(1.2, 60.0) if g else logu(0.5, 200.0)
        if name == "eta":
            v = 0.25 - 0.19 * u ** 2
            if not g:
                v = np.where(k == 0, 0.25, np.where(k == 1, 0.02 + 0.05 * u, np.where(k == 2, 0.25 - 1e-6 * u, v)))
            return v
        if name in ("chi1", "chi2"):
            v = lin(-0.95, 0.95)
            if not g:
                v = np.where(k == 0, 0.0, np.where(k == 1, 1.0, np.where(k == 2, -1.0, v)))
                if name == "chi2":
                    v = np.where(k == 3, self["chi1"], v)
            return v
        if name[:2] in ("s1", "s2") and len(name) == 3:
            v = lin(-0.55, 0.55)
            if not g:
                v = np.where(k == 0, 0.0, v)
            return v
        if name in ("lam1", "lam2", "lam"):
            v = logu(1.5, 4000.0) if g else logu(1.5, 12000.0)
            if not g:
                v = np.where(k == 0, 0.0, np.where(k == 1, u, v))
            return v
        if name == "D":
            return logu(10.0, 5000.0) if g else logu(0.02, 2e4)
        if name == "tc":
            return lin(-2.0, 2.0) if g else np.where(k == 0, 0.0, lin(-2.0, 2.0))
        if name == "phic":
            return lin(-3.0, 6.0) if g else np.where(k == 0, 0.0, lin(-12.0, 12.0))
        if name == "iota":
            v = lin(0.1, 3.0)
            return v if g else np.where(k == 0, 0.0, np.where(k == 1, math.pi / 2, v))
        if name in ("m1", "m2", "m"):
            return logu(0.8, 90.0)
        if name == "s":
            return logu(0.4, 2.5)
        if name == "d":
            return lin(-1.5, 1.5)
        if name in ("fref", "fref2"):
            return self.mf(u if g else np.where(k == 0, 1.0, u)[:, :], 2e-3, 0.12)
        if name.startswith("f") or name.startswith("g"):
            uu = r.random((B, self.n))
            kk = r.integers(0, 6, (B, self.n))
            lo, hi = 2e-4, 0.35
            x = lo * (hi / lo) ** uu
            if not g:
                x = np.where(kk == 0, 0.01 + 0.19 * uu, x)
            else:
                x = 0.002 * (0.19 / 0.002) ** uu
            return x / self.M()
        if name == "q":
            return lin(0.05, 1.0)
        return lin(-1.0, 1.0)

    def M(self):
        return self["Mc"] * self["eta"] ** -0.6 * GT

    def mf(self, u, lo, hi):
        return lo * (hi / lo) ** u / self.M()


def perturb(vals, rel, rng, names=None):
    """multiply every drawn input by 1 + rel * (uniform in [-1,1]) within its domain"""
    out = Vals(vals.B, vals.n, vals.seed, vals.generic, vals.over)
    for k, v in vals.items():
        w = v * (1 + rel * (2 * rng.random(np.shape(v)) - 1))
        if k == "eta":
            w = np.minimum(w, 0.25)
        if k in ("chi1", "chi2", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z"):
            w = np.clip(w, -1, 1)
        out[k] = w
    return out


def take(vals, i, rep):
    out = Vals(rep, vals.n, vals.seed, vals.generic, vals.over)
    for k, v in vals.items():
        out[k] = np.repeat(np.asarray(v)[i:i + 1], rep, axis=0)
    return out
