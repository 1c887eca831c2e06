"""Values of the specification language: one text of a law is used both symbolically
(Sym, over ring.py) and on numbers (replay on the real code)."""
from __future__ import annotations
from decimal import Decimal
from fractions import Fraction
import math
import numpy as np
from .ring import Ring, Undecided, to_fraction, PI50


class Sym:
    __slots__ = ("R", "p")
    __array_priority__ = 1000

    def __init__(self, R, p):
        self.R, self.p = R, p

    def _o(self, x):
        if isinstance(x, Sym):
            return x.p
        if isinstance(x, np.ndarray) and x.ndim == 0:
            x = x[()]
        if isinstance(x, complex):
            return self.R.const(x)
        if x is PI:
            return self.R.const(PI50)
        return self.R.const(x if isinstance(x, (int, Fraction, Decimal)) else float(x))

    def __add__(self, o): return Sym(self.R, self.R.add(self.p, self._o(o)))
    __radd__ = __add__
    def __sub__(self, o): return Sym(self.R, self.R.sub(self.p, self._o(o)))
    def __rsub__(self, o): return Sym(self.R, self.R.sub(self._o(o), self.p))
    def __mul__(self, o): return Sym(self.R, self.R.mul(self.p, self._o(o)))
    __rmul__ = __mul__
    def __truediv__(self, o): return Sym(self.R, self.R.div(self.p, self._o(o)))
    def __rtruediv__(self, o): return Sym(self.R, self.R.div(self._o(o), self.p))
    def __neg__(self): return Sym(self.R, self.R.neg(self.p))

    def __pow__(self, r):
        return Sym(self.R, self.R.pow(self.p, r))

    def __repr__(self):
        return "Sym(" + self.R.show(self.p) + ")"


PI = math.pi


def _d(name, sym, num):
    def f(x):
        if isinstance(x, Sym):
            return Sym(x.R, getattr(x.R, sym)(x.p))
        return num(x)
    f.__name__ = name
    return f


exp = _d("exp", "exp", np.exp)
log = _d("log", "log", np.log)
sqrt = _d("sqrt", "sqrt", np.sqrt)
cos = _d("cos", "cos", np.cos)
sin = _d("sin", "sin", np.sin)
absv = _d("absv", "abs", np.abs)
conj = _d("conj", "conj", np.conj)
re = _d("re", "re", np.real)
im = _d("im", "im", np.imag)


def cis(x):
    """exp(i x)"""
    if isinstance(x, Sym):
        return Sym(x.R, x.R.cis(x.p))
    return np.exp(1j * np.asarray(x))


def pos(x):
    """1 where x > 0, else 0"""
    if isinstance(x, Sym):
        return Sym(x.R, x.R.ind(x.p, "gt"))
    return (np.asarray(x) > 0) * 1.0


def nonneg(x):
    """1 where x >= 0, else 0"""
    if isinstance(x, Sym):
        return 1 - Sym(x.R, x.R.ind(x.p, "lt"))
    return (np.asarray(x) >= 0) * 1.0


def is_sym(x):
    return isinstance(x, Sym)


def powr(x, n, d=1):
    """x**(n/d)"""
    if isinstance(x, Sym):
        return x ** Fraction(n, d)
    return np.power(x, n / d)
