from .common import *
import types, builtins
import ripplegw
from vc.ring import Undecided

TITLE = "padding lengths complete the frequency grid"
EPS = 2.0**-53
K = 2**24                   # the rounding analysis covers grids up to this many multiples of the spacing


class Fl:
    """A float64 that is df^p * (a0 k0 + a1 k1 + a2) / (b0 k0 + b1 k1 + b2) up to a relative error `rel`, for integers
    0 <= k0 < k1, 2 <= k1 <= K and a spacing df > 0 (no overflow or underflow); rel == 0 and p == 0: that number exactly"""

    def __init__(self, num, den=(0, 0, 1), p=0, rel=0.0, ab=None):
        num, den = tuple(map(Fraction, num)), tuple(map(Fraction, den))
        if not any(num):
            den, p = (Fraction(0), Fraction(0), Fraction(1)), 0
        else:                # proportional: cancel
            i = next(i for i in range(3) if den[i])
            q = num[i] / den[i]
            if all(n == q * d for n, d in zip(num, den)):
                num, den = (0, 0, q), (0, 0, 1)
            elif not any(den[:2]):
                num, den = tuple(n / den[2] for n in num), (0, 0, 1)
        self.num, self.den, self.p, self.rel = tuple(map(Fraction, num)), tuple(map(Fraction, den)), p, rel
        # absolute error, in units of df^p
        own = self.hi(self.num) * rel / self.lo(self.den) if self.lo(self.den) else (0.0 if rel == 0 else INF)
        self.ab = own if ab is None else min(ab, own)

    @staticmethod
    def of(x):
        if isinstance(x, Fl):
            return x
        if isinstance(x, (bool, int, float, np.integer, np.floating)):
            return Fl((0, 0, Fraction(x)))
        raise Undecided("a value of type %s" % type(x).__name__)

    # the corners of the domain of (k0, k1); linear functions take their extremes there
    CORNERS = [(0, 2), (1, 2), (0, K), (K - 1, K)]

    @staticmethod
    def hi(l):
        return max(abs(float(l[0] * x + l[1] * y + l[2])) for x, y in Fl.CORNERS)

    @staticmethod
    def lo(l):
        v = [float(l[0] * x + l[1] * y + l[2]) for x, y in Fl.CORNERS]
        return min(map(abs, v)) if min(v) * max(v) > 0 else 0.0

    def int_valued(self):
        return self.p == 0 and self.den == (0, 0, 1) and all(c.denominator == 1 for c in self.num)

    def add(self, o, s):
        o = Fl.of(o)
        if not any(self.num):
            return Fl(tuple(s * c for c in o.num), o.den, o.p, o.rel)
        if not any(o.num):
            return self
        if self.p != o.p or self.den != o.den:
            raise Undecided("a sum of unlike quantities")
        n = tuple(a + s * b for a, b in zip(self.num, o.num))
        if self.rel == o.rel == 0 and self.int_valued() and o.int_valued():
            return Fl(n)                                    # integers below 2^53
        if self.den != (0, 0, 1):
            raise Undecided("a sum of quotients")
        ab = (self.ab + o.ab) * 1.01 + EPS * Fl.hi(n)
        d = Fl.lo(n) if any(n) else 0.0
        return Fl(n, self.den, self.p, ab / d if d else INF, ab)

    def __add__(self, o): return self.add(o, 1)
    __radd__ = __add__
    def __sub__(self, o): return self.add(o, -1)
    def __rsub__(self, o): return Fl.of(o).add(self, -1)
    def __neg__(self): return Fl(tuple(-c for c in self.num), self.den, self.p, self.rel, self.ab)

    def __mul__(self, o):
        o = Fl.of(o)
        a, b = (self, o) if not any(o.num[:2]) and not any(o.den[:2]) else (o, self)
        if any(b.num[:2]) or any(b.den[:2]):
            if a.num == b.den:
                return Fl(b.num, a.den, a.p + b.p, (a.rel + b.rel + EPS) * 1.01)
            if a.den == b.num:
                return Fl(a.num, b.den, a.p + b.p, (a.rel + b.rel + EPS) * 1.01)
            raise Undecided("a product of two grid-dependent quantities")
        exact = a.rel == b.rel == 0 and a.int_valued() and b.int_valued()
        return Fl(tuple(c * b.num[2] for c in a.num), a.den, a.p + b.p, 0.0 if exact else (a.rel + b.rel + EPS) * 1.01)
    __rmul__ = __mul__

    def inv(self):
        if not Fl.lo(self.num):
            raise Undecided("a division by something that may vanish")
        return Fl(self.den, self.num, -self.p, self.rel / (1 - self.rel) if self.rel < .5 else 1e9)

    def __truediv__(self, o):
        return self * Fl.of(o).inv()

    def __rtruediv__(self, o):
        return Fl.of(o) * self.inv()

    # rounding and truncation
    def nearest(self, *a):
        if not self.int_valued():
            raise Undecided("rounding of something that need not be close to an integer")
        if not self.ab < 0.49:
            raise Undecided("rounding of a number whose error may reach 1/2")
        return Fl(self.num)
    __round__ = round = nearest

    def trunc(self, *a):
        if self.int_valued() and self.rel == 0:
            return self
        if any(self.num) or self.rel:
            raise Undecided("truncation of a quotient that may lie just below its integer value")
        return self
    __int__ = __trunc__ = __index__ = None

    def astype(self, t, *a, **k):
        if t is not int and "int" not in str(t):
            return self
        return self.trunc()

    def item(self): return self
    def __mod__(self, o): return Fork(self)
    __rmod__ = __mod__
    def __ne__(self, o): return Fork(self)
    def __eq__(self, o): return Fork(self)
    __lt__ = __gt__ = __le__ = __ge__ = __eq__
    __hash__ = None
    def __abs__(self): return self if Fl.lo(self.num) else Fl(self.num, self.den, self.p, self.rel)


class Fork:
    """a condition: both outcomes are followed"""
    path, pos = [], 0

    def __init__(self, *a): pass

    def __bool__(self):
        if Fork.pos == len(Fork.path):
            Fork.path.append(True)
        Fork.pos += 1
        return Fork.path[Fork.pos - 1]
    def all(self, *a): return self
    any = all
    def __ne__(self, o): return self
    __eq__ = __lt__ = __gt__ = __le__ = __ge__ = __and__ = __or__ = __ne__
    __rand__ = __ror__ = __ne__
    def __invert__(self): return self
    def __mod__(self, o): return self
    def __abs__(self): return self
    def __sub__(self, o): return self
    __rsub__ = __add__ = __radd__ = __mul__ = __rmul__ = __sub__
    __hash__ = None


class Even(Fork):
    """the statement that the grid is evenly spaced: true on the domain"""
    def __bool__(self): return True
    def __invert__(self): raise Undecided("negated grid test")


class Grid:
    """fs[i] = fl(df (k0 + i)), i = 0 .. k1 - k0"""
    ndim = 1
    n = Fl((-1, 1, 1))
    size = n
    shape = (n,)

    def __getitem__(self, i):
        if isinstance(i, int) and -1 <= i <= 1:
            return Fl((1, 0, i) if i >= 0 else (0, 1, 0), p=1, rel=EPS)
        raise Undecided("grid entry %r" % (i,))


class Zeros:
    def __init__(self, n):
        if isinstance(n, (tuple, list)):
            if len(n) != 1:
                raise Undecided("shape")
            n = n[0]
        self.n = Fl.of(n)
        if not (self.n.rel == 0 and self.n.int_valued()):
            raise Undecided("a length that is not an exact integer")


class Np:
    """array library: what the function uses of it"""
    int32 = int64 = int_ = int
    float64 = float32 = float

    array = asarray = staticmethod(lambda x, *a, **k: (x.astype(k.get("dtype", a[0] if a else float)) if isinstance(x, Fl) else x))
    round = rint = around = staticmethod(lambda x, *a: Fl.of(x).nearest())
    trunc = floor = fix = staticmethod(lambda x: Fl.of(x).trunc())
    abs = staticmethod(abs)
    diff = staticmethod(lambda x: Even())
    allclose = isclose = all = any = mod = remainder = staticmethod(lambda *a, **k: Even() if any(isinstance(x, Even) for x in a) else Fork())
    zeros = staticmethod(lambda n, *a, **k: Zeros(n))

    def __getattr__(self, n):
        raise Undecided("array function " + n)


class Quiet:
    def __getattr__(self, n):
        return lambda *a, **k: None


def execute():
    """all paths of the function's own code on the symbolic grid"""
    src = ripplegw.get_eff_pads
    src = getattr(src, "__wrapped__", src)
    G = dict(src.__globals__)
    for k, v in list(G.items()):
        if isinstance(v, types.FunctionType) and v.__globals__ is src.__globals__:
            G[k] = types.FunctionType(v.__code__, G, v.__name__, v.__defaults__, v.__closure__)
    old_len = builtins.len
    G.update(jnp=Np(), np=Np(), warnings=Quiet(), len=lambda x: x.n if isinstance(x, Grid) else old_len(x), round=lambda x, *a: Fl.of(x).nearest(),
             float=lambda x: x, int=IntLike)
    fn = types.FunctionType(src.__code__, G, src.__name__, src.__defaults__, src.__closure__)
    outs, Fork.path = [], []
    for _ in range(256):
        Fork.pos = 0
        outs.append(fn(Grid()))
        while Fork.path and not Fork.path[-1]:
            Fork.path.pop()
        if not Fork.path:
            return outs
        Fork.path[-1] = False
    raise Undecided("too many paths")


class _M(type):
    def __call__(cls, x=0):
        return Fl.of(x).trunc()

    def __str__(cls):
        return "int"


class IntLike(metaclass=_M):
    pass


def one(k0, k1, df):
    import warnings
    import jax.numpy as jnp
    fs = df * jnp.arange(k0, k1 + 1)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        a, b = ripplegw.get_eff_pads(fs)
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != (k0,) or b.shape != (k1 - 2,) or a.any() or b.any():
        return {"k0": k0, "k1": k1, "df": df, "lengths": [list(a.shape), list(b.shape)]}
    return None


class Pads:
    def replay(self, ce):
        r = one(ce["k0"], ce["k1"], ce["df"])
        return bool(r), r

    def __call__(self, job):
        """get_eff_pads on every grid fs[i] = fl(df (k0+i)), 0 <= k0 < k1 <= 2^24, k1 >= 2, in float64 with rounding errors of every
        operation: the lengths are exactly k0 and k1 - 2"""
        rng = np.random.default_rng(SEED)
        n = 0
        for i in range(40 if TIER == "quick" else 1500):
            k0 = int(rng.integers(0, 60)) if i % 5 else 0
            k1 = k0 + int(rng.integers(max(2 - k0, 1), 500))
            df = [0.1, 0.125, 1 / 3, float(rng.uniform(.01, 2)), 0.3, float(np.exp(rng.uniform(-9, 4)))][i % 6]
            n += 1
            ce = one(k0, k1, df)
            if ce:
                break
        err = None
        try:
            outs = execute()
            for o in outs:
                if not (isinstance(o, (tuple, list)) and len(o) == 2 and all(isinstance(x, Zeros) for x in o)):
                    raise Undecided("the function does not return two arrays of zeros")
                if o[0].n.num != (1, 0, 0) or o[1].n.num != (0, 1, -2):
                    raise Undecided("lengths %s k0 + %s k1 + %s and %s k0 + %s k1 + %s" % (*o[0].n.num, *o[1].n.num))
        except Undecided as ex:
            err = "undecided: %s" % ex
        except Exception as ex:
            err = "undecided: %s: %s" % (type(ex).__name__, ex)
        fns = ["ripplegw/__init__.py:get_eff_pads"]
        if ce:
            return Result(job.name, "violated", ce=ce, proof_error=err, explored_inputs=n, functions=fns)
        if err:
            return Result(job.name, "undecided", proof_error=err, explored_inputs=n, functions=fns)
        return Result(job.name, "proved", paths=len(outs), explored_inputs=n, functions=fns)


def obligations():
    return [Custom("C06.get_eff_pads", Pads(), "both pads are zero and have lengths k0 and k1 - 2")]
