"""Outward-rounded interval evaluation of normal forms over many boxes at once, and
branch and bound on top of it.  Used to discharge inequalities over compact parameter
boxes (for all reals in the box, no sampling)."""
from __future__ import annotations
from decimal import Decimal
from fractions import Fraction
import math, time
import numpy as np
from .ring import Ring, Undecided, I_ID

INF = np.inf
EPS = 4 * np.finfo(float).eps


class IV:
    """Pairs of arrays lo, hi (outward rounded)."""
    __slots__ = ("lo", "hi")

    def __init__(self, lo, hi):
        self.lo, self.hi = lo, hi


def _out(lo, hi):
    lo = np.where(np.isnan(lo), -INF, lo)
    hi = np.where(np.isnan(hi), INF, hi)
    return IV(lo - EPS * np.abs(lo) - 1e-320, hi + EPS * np.abs(hi) + 1e-320)


def _fix(lo):
    return lo


def add(a, b):
    return _out(a.lo + b.lo, a.hi + b.hi)


def mul(a, b):
    with np.errstate(invalid="ignore", over="ignore"):
        c = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
        c = [np.where(np.isnan(x), 0.0, x) for x in c]     # 0 * inf -> 0 is included by the other products
        nan = np.isnan(a.lo * 0 + b.lo * 0) & False
        lo = np.minimum(np.minimum(c[0], c[1]), np.minimum(c[2], c[3]))
        hi = np.maximum(np.maximum(c[0], c[1]), np.maximum(c[2], c[3]))
        # an unbounded factor times an interval containing 0 is unbounded
        inf_a = np.isinf(a.lo) | np.isinf(a.hi)
        inf_b = np.isinf(b.lo) | np.isinf(b.hi)
        za = (a.lo <= 0) & (a.hi >= 0)
        zb = (b.lo <= 0) & (b.hi >= 0)
        bad = (inf_a & zb & ~((b.lo == 0) & (b.hi == 0))) | (inf_b & za & ~((a.lo == 0) & (a.hi == 0)))
        lo = np.where(bad & ~((a.lo >= 0) & (b.lo >= 0)), -INF, lo)
        hi = np.where(bad & ~((a.lo >= 0) & (b.hi <= 0)) & ~((a.hi <= 0) & (b.lo >= 0)), INF, hi)
    return _out(lo, hi)


def scale(a, c):
    c = float(c)
    with np.errstate(invalid="ignore", over="ignore"):
        x, y = a.lo * c, a.hi * c
    x = np.where(np.isnan(x), 0.0, x); y = np.where(np.isnan(y), 0.0, y)
    return _out(np.minimum(x, y), np.maximum(x, y))


def powr(a, e):
    """a**e for a rational exponent e (real power; fractional powers need a >= 0)."""
    e = Fraction(e)
    with np.errstate(all="ignore"):
        if e.denominator == 1:
            n = int(e)
            if n < 0:
                b = powr(a, Fraction(-n))
                z = (b.lo <= 0) & (b.hi >= 0)
                l = np.where(z, np.where((b.lo >= 0), 1 / b.hi, -INF), 1 / b.hi)
                h = np.where(z, np.where((b.hi <= 0), 1 / b.lo, INF), 1 / b.lo)
                return _out(l, h)
            x, y = a.lo ** n, a.hi ** n
            if n % 2:
                return _out(x, y)
            z = (a.lo <= 0) & (a.hi >= 0)
            return _out(np.where(z, 0.0, np.minimum(x, y)), np.maximum(x, y))
        lo = np.maximum(a.lo, 0.0)
        hi = np.maximum(a.hi, 0.0)
        f = float(e)
        x, y = lo ** f, hi ** f
        if e > 0:
            r = _out(x, y)
            r = IV(np.maximum(r.lo * (1 - 1e-15), 0.0), r.hi * (1 + 1e-15))
        else:
            x = np.where(lo == 0, INF, x)
            r = _out(y, x)
        return r


def fexp(a):
    with np.errstate(all="ignore"):
        return _out(np.exp(a.lo) * (1 - 1e-15), np.exp(a.hi) * (1 + 1e-15))


def flog(a):
    with np.errstate(all="ignore"):
        lo = np.where(a.lo > 0, np.log(np.maximum(a.lo, 1e-320)), -INF)
        hi = np.where(a.hi > 0, np.log(np.maximum(a.hi, 1e-320)), -INF)
    return _out(lo - 1e-15 * np.abs(np.where(np.isinf(lo), 0, lo)), hi + 1e-15 * np.abs(np.where(np.isinf(hi), 0, hi)))


def fabs(a):
    z = (a.lo <= 0) & (a.hi >= 0)
    x, y = np.abs(a.lo), np.abs(a.hi)
    return IV(np.where(z, 0.0, np.minimum(x, y)), np.maximum(x, y))


class PwLinear:
    """Range of a piecewise linear table over intervals (sparse tables for min/max)."""

    def __init__(self, xp, fp, left=None, right=None):
        self.xp, self.fp = np.asarray(xp, float), np.asarray(fp, float)
        self.left = self.fp[0] if left is None else left
        self.right = self.fp[-1] if right is None else right
        n = len(self.xp)
        self.mn, self.mx = [self.fp], [self.fp]
        k = 1
        while 2 * k <= n:
            a, b = self.mn[-1], self.mx[-1]
            self.mn.append(np.minimum(a[:-k], a[k:])); self.mx.append(np.maximum(b[:-k], b[k:]))
            k *= 2

    def slope(self, a):
        if not hasattr(self, "_slope"):
            d = np.diff(self.fp) / np.diff(self.xp)
            jl = 0.0 if self.left == self.fp[0] else np.inf
            jr = 0.0 if self.right == self.fp[-1] else np.inf
            d = np.concatenate([[jl], d, [jr]])            # piece i lies left of knot i
            self._mn, self._mx = [np.where(np.isinf(d), -np.inf, d)], [d]
            k = 1
            while 2 * k <= len(d):
                a_, b_ = self._mn[-1], self._mx[-1]
                self._mn.append(np.minimum(a_[:-k], a_[k:])); self._mx.append(np.maximum(b_[:-k], b_[k:]))
                k *= 2
            self._slope = True
        i = np.searchsorted(self.xp, np.nan_to_num(a.lo, neginf=-1e300, posinf=1e300), side="left")
        j = np.searchsorted(self.xp, np.nan_to_num(a.hi, neginf=-1e300, posinf=1e300), side="right")
        m = j - i + 1
        lev = np.floor(np.log2(m)).astype(int)
        l = np.empty(len(m)); h = np.empty(len(m))
        for Lv in range(len(self._mn)):
            s = lev == Lv
            if s.any():
                ii, jj = i[s], j[s] - (1 << Lv) + 1
                l[s] = np.minimum(self._mn[Lv][ii], self._mn[Lv][jj]); h[s] = np.maximum(self._mx[Lv][ii], self._mx[Lv][jj])
        return _out(l - 1e-13 * np.abs(np.where(np.isinf(l), 0, l)), h + 1e-13 * np.abs(np.where(np.isinf(h), 0, h)))

    def at(self, x):
        return np.interp(x, self.xp, self.fp, left=self.left, right=self.right)

    def range(self, a):
        lo = np.where(np.isneginf(a.lo), self.xp[0] - 1, a.lo)
        hi = np.where(np.isposinf(a.hi), self.xp[-1] + 1, a.hi)
        e1, e2 = self.at(lo), self.at(hi)
        l, h = np.minimum(e1, e2), np.maximum(e1, e2)
        i = np.searchsorted(self.xp, lo, side="left")
        j = np.searchsorted(self.xp, hi, side="right") - 1      # knots i..j inside
        m = j - i + 1
        inside = m > 0
        lev = np.zeros(m.shape, int)
        lev[inside] = np.floor(np.log2(m[inside])).astype(int)
        for L in range(len(self.mn)):
            s = inside & (lev == L)
            if s.any():
                ii, jj = i[s], j[s] - (1 << L) + 1
                l[s] = np.minimum(l[s], np.minimum(self.mn[L][ii], self.mn[L][jj]))
                h[s] = np.maximum(h[s], np.maximum(self.mx[L][ii], self.mx[L][jj]))
        return _out(l - 1e-14 * np.abs(l), h + 1e-14 * np.abs(h))


class _Raw:
    """a polynomial stored as it is (not renormalised)"""

    def __init__(self, p, R):
        self.p = p

    def items(self):
        return self.p.items()

    def __iter__(self):
        return iter(self.p)


class DV:
    """value and partial derivatives (None = identically zero) as intervals"""
    __slots__ = ("v", "g")

    def __init__(self, v, g):
        self.v, self.g = v, g


def _gscale(g, c):
    return [None if x is None else scale(x, c) for x in g]


def _gmul(g, f):
    return [None if x is None else mul(x, f) for x in g]


def _gadd(a, b):
    return [y if x is None else (x if y is None else add(x, y)) for x, y in zip(a, b)]


class IEval:
    """Interval evaluation of normal forms with forward derivatives (nd variables)."""

    def __init__(self, R: Ring, tables=None, nd=0):
        self.R = R
        self.tables = {} if tables is None else tables
        self.nd = nd

    def zero_g(self):
        return [None] * self.nd

    def spread(self, p):
        """Distribute sums over the denominators they contain (a*d + b)/d -> a + b/d,
        and gather products of absolute values |S|/|d| -> |S/d|: the same value, written
        so that interval evaluation loses less."""
        R = self.R
        cache = R.iv_cache
        key = R.poly_key(p)
        if key in cache:
            return cache[key]
        out = {}
        work = list(p.items())
        k = 0
        while work:
            m, c = work.pop()
            k += 1
            den = {a for a, e in m if e < 0 and R.atoms[a].kind in ("sum", "var", "abs", "group")}
            hit = None
            if den and k < 400:
                dd = set(den)
                for a, e in m:
                    at = R.atoms[a]
                    if at.kind == "sum" and e == 1 and len(at.data) <= 60:
                        if any(b in dd and x > 0 for mm in at.data for b, x in mm):
                            hit = a
                            break
            if hit is not None:
                rest = tuple(t for t in m if t[0] != hit)
                base = {rest: c}
                for m2, c2 in R.atoms[hit].data.items():
                    for m3, c3 in R.mmul(rest, m2).items():
                        work.append((m3, c * c2 * c3))
                continue
            ab = [(a, e) for a, e in m if R.atoms[a].kind == "abs" and e.denominator == 1]
            if len(ab) > 1 and any(e < 0 for _, e in ab):
                q = {(): Decimal(1)}
                for a, e in ab:
                    d = R.atoms[a].data
                    if len(d) != 1:
                        q = None
                        break
                    (m1, c1), = d.items()
                    q = R.mul(q, R.scale(R.mnorm([(x, y * e) for x, y in m1]), c1 ** int(e)))
                if q is not None:
                    q2 = self.spread(q)
                    if q2 != q or True:
                        ia = R.fun_atom("ivabs", _Raw(q2, R))
                        (mi, _), = ia.items()
                        rest = [t for t in m if t not in ab] + [mi[0]]
                        m = tuple(rest)
            o = out.get(m)
            out[m] = c if o is None else o + c
        cache[key] = out
        return out

    def poly(self, p, env, memo, n):
        tot = None
        for m, c in self.spread(p).items():
            v = None
            for a, e in m:
                at = self.R.atoms[a]
                if at.kind == "E":
                    x = self.eatom(a, env, memo, n)
                    y = fexp(scale(x.v, float(e)))
                    x = DV(y, _gmul(_gscale(x.g, float(e)), y))
                else:
                    x = self.atom(a, env, memo, n)
                    if e != 1:
                        x = self.pw(x, e)
                if v is None:
                    v = x
                else:
                    v = DV(mul(v.v, x.v), _gadd(_gmul(v.g, x.v), _gmul(x.g, v.v)))
            cc = float(c)
            if v is None:
                v = DV(_out(np.full(n, cc), np.full(n, cc)), self.zero_g())
            else:
                v = DV(scale(v.v, cc), _gscale(v.g, cc))
            tot = v if tot is None else DV(add(tot.v, v.v), _gadd(tot.g, v.g))
        if tot is None:
            tot = DV(IV(np.zeros(n), np.zeros(n)), self.zero_g())
        return tot

    def pw(self, x, e):
        e = Fraction(e)
        y = powr(x.v, e)
        if all(t is None for t in x.g):
            return DV(y, x.g)
        d = powr(x.v, e - 1) if e != 1 else None
        return DV(y, _gscale(_gmul(x.g, d), float(e)))

    def eatom(self, a, env, memo, n):
        at = self.R.atoms[a]
        if at.unim or not at.real:
            raise Undecided("interval of a complex exponential")
        key = ("E", a)
        if key not in memo:
            memo[key] = self.poly({at.data: Decimal(1)}, env, memo, n)
        return memo[key]

    def atom(self, a, env, memo, n):
        if a in memo:
            return memo[a]
        at = self.R.atoms[a]
        k = at.kind
        if a in env:
            v = env[a]
        elif k == "var":
            raise Undecided("unbounded variable %s in an interval goal" % at.name)
        elif k in ("sum", "group"):
            v = self.poly(at.data, env, memo, n)
            if self.nd:
                v = self.tighten(v, at.data, env, memo, n)
        elif k in ("abs", "ivabs"):
            x = self.poly(at.data.p if k == "ivabs" else at.data, env, memo, n)
            s = IV(np.where(x.v.lo > 0, 1.0, -1.0), np.where(x.v.hi < 0, -1.0, 1.0))
            v = DV(fabs(x.v), _gmul(x.g, s))
        elif k == "log":
            x = self.atom(at.data, env, memo, n)
            v = DV(flog(x.v), _gmul(x.g, powr(x.v, -1)))
        elif k == "ind":
            x = self.poly(at.data[0], env, memo, n)
            if at.data[1] == "lt":
                l, h = np.where(x.v.hi < 0, 1.0, 0.0), np.where(x.v.lo >= 0, 0.0, 1.0)
            else:
                l, h = np.where(x.v.lo > 0, 1.0, 0.0), np.where(x.v.hi <= 0, 0.0, 1.0)
            u = np.where(l == h, 0.0, INF)
            v = DV(IV(l, h), [None if t is None else IV(-u, u.copy()) for t in x.g])
        elif k == "arctan":
            x = self.poly(at.data, env, memo, n)
            y = _out(np.arctan(x.v.lo) - 1e-15, np.arctan(x.v.hi) + 1e-15)
            one = IV(np.ones(n), np.ones(n))
            v = DV(y, _gmul(x.g, powr(add(one, powr(x.v, 2)), -1)))
        elif k == "opaque":
            name, args = at.data
            if isinstance(name, str) and name.startswith("interp:") and name in self.tables:
                x = self.poly(args[0], env, memo, n)
                T = self.tables[name]
                v = DV(T.range(x.v), _gmul(x.g, T.slope(x.v)) if self.nd else x.g)
            elif math.isfinite(at.lo) or math.isfinite(at.hi):
                u = np.full(n, INF)
                v = DV(IV(np.full(n, at.lo), np.full(n, at.hi)), [IV(-u, u.copy()) for _ in range(self.nd)])
            else:
                raise Undecided("no interval meaning for " + str(name))
        else:
            raise Undecided("interval of " + k)
        memo[a] = v
        return v

    def tighten(self, v, p, env, memo, n):
        """intersect the natural range with the mean-value form around the box centre"""
        if self.mid is None or all(t is None for t in v.g):
            return v
        c = self.mid.poly(p, self.mid_env, self.mid_memo, n).v
        w = c
        for j, t in enumerate(v.g):
            if t is not None:
                w = add(w, mul(t, self.dx[j]))
        lo = np.maximum(v.v.lo, np.where(np.isnan(w.lo), -INF, w.lo))
        hi = np.minimum(v.v.hi, np.where(np.isnan(w.hi), INF, w.hi))
        ok = lo <= hi
        return DV(IV(np.where(ok, lo, v.v.lo), np.where(ok, hi, v.v.hi)), v.g)

    mid = None

    def on_boxes(self, p, ids, L, H):
        n = len(L)
        env = {}
        for j, i in enumerate(ids):
            g = [None] * self.nd
            if self.nd:
                g[j] = IV(np.ones(n), np.ones(n))
            env[i] = DV(IV(L[:, j], H[:, j]), g)
        if self.nd:
            C = (L + H) / 2
            self.mid = IEval(self.R, self.tables, 0)
            self.mid_env = {i: DV(IV(C[:, j], C[:, j]), []) for j, i in enumerate(ids)}
            self.mid_memo = {}
            self.dx = [_out(L[:, j] - C[:, j], H[:, j] - C[:, j]) for j in range(len(ids))]
        memo = {}
        v = self.poly(p, env, memo, n)
        if self.nd:
            v = self.tighten(v, p, env, memo, n)
        return v


def _lower(R, p, ids, L, H, tables):
    """lower and upper bound of p on each box, using monotonicity where it is certain"""
    ie = IEval(R, tables, nd=len(ids))
    with np.errstate(all="ignore"):
        v = ie.on_boxes(p, ids, L, H)
        inc = np.zeros_like(L, bool); dec = np.zeros_like(L, bool)
        for j, t in enumerate(v.g):
            if t is None:
                inc[:, j] = True
            else:
                inc[:, j] = t.lo >= 0; dec[:, j] = t.hi <= 0
        red = (inc | dec)
        lo = v.v.lo.copy()
        if red.any():
            L2, H2 = L.copy(), H.copy()
            H2[inc] = L[inc]
            only = dec & ~inc
            L2[only] = H[only]
            w = IEval(R, tables, nd=len(ids)).on_boxes(p, ids, L2, H2)
            lo = np.maximum(lo, w.v.lo)
    return lo, v.v.hi, v.g


def refute(R, p, ids, L0, H0, tables, pred=None, n=4000, seed=3):
    """A sampled point where p < 0 (a cheap way to give up on a false goal)."""
    rng = np.random.default_rng(seed)
    X = L0 + (H0 - L0) * rng.random((n, len(ids)))
    for j in range(len(ids)):
        k = rng.random(n)
        X[k < .06, j] = L0[j]; X[k > .94, j] = H0[j]
    ie = IEval(R, tables, 0)
    with np.errstate(all="ignore"):
        v = ie.on_boxes(p, ids, X, X).v
        bad = v.hi < 0
        for prim, val in (pred or ()):
            w = IEval(R, tables, 0).on_boxes(prim, ids, X, X).v
            bad &= {"lt": w.hi < 0, "ge": w.lo >= 0, "gt": w.lo > 0, "le": w.hi <= 0}[val]
    if bad.any():
        j = int(np.argmax(bad))
        return {i: float(X[j, q]) for q, i in enumerate(ids)}
    return None


def _step(R, p, ids, L, H, w0, tables, strict, pred, min_width):
    """One round: (witness or None, undecided point or None, remaining L, H)."""
    n = len(L)
    lo, hi, g = _lower(R, p, ids, L, H, tables)
    ok = lo > 0 if strict else lo >= 0
    out = np.zeros(n, bool)
    sure = np.ones(n, bool)
    for prim, val in (pred or ()):
        with np.errstate(all="ignore"):
            w = IEval(R, tables, nd=len(ids)).on_boxes(prim, ids, L, H).v
        if val == "lt":
            out |= w.lo >= 0; sure &= w.hi < 0
        elif val == "ge":
            out |= w.hi < 0; sure &= w.lo >= 0
        elif val == "gt":
            out |= w.hi <= 0; sure &= w.lo > 0
        else:
            out |= w.lo > 0; sure &= w.hi <= 0
    ok |= out
    bad = (hi < 0 if not strict else hi <= 0) & sure & ~out
    if bad.any():
        j = int(np.argmax(bad))
        return {i: float((L[j, q] + H[j, q]) / 2) for q, i in enumerate(ids)}, None, None, None
    keep = ~ok
    if not keep.any():
        return None, None, L[:0], H[:0]
    L, H = L[keep], H[keep]
    rel = (H - L) / w0
    if (rel.max(axis=1) < min_width).any():
        j = int(np.argmin(rel.max(axis=1)))
        return None, {i: float((L[j, q] + H[j, q]) / 2) for q, i in enumerate(ids)}, None, None
    # split where the range contribution |gradient| * width is largest
    score = rel.copy()
    for j, t in enumerate(g):
        if t is None:
            score[:, j] = 0
        else:
            with np.errstate(all="ignore"):
                mag = np.maximum(np.abs(t.lo[keep]), np.abs(t.hi[keep])) * (H[:, j] - L[:, j])
            score[:, j] = np.where(np.isfinite(mag), mag, 1e300 * rel[:, j])
    score = np.where(rel < min_width, -1, score)
    score = np.where(rel < rel.max(axis=1, keepdims=True) / 64, -0.5, score)   # no needles
    ax = score.argmax(axis=1)
    mid = (L + H) / 2
    L2, H2 = L.copy(), H.copy()
    r = np.arange(len(L))
    H2[r, ax] = mid[r, ax]
    L[r, ax] = mid[r, ax]
    return None, None, np.concatenate([L2, L]), np.concatenate([H2, H])


_JOB = None
CHUNK = 6000


def _drain(L, H, par=False):
    R, p, ids, w0, tables, budget, strict, pred, min_width, t_end = _JOB
    stack, done = [(L, H)], 0
    while stack:
        L, H = stack.pop()
        while stack and len(L) + len(stack[-1][0]) <= CHUNK:
            a, b = stack.pop()
            L, H = np.concatenate([L, a]), np.concatenate([H, b])
        if len(L) > CHUNK:
            stack.append((L[CHUNK:], H[CHUNK:]))
            L, H = L[:CHUNK], H[:CHUNK]
        done += len(L)
        wit, und, L, H = _step(R, p, ids, L, H, w0, tables, strict, pred, min_width)
        if wit is not None:
            return False, done, wit
        if und is not None:
            return None, done, und
        if len(L):
            stack.append((L, H))
            if done > budget or time.thread_time() > t_end:
                return None, done, {i: float((L[0, q] + H[0, q]) / 2) for q, i in enumerate(ids)}
    return True, done, None


def prove_positive(R, p, box, tables=None, budget=4_000_000, time_s=200.0, strict=True, pred=None, workers=None,
                   min_width=1e-9):
    """Prove p > 0 (or >= 0) on the box {atom id: (lo, hi)} for all reals in it.

    Returns (status, boxes, witness): status True / False / None; False comes with a
    point where p is certainly <= 0.  Breadth first, the frontier is then shared among
    processes."""
    import multiprocessing as mp, os, warnings
    global _JOB
    ids = sorted(i for i in box if i in R.deps(p) or any(i in R.deps(q) for q, _ in (pred or ())))
    L = np.array([[float(box[i][0]) for i in ids]]); H = np.array([[float(box[i][1]) for i in ids]])
    w0 = np.maximum((H - L)[0], 1e-300)
    t_end = time.thread_time() + time_s
    w = refute(R, p, ids, L[0], H[0], tables, pred)
    if w is not None:
        return False, 0, w
    workers = workers or min(8, os.cpu_count() or 1)
    done = 0
    while len(L) and len(L) < 1500 * workers:
        done += len(L)
        wit, und, L, H = _step(R, p, ids, L, H, w0, tables, strict, pred, min_width)
        if wit is not None:
            return False, done, wit
        if und is not None:
            return None, done, und
        if time.thread_time() > t_end:
            return None, done, None
    if not len(L):
        return True, done, None
    _JOB = (R, p, ids, w0, tables, budget // workers, strict, pred, min_width, t_end)
    R.deadline, old = None, R.deadline
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with mp.get_context("fork").Pool(workers) as pool:
                res = [pool.apply_async(_drain, (L[k::workers], H[k::workers])) for k in range(workers)]
                status = True
                for r in res:
                    ok, n, wit = r.get()
                    done += n
                    if ok is not True:
                        pool.terminate()
                        return ok, done, wit
    finally:
        R.deadline = old
    return True, done, None


def prove_positive_cases(R, p, box, tables=None, budget=4_000_000, time_s=200.0, strict=True, max_ind=5, pred=()):
    """As prove_positive, after splitting on the branch conditions that occur in p."""
    t_end = time.thread_time() + time_s
    done = 0
    work = [(p, list(pred))]
    while work:
        q, pr = work.pop()
        if not q and strict:
            return None, done, None
        inds = [a for a in R.find_atoms(q, lambda a: a.kind == "ind")
                if not R.find_atoms(R.atoms[a].data[0], lambda x: x.kind == "ind")]
        if inds and len(pr) < max_ind:
            a = min(inds)
            at = R.atoms[a]
            b = at.ind_pair
            op = at.data[1]
            lt, gt = (a, b) if op == "lt" else (b, a)
            present = set(R.find_atoms(q, lambda x: x.kind == "ind"))
            prim = at.data[0]
            if lt in present and gt in present:
                cs = [("lt", {lt: R.one, gt: {}}), ("gt", {lt: {}, gt: R.one}), ("eq", {lt: {}, gt: {}})]
            elif lt in present:
                cs = [("lt", {lt: R.one}), ("ge", {lt: {}})]
            else:
                cs = [("gt", {gt: R.one}), ("le", {gt: {}})]
            for v, mp in cs:
                work.append((R.subst(q, mp), pr + ([(prim, v)] if v != "eq" else [(prim, "le"), (prim, "ge")])))
            continue
        ids = {i for i in R.deps(q)}
        if not ids:
            c = float(q.get((), 0))
            if c > 0 or (c >= 0 and not strict):
                continue
            return None, done, None
        bx = dict(box)
        ok, n, w = prove_positive(R, q, bx, tables, budget=max(1000, budget - done), strict=strict,
                                  time_s=max(1.0, t_end - time.thread_time()), pred=pr)
        done += n
        if ok is not True:
            return ok, done, w
    return True, done, None
