"""Term algebra of the verifier: a hash-consed normaliser for real/complex expressions.

A value is a polynomial  {monomial: coefficient};  a monomial is a sorted tuple of
(atom id, exponent).  Atoms are interned, so syntactically different computations of
the same normal form are the same object.  Coefficients are 50-digit decimals (the
float literals of the code are converted exactly); constants are identified up to a
relative difference of 1e-11 (TOL), which is the only place where "equal" is not exact.
"""
from __future__ import annotations
from decimal import Decimal, getcontext, localcontext, InvalidOperation
from fractions import Fraction
import math, cmath, time

getcontext().prec = 50
getcontext().Emax = 10**15
getcontext().Emin = -10**15
D0, D1 = Decimal(0), Decimal(1)
TOL = Decimal("1e-11")
F0, F1 = 0, 1              # exponents: int when whole, else Fraction (Decimal in E atoms)
PI50 = Decimal("3.14159265358979323846264338327950288419716939937510582097494459")
K_EXPAND = 16        # poly*poly products up to this many terms are multiplied out
K_WRAP = 400         # sums longer than this are interned as one atom
K_SMALL = 4          # sum atoms up to this size are multiplied out eagerly


class Undecided(Exception):
    pass


def to_fraction(x):
    if isinstance(x, (int, Fraction)):
        return Fraction(x)
    fr = Fraction(float(x))
    lim = fr.limit_denominator(2000)
    if abs(lim - fr) <= Fraction(1, 10**12) * max(1, abs(fr)):
        return lim
    return fr


def dec(x):
    if isinstance(x, Decimal):
        return x
    if isinstance(x, Fraction):
        return Decimal(x.numerator) / Decimal(x.denominator)
    if isinstance(x, int):
        return Decimal(x)
    return Decimal(float(x))


def _dsin_cos(x):
    """sin, cos of a Decimal, by reduction and Taylor series."""
    with localcontext() as c:
        c.prec = 70
        k = (x / (PI50 / 2)).to_integral_value()
        r = x - k * (PI50 / 2)
        if abs(r) < Decimal("1e-14") * max(D1, abs(x)):
            r = D0           # the float literal for pi is read as pi
        t, s, n = r, r, 1
        while t != 0 and abs(t) > Decimal("1e-60"):
            t = -t * r * r / ((n + 1) * (n + 2)); s += t; n += 2
        t, cc, n = D1, D1, 0
        while t != 0 and abs(t) > Decimal("1e-60"):
            t = -t * r * r / ((n + 1) * (n + 2)); cc += t; n += 2
        q = int(k) % 4
        return [(s, cc), (cc, -s), (-s, -cc), (-cc, s)][q]


class Atom:
    __slots__ = ("id", "emax", "kind", "data", "pos", "real", "unim", "lo", "hi", "ind_pair",
                 "ev", "name", "deps", "small", "nonzero", "root", "rneg")

    def __init__(self, id, kind, data):
        self.id, self.kind, self.data = id, kind, data
        self.pos = False          # known > 0
        self.nonzero = False
        self.real = True
        self.unim = False         # E atom with imaginary argument
        self.lo, self.hi = -math.inf, math.inf
        self.ind_pair = None
        self.ev = None
        self.name = None
        self.deps = None
        self.small = False
        self.root = None          # polynomial whose square this sum is
        self.rneg = False         # ... up to the sign


I_ID = 0


class Ring:
    def __init__(self):
        self.atoms = []
        self.table = {}
        self.nums = {}
        self.mm_cache = {}
        self.iv_cache = {}
        self.deadline = None
        self.ctx = None            # case assumptions consulted by ind()
        self._new("I", None, ("I",))
        self.atoms[0].real = False
        self.I = {((0, F1),): D1}
        self.zero = {}
        self.one = {(): D1}

    # ---------------------------------------------------------------- interning
    def num_key(self, x):
        """Class of the constant x: constants within 1e-12 relative share a class."""
        if x == 0:
            return 0
        s = 1 if x > 0 else -1
        a = abs(x)
        e = a.adjusted()
        k = int(a.scaleb(12 - e).to_integral_value())
        if k >= 10**13:
            k //= 10; e += 1
        for kk in (k, k - 1, k + 1):
            r = self.nums.get((s, e, kk))
            if r is not None:
                return r
        r = len(self.nums) + 1
        self.nums[(s, e, k)] = r
        return r

    def _new(self, kind, data, key):
        a = Atom(len(self.atoms), kind, data)
        self.atoms.append(a)
        self.table[key] = a.id
        if self.deadline and time.thread_time() > self.deadline:
            raise Undecided("time budget of the normaliser exhausted")
        return a

    def var(self, name, lo=-math.inf, hi=math.inf, pos=False, real=True):
        key = ("var", name)
        if key in self.table:
            return self.mono(self.table[key])
        a = self._new("var", None, key)
        a.name = name
        a.lo, a.hi, a.pos, a.real = lo, hi, pos or lo > 0, real
        if a.pos:
            a.lo = max(a.lo, 0.0)
        return self.mono(a.id)

    def mono(self, aid, e=F1):
        return {((aid, e),): D1}

    def const(self, x):
        if isinstance(x, complex):
            return self.add(self.const(x.real), self.mul(self.I, self.const(x.imag)))
        d = dec(x)
        return {(): d} if d != 0 else {}

    def poly_key(self, p):
        return frozenset((m, self.num_key(c)) for m, c in p.items())

    # ------------------------------------------------------------------ queries
    def is_const(self, p):
        return not p or (len(p) == 1 and () in p)

    def const_val(self, p):
        return p.get((), D0)

    def atom_real(self, aid):
        return self.atoms[aid].real

    def mono_real(self, m):
        n = 0
        for a, e in m:
            at = self.atoms[a]
            if a == I_ID:
                n += 1
            elif not at.real:
                return False
        return n == 0

    def is_real(self, p):
        return all(self.mono_real(m) for m in p)

    # ----------------------------------------------------------------- addition
    def add(self, a, b):
        if not a:
            return b
        if not b:
            return a
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            o = r.get(m)
            if o is None:
                r[m] = c
            else:
                s = o + c
                if abs(s) <= TOL * max(abs(o), abs(c)):
                    del r[m]
                else:
                    r[m] = s
        if len(r) > K_WRAP:
            return self.wrap(r)
        return r

    def neg(self, a):
        return {m: -c for m, c in a.items()}

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def scale(self, a, c):
        if c == 0:
            return {}
        return {m: v * c for m, v in a.items()}

    def sum(self, ps):
        r = {}
        for p in ps:
            r = self.add(r, p)
        return r

    # ----------------------------------------------------------- multiplication
    def mmul(self, m1, m2):
        """Product of monomials: list of (coef, monomial) normal-form terms, as a poly."""
        if not m1:
            return {m2: D1}
        if not m2:
            return {m1: D1}
        key = (m1, m2)
        r = self.mm_cache.get(key)
        if r is None:
            i = j = 0
            out = []
            while i < len(m1) and j < len(m2):
                if m1[i][0] < m2[j][0]:
                    out.append(m1[i]); i += 1
                elif m1[i][0] > m2[j][0]:
                    out.append(m2[j]); j += 1
                else:
                    out.append((m1[i][0], m1[i][1] + m2[j][1])); i += 1; j += 1
            out.extend(m1[i:]); out.extend(m2[j:])
            r = self.mnorm(out)
            if len(self.mm_cache) > 2_000_000:
                self.mm_cache.clear()
            self.mm_cache[key] = r
        return r

    def mnorm(self, items):
        """Normalise a merged list of (atom, exp)."""
        coef = D1
        out = []
        expand = []
        inds = None
        for a, e in items:
            if e.__class__ is Fraction and e.denominator == 1:
                e = e.numerator
            if e == 0:
                continue
            at = self.atoms[a]
            k = at.kind
            if a == I_ID:
                n = int(e) % 4
                if n == 1:
                    out.append((a, F1))
                elif n == 2:
                    coef = -coef
                elif n == 3:
                    coef = -coef; out.append((a, F1))
            elif k == "E":
                if abs(e) <= Decimal("1e-25"):
                    continue
                out.append((a, e))
            elif k == "ind":
                out.append((a, F1))
                inds = (inds or []) + [a]
            elif k == "abs":
                if e.denominator == 1 and e.numerator % 2 == 0:
                    expand.append((at.data, e))
                else:
                    out.append((a, e))
            elif k == "group":
                if e.denominator == 1:
                    expand.append((at.data, e))
                else:
                    out.append((a, e))
            elif k == "sum" and at.small and e > 0 and (e == 1 or e == 2):
                expand.append((at.data, e))
            else:
                out.append((a, e))
        if inds and len(inds) > 1:
            s = set(inds)
            for a in inds:
                p = self.atoms[a].ind_pair
                if p in s:
                    return {}
        r = {tuple(out): coef}
        for d, e in expand:
            r = self.mul(r, self.powi(d, e))
        return r

    def powi(self, p, e):
        """Integer power of a polynomial (e may be negative)."""
        n = int(e)
        if n < 0:
            return self.pow(p, Fraction(n))
        r = self.one
        for _ in range(n):
            r = self.mul(r, p)
        return r

    def mul(self, a, b, force=False):
        if not a or not b:
            return {}
        if len(a) > len(b):
            a, b = b, a
        if not force and len(a) > 1 and len(a) * len(b) > K_EXPAND:
            a, b = self.wrap(a), self.wrap(b)
        if len(a) == 1:
            (m1, c1), = a.items()
            if not m1:
                return {m: v * c1 for m, v in b.items()}
        r = {}
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                c = c1 * c2
                for m, cc in self.mmul(m1, m2).items():
                    v = c * cc
                    o = r.get(m)
                    if o is None:
                        r[m] = v
                    else:
                        s = o + v
                        if abs(s) <= TOL * max(abs(o), abs(v)):
                            del r[m]
                        else:
                            r[m] = s
        if not force and len(r) > K_WRAP:
            return self.wrap(r)
        return r

    # ------------------------------------------------------------------ content
    def content(self, p):
        """p = c * mono * primitive; returns (c, mono, primitive)."""
        if len(p) == 1:
            (m, c), = p.items()
            return c, m, self.one
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                for a in list(common):
                    if a == I_ID:
                        if a not in d:
                            del common[a]
                    elif self.atoms[a].kind == "E":
                        if common[a] != d.get(a):
                            del common[a]
                    elif self.atoms[a].kind == "ind":
                        if a not in d:
                            del common[a]
                    else:
                        common[a] = min(common[a], d.get(a, F0))
                for a, e in d.items():
                    if a not in common and a != I_ID and self.atoms[a].kind not in ("E", "ind") and e < 0:
                        common[a] = e
        common = {a: e for a, e in common.items() if e != 0}
        if common:
            q = {}
            for m, c in p.items():
                d = dict(m)
                for a, e in common.items():
                    if a == I_ID or self.atoms[a].kind == "ind":
                        d.pop(a)
                    else:
                        ne = d.get(a, F0) - e
                        if ne == 0:
                            d.pop(a, None)
                        else:
                            d[a] = ne
                q[tuple(sorted(d.items()))] = c
            grown = [a for a, e in common.items() if len(q) <= 12 and e < 0 and self.atoms[a].kind == "sum" and self.atoms[a].small]
            if grown and any(dict(m).get(a, 0) in (1, 2) for a in grown for m in q):
                # small sums that moved to the numerator are multiplied out
                q2 = {}
                for m, c in q.items():
                    q2 = self.add(q2, self.scale(self.mnorm(m), c))
                if not q2:
                    return D0, (), {}
                c0, m0, prim = self.content(q2)
                mm = dict(common)
                for a, e in m0:
                    mm[a] = mm.get(a, 0) + e
                    if mm[a] == 0:
                        del mm[a]
                return c0, tuple(sorted(mm.items())), prim
            p = q
        lead = min(p)
        if () in p:
            lead = ()
        c0 = p[lead]
        prim = {m: c / c0 for m, c in p.items()}
        return c0, tuple(sorted(common.items())), prim

    def wrap(self, p):
        """Intern a sum as c*mono*Atom."""
        if len(p) <= 1:
            return p
        c, m, prim = self.content(p)
        if not prim:
            return {}
        flat = self.unfold(prim)
        if flat is not prim:
            q = self.scale(self.mul(self.wrap(flat), {m: D1}, force=True), c) if flat else {}
            if len(q) <= 1:
                return q
        if len(prim) == 1:
            return {m: c}
        mm = dict(m)
        aid = self.sum_atom(prim)
        if aid in mm:
            mm[aid] += 1
            if mm[aid] == 0:
                del mm[aid]
        else:
            mm[aid] = F1
        # note: the atom is left as it is here, even when it is small
        return {tuple(sorted(mm.items())): c}

    def unfold(self, p):
        """multiply out a sum that stands next to its own terms, if that makes the polynomial shorter"""
        seen = None
        if len(p) > 64:
            return p
        for m in p:
            for a, e in m:
                if e == 1 and self.atoms[a].kind == "sum" and len(self.atoms[a].data) < len(p):
                    seen = (seen or set()) | {a}
        for a in seen or ():
            r = {}
            for m, c in p.items():
                if any(b == a and e == 1 for b, e in m):
                    t = self.mul({tuple((b, e) for b, e in m if b != a): c}, self.atoms[a].data, force=True)
                else:
                    t = {m: c}
                for k, v in t.items():
                    o = r.get(k, D0)
                    if abs(o + v) <= TOL * max(abs(o), abs(v)):
                        r.pop(k, None)
                    else:
                        r[k] = o + v
                if len(r) > 100:
                    break
            else:
                if len(r) < len(p):
                    return self.unfold(r)
        return p

    def square_free(self, m, c):
        """replace the atoms that are squares of polynomials by their roots"""
        if not any(self.atoms[a].root for a, e in m):
            return m, c
        out = {}
        for a, e in m:
            root = self.atoms[a].root
            if root is None or (self.atoms[a].rneg and e.denominator != 1):
                out[a] = out.get(a, 0) + e
                continue
            c1, m1, prim = self.content(root)
            if e.denominator != 1 and c1 < 0:
                c1 = -c1
            if self.atoms[a].rneg and e % 2:
                c = -c
            c = c * self.dpow(c1, 2 * e)
            for a1, e1 in m1 + ((self.sum_atom(prim), F1),):
                if e.denominator != 1:
                    a1 = self.abs_atom(a1)
                out[a1] = out.get(a1, 0) + 2 * e * e1
        return tuple(sorted((a, e) for a, e in out.items() if e != 0)), c

    def perfect_square(self, p):
        ids = sorted({a for m in p for a, _ in m})
        if len(ids) > 3 or any(a == I_ID or self.atoms[a].kind in ("E", "ind", "group", "abs") or not self.atoms[a].real for a in ids):
            return None
        vec = lambda m: tuple(dict(m).get(a, F0) for a in ids)
        P = {vec(m): c for m, c in p.items()}
        top = max(P)
        low = min(P)
        for end in (top, low):                   # both extreme terms are squares
            if P[end] <= 0 or any(e.denominator == 1 and e % 2 for e in end):
                return None
        lead = tuple(Fraction(e) / 2 for e in top)
        Q = {lead: P[top].sqrt()}
        lc = Q[lead]
        for _ in range(8):
            Rm = dict(P)
            qs = list(Q.items())
            for i, (a, x) in enumerate(qs):
                for b, y in qs[i:]:
                    k = tuple(u + v for u, v in zip(a, b))
                    v = x * y * (1 if a == b else 2)
                    o = Rm.get(k, D0)
                    s = o - v
                    if abs(s) <= Decimal("1e-13") * max(abs(o), abs(v)):
                        Rm.pop(k, None)
                    else:
                        Rm[k] = s
            if not Rm:
                return {tuple((a, e) for a, e in zip(ids, k) if e != 0): v for k, v in Q.items()}
            t = max(Rm)
            k = tuple(u - v for u, v in zip(t, lead))
            if k >= lead or k in Q:
                return None
            Q[k] = Rm[t] / (2 * lc)
        return None

    def sum_atom(self, prim):
        key = ("sum", self.poly_key(prim))
        aid = self.table.get(key)
        if aid is None:
            a = self._new("sum", prim, key)
            a.real = self.is_real(prim)
            a.small = len(prim) <= K_SMALL
            if a.real:
                a.lo, a.hi = self.interval(prim)
                if 3 <= len(prim) <= 10 and a.lo < 0 < a.hi:
                    a.root = self.perfect_square(prim)
                    if a.root is not None:
                        a.lo = 0.0
                    else:
                        a.root = self.perfect_square(self.neg(prim))
                        if a.root is not None:
                            a.rneg, a.hi = True, 0.0
                a.pos = a.lo > 0 or all(c > 0 and self.mono_pos(m) for m, c in prim.items())
            aid = a.id
        return aid

    def mono_pos(self, m):
        return all(self.exp_pos(a, e) for a, e in m)

    def exp_pos(self, a, e):
        at = self.atoms[a]
        if at.kind == "E":
            return not at.unim
        if at.pos:
            return True
        return False

    # ---------------------------------------------------------------- intervals
    def interval(self, p):
        lo = hi = 0.0
        for m, c in p.items():
            l, h = float(c), float(c)
            for a, e in m:
                al, ah = self.atom_iv(a, e)
                vals = []
                for x in (l, h):
                    for y in (al, ah):
                        v = x * y
                        if v != v:
                            v = 0.0 if (x == 0 or y == 0) else math.inf
                        vals.append(v)
                if l == h == 0:
                    vals = [0.0]
                l, h = min(vals), max(vals)
            lo += l; hi += h
            if lo != lo: lo = -math.inf
            if hi != hi: hi = math.inf
        w = 1e-12 * (abs(lo) if lo > -math.inf else 0) , 1e-12 * (abs(hi) if hi < math.inf else 0)
        return lo - w[0], hi + w[1]

    def atom_iv(self, a, e):
        at = self.atoms[a]
        if at.kind == "ind":
            return 0.0, 1.0
        if at.kind == "E":
            return (0.0, math.inf) if not at.unim else (-math.inf, math.inf)
        if not at.real:
            return -math.inf, math.inf
        lo, hi = at.lo, at.hi
        if at.pos and lo < 0:
            lo = 0.0
        e = float(e)
        if e == 1:
            return lo, hi
        if lo < 0:
            if e != int(e):
                lo = 0.0
                if hi < 0:
                    return 0.0, math.inf
            else:
                n = int(e)
                if n < 0:
                    return -math.inf, math.inf
                if n % 2 == 0:
                    mx = max(abs(lo), abs(hi))
                    return 0.0, _fpow(mx, n)
                return -_fpow(-lo, n) if lo > -math.inf else -math.inf, (_fpow(hi, n) if hi > 0 else -_fpow(-hi, n))
        x, y = _fpow(lo, e), _fpow(hi, e)
        return min(x, y), max(x, y)

    def sign(self, p):
        """+1 / -1 if p is known positive / negative, 0 if it is zero, else None."""
        if not p:
            return 0
        if not self.is_real(p):
            return None
        if len(p) == 1:
            (m, c), = p.items()
            s = 1 if c > 0 else -1
            for a, e in m:
                at = self.atoms[a]
                if at.kind == "E" or at.pos:
                    continue
                if at.kind == "ind":
                    return None
                if at.hi < 0 and e.denominator == 1:
                    if e.numerator % 2:
                        s = -s
                    continue
                if at.kind in ("sum", "var", "opaque") and e.denominator == 1 and e.numerator % 2 == 0 and at.nonzero:
                    continue
                return None
            return s
        lo, hi = self.interval(p)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        if all(c > 0 and self.mono_pos(m) for m, c in p.items()):
            return 1
        if all(c < 0 and self.mono_pos(m) for m, c in p.items()):
            return -1
        w = self.wrap(p)
        if len(w) == 1:
            (m, c), = w.items()
            if all(self.atoms[a].pos or (self.atoms[a].kind == "E" and not self.atoms[a].unim) or self.atoms[a].hi < 0 for a, _ in m):
                return self.sign(w)
        return None

    def weak_sign(self, w):
        """+1 / -1 if the single-term form w is known >= 0 / <= 0, else None."""
        (m, c), = w.items()
        s = 1 if c > 0 else -1
        for a, e in m:
            at = self.atoms[a]
            if at.kind in ("E", "ind") or at.pos or at.lo >= 0:
                continue
            if at.real and e.denominator == 1 and e.numerator % 2 == 0:
                continue
            if at.real and e.denominator != 1:
                continue                 # an even root is only defined on [0, oo)
            if at.hi <= 0 and e.denominator == 1:
                s = -s
                continue
            return None
        return s

    def assume_pos(self, p):
        """Record the fact p > 0 (for a single-atom normal form)."""
        w = self.wrap(p)
        (m, c), = w.items()
        un = [(a, e) for a, e in m if not self.exp_pos(a, e)]
        if not un:
            if c < 0:
                raise Undecided("contradictory assumption")
            return
        if len(un) > 1 or un[0][1].denominator != 1 or un[0][1].numerator % 2 == 0:
            raise Undecided("cannot record assumption")
        at = self.atoms[un[0][0]]
        if c > 0:
            at.pos = True; at.lo = max(at.lo, 0.0)
        else:
            at.hi = min(at.hi, -1e-300)
        self.mm_cache.clear()
        if at.kind == "sum" and len(at.data) > 3:
            self.known_square(at.data)

    def known_square(self, p):
        """remember that the sum p * p is a square (perfect_square does not search sums this long)"""
        sq = self.mul(p, p, force=True)
        c, m, prim = self.content(sq)
        if len(prim) > 1 and c > 0 and all(self.exp_pos(a, e) for a, e in m):
            a = self.atoms[self.sum_atom(prim)]
            if a.root is None:
                a.root = self.mul(p, self.pow({m: c}, Fraction(-1, 2)), force=True)

    # -------------------------------------------------------------------- power
    def pow(self, p, r):
        r = to_fraction(r)
        if r == 0:
            return self.one
        if r == 1:
            return p
        if not p:
            if r > 0:
                return {}
            return self.opaque("div0", (), real=True)
        if r.denominator == 1 and r > 0 and len(p) > 1:
            n = int(r)
            if n <= 8 and math.comb(len(p) + n - 1, n) <= K_EXPAND:
                return self.powi(p, n)
        w = self.wrap(p)
        if not w:
            return self.pow(w, r)
        (m, c), = w.items()
        if r < 0 or r.denominator != 1:
            m, c = self.square_free(m, c)
        if r.denominator == 1:
            r = int(r)
            cc = c ** r
            return self.scale(self.mnorm([(a, e * dec(r) if self.atoms[a].kind == "E" else e * r) for a, e in m]), cc) \
                if not any(a == I_ID for a, _ in m) else self._pow_cplx(m, c, int(r))
        # fractional power
        P, U, E = [], [], []
        for a, e in m:
            at = self.atoms[a]
            if at.kind == "E":
                E.append((a, self.rep(e * dec(r))))
            elif at.pos or (at.kind in ("sum", "var", "opaque") and at.real and at.lo >= 0):
                P.append((a, e * r))
            else:
                U.append((a, e))
        neg = c < 0
        # known-negative atoms
        U2 = []
        flip = False
        for a, e in U:
            at = self.atoms[a]
            if e.denominator == 1 and e.numerator % 2 == 0 and a != I_ID and at.real and at.kind != "ind":
                if at.hi < 0 and (e * r).denominator == 1:      # |a|^n = (-a)^n
                    P.append((a, e * r))
                    flip ^= bool((e * r) % 2)
                    continue
                P.append((self.abs_atom(a), e * r))
            elif e.denominator != 1 and at.real:
                P.append((a, e * r))      # S**(k/n) is only defined for S >= 0
            else:
                U2.append((a, e))
        inds = [(a, e) for a, e in U2 if self.atoms[a].kind == "ind"]
        U2 = [(a, e) for a, e in U2 if self.atoms[a].kind != "ind"]
        if inds and r > 0:
            P += inds                     # ind**r = ind
        elif inds:
            U2 += inds
        ca = self.dpow(abs(c), r)
        if flip:
            ca = -ca
        if U2 or neg:
            if not neg and len(U2) == 1 and U2[0][1] == 1 and U2[0][0] != I_ID:
                P.append((U2[0][0], r))
            else:
                g = self.group_atom({tuple(U2): (-D1 if neg else D1)})
                P.append((g, r))
        items = {}
        for a, e in P + E:
            items[a] = items.get(a, 0) + e
        return self.scale(self.mnorm(sorted(items.items())), ca)

    def _pow_cplx(self, m, c, n):
        base = {m: c}
        if n > 0:
            return self.powi(base, n)
        inv = tuple((a, (e if a == I_ID else -e)) for a, e in m)
        b = self.scale(self.mnorm(list(inv)), -D1 / c)   # 1/(cI x) = -I/(c x)
        return self.powi(b, -n)

    def dpow(self, c, r):
        if c == 1:
            return D1
        if r == Fraction(1, 2):
            return c.sqrt()
        v = c ** dec(r) if r.denominator != 1 else c ** int(r)
        return v

    def rep(self, d):
        return d

    def abs_atom(self, aid):
        if self.atoms[aid].pos or self.atoms[aid].kind == "ind" or (self.atoms[aid].real and self.atoms[aid].lo >= 0):
            return aid
        key = ("abs", aid)
        r = self.table.get(key)
        if r is None:
            a = self._new("abs", self.mono(aid), key)
            a.pos = True
            at = self.atoms[aid]
            a.lo = 0.0
            a.hi = max(abs(at.lo), abs(at.hi))
            r = a.id
        return r

    def group_atom(self, p):
        key = ("group", self.poly_key(p))
        r = self.table.get(key)
        if r is None:
            a = self._new("group", p, key)
            a.real = self.is_real(p)
            r = a.id
        return r

    def sqrt(self, p):
        return self.pow(p, Fraction(1, 2))

    def div(self, a, b):
        if self.is_const(b) and b:
            return self.scale(a, 1 / self.const_val(b))
        return self.mul(a, self.pow(b, -1))

    # ---------------------------------------------------------- transcendentals
    def eatom(self, m):
        key = ("E", m)
        r = self.table.get(key)
        if r is None:
            a = self._new("E", m, key)
            hasI = any(x == I_ID for x, _ in m)
            rest = tuple(t for t in m if t[0] != I_ID)
            a.unim = hasI and self.mono_real(rest)
            a.real = not hasI and self.mono_real(m)
            a.pos = a.real
            if a.pos:
                a.lo = 0.0
            r = a.id
        return r

    def exp(self, p):
        r = self.one
        items = {}
        for m, c in p.items():
            if m == ():
                r = self.scale(r, c.exp())
                continue
            if m == ((I_ID, F1),):
                s, co = _dsin_cos(c)
                r = self.mul(r, self.add(self.const(co), self.mul(self.I, self.const(s))))
                continue
            nonI = [t for t in m if t[0] != I_ID]
            hasI = len(nonI) != len(m)
            if len(nonI) == 1 and nonI[0][1] == 1:
                at = self.atoms[nonI[0][0]]
                if at.kind == "log" and not hasI:
                    fr = to_fraction(c)
                    if abs(dec(fr) - c) <= TOL * abs(c) and fr.denominator <= 2000:
                        r = self.mul(r, self.pow(self.mono(at.data) if isinstance(at.data, int) else at.data, fr))
                        continue
                if at.kind in ("atan2", "acos", "asin") and hasI and abs(c - c.to_integral_value()) <= TOL:
                    r = self.mul(r, self.cis_inverse(at, int(c.to_integral_value())))
                    continue
            a = self.eatom(m)
            items[a] = items.get(a, D0) + c
            at = self.atoms[a]
            at.emax = max(at.emax, abs(items[a])) if getattr(at, "emax", None) else abs(items[a])
        if items:
            r = self.mul(r, {tuple(sorted(items.items())): D1})
        return r

    def cis_inverse(self, at, n):
        if at.kind == "atan2":
            y, x = at.data
            rr = self.sqrt(self.add(self.powi_full(x, 2), self.powi_full(y, 2)))
            z = self.div(self.add(x, self.mul(self.I, y)), rr)
            zi = self.div(self.sub(x, self.mul(self.I, y)), rr)
        else:
            x = at.data
            s = self.sqrt(self.sub(self.one, self.powi_full(x, 2)))
            if at.kind == "acos":
                z = self.add(x, self.mul(self.I, s)); zi = self.sub(x, self.mul(self.I, s))
            else:
                z = self.add(s, self.mul(self.I, x)); zi = self.sub(s, self.mul(self.I, x))
        return self.powi_full(z if n > 0 else zi, abs(n))

    def powi_full(self, p, n):
        r = self.one
        for _ in range(n):
            r = self.mul(r, p, force=len(p) <= 24)
        return r

    def cis(self, p):
        return self.exp(self.mul(self.I, p))

    def cos(self, p):
        e = self.cis(p); ei = self.cis(self.neg(p))
        return self.scale(self.add(e, ei), Decimal("0.5"))

    def sin(self, p):
        e = self.cis(p); ei = self.cis(self.neg(p))
        return self.mul(self.I, self.scale(self.sub(e, ei), Decimal("-0.5")))

    def log(self, p):
        if self.is_const(p) and p and self.const_val(p) > 0:
            return self.const(self.const_val(p).ln())
        w = self.wrap(p)
        if not w:
            return self.opaque("log0", ())
        (m, c), = w.items()
        r = {}
        U = []
        for a, e in m:
            at = self.atoms[a]
            if at.kind == "E":
                r = self.add(r, {at.data: e} if not at.unim else self.unknown_log(a, e))
            elif at.pos:
                r = self.add(r, self.scale(self.mono(self.log_atom(a)), dec(e)))
            else:
                U.append((a, e))
        if c < 0 or U:
            if c > 0 and len(U) == 1 and U[0][0] != I_ID:
                r = self.add(r, self.scale(self.mono(self.log_atom(U[0][0])), dec(U[0][1])))
            else:
                g = self.group_atom({tuple(U): (-D1 if c < 0 else D1)})
                r = self.add(r, self.mono(self.log_atom(g)))
        if abs(c) != 1:
            r = self.add(r, self.const(abs(c).ln()))
        return r

    def unknown_log(self, a, e):
        at = self.atoms[a]
        return {at.data: e}

    def log_atom(self, aid):
        key = ("log", aid)
        r = self.table.get(key)
        if r is None:
            a = self._new("log", aid, key)
            at = self.atoms[aid]
            a.real = at.real
            if at.real:
                a.lo = math.log(at.lo) if at.lo > 0 else -math.inf
                a.hi = math.log(at.hi) if 0 < at.hi < math.inf else math.inf
                a.pos = a.lo > 0
            r = a.id
        return r

    def fun_atom(self, kind, *args):
        """arctan, atan2, acos, asin, tanh ... of normal forms."""
        key = (kind,) + tuple(self.poly_key(x) for x in args)
        r = self.table.get(key)
        if r is None:
            a = self._new(kind, args if len(args) > 1 else args[0], key)
            r = a.id
            a.lo, a.hi = {"atan2": (-3.1415927, 3.1415927), "arctan": (-1.5707964, 1.5707964),
                          "acos": (0, 3.1415927), "asin": (-1.5707964, 1.5707964),
                          "tanh": (-1.0, 1.0)}.get(kind, (-math.inf, math.inf))
        return self.mono(r)

    def atan2(self, y, x):
        if not y and x:
            s = self.sign(x)
            if s == 1:
                return {}
            if s == -1:
                return self.const(PI50)
        if not y and not x:
            return {}                      # IEEE atan2(0, 0) = 0
        if not x:
            s = self.sign(y)
            if s is not None:
                return self.const(PI50 / 2 * s)
        cy, my, py = self.content(y) if y else (D1, (), {})
        if x:
            # divide both by the positive common factors
            tot = {}
            both = [self.content(q) for q in (y, x) if q]
            common = None
            for c, m, _ in both:
                d = {a: e for a, e in m if self.exp_pos(a, e)}
                if common is None:
                    common = d
                else:
                    for a in set(common) | set(d):
                        common[a] = min(common.get(a, 0), d.get(a, 0)) if self.atoms[a].kind != "E" else (common.get(a, D0) if common.get(a) == d.get(a) else D0)
            common = {a: e for a, e in common.items() if e != 0}
            inv = {tuple(sorted((a, -e) for a, e in common.items())): 1 / abs(both[-1][0])}
            y, x = self.mul(y, inv), self.mul(x, inv)
        return self.fun_atom("atan2", y, x)

    def arctan(self, x):
        if not x:
            return {}
        c, m, prim = self.content(x)
        if c < 0:
            return self.neg(self.fun_atom("arctan", self.neg(x)))
        return self.fun_atom("arctan", x)

    def acos(self, x):
        if self.is_const(x):
            v = self.const_val(x)
            if abs(v - 1) <= Decimal("1e-14"):
                return {}
            if abs(v + 1) <= Decimal("1e-14"):
                return self.const(PI50)
        return self.fun_atom("acos", x)

    def abs(self, p):
        if not p:
            return {}
        if not self.is_real(p):
            w = self.wrap(p)
            (m, c), = w.items()
            if all(self.atoms[a].kind != "sum" or self.atoms[a].real for a, _ in m):
                out = self.const(abs(c))
                for a, e in m:
                    at = self.atoms[a]
                    if a == I_ID or at.unim:
                        continue
                    if at.real:
                        out = self.mul(out, {((self.abs_atom(a), e),): D1})
                    else:
                        out = self.mul(out, {((self.cabs_atom(a), e),): D1})
                return out
            return self.sqrt(self.mul(p, self.conj(p), force=len(p) <= 12))
        s = self.sign(p)
        if s == 1:
            return p
        if s == -1:
            return self.neg(p)
        w = self.wrap(p)
        (m, c), = w.items()
        out = {}
        for a, e in m:
            at = self.atoms[a]
            if at.pos or at.kind in ("E", "ind"):
                out[a] = out.get(a, 0) + e
            else:
                b = self.abs_atom(a)
                out[b] = out.get(b, 0) + e
        return self.scale(self.mnorm(sorted(out.items())), abs(c))

    def cabs_atom(self, aid):
        key = ("cabs", aid)
        r = self.table.get(key)
        if r is None:
            a = self._new("cabs", aid, key)
            a.pos = True
            a.lo = 0.0
            r = a.id
        return r

    def conj(self, p):
        r = {}
        for m, c in p.items():
            r = self.add(r, self.scale(self.conj_mono(m), c))
        return r

    def conj_mono(self, m):
        if self.mono_real(m):
            return {m: D1}
        out = self.one
        for a, e in m:
            at = self.atoms[a]
            if a == I_ID:
                out = self.neg(self.mul(out, self.I))
            elif at.unim:
                out = self.mul(out, {((a, -e),): D1})
            elif at.real:
                out = self.mul(out, {((a, e),): D1})
            elif at.kind in ("sum", "group"):
                cj = self.conj(at.data)
                out = self.mul(out, self.pow(cj, e))
            elif at.kind == "E":
                out = self.mul(out, self.exp(self.conj({at.data: e})))
            elif at.kind == "var":
                out = self.mul(out, self.pow(self.conj_var(a), e))
            elif at.kind == "opaque":
                out = self.mul(out, self.pow(self.conj_var(a), e))
            else:
                raise Undecided("conj of " + at.kind)
        return out

    def conj_var(self, aid):
        key = ("conj", aid)
        r = self.table.get(key)
        if r is None:
            a = self._new("opaque", ("conj", aid), key)
            a.real = False
            self.table[("conj", a.id)] = aid
            r = a.id
        return self.mono(r)

    def re(self, p):
        if self.is_real(p):
            return p
        return self.scale(self.add(p, self.conj(p)), Decimal("0.5"))

    def im(self, p):
        if self.is_real(p):
            return {}
        return self.mul(self.I, self.scale(self.sub(p, self.conj(p)), Decimal("-0.5")))

    def opaque(self, name, args, real=True, lo=-math.inf, hi=math.inf, ev=None):
        """Uninterpreted (congruent) application."""
        key = ("op", name) + tuple(self.poly_key(x) if isinstance(x, dict) else x for x in args)
        r = self.table.get(key)
        if r is None:
            a = self._new("opaque", (name, args), key)
            a.real = real
            a.lo, a.hi = lo, hi
            a.pos = real and lo > 0
            a.name = name
            a.ev = ev
            r = a.id
        return self.mono(r)

    # --------------------------------------------------------------- predicates
    def lt(self, a, b):
        """indicator of a < b (as a 0/1 polynomial)."""
        return self.ind(self.sub(a, b), "lt")

    def ind(self, d, op):
        d0 = d
        s = self.sign(d)
        if s is None and self.is_const(d):
            s = (d.get((), 0) > 0) - (d.get((), 0) < 0)
        if s is not None:
            return self.one if {"lt": s < 0, "gt": s > 0}[op] else {}
        w = self.wrap(d)
        if not w:
            return {}
        (m, c), = w.items()
        if self.is_real(w):
            ws = self.weak_sign(w)
            if (ws == 1 and op == "lt") or (ws == -1 and op == "gt"):
                return {}
            lo, hi = self.interval(d)
            if (lo >= 0 and op == "lt") or (hi <= 0 and op == "gt"):
                return {}
        un = [(a, e) for a, e in m if not self.exp_pos(a, e)]
        flip = c < 0
        rest = []
        for a, e in un:
            if self.atoms[a].hi < 0 and e.denominator == 1:
                if e.numerator % 2:
                    flip = not flip
                continue
            rest.append((a, F1 if (e.denominator == 1 and e.numerator % 2) else (2 if e.denominator == 1 else F1)))
        inds = [(a, e) for a, e in rest if self.atoms[a].kind == "ind"]
        prim = self.mono_poly(rest)
        if flip:
            op = "gt" if op == "lt" else "lt"
        key = ("ind", self.poly_key(prim))
        if self.ctx is not None:
            v = self.ctx.decide(key[1], prim)
            if v is not None:
                return self.one if v == op else {}
        r = self.table.get(key)
        if r is None:
            a = self._new("ind", (prim, "lt"), key)
            b = self._new("ind", (prim, "gt"), ("indg", self.poly_key(prim)))
            a.ind_pair, b.ind_pair = b.id, a.id
            a.lo = b.lo = 0.0; a.hi = b.hi = 1.0
            r = a.id
        return self.mono(r if op == "lt" else r + 1)

    def mono_poly(self, items):
        p = self.one
        d = {tuple(sorted(items)): D1}
        return d

    def ite(self, c, a, b):
        if not c:
            return b
        if self.is_const(c):
            return a
        if a == b:
            return a
        return self.add(b, self.mul(c, self.sub(a, b)))

    # ------------------------------------------------------------- substitution
    def subst(self, p, mp, memo=None):
        """Replace atoms (id -> poly) everywhere, rebuilding normal forms."""
        if memo is None:
            memo = {}
        r = {}

        def acc(t):
            for m, c in t.items():
                o = r.get(m)
                if o is None:
                    r[m] = c
                else:
                    s = o + c
                    if abs(s) <= TOL * max(abs(o), abs(c)):
                        del r[m]
                    else:
                        r[m] = s
        for m, c in p.items():
            t = {(): c}
            plain = []
            if not any(a in mp or self._touches(a, mp, memo) for a, _ in m):
                acc({m: c})
                continue
            for a, e in m:
                rep = self.subst_atom(a, mp, memo)
                if rep is None:
                    plain.append((a, e))
                elif self.atoms[a].kind == "E":
                    t = self.mul(t, self.exp(self.scale(rep, e)))
                else:
                    t = self.mul(t, self.pow(rep, e))
            if plain:
                t = self.mul(t, {tuple(plain): D1})
            acc(t)
        return r

    def _touches(self, a, mp, memo):
        """does atom a contain one of the replaced atoms?"""
        key = ("t", a)
        if key not in memo:
            found = []
            seen = set()

            def go(x):
                if found or x in seen:
                    return
                if x in mp or memo.get(("t", x)):
                    found.append(x)
                    return
                if memo.get(("t", x)) is False:
                    return
                seen.add(x)
                for y in self._children(x):
                    go(y)
            go(a)
            if found:
                memo[key] = True
            else:
                for x in seen:
                    memo[("t", x)] = False
        return memo[key]

    def _children(self, a):
        at = self.atoms[a]
        k = at.kind
        polys, out = [], []
        if k in ("sum", "group", "abs"):
            polys = [at.data]
        elif k == "E":
            polys = [{at.data: D1}]
        elif k in ("log", "cabs"):
            out.append(at.data)
        elif k == "ind":
            polys = [at.data[0]]
        elif k == "opaque":
            name, args = at.data
            if name == "conj":
                out.append(args)
            else:
                polys = [x for x in args if isinstance(x, dict)]
        elif k in ("I", "var"):
            pass
        elif isinstance(at.data, tuple):
            polys = [x for x in at.data if isinstance(x, dict)]
        elif isinstance(at.data, dict):
            polys = [at.data]
        elif isinstance(at.data, int):
            out.append(at.data)
        for p in polys:
            for m in p:
                for b, _ in m:
                    out.append(b)
        return out

    def subst_atom(self, a, mp, memo):
        if a in mp:
            return mp[a]
        if a in memo:
            return memo[a]
        if not self._touches(a, mp, memo):
            memo[a] = None
            return None
        at = self.atoms[a]
        r = None
        k = at.kind
        if k in ("I", "var"):
            r = None
        elif k in ("sum", "group"):
            q = self.subst(at.data, mp, memo)
            r = q if q != at.data else None
        elif k == "E":
            q = self.subst({at.data: D1}, mp, memo)
            r = q if q != {at.data: D1} else None
        elif k == "abs":
            q = self.subst(at.data, mp, memo)
            r = self.abs(q) if q != at.data else None
        elif k == "cabs":
            q = self.subst_atom(at.data, mp, memo)
            r = self.abs(q) if q is not None else None
        elif k == "log":
            q = self.subst_atom(at.data, mp, memo)
            r = self.log(q) if q is not None else None
        elif k == "ind":
            prim, op = at.data
            q = self.subst(prim, mp, memo)
            r = self.ind(q, op) if q != prim else None
        elif k in ("atan2",):
            y, x = at.data
            y2, x2 = self.subst(y, mp, memo), self.subst(x, mp, memo)
            r = self.atan2(y2, x2) if (y2 != y or x2 != x) else None
        elif k == "arctan":
            q = self.subst(at.data, mp, memo)
            r = self.arctan(q) if q != at.data else None
        elif k == "acos":
            q = self.subst(at.data, mp, memo)
            r = self.acos(q) if q != at.data else None
        elif k == "opaque":
            name, args = at.data
            if name == "conj":
                q = self.subst_atom(args, mp, memo)
                r = self.conj(q) if q is not None else None
            else:
                ch = False
                na = []
                for x in args:
                    if isinstance(x, dict):
                        y = self.subst(x, mp, memo)
                        ch |= y != x
                        na.append(y)
                    else:
                        na.append(x)
                r = self.opaque(name, tuple(na), real=at.real, lo=at.lo, hi=at.hi, ev=at.ev) if ch else None
        else:
            if isinstance(at.data, tuple):
                na = [self.subst(x, mp, memo) for x in at.data]
                r = self.fun_atom(k, *na) if any(x != y for x, y in zip(na, at.data)) else None
            else:
                q = self.subst(at.data, mp, memo)
                r = self.fun_atom(k, q) if q != at.data else None
        memo[a] = r
        return r

    def atom_deps(self, a):
        """ids of the variables an atom depends on."""
        at = self.atoms[a]
        if at.deps is not None:
            return at.deps
        k = at.kind
        if k == "I":
            d = frozenset()
        elif k == "var":
            d = frozenset([a])
        elif k in ("sum", "group", "abs"):
            d = self.deps(at.data)
        elif k == "E":
            d = self.deps({at.data: D1})
        elif k in ("log", "cabs"):
            d = self.atom_deps(at.data)
        elif k == "ind":
            d = self.deps(at.data[0])
        elif k == "opaque":
            name, args = at.data
            if name == "conj":
                d = self.atom_deps(args)
            else:
                d = frozenset().union(*[self.deps(x) for x in args if isinstance(x, dict)]) if args else frozenset()
        elif isinstance(at.data, tuple):
            d = frozenset().union(*[self.deps(x) for x in at.data])
        else:
            d = self.deps(at.data)
        at.deps = d
        return d

    def deps(self, p):
        d = set()
        for m in p:
            for a, _ in m:
                d |= self.atom_deps(a)
        return frozenset(d)

    def find_atoms(self, p, pred, seen=None, out=None):
        if seen is None:
            seen, out = set(), []
        for m in p:
            for a, _ in m:
                self._find(a, pred, seen, out)
        return out

    def _find(self, a, pred, seen, out):
        if a in seen:
            return
        seen.add(a)
        at = self.atoms[a]
        if pred(at):
            out.append(a)
        k = at.kind
        if k in ("sum", "group", "abs"):
            self.find_atoms(at.data, pred, seen, out)
        elif k == "E":
            self.find_atoms({at.data: D1}, pred, seen, out)
        elif k in ("log", "cabs"):
            self._find(at.data, pred, seen, out)
        elif k == "ind":
            self.find_atoms(at.data[0], pred, seen, out)
        elif k == "opaque":
            name, args = at.data
            if name == "conj":
                self._find(args, pred, seen, out)
            else:
                for x in args:
                    if isinstance(x, dict):
                        self.find_atoms(x, pred, seen, out)
        elif k in ("I", "var"):
            pass
        elif isinstance(at.data, tuple):
            for x in at.data:
                self.find_atoms(x, pred, seen, out)
        else:
            self.find_atoms(at.data, pred, seen, out)

    # -------------------------------------------------------------- zero testing
    def is_zero(self, p, limit=300_000, subs_only=False):
        """Decide p == 0 by full expansion (True), or False if a normal form remains."""
        return not self.residual(p, limit)

    def residual(self, p, limit=300_000, only=None):
        """Multiply out (numerator over the common denominator, which is dropped); with
        `only`, just the sums that depend on one of these variables."""
        if not p:
            return p
        cur = p
        for rnd in range(60):
            # 1. clear denominators of sum atoms / all negative exponents
            if not cur:
                return cur
            if only is None:
                c, m, prim = self.content(cur)
                cur = prim if len(cur) > 1 else cur
                if len(cur) == 1:
                    return cur
            # 2. expand one layer: sum atoms with integer part >= 1
            target = None
            for mm in cur:
                for a, e in mm:
                    at = self.atoms[a]
                    if at.kind in ("sum", "group") and e >= 1 and (only is None or (only(a) if callable(only) else self.atom_deps(a) & only)):
                        # expand atoms created last first: they may contain older ones
                        if target is None or a > target:
                            target = a
            if target is None:
                return self.clean(cur)
            at = self.atoms[target]
            r = {}
            pw = {0: self.one}
            for mm, cc in cur.items():
                d = dict(mm)
                e = d.get(target, F0)
                if e >= 1:
                    n = int(e // 1)
                    rest = e - n
                    if rest:
                        d[target] = rest
                    else:
                        del d[target]
                    base = {tuple(sorted(d.items())): cc}
                    if n not in pw:
                        q = self.one
                        for _ in range(n):
                            q = self.mul(q, at.data, force=True)
                            if len(q) > limit:
                                raise Undecided("expansion too large")
                        pw[n] = q
                    t = self.mul(base, pw[n], force=True)
                else:
                    t = {mm: cc}
                for k2, v in t.items():
                    o = r.get(k2)
                    if o is None:
                        r[k2] = (v, abs(v))
                    else:
                        r[k2] = (o[0] + v, max(o[1], abs(v)))
                if len(r) > limit:
                    raise Undecided("expansion too large (%d terms)" % len(r))
                if self.deadline and time.thread_time() > self.deadline:
                    raise Undecided("time budget exhausted in expansion")
            cur = {k2: v[0] for k2, v in r.items() if abs(v[0]) > TOL * v[1]}
        raise Undecided("expansion did not terminate")

    def clean(self, p):
        """Merge monomials that differ only by exponents of exponentials equal to within TOL
        (the same identification of constants as for coefficients)."""
        atoms = self.atoms
        if len(p) < 2 or not any(atoms[a].kind == "E" for m in p for a, _ in m):
            return p
        buckets = {}
        for m, c in p.items():
            rest, es = [], []
            for a, e in m:
                if atoms[a].kind == "E":
                    if abs(e) > TOL * (getattr(atoms[a], "emax", None) or abs(e)):
                        es.append((a, e))
                else:
                    rest.append((a, e))
            key = (tuple(rest), tuple(a for a, _ in es))
            for b in buckets.setdefault(key, []):
                if all(abs(e - e2) <= TOL * max(abs(e), abs(e2), getattr(atoms[a], "emax", None) or 0) for (a, e), (_, e2) in zip(es, b[0])):
                    b[1] += c
                    b[2] = max(b[2], abs(c))
                    break
            else:
                buckets[key].append([es, c, abs(c), m])
        return {b[3]: b[1] for bs in buckets.values() for b in bs if abs(b[1]) > TOL * b[2]}

    # ------------------------------------------------------------ numeric value
    def evalf(self, p, env, memo=None):
        """Value at env: {atom id: number}."""
        if memo is None:
            memo = {}
        tot = 0.0
        for m, c in p.items():
            v = float(c) if abs(c) < Decimal("1e300") else math.inf
            for a, e in m:
                x = self.eval_atom(a, env, memo)
                if self.atoms[a].kind == "E":
                    v = v * cmath.exp(x * float(e)) if isinstance(x, complex) else v * math.exp(min(700.0, max(-745.0, x * float(e))))
                elif self.atoms[a].kind == "ind":
                    v = v * x
                else:
                    ef = float(e)
                    if x == 0 and ef < 0:
                        v = math.nan
                    elif not isinstance(x, complex) and x < 0 and ef != int(ef):
                        v = math.nan
                    else:
                        try:
                            v = v * (x if ef == 1 else x ** (int(ef) if ef == int(ef) else ef))
                        except OverflowError:
                            v = math.inf
            tot = tot + v
        return tot

    def eval_atom(self, a, env, memo):
        if a in memo:
            return memo[a]
        at = self.atoms[a]
        k = at.kind
        if a in env:
            v = env[a]
        elif k == "I":
            v = 1j
        elif k in ("sum", "group"):
            v = self.evalf(at.data, env, memo)
        elif k == "E":
            v = self.evalf({at.data: D1}, env, memo)
        elif k == "abs":
            v = abs(self.evalf(at.data, env, memo))
        elif k == "cabs":
            v = abs(self.eval_atom(at.data, env, memo))
        elif k == "log":
            x = self.eval_atom(at.data, env, memo)
            v = (math.log(x) if x > 0 else math.nan) if not isinstance(x, complex) else cmath.log(x)
        elif k == "ind":
            x = self.evalf(at.data[0], env, memo)
            x = x.real if isinstance(x, complex) else x
            v = float(x < 0) if at.data[1] == "lt" else float(x > 0)
        elif k == "atan2":
            y = self.evalf(at.data[0], env, memo); x = self.evalf(at.data[1], env, memo)
            v = math.atan2(_re(y), _re(x))
        elif k == "arctan":
            v = math.atan(_re(self.evalf(at.data, env, memo)))
        elif k == "acos":
            x = _re(self.evalf(at.data, env, memo))
            v = math.acos(max(-1, min(1, x)))
        elif k == "asin":
            v = math.asin(max(-1, min(1, _re(self.evalf(at.data, env, memo)))))
        elif k == "tanh":
            v = math.tanh(_re(self.evalf(at.data, env, memo)))
        elif k == "opaque":
            name, args = at.data
            if name == "conj":
                x = self.eval_atom(args, env, memo)
                v = x.conjugate() if isinstance(x, complex) else x
            elif at.ev is not None:
                v = at.ev([_re(self.evalf(x, env, memo)) if isinstance(x, dict) else x for x in args])
            else:
                raise Undecided("no numeric meaning for " + str(name))
        else:
            raise Undecided("evalf " + k)
        memo[a] = v
        return v

    # ------------------------------------------------------------------ printing
    def show(self, p, depth=2, maxn=12):
        if not p:
            return "0"
        out = []
        for i, (m, c) in enumerate(sorted(p.items(), key=lambda t: str(t[0]))):
            if i >= maxn:
                out.append("... (%d terms)" % len(p)); break
            s = "%.6g" % float(c) if abs(c) < Decimal("1e300") else str(c)
            for a, e in m:
                s += "*" + self.show_atom(a, depth) + ("" if e == 1 else "^(%s)" % (e if isinstance(e, Fraction) else "%.6g" % float(e)))
            out.append(s)
        return " + ".join(out)

    def show_atom(self, a, depth):
        at = self.atoms[a]
        if at.kind == "I":
            return "i"
        if at.kind == "var":
            return at.name
        if depth <= 0:
            return "%s#%d" % (at.kind, a)
        if at.kind in ("sum", "group", "abs", "arctan", "acos", "asin"):
            return at.kind + "(" + self.show(at.data, depth - 1) + ")"
        if at.kind == "E":
            return "exp(" + self.show({at.data: D1}, depth - 1) + ")"
        if at.kind in ("log", "cabs"):
            return at.kind + "(" + self.show_atom(at.data, depth - 1) + ")"
        if at.kind == "ind":
            return "[" + self.show(at.data[0], depth - 1) + ("<0]" if at.data[1] == "lt" else ">0]")
        if at.kind == "opaque":
            return "%s(...)" % (at.data[0],)
        return "%s#%d" % (at.kind, a)


def _re(x):
    return x.real if isinstance(x, complex) else x


def _fpow(x, e):
    try:
        if x == 0:
            return 0.0 if e > 0 else math.inf
        if x == math.inf:
            return math.inf if e > 0 else 0.0
        return x ** e
    except OverflowError:
        return math.inf
