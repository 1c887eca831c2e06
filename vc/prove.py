"""Discharging equational obligations: normal forms, lazy case analysis on the code's own
branch conditions, interval lemmas on the order of frequency thresholds; and the search
for a failing input on the real code."""
from __future__ import annotations
import math, os, time
from decimal import Decimal
from fractions import Fraction
import numpy as np
from .ring import Ring, Undecided, F0, F1, D1
from .sym import Sym
from . import interval as IVL


VERBOSE = bool(os.environ.get("VC_VERBOSE"))


class Stats:
    def __init__(self):
        self.cases = 0
        self.pruned = 0
        self.lemmas = {}
        self.boxes = 0
        self.residuals = 0


def var_index(R):
    return {R.atoms[i].name: i for i in range(len(R.atoms)) if R.atoms[i].kind == "var"}


class Prover:
    def __init__(self, R: Ring, box=None, tables=None, stats=None, res_limit=60000, budget_s=120.0):
        """box: {var name: (lo, hi)} compact domain used by interval lemmas."""
        self.R = R
        self.box = box or {}
        self.stats = stats or Stats()
        self.order = {}
        self.th_cache = {}
        self.hard = False
        self.res_limit = res_limit
        self.budget_s = budget_s
        self.extra_lanes = set()
        self.tables = tables if tables is not None else TableCache(R)

    # ------------------------------------------------------------ thresholds
    def threshold(self, ind_prim, lanes=True):
        """ind argument (a*f - b)*k with f a frequency: (f id, b/a, orientation) else None."""
        R = self.R
        ck = (R.poly_key(ind_prim), lanes, self.hard)
        if ck not in self.th_cache:
            oc, R.ctx = R.ctx, None
            try:
                self.th_cache[ck] = self._threshold(ind_prim, lanes)
            finally:
                R.ctx = oc
        return self.th_cache[ck]

    def _threshold(self, p, lanes):
        R = self.R
        s0 = 1
        if len(p) == 1:
            (m, c), = p.items()
            if c < 0:
                s0 = -1
            main = None
            for a, e in m:
                if R.exp_pos(a, e):
                    continue
                at = R.atoms[a]
                if main is None and at.kind == "sum" and e == 1 and (self.lanes(at.data) if lanes else True) and \
                        not (not lanes and self.sign_of({((a, F1),): D1})):
                    main = at.data
                    continue
                if lanes and self.lanes({((a, F1),): D1}):
                    return None
                s = self.sign_of({((a, F1),): D1})
                if s is None:
                    return None
                if s < 0 and e.numerator % 2:
                    s0 = -s0
            if main is None:
                if len(m) == 1 and m[0][1] == 1 and R.atoms[m[0][0]].kind == "var":
                    main = p
                    s0 = 1
                else:
                    return None
            p = main
        ids = self.lanes(p) if lanes else sorted(R.deps(p))
        for fid in ids:
            a, b = {}, {}
            ok = True
            for m, c in p.items():
                d = dict(m)
                e = d.pop(fid, 0)
                if e == 0:
                    b[m] = c
                elif e == 1:
                    a[tuple(sorted(d.items()))] = c
                else:
                    ok = False
                    break
            if not ok or not a:
                continue
            if fid in R.deps(a) or fid in R.deps(b):
                continue
            s = self.sign_of(a)
            if s in (1, -1):
                return fid, R.neg(R.div(b, a)), s * s0
        return None

    def lanes(self, p):
        R = self.R
        return [i for i in R.deps(p) if (R.atoms[i].name or "").endswith("[k]") or (R.atoms[i].name or "") in ("f", "g") or R.atoms[i].name in self.extra_lanes]

    def same(self, t1, t2):
        """t1 = t2 on the whole domain"""
        R = self.R
        d = R.sub(t1, t2)
        if not d:
            return True
        if not self.hard:
            return False
        key = ("=", R.poly_key(d))
        if key not in self.order:
            r = False
            if not self.falsified(d, Context(self)):
                try:
                    r = not R.residual(d, 4000)
                except Undecided:
                    pass
            self.order[key] = r
        return self.order[key]

    def less(self, t1, t2):
        """Is t1 < t2 on the whole domain?  True / None (unknown)."""
        R = self.R
        d = R.sub(t2, t1)
        key = R.poly_key(d)
        if key in self.order:
            return self.order[key]
        r = None
        s = R.sign(d)
        if s == 1:
            r = True
        elif s in (0, -1):
            r = None
        elif self.box:
            if not self.hard:
                return None
            r = self.interval_pos(d)
        self.order[key] = r
        return r

    def interval_pos(self, d, budget=1_500_000, time_s=60):
        R = self.R
        w = R.wrap(d)
        # drop the factors known to be positive
        (m, c), = w.items() if len(w) == 1 else ((None, None),)
        if m is None:
            return None
        d, free = self.relax(d)
        w = R.wrap(d)
        if len(w) != 1:
            return None
        (m, c), = w.items()
        ids = {i: self.box[R.atoms[i].name] for i in R.deps(d) if R.atoms[i].name in self.box}
        ids.update(free)
        keep = []
        for a, e in m:
            if R.exp_pos(a, e):
                continue
            keep.append((a, e))
        q = {tuple(keep): Decimal(1) if c > 0 else Decimal(-1)}
        if not (R.deps(q) <= set(ids)):
            return self.poly_pos(q, set(ids), budget, time_s)
        names = {R.atoms[i].name: i for i in R.deps(q)}
        if "eta" in names and self.box["eta"] == (0, 0.25):
            # eta = (1 - delta^2)/4, 0 <= delta <= 1, removes the root at eta = 1/4
            dl = R.var("delta", 0, 1)
            q = R.subst(q, {names["eta"]: R.scale(R.sub(R.one, R.mul(dl, dl)), Decimal("0.25"))})
            (m, c), = dl.items()
            ids[m[0][0]] = (0, 1)
            w = R.wrap(q)
            if len(w) == 1:                       # factors that are >= 0 on the box, = 0 only at its edge
                (m2, c2), = w.items()
                q = {tuple((a, e) for a, e in m2 if not self.edge_pos(a)): Decimal(1) if c2 > 0 else Decimal(-1)}
        if R.table.get(("var", "delta")) is not None and R.deps(q) == {R.table[("var", "delta")]}:
            # zeros at the edge eta -> 0: delta = 1 - 2y, factor y^k out of the expansion
            y = R.var("y_edge", 0, 0.5, pos=True)
            (m, c), = y.items()
            try:
                q2 = R.subst(q, {R.table[("var", "delta")]: R.sub(R.one, R.scale(y, 2))})
                if len(q2) == 1:
                    (mm, cc), = q2.items()
                    q2 = {tuple((a, e) for a, e in mm if not R.exp_pos(a, e)): cc}
                q2 = R.residual(q2, 3000, only=frozenset([m[0][0]]))
                if q2:
                    cc, mm, prim = R.content(q2)
                    if all(a == m[0][0] for a, _ in mm):
                        q = R.scale(prim, 1 if cc > 0 else -1)
                        ids[m[0][0]] = (0, 0.5)
            except Undecided:
                pass
        # positive variables whose box starts at 0: factor their powers out
        edge = frozenset(v for v in R.deps(q) if ids[v][0] == 0 and R.atoms[v].pos)
        if edge and len(R.deps(q)) == 1:
            try:
                q2 = R.residual(q, 3000, only=edge)
                if q2:
                    cc, mm, prim = R.content(q2)
                    if R.is_const(prim) and all(R.exp_pos(a, 1) for a, _ in mm):
                        return True if cc * R.const_val(prim) > 0 else None
                    if all(R.exp_pos(a, 1) or a in edge for a, _ in mm):
                        q = R.scale(prim, 1 if cc > 0 else -1)
            except Undecided:
                pass
        if not R.deps(q):
            return True if float(q.get((), 0)) > 0 else None
        box = {i: ids[i] for i in R.deps(q)}
        try:
            ok, n, wit = IVL.prove_positive_cases(R, q, box, tables=self.tables, budget=budget, time_s=time_s)
        except Undecided:
            return None
        self.stats.boxes += n
        self.stats.lemmas[R.show(q, 1, 4)[:120]] = (ok, n)
        return True if ok else None

    def relax(self, d):
        """tables whose argument involves variables without a box are replaced by a free value of their range"""
        R = self.R
        free = {}
        sub = {}
        for a in R.find_atoms(d, lambda at: at.kind == "opaque" and str(at.data[0]).startswith("contract:")):
            at = R.atoms[a]
            v = R.var("result%d" % a, at.lo, at.hi)
            (m, c), = v.items()
            R.atoms[m[0][0]].pos = at.lo >= 0
            sub[a] = v
            free[m[0][0]] = (at.lo, at.hi)
        if sub:
            d = R.subst(d, sub)
            sub = {}
        if all(R.atoms[i].name in self.box or i in free for i in R.deps(d)):
            return d, free
        for a in R.find_atoms(d, lambda at: at.kind == "opaque" and str(at.data[0]).startswith("interp:")):
            at = R.atoms[a]
            if all(R.atoms[i].name in self.box for i in R.atom_deps(a)) or not (math.isfinite(at.lo) and math.isfinite(at.hi)):
                continue
            v = R.var("range%d" % a, at.lo, at.hi)
            (m, c), = v.items()
            R.atoms[m[0][0]].pos = at.lo > 0
            sub[a] = v
            free[m[0][0]] = (at.lo, at.hi)
        return (R.subst(d, sub) if sub else d), free

    def poly_pos(self, q, ids, budget, time_s):
        """q > 0 for all values >= 0 of the unbounded variables: multiply out in these
        variables; every coefficient must be >= 0 on the box and the constant one > 0."""
        R = self.R
        free = frozenset(R.deps(q) - ids)
        if not all(R.atoms[v].kind == "var" and R.atoms[v].lo >= 0 for v in free):
            return None
        (m, c), = R.wrap(q).items()
        # strip the factors of known sign
        keep, s = [], 1 if c > 0 else -1
        for a, e in m:
            sg = R.sign({((a, F1),): D1})
            if sg is None and e.denominator == 1:
                sg = self.factor_sign(a, budget, time_s)
            if sg is None:
                keep.append((a, e))
            elif sg < 0 and e.numerator % 2:
                s = -s
        if len(keep) != 1 or keep[0][1] != 1 or R.atoms[keep[0][0]].kind != "sum":
            return True if not keep and s > 0 else None
        return True if self.coeffs_pos(R.atoms[keep[0][0]].data, s, free, budget, time_s) else None

    def factor_sign(self, a, budget, time_s):
        R = self.R
        if R.atoms[a].kind != "sum":
            return None
        free = frozenset(v for v in R.atom_deps(a) if R.atoms[v].name not in self.box)
        if not free:
            if self.interval_pos({((a, F1),): D1}):
                return 1
            return -1 if self.interval_pos({((a, F1),): -D1}) else None
        if self.coeffs_pos(R.atoms[a].data, 1, free, budget, time_s):
            return 1
        return -1 if self.coeffs_pos(R.atoms[a].data, -1, free, budget, time_s) else None

    def coeffs_pos(self, p, s, free, budget, time_s):
        R = self.R
        ck = ("cp", R.poly_key(p), s, free)
        if ck in self.order:
            return self.order[ck]
        self.order[ck] = False
        try:
            p = R.residual(p, 20000, only=free)
        except Undecided:
            return False
        # the common denominator in sums that contain the free variables must be positive
        den = {}
        for m in p:
            for a, e in m:
                if a not in free and R.atom_deps(a) & free:
                    if e > 0:
                        return False
                    den[a] = min(den.get(a, F0), e)
        if den:
            if not all(R.sign({((a, F1),): D1}) == 1 or (e.denominator == 1 and self.factor_sign(a, budget, time_s) == 1) for a, e in den.items()):
                return False
            p = R.mul(p, {tuple(sorted((a, -e) for a, e in den.items())): D1}, force=True)
            return self.coeffs_pos(p, s, free, budget, time_s)
        co = {}
        for m, c in p.items():
            key = tuple((a, e) for a, e in m if a in free)
            if any(e < 0 for _, e in key):
                return False
            rest = tuple((a, e) for a, e in m if a not in free)
            co.setdefault(key, {})[rest] = c if s > 0 else -c
        if () not in co:
            return False
        for key, q in sorted(co.items()):
            if all(c > 0 and R.mono_pos(m) for m, c in q.items()):
                continue
            if not R.sign(q) == 1 and not self.interval_pos(q, budget, time_s):
                if VERBOSE:
                    print("   coefficient not positive:", R.show(q, 2, 6)[:300], key)
                return False
        self.order[ck] = True
        return True

    def edge_pos(self, a):
        """1 - delta^2 and 1 - delta (positive for every eta > 0)"""
        R = self.R
        at = R.atoms[a]
        if at.kind != "sum" or len(at.data) != 2:
            return False
        dl = R.table.get(("var", "delta"))
        return at.data == {(): D1, ((dl, Fraction(2)),): -D1} or at.data == {(): D1, ((dl, F1),): -D1}

    # ---------------------------------------------------------- case analysis
    def sign_of(self, p):
        R = self.R
        s = R.sign(p)
        if s is not None or not self.box or not self.hard:
            return s
        key = ("s", R.poly_key(p))
        if key not in self.order:
            r = None
            if self.interval_pos(p, budget=300000, time_s=20):
                r = 1
            elif self.interval_pos(R.neg(p), budget=300000, time_s=20):
                r = -1
            self.order[key] = r
        return self.order[key]

    def prove(self, M, law, cases=None):
        """All (lhs, rhs) pairs of law(M) equal, on every case?  False leaves self.leaf."""
        self.t_end = time.thread_time() + self.budget_s
        self.leaf = None
        self.pairs0 = None         # both sides without case assumptions
        if cases is None:
            return self._prove(M, law, Context(self), 0)
        for case in cases(M):
            ctx = Context(self)
            ok = True
            for expr, rel in case:
                ctx = self.assume(ctx, expr.p, rel)
                if ctx is None:
                    ok = False
                    break
            if ok and not self._prove(M, law, ctx, 0):
                return False
        return True

    def assume(self, ctx, p, rel):
        """ctx with the assumption  p rel 0;  None when it is impossible"""
        R = self.R
        i = R.ind(p, "gt" if rel == "eq" else rel)
        if R.is_const(i):
            return ctx if i else None
        (m, c), = i.items()
        at = R.atoms[m[0][0]]
        if len(i) != 1 or len(m) != 1 or at.kind != "ind":
            raise Undecided("case assumption is not a simple threshold")
        prim, op = at.data
        th = self.threshold(prim)
        if not th:
            old, self.hard = self.hard, True
            try:
                th = self.threshold(prim)
            finally:
                self.hard = old
        if not th:
            raise Undecided("case assumption has no threshold")
        return ctx.extend(R.poly_key(prim), prim, "eq" if rel == "eq" else op, th)

    def evaluate(self, M, law, ctx):
        R = self.R
        old, oat = R.ctx, M.at
        R.ctx, M.at = ctx, ctx.at
        try:
            pairs = law(M)
            if self.pairs0 is None:
                self.pairs0 = pairs
            out = []
            for it in pairs:
                d = (it[0] - it[1])
                out.append(d.p if isinstance(d, Sym) else R.const(d))
            return out
        finally:
            R.ctx, M.at = old, oat

    def _prove(self, M, law, ctx, depth):
        R = self.R
        self.stats.cases += 1
        diffs = self.evaluate(M, law, ctx)
        rest = []
        if VERBOSE:
            print("  " * depth, "case", [(self.R.show(p_, 1, 2)[:60], r_) for _, p_, r_, _t in ctx.items], "hard" if ctx.hard else "", [len(d) for d in diffs], "%.0f s left" % (self.t_end - time.thread_time()), flush=True)
        for k, d in enumerate(diffs):
            if not d:
                continue
            if (ctx.hard or not ctx.at) and self.falsified(d, ctx):
                self.leaf = (d, ctx.describe())
                return False
            try:
                if len(d) <= 40 and not R.residual(d, 4000):
                    self.stats.residuals += 1
                    continue
            except Undecided:
                pass
            rest.append((k, d))
        if not rest:
            return True
        if time.thread_time() > self.t_end or depth > 12:
            self.leaf = (rest[0][1], ctx.describe())
            return False
        if ctx.items and not ctx.hard:
            return self._prove(M, law, ctx.harder(), depth)
        # threshold conditions still open
        cands = {}
        for k, d in rest:
            for a in R.find_atoms(d, lambda a: a.kind == "ind"):
                prim = R.atoms[a].data[0]
                key = R.poly_key(prim)
                if key in cands or ctx.decide(key, prim) is not None:
                    continue
                th = self.threshold(prim)
                if th:
                    cands[key] = (prim, th)
        if cands:
            best = None
            for key, (prim, th) in cands.items():
                size = 0
                for rel in ("lt", "gt"):
                    c2 = ctx.extend(key, prim, rel, th)
                    size += sum(self.weight(d) for d in self.evaluate(M, law, c2))
                    if best is not None and size >= best[0]:
                        break
                if best is None or size < best[0]:
                    best = (size, key, prim, th)
                if time.thread_time() > self.t_end:
                    break
            _, key, prim, th = best
            for rel in ("lt", "gt", "eq"):
                c2 = ctx.extend(key, prim, rel, th)
                if c2.infeasible():
                    self.stats.pruned += 1
                    continue
                if not self._prove(M, law, c2, depth + 1):
                    return False
            return True
        for k, d in rest:
            if not self.zero_cases(d, 0, ctx):
                return False
        return True

    def weight(self, d):
        return len(d) + sum(2 for _ in self.R.find_atoms(d, lambda a: a.kind == "ind")) if d else 0

    def zero(self, p):
        """p == 0 on every case of the conditions that occur in it (no evaluation context)"""
        self.leaf = None
        self.t_end = time.thread_time() + self.budget_s
        return self.zero_cases(p, 0, Context(self))

    def zero_cases(self, p, depth, ctx):
        """conditions that are not thresholds on the frequency: split by substitution"""
        R = self.R
        if not p:
            return True
        if R.is_const(p):
            self.leaf = (p, ctx.describe())
            return False
        inds = R.find_atoms(p, lambda a: a.kind == "ind")
        try:
            if (len(p) <= 200 or not inds) and not R.residual(p, 20000 if inds else self.res_limit):
                self.stats.residuals += 1
                return True
        except Undecided:
            pass
        if not inds or depth > 16 or time.thread_time() > self.t_end:
            self.leaf = (p, ctx.describe())
            return False
        best = None
        for a in inds:
            at = R.atoms[a]
            inner = [x for x in R.find_atoms(at.data[0], lambda x: x.kind == "ind")]
            if inner:
                continue
            key = (len(R.atom_deps(a)), a)
            if best is None or key < best[0]:
                best = (key, a)
        if best is None:
            self.leaf = (p, ctx.describe())
            return False
        a = best[1]
        at = R.atoms[a]
        lt, gt = (a, at.ind_pair) if at.data[1] == "lt" else (at.ind_pair, a)
        for val in ("lt", "gt", "eq"):
            self.stats.cases += 1
            q = R.subst(p, {lt: R.one if val == "lt" else {}, gt: R.one if val == "gt" else {}})
            if not q:
                continue
            if val == "eq":
                th = self.threshold(at.data[0], lanes=False)
                if th:
                    q = R.subst(q, {th[0]: th[1]})
            elif self.never(at.data[0], val):
                self.stats.pruned += 1
                continue
            if not self.zero_cases(q, depth + 1, ctx):
                return False
        return True

    def positive(self, q):
        R = self.R
        key = ("p", R.poly_key(q))
        if key not in self.order:
            self.order[key] = bool(self.interval_pos(q))
        return self.order[key]

    def never(self, prim, val):
        """the condition prim<0 (lt) / prim>0 (gt) has no solution on the domain"""
        if not self.box:
            return False
        return self.positive(prim if val == "lt" else self.R.neg(prim))

    def falsified(self, p, ctx, tries=6):
        """Does the normal form evaluate to a non-zero number at a point of the case?
        (saves time only: the counterexample search on the real code decides)"""
        R = self.R
        rng = np.random.default_rng(11)
        bad = 0
        good = 0
        for k in range(tries * 5):
            env = random_env(R, p, rng)
            try:
                if not ctx.holds(env):
                    continue
                memo = {}
                v = R.evalf(p, env, memo)
                mag = sum(abs(R.evalf({m: c}, env, memo)) for m, c in p.items())
            except (Undecided, OverflowError, ZeroDivisionError, ValueError):
                return False
            if v != v or mag != mag or mag == 0 or mag == math.inf:
                continue
            if abs(v) > 1e-5 * mag:
                bad += 1
            else:
                good += 1
            if bad + good >= tries:
                break
        return bad >= 2 and bad > good


class Context:
    """Case assumptions  f <|>|= threshold  consulted by Ring.ind while the code is evaluated."""

    def __init__(self, pr, items=(), hard=False):
        self.pr, self.items, self.hard = pr, list(items), hard
        self.known = {k: rel for k, prim, rel, th in self.items}
        self.at = {th[0]: th[1] for k, prim, rel, th in self.items if rel == "eq"}
        self.memo = {}

    def extend(self, key, prim, rel, th):
        return Context(self.pr, self.items + [(key, prim, rel, th)], self.hard)

    def harder(self):
        return Context(self.pr, self.items, True)

    def describe(self):
        return [(self.pr.R.show(prim, 1, 4)[:200], rel) for k, prim, rel, th in self.items]

    def holds(self, env):
        R = self.pr.R
        for k, prim, rel, th in self.items:
            if rel == "eq":
                v = R.evalf(th[1], env)
                env[th[0]] = v.real if isinstance(v, complex) else v
                continue
            v = R.evalf(prim, env)
            v = v.real if isinstance(v, complex) else v
            if not (v < 0 if rel == "lt" else v > 0):
                return False
        return True

    def decide(self, key, prim):
        if not self.items:
            return None
        if key in self.known:
            return self.known[key]
        if key in self.memo:
            return self.memo[key]
        self.memo[key] = None            # no recursion
        pr = self.pr
        old, pr.hard = pr.hard, self.hard
        oc, pr.R.ctx = pr.R.ctx, None
        try:
            v = self._decide(prim)
        finally:
            pr.hard = old
            pr.R.ctx = oc
        self.memo[key] = v
        return v

    def _decide(self, prim):
        pr = self.pr
        if not pr.lanes(prim):
            if self.hard and pr.box:
                if pr.positive(prim):
                    return "gt"
                if pr.positive(pr.R.neg(prim)):
                    return "lt"
            return None
        th = pr.threshold(prim)
        if not th:
            return None
        fid, t2, s2 = th
        for k, p1, rel, (f1, t1, s1) in self.items:
            if f1 != fid:
                continue
            r = rel
            if s1 < 0 and r != "eq":
                r = "gt" if r == "lt" else "lt"
            # f r t1;  what about f ? t2
            out = None
            if r in ("lt", "eq") and pr.less(t1, t2):
                out = "lt"
            elif r in ("gt", "eq") and pr.less(t2, t1):
                out = "gt"
            elif pr.same(t1, t2):
                out = r
            if out:
                if s2 < 0 and out != "eq":
                    out = "gt" if out == "lt" else "lt"
                return out
        return None

    def infeasible(self):
        """the last assumption contradicts what the earlier ones imply"""
        if len(self.items) < 2:
            return False
        key, prim, rel, th = self.items[-1]
        v = Context(self.pr, self.items[:-1], True).decide(key, prim)
        return v is not None and v != rel


RANGES = {"Mc": (1, 40), "eta": (0.05, 0.25), "D": (10, 1000), "chi1": (-.9, .9), "chi2": (-.9, .9), "s": (.3, 3),
          "lam1": (1, 3000), "lam2": (1, 3000), "lam_tilde": (1, 3000), "dlam_tilde": (-200, 200), "m1": (1, 50), "m2": (1, 50),
          "fref": (10, 100), "fref2": (10, 100), "tc": (-1, 1), "phic": (0, 6), "iota": (0.1, 3), "q": (.1, .99)}


def random_env(R, p, rng):
    env = {}
    for i in R.deps(p):
        at = R.atoms[i]
        nm = (at.name or "").replace("[k]", "")
        if nm in RANGES:
            lo, hi = RANGES[nm]
        elif math.isfinite(at.lo) and math.isfinite(at.hi):
            lo, hi = at.lo + .05 * (at.hi - at.lo), at.hi - .05 * (at.hi - at.lo)
        elif at.pos or at.lo >= 0:
            lo, hi = 5, 300
        else:
            lo, hi = -1, 1
        env[i] = float(rng.uniform(lo, hi))
    return env


class TableCache(dict):
    """interval ranges of the piecewise linear tables that occur in normal forms"""

    def __init__(self, R):
        self.R = R
        self.src = {}

    def register(self, name, xp, fp, left=None, right=None):
        self.src[name] = (xp, fp, left, right)

    def __contains__(self, name):
        return dict.__contains__(self, name) or name in TABLES

    def __getitem__(self, name):
        if not dict.__contains__(self, name):
            xp, fp, extra = TABLES[name]
            l = extra[0] if len(extra) > 0 else None
            r = extra[1] if len(extra) > 1 else None
            dict.__setitem__(self, name, IVL.PwLinear(xp, fp, l, r))
        return dict.__getitem__(self, name)


TABLES = {}
