"""Smooth joins: at every internal region boundary of a model the strain and its first frequency
derivative have equal one-sided limits, and (optionally) the boundary itself carries that value."""
from .common import *
from vc.prove import Context
from vc.ring import Undecided
from vc.machine import run_paths, REACHED, reached
from vc.contracts import Contract
from vc.jeval import cshape, fingerprint
import contextlib, os, time

VERBOSE = bool(os.environ.get("VC_VERBOSE"))


def _jet(fn):
    def g(f, p, fr):
        import jax, jax.numpy as jnp
        y, d = jax.jvp(lambda x: fn(x, p, fr), (f,), (jnp.ones_like(f),))
        return y, d
    return g


class Jet:
    """h(f) and dh/df of a single-strain generator, as normal forms, with the named functions replaced by
    their contracts"""

    def __init__(self, mk, contracts):
        self.mk, self.cs = mk, contracts
        table = {}
        for c in contracts:
            table.update(c.table() if hasattr(c, "table") else {c.name: c.answer})
        self.M = SymM(table)
        M = self.M
        self.R = M.R
        self.f, self.fref = M.freq(), M.var("fref")
        self.P = params(M, mk)
        self.ks = [k for k in MODELS[mk].params if k != "iota"]
        n = X.symdim()
        fn = resolve(MODELS[mk].h0)
        with contextlib.ExitStack() as st:
            for c in contracts:
                st.enter_context(c.installed())
            self.paths = M._paths("jet" + mk, _jet(lambda x, p, fr: fn(x, p, fr, **MODELS[mk].kw)), (X.sds((n,)), X.sds((len(self.ks),)), X.sds()))
        self.pr = Prover(self.R, box=BOX)
        self.pr.hard = True
        self.fid = M.id(self.f)

    def at(self, ctx=None, f=None):
        M = self.M
        self.R.ctx, M.at = ctx, (ctx.at if ctx else {})
        try:
            outs = run_paths(M.ev, self.paths, [M.arr([f if f is not None else self.f], (1,)), M.arr([self.P[k] for k in self.ks], (len(self.ks),)), M.arr([self.fref], ())])
            return [o.reshape(-1)[0] for o in outs]
        finally:
            self.R.ctx, M.at = None, {}

    def thresholds(self):
        """the frequencies at which the code changes its expression"""
        R = self.R
        y, d = self.at()
        out = {}
        for p in (y, d):
            for a in R.find_atoms(p, lambda at: at.kind == "ind"):
                prim = R.atoms[a].data[0]
                if self.fid not in R.deps(prim):
                    continue
                th = self.pr.threshold(prim)
                if not th:
                    raise Undecided("a condition on the frequency that is not a threshold: " + R.show(prim, 1, 4)[:150])
                k = R.poly_key(th[1])
                if not any(R.sub(th[1], t) == {} for t in out.values()):
                    out[k] = th[1]
        return list(out.values())


def note(c, leaves):
    """remember the values of a contracted function in a concrete run (the last one seen of each result)"""
    import jax
    for k, y in enumerate(leaves):
        if not isinstance(y, jax.core.Tracer) and np.size(y) == 1:
            c.__dict__.setdefault("seen", {})[k] = float(np.reshape(np.asarray(y), ()))


def split(J, T):
    """normal forms of (h, dh/df) just below and just above T"""
    R = J.R
    e = R.sub(J.f.p, T)
    out = []
    for rel in ("lt", "gt"):
        c = J.pr.assume(Context(J.pr), e, rel)
        out.append(J.at(c))
    return out


def ordered(R, p, below):
    """p under the facts lo < hi for the pairs in `below`"""
    mp = {}
    for lo, hi in below:
        for d, op, val in ((R.sub(lo, hi), "lt", True), (R.sub(lo, hi), "gt", False)):
            i = R.ind(d, op)
            if len(i) == 1:
                (m, c), = i.items()
                if len(m) == 1 and R.atoms[m[0][0]].kind == "ind":
                    mp[m[0][0]] = R.one if val else {}
    return R.subst(p, mp) if mp else p


class Zero:
    """p = 0 for normal forms with exponentials: equal exponents are recognised by expansion, and big sums
    that do not involve the boundary frequencies are first replaced by unknowns"""

    def __init__(self, R, core, limit=200000):
        self.R, self.core, self.limit = R, set(core), limit
        self.fresh = {}
        self.memo = {}

    def atoms_of(self, p, seen):
        R = self.R
        for m in p:
            for a, _ in m:
                if a in seen:
                    continue
                seen.add(a)
                at = R.atoms[a]
                if at.kind in ("sum", "group", "abs"):
                    self.atoms_of(at.data, seen)
        return seen

    def small(self, a):
        return self.atoms_of(self.R.atoms[a].data, set()) - {a} <= self.core | {x for x in self.atoms_of(self.R.atoms[a].data, set()) if self.R.atoms[x].kind in ("sum", "group", "abs")}

    def abstract(self, p):
        """sums that occur in a denominator and involve more than the boundary frequencies become unknowns"""
        R = self.R
        mp, seen = {}, set()

        def walk(p):
            for m in p:
                for a, e in m:
                    at = R.atoms[a]
                    if at.kind not in ("sum", "group", "abs"):
                        continue
                    if at.kind != "abs" and (e < 0 or e != int(e)) and not self.small(a) and a not in mp:
                        if a not in self.fresh:
                            self.fresh[a] = R.var("unknown%d" % a, at.lo, at.hi, pos=at.pos, real=at.real)
                        mp[a] = self.fresh[a]
                    if a not in seen:
                        seen.add(a)
                        walk(at.data)
        walk(p)
        return R.subst(p, mp) if mp else p

    def rational(self, p):
        """p = 0, without exponentials to compare: multiplied out first in everything but the boundary
        frequencies; each coefficient then has to vanish"""
        R = self.R
        for q in (self.abstract(p), p):
            try:
                if not R.residual(q, 120000):
                    return True
            except Undecided:
                pass
        for step in (0, 1):
            q = self.abstract(p) if step == 0 else p
            V = {a for a in self.atoms_of(q, set()) if a not in self.core and R.atoms[a].kind not in ("sum", "group", "abs")}
            touch = {}

            def hit(a):
                if a not in touch:
                    touch[a] = bool(self.atoms_of(R.atoms[a].data, set()) & V)
                return touch[a]
            try:
                q = R.residual(q, self.limit, only=hit)
                groups = {}
                for m, c in q.items():
                    k = tuple((a, e) for a, e in m if a in V)
                    groups.setdefault(k, {})[tuple((a, e) for a, e in m if a not in V)] = c
                if VERBOSE:
                    print("      groups", len(groups), len(q), flush=True)
                if all(not R.residual(g, self.limit) for g in groups.values()):
                    return True
            except Undecided as ex:
                if VERBOSE:
                    print("      ", ex, flush=True)
                if step:
                    raise
        return False

    def __call__(self, p):
        R = self.R
        if not p:
            return True
        if len(p) == 1:
            (m, c), = p.items()
            for a, e in m:
                if R.atoms[a].kind in ("sum", "group") and e > 0 and self(R.atoms[a].data):
                    return True
            return False
        isE = lambda a: R.atoms[a].kind == "E"
        # multiply out the sums that contain exponentials
        for _ in range(40):
            tgt = None
            for m in p:
                for a, e in m:
                    if R.atoms[a].kind in ("sum", "group") and e >= 1 and R.find_atoms(R.atoms[a].data, lambda t: t.kind == "E" and t.unim):
                        tgt = a if tgt is None else max(a, tgt)
            if tgt is None:
                break
            q = {}
            for m, c in p.items():
                d = dict(m)
                e = d.get(tgt, 0)
                if e >= 1:
                    n = int(e)
                    if e - n:
                        d[tgt] = e - n
                    else:
                        del d[tgt]
                    t = {tuple(sorted(d.items())): c}
                    for _ in range(n):
                        t = R.mul(t, R.atoms[tgt].data, force=True)
                else:
                    t = {m: c}
                q = R.add(q, t)
            p = q
        # by exponent
        classes = []
        for m, c in p.items():
            es = [(a, e) for a, e in m if isE(a) and R.atoms[a].unim]
            rest = tuple((a, e) for a, e in m if not (isE(a) and R.atoms[a].unim))
            x = {}
            for a, e in es:
                x = R.add(x, R.scale({R.atoms[a].data: 1}, e))
            for cl in classes:
                if R.sub(cl[0], x) == {}:
                    cl[1] = R.add(cl[1], {rest: c})
                    break
            else:
                classes.append([x, {rest: c}])
        classes = [[self.tidy(x), q] for x, q in classes]
        merged = []
        for x, q in classes:
            for cl in merged:
                if self.same(cl[0], x):
                    cl[1] = R.add(cl[1], q)
                    break
            else:
                merged.append([x, q])
        return all(self.rational(q) for _, q in merged)

    AT = {"Mc": 30.0, "eta": 0.2, "fref": 20.0, "D": 400.0, "chi1": 0.5, "chi2": 0.3}

    def tidy(self, x):
        """drop the terms of a phase that are below 1e-9 rad at a reference binary: what rounding of the
        code's double constants leaves of terms that cancel"""
        R = self.R
        env = {}
        out = {}
        known = {R.table[("var", n)]: v for n, v in self.AT.items() if ("var", n) in R.table}
        for m, c in x.items():
            for a in self.leaves({m: c}, set()):
                at = R.atoms[a]
                if a not in env:
                    env[a] = known.get(a, 150.0 if at.kind == "opaque" and "get_transition" in str(at.data[0]) else 1.0)
            try:
                v = abs(R.evalf({m: c}, env))
            except Exception:
                v = 1.0
            if not v < 1e-9:
                out[m] = c
        return out

    def leaves(self, p, seen):
        R, out = self.R, set()
        for m in p:
            for a, _ in m:
                if a in seen:
                    continue
                seen.add(a)
                k = R.atoms[a].kind
                if k in ("var", "opaque"):
                    out.add(a)
                else:
                    for b in R._children(a):
                        out |= self.leaves({((b, Fraction(1)),): 1}, seen)
        return out

    def same(self, x, y):
        d = self.tidy(self.R.sub(x, y))
        if not d:
            return True
        try:
            return self.rational(d)
        except Undecided:
            return False


class DeltaContract(Contract):
    """The amplitude's intermediate quartic: its five coefficients are only assumed to meet the
    conditions at one end (value and slope), which C14.quartic proves of them for all arguments."""

    def __init__(self, k, st):
        super().__init__("ripplegw.waveforms.IMRPhenomD_utils:get_delta%d" % k, [(-INF, INF)], also=["ripplegw.waveforms.IMRPhenomD"], scalar=True)
        self.k, self.st = k, st

    def answer(self, ev, e, ins):
        R = ev.R
        if len(ins) != 8:
            return None
        a = [ev.lift(x).reshape(-1)[0] for x in ins]
        self.used += 1
        x, v, d = (a[0], a[3], a[6]) if self.st["side"] == 0 else (a[2], a[5], a[7])
        D = {k: R.opaque("contract:get_delta%d" % k, tuple(a)) for k in (2, 3, 4)}
        pw = lambda n: R.pow(x, Fraction(n))
        D[1] = R.sub(d, R.add(R.scale(R.mul(D[2], x), 2), R.add(R.scale(R.mul(D[3], pw(2)), 3), R.scale(R.mul(D[4], pw(3)), 4))))
        D[0] = v
        for k in (1, 2, 3, 4):
            D[0] = R.sub(D[0], R.mul(D[k], pw(k)))
        o = np.empty(cshape(e.outvars[0].aval.shape), object)
        for i in range(o.size):
            o.reshape(-1)[i] = D[self.k]
        return [o]


class SmoothContract:
    """A function whose first argument is a frequency, replaced by its contract: some continuously
    differentiable function of it (outputs `const`: independent of it), the same one for equal arguments.
    C15.pieces discharges the contract."""

    def __init__(self, path, const=(), beyond=None):
        self.beyond = beyond or {}     # result -> a known value it is measured from (its unknown is the difference)
        self.mod, self.fn = path.split(":")
        self.const = set(const)
        self.fid, self.failed, self.passed = None, [], 0       # set to the frequency's variable: discharge the contract at each call
        self.names = {"contract_" + self.fn: 0, "contract_d_" + self.fn: 1}
        self.used = 0

    @contextlib.contextmanager
    def installed(self):
        import jax, importlib
        m = importlib.import_module(self.mod)
        old = getattr(m, self.fn, None)
        if old is None:
            yield self
            return

        def val(*a):
            return old(*a)

        def der(*a):
            import jax.numpy as jnp
            return jax.jvp(lambda x: old(x, *a[1:]), (a[0],), (jnp.ones_like(a[0]),))[1]
        val.__name__ = val.__qualname__ = "contract_" + self.fn
        der.__name__ = der.__qualname__ = "contract_d_" + self.fn
        val, der = jax.jit(val), jax.jit(der)
        g = jax.custom_jvp(val)

        def rule(primals, tangents):
            import jax.numpy as jnp
            from jax.custom_derivatives import SymbolicZero
            for t in jax.tree_util.tree_leaves(tangents[1:], is_leaf=lambda x: isinstance(x, SymbolicZero)):
                if not isinstance(t, SymbolicZero):
                    raise Undecided("%s is differentiated with respect to more than the frequency" % self.fn)
            y = val(*primals)
            if isinstance(tangents[0], SymbolicZero):
                return y, jax.tree_util.tree_map(jnp.zeros_like, y)
            d = der(*primals)
            k = iter(range(100))
            return y, jax.tree_util.tree_map(lambda t: t * tangents[0] if next(k) not in self.const else t * 0.0, d)
        g.defjvp(rule, symbolic_zeros=True)

        def h(*a):
            y = g(*a)
            k = iter(range(100))
            return jax.tree_util.tree_map(lambda t: jax.lax.stop_gradient(t) if next(k) in self.const else t, y)
        def noted(*a):
            y = h(*a)
            note(self, jax.tree_util.tree_leaves(y))
            return y
        setattr(m, self.fn, noted)
        try:
            yield self
        finally:
            setattr(m, self.fn, old)

    def answer(self, ev, e, ins, order):
        R = ev.R
        args = []
        for x in ins:
            if not ev.is_sym(x) and np.size(x) > 16:
                args.append([fingerprint(x)])
            else:
                args.append(list(ev.lift(x).reshape(-1)))
        self.used += 1
        if self.fid is not None and not order:
            self.discharge(ev, e, ins)
        out = []
        for k, v in enumerate(e.outvars):
            o = np.empty(cshape(v.aval.shape), object)
            if o.size != 1 or len(args[0]) != 1:
                return None
            if order and k in self.const:
                o.reshape(-1)[0] = {}
            else:
                deps = tuple(y for j, x in enumerate(args) if not (j == 0 and k in self.const) for y in x)
                o.reshape(-1)[0] = R.opaque("contract:%s%s[%d]" % ("d_" if order else "", self.fn, k), deps)
                if not order and k in self.beyond and self.beyond[k]() is not None:
                    o.reshape(-1)[0] = R.add(o.reshape(-1)[0], self.beyond[k]())
            out.append(o)
        return out

    def discharge(self, ev, e, ins):
        """the function's own body at this call: a formula in the frequency without case distinctions or other
        pieces that are not differentiable, and results `const` do not depend on it"""
        R = ev.R
        x = [v for v in (ev.lift(ins[0]).reshape(-1) if ins else [])]
        if not any(self.fid in R.deps(v) for v in x):
            return
        cj = e.params["jaxpr"]
        for k, o in enumerate(ev.eval_jaxpr(cj.jaxpr, cj.consts, ins)):
            for v in ev.lift(o).reshape(-1):
                self.passed += 1
                if self.fid not in R.deps(v):
                    continue
                if k in self.const:
                    self.failed.append("%s: result %d depends on the frequency" % (self.fn, k))
                for a in R.find_atoms(v, lambda at: at.kind in ("ind", "abs", "cabs", "acos", "atan2", "opaque")):
                    if self.fid in R.deps({((a, Fraction(1)),): 1}):
                        self.failed.append("%s: result %d contains %s of the frequency" % (self.fn, k, R.atoms[a].kind))

    def table(self):
        return {n: (lambda ev, e, ins, order=k: self.answer(ev, e, ins, order)) for n, k in self.names.items()}


class Joins:
    """All internal boundaries of one model."""

    def __init__(self, pid, mk, contracts, sides=None, fref=20.0):
        self.pid, self.mk, self.contracts, self.sides = pid, mk, contracts, sides or [None]

    # ------------------------------------------------------------------ the boundaries of one binary
    def gen(self):
        fn, kw = resolve(MODELS[self.mk].h0), MODELS[self.mk].kw
        return lambda x, p, fr: fn(x, p, fr, **kw)

    def where(self, J, Ps, fref=20.0):
        """numerical values of the boundaries for the binaries Ps: the code's own expressions, with the contracted
        functions' values taken from a run of the code"""
        import jax.numpy as jnp
        R = J.R
        out = []
        z = Zero(R, ())
        with contextlib.ExitStack() as st:
            for c in J.cs:
                st.enter_context(c.installed())
            for P in Ps:
                for c in J.cs:
                    c.seen = {}
                self.gen()(jnp.array([50.0]), jnp.array([P[k] for k in J.ks]), fref)
                env = {R.table[("var", n)]: v for n, v in dict(P, fref=fref).items() if ("var", n) in R.table}
                for c in J.cs:
                    if hasattr(c, "unknowns"):
                        c.seen = c.unknowns(c.seen)
                known = {"contract:%s[%d]" % (c.fn, k): v for c in J.cs for k, v in c.seen.items()}
                row = []
                for T in J.Ts:
                    e = dict(env)
                    for a in z.leaves(T, set()):
                        if R.atoms[a].kind == "opaque":
                            e[a] = known.get(R.atoms[a].data[0], float("nan"))
                    row.append(float(np.real(R.evalf(T, e))))
                out.append(row)
        return out

    REF = {"Mc": 26.0, "eta": 0.22, "chi1": 0.3, "chi2": 0.2, "D": 400.0, "tc": 0.0, "phic": 0.0}

    def order(self, J):
        """facts lo < hi that define the domain: within the phase and within the amplitude the boundaries are in the
        order they have for a moderate binary, and all lie below the cutoff"""
        R = J.R
        num = self.where(J, [self.REF])[0]
        y, d = J.at()
        ph = set()
        for a in R.find_atoms(y, lambda at: at.kind == "E" and at.unim):
            for b in R.find_atoms({R.atoms[a].data: 1}, lambda at: at.kind == "ind"):
                ph.add(b)
        kinds = [set() for _ in J.Ts]
        for b in R.find_atoms(y, lambda at: at.kind == "ind"):
            th = J.pr.threshold(R.atoms[b].data[0]) if J.fid in R.deps(R.atoms[b].data[0]) else None
            for i, T in enumerate(J.Ts):
                if th and R.sub(th[1], T) == {}:
                    kinds[i].add("phase" if b in ph else "amp")
        facts = []
        top = max(range(len(num)), key=lambda i: num[i])
        for i in range(len(num)):
            for j in range(len(num)):
                if num[i] < num[j] and (j == top or kinds[i] & kinds[j]):
                    facts.append((J.Ts[i], J.Ts[j]))
        return facts, num, top

    # ------------------------------------------------------------------ proof
    def prove(self, job):
        left = None
        done, info = set(), []
        for side in self.sides:
            J = Jet(self.mk, self.contracts(side))
            J.Ts = J.thresholds()
            facts, num, top = self.order(J)
            R = J.R
            if left is None:
                left = set(range(len(num))) - {top}
                if len(num) < 2:
                    raise Undecided("no boundaries found")
            core = {R.table[("var", n)] for n in ("Mc", "eta") if ("var", n) in R.table}
            for T in J.Ts:
                core |= Zero(R, ()).leaves(T, set())
            for i in sorted(left):
                bad = self.join(J, J.Ts[i], facts, core)
                if VERBOSE:
                    print("  side", side, "boundary", i, "%.3f Hz" % num[i], bad or "ok", flush=True)
                if not bad:
                    left.discard(i)
                    info.append("boundary at %.2f Hz for the reference binary" % num[i])
                else:
                    last = "boundary at %.2f Hz for the reference binary: %s" % (num[i], bad)
        if left:
            raise Undecided(last)
        return info

    def join(self, J, T, facts, core):
        R = J.R
        o = lambda x: ordered(R, x, facts)
        (hl, dl), (hr, dr) = [[o(x) for x in q] for q in split(J, T)]
        c = J.pr.assume(Context(J.pr), R.sub(J.f.p, T), "eq")
        h0 = o(J.at(c)[0])
        cj = R.conj(hr)
        for nm, p, q in (("magnitude", R.mul(hl, R.conj(hl)), R.mul(hr, cj)), ("value", R.mul(hl, cj), R.mul(hr, cj)), ("derivative", R.mul(dl, cj), R.mul(dr, cj)),
                         ("value at the boundary", R.mul(h0, cj), R.mul(hr, cj)), ("magnitude at the boundary", R.mul(h0, R.conj(h0)), R.mul(hr, cj))):
            if p == q:
                continue
            z = o(R.subst(R.sub(p, q), {J.fid: T}))
            try:
                if not Zero(R, core)(z):
                    return nm + ": the one-sided values are not shown equal"
            except Undecided as ex:
                return "%s: %s" % (nm, ex)
        return None

    # ------------------------------------------------------------------ the real code
    def draw(self, rng):
        return {"Mc": rng.uniform(5, 60), "eta": rng.uniform(0.12, 0.2499), "chi1": rng.uniform(-.8, .8), "chi2": rng.uniform(-.8, .8), "D": 400.0, "tc": 0.0, "phic": 0.0}

    def jump(self, J, P, i, T):
        import jax, jax.numpy as jnp
        e = 1e-9
        f = jnp.array([T * (1 - e), T * (1 + e)])
        p = jnp.array([P[k] for k in J.ks])
        h, d = self.jit(f, p, 20.0)
        h, d = np.asarray(h), np.asarray(d)
        if not np.isfinite(h).all() or abs(h[1]) == 0 and abs(h[0]) == 0:
            return None
        rh = abs(h[1] - h[0]) / max(abs(h))
        rd = abs(d[1] - d[0]) / max(abs(d))
        if rh > 1e-4 or rd > 2e-3:
            return {"boundary": i, "frequency": T, "parameters": P, "relative_jump_of_strain": float(rh), "relative_jump_of_derivative": float(rd)}
        return None

    def search(self, n=12):
        import jax, warnings
        rng = np.random.default_rng(SEED)
        J = Jet(self.mk, self.contracts(self.sides[0]))
        J.Ts = J.thresholds()
        self.jit = jax.jit(_jet(self.gen()))
        tried = 0
        Ps = [dict(self.REF)] + [self.draw(rng) for _ in range(n)]
        rows = self.where(J, Ps)
        top = int(np.argmax(rows[0]))
        for P, Ts in zip(Ps, rows):
            for i, T in enumerate(Ts):
                if i == top or not 0 < T < Ts[top] * (1 - 1e-6) or min(abs(T / t - 1) for j, t in enumerate(Ts) if j != i) < 1e-6:
                    continue
                tried += 1
                ce = self.jump(J, P, i, T)
                if ce:
                    return ce, tried
        return None, tried

    def replay(self, ce):
        import jax
        J = Jet(self.mk, self.contracts(self.sides[0]))
        self.jit = jax.jit(_jet(self.gen()))
        r = self.jump(J, ce["parameters"], ce["boundary"], ce["frequency"])
        return bool(r), r

    def __call__(self, job):
        err = None
        try:
            info = self.prove(job)
        except Undecided as ex:
            err = "undecided: %s" % ex
        except Exception as ex:
            if VERBOSE:
                import traceback
                traceback.print_exc()
            err = "%s: %s" % (type(ex).__name__, str(ex)[:400])
        try:
            ce, tried = self.search()
        except Exception as ex:
            ce, tried = None, 0
            if VERBOSE:
                print("  search:", ex)
        if ce:
            return Result(job.name, "violated", ce=ce, proof_error=err, explored_inputs=tried, functions=sorted(REACHED))
        if err:
            return Result(job.name, "undecided", proof_error=err, explored_inputs=tried, functions=sorted(REACHED))
        return Result(job.name, "proved", explored_inputs=tried, functions=sorted(REACHED), boundaries=info)
