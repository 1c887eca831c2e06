"""Obligations and their verdicts."""
from __future__ import annotations
import json, os, sys, time, traceback
import numpy as np
from . import extract as X
from .ring import Undecided
from .sym import Sym
from .machine import SymM, NumM, REACHED, TRACE_STATS, MODELS, reached
from .prove import Prover, Stats, VERBOSE
from .sample import Vals, perturb, take

TIER = os.environ.get("VERIF_TIER", "quick")
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
BOX = {"eta": (0, 0.25), "chi1": (-1, 1), "chi2": (-1, 1), "s1z": (-1, 1), "s2z": (-1, 1)}


class Result(dict):
    def __init__(self, name, status, **kw):
        super().__init__(name=name, status=status, **kw)


# ------------------------------------------------------------------ counterexamples
class Num:
    """Comparison of the two sides of a law on the real code."""

    def __init__(self, law, floor=1e-7, over=None, n=6):
        self.law, self.floor, self.over, self.n = law, floor, over, n
        self.evals = 0

    def sides(self, vals, eager=False):
        M = NumM(vals, eager=eager)
        out = []
        for it in self.law(M):
            a, b = np.broadcast_arrays(np.asarray(it[0]) + 0.0, np.asarray(it[1]) + 0.0)
            sc = None
            if len(it) > 2 and it[2] is not None:
                sc = np.broadcast_to(np.abs(np.asarray(it[2])), a.shape)
            out.append((a, b, sc))
        self.evals += vals.B
        return out

    def err(self, a, b, sc):
        fin = np.isfinite(a) & np.isfinite(b)
        with np.errstate(all="ignore"):
            d = np.abs(a - b)
            s = np.maximum(np.abs(a), np.abs(b))
            if sc is not None:
                s = np.maximum(s, sc)
            top = np.nanmax(np.where(np.isfinite(s), s, 0), axis=-1, keepdims=True)
            s = np.maximum(s, 1e-12 * top)
            e = np.where(d == 0, 0.0, d / np.where(s > 0, s, 1))
        return np.where(fin, e, np.inf)

    def search(self, B, seed, deadline, generic=False):
        """A robust failing input of the real code, or None."""
        vals = Vals(B, self.n, seed, generic=generic, over=self.over)
        sides = self.sides(vals)
        cand = []
        for k, (a, b, sc) in enumerate(sides):
            e = self.err(a, b, sc)
            m = e.reshape(B, -1).max(axis=1)
            for i in np.nonzero(m > self.floor)[0]:
                cand.append((m[i], int(i), k))
        cand.sort(key=lambda t: -t[0])
        seen = {}
        for m, i, k in cand[:40]:
            if seen.get(k, 0) >= 10 or time.time() > deadline:
                continue
            seen[k] = seen.get(k, 0) + 1
            ce = self.confirm(vals, i, k)
            if ce:
                return ce
        return None

    def confirm(self, vals, i, k):
        K = 32
        base = take(vals, i, K)
        rng = np.random.default_rng(5)
        # (1) the failure persists at nearby inputs
        near = self.sides(perturb(base, 1e-8, rng))[k]
        e = self.err(*near)
        lane = int(np.argmax(np.where(np.isfinite(e), e, 1e300).reshape(K, -1).min(axis=0)))
        el = e.reshape(K, -1)[:, lane]
        frac = float(np.mean(el > self.floor))
        if frac < 0.3:
            return None
        # (2) it is larger than what rounding of the inputs explains
        ulp = self.sides(perturb(base, 2e-16, rng))[k]
        one = take(vals, i, 1)
        ref = self.sides(one)[k]
        if np.isfinite(el).all():
            noise = 0.0
            for side in (0, 1):
                x = np.asarray(ulp[side]).reshape(K, -1)[:, lane]
                y = np.asarray(ref[side]).reshape(-1)[lane]
                noise = max(noise, float(np.nanmax(np.abs(x - y))))
            a = np.asarray(ref[0]).reshape(-1)[lane]; b = np.asarray(ref[1]).reshape(-1)[lane]
            if not abs(a - b) > 50 * noise:
                return None
        # (3) on the real code without compilation
        try:
            ee = self.sides(one, eager=True)[k]
            er = float(self.err(*ee).reshape(-1)[lane])
        except Exception as ex:           # noqa
            er = None
        if er is not None and not er > self.floor:
            return None
        a = np.asarray(ref[0]).reshape(-1)[lane]; b = np.asarray(ref[1]).reshape(-1)[lane]
        return {"inputs": {kk: np.asarray(v)[0].tolist() for kk, v in one.items()}, "pair": k, "lane": lane,
                "left": str(a), "right": str(b), "relative_error": float(np.min(el)) if np.isfinite(el).all() else "not finite",
                "fraction_of_nearby_inputs_failing": frac}

    def replay(self, ce):
        vals = Vals(1, self.n, 0, over=self.over)
        for kk, v in ce["inputs"].items():
            vals[kk] = np.asarray(v, float).reshape(1, -1)
        a, b, sc = self.sides(vals, eager=True)[ce["pair"]]
        e = self.err(a, b, sc).reshape(-1)[ce["lane"]]
        return bool(e > self.floor), complex(np.asarray(a).reshape(-1)[ce["lane"]]), complex(np.asarray(b).reshape(-1)[ce["lane"]])


# ----------------------------------------------------------------------------- laws
class Law:
    """For all inputs the pairs returned by law(M) are equal."""
    kind = "law"

    def __init__(self, name, law, box=BOX, hints=None, over=None, budget=400, floor=1e-7, n=6, samples=96,
                 num=None, doc="", numeric=True, sym=True, probe=True, opaque_calls=None, res_limit=60000, cost=10, abs_floor=0.0, cases=None, lanes=()):
        self.cases, self.lanes = cases, lanes
        self.abs_floor = abs_floor
        self.cost = cost
        self.name, self.law, self.box, self.hints, self.over = name, law, box, hints, over
        self.budget, self.floor, self.n, self.samples = budget, floor, n, samples
        self.num_law = num or law
        self.doc, self.numeric, self.sym, self.probe = doc or (law.__doc__ or ""), numeric, sym, probe
        self.opaque_calls = opaque_calls
        self.res_limit = res_limit

    def replay(self, ce):
        num = Num(self.num_law, self.floor, self.over, self.n)
        bad, a, b = num.replay(ce)
        return bad, "left %s  right %s  at %s" % (a, b, json.dumps(ce["inputs"]))

    def run(self):
        t0 = time.time()
        r = Result(self.name, "undecided", doc=self.doc, kind="equation")
        num = Num(self.num_law, self.floor, self.over, self.n)
        st = {"ce": None, "err": None, "t": 0.0}

        def explore(k0, k1, samples, limit):
            t1 = time.time()
            if not self.numeric or st["err"]:
                return
            try:
                for k in range(k0, k1):
                    st["ce"] = num.search(samples, 100 * SEED + k, time.time() + 90)
                    if st["ce"] or time.time() - t1 > limit:
                        break
            except Exception as ex:
                st["err"] = "".join(traceback.format_exception_only(type(ex), ex))[:600]
                if VERBOSE:
                    traceback.print_exc()
            st["t"] += time.time() - t1
        # 1. the text of the law on the real code: a failing input ends the matter
        n1 = 2 if TIER == "quick" else 8
        explore(0, n1, self.samples, 150)
        # 2. proof over the normal forms of the extracted code
        ok, proof_err = False, None
        t1 = time.time()
        if self.sym and not st["ce"]:
            try:
                ok = self.prove(r)
            except Undecided as ex:
                ok, proof_err = False, "undecided: %s" % ex
            except Exception as ex:
                ok, proof_err = False, "".join(traceback.format_exception_only(type(ex), ex))[:600]
                if VERBOSE:
                    traceback.print_exc()
        r["proof_s"] = round(time.time() - t1, 2)
        if proof_err:
            r["proof_error"] = proof_err
        # 3. a longer search when the obligation was not discharged
        if not ok and not st["ce"]:
            explore(n1, n1 + 5, 2 * self.samples, 150)
        ce, num_err = st["ce"], st["err"]
        r["explored_inputs"] = num.evals
        r["explore_s"] = round(st["t"], 2)
        if num_err:
            r["explore_error"] = num_err
        if ce:
            r.update(status="violated", ce=ce)
        elif ok and not num_err:
            r["status"] = "proved"
        else:
            r["status"] = "undecided"
        r["functions"] = sorted(REACHED)
        return r

    def prove(self, r):
        M = SymM(self.opaque_calls)
        R = M.R
        pr = Prover(R, box=self.box, budget_s=self.budget, res_limit=self.res_limit)
        M.prover = pr
        pr.extra_lanes = set(self.lanes)
        law = self.law
        ok = pr.prove(M, law, self.cases)
        r["eqns"] = M.ev.n_eqns
        r["atoms"] = len(R.atoms)
        r["cases"] = pr.stats.cases
        r["lemmas"] = [{"expr": k, "proved": bool(v[0]), "boxes": v[1]} for k, v in pr.stats.lemmas.items() if v[0]]
        r["boxes"] = pr.stats.boxes
        r["opaque"] = dict(M.ev.opaques)
        r["traces"] = dict(TRACE_STATS)
        if getattr(M.ev, "hint_hits", None):
            r["hint_lemmas"] = M.ev.hint_hits
        if not ok:
            r["residue"] = R.show(pr.leaf[0], 1, 4)[:700] if pr.leaf else ""
            r["case"] = [list(x) for x in pr.leaf[1]] if pr.leaf else []
            return False
        # vacuity: the same obligation with one side scaled must fail; the normal form
        # must agree with the real code at random inputs
        r["probe_refuted"], r["cross_checked"] = self.validate(M, pr.pairs0)
        if r["probe_refuted"] is False or r["cross_checked"] is False:
            r["residue"] = "engine self-check failed (probe %s, cross-check %s)" % (r["probe_refuted"], r["cross_checked"])
            return False
        return True

    def validate(self, M, pairs):
        R = M.R
        vals = Vals(4, 2, 77, generic=True, over=self.over)
        pairs_n = None
        try:
            nm = NumM(vals)
            pairs_n = [(np.asarray(it[0]), np.asarray(it[1])) for it in self.num_law(nm)] if self.numeric else None
        except Exception:
            pairs_n = None
        probe = True
        cross = None
        for k, it in enumerate(pairs):
            a = it[0].p if isinstance(it[0], Sym) else R.const(it[0])
            b = it[1].p if isinstance(it[1], Sym) else R.const(it[1])
            if a and a == b and not R.sub(R.scale(a, 2), b):
                probe = False
            if pairs_n is None or self.num_law is not self.law or self.cases:
                continue
            an, bn = pairs_n[k]
            for side, p, xn in ((0, a, an), (1, b, bn)):
                good = bad = 0
                xn = np.atleast_2d(xn)
                for i in range(xn.shape[0]):
                    for j in range(min(2, xn.shape[1])):
                        env = {}
                        for nm_, v in vals.items():
                            for key in (nm_, nm_ + "[k]"):
                                aid = R.table.get(("var", key))
                                if aid is not None:
                                    vv = np.asarray(v)
                                    env[aid] = float(vv[i, j] if vv.shape[1] > 1 else vv[i, 0])
                        try:
                            x = R.evalf(p, env, {})
                        except Exception:
                            continue
                        y = complex(xn[i, j])
                        if not (np.isfinite(x) and np.isfinite(y)):
                            continue
                        if abs(x - y) <= 1e-6 * max(abs(x), abs(y)) + 1e-12 * float(np.nanmax(np.abs(xn))) + self.abs_floor:
                            good += 1
                        else:
                            bad += 1
                            if VERBOSE:
                                print("cross-check", k, side, x, y)
                if good + bad:
                    cross = (cross is not False) and bad <= good
        return probe, cross


class Custom:
    """Obligation decided by its own procedure fn(self) -> Result."""

    def __init__(self, name, fn, doc="", kind="custom"):
        self.name, self.fn, self.doc, self.kind = name, fn, doc or (fn.__doc__ or ""), kind
        if hasattr(fn, "replay"):
            self.replay = fn.replay

    def run(self):
        t0 = time.time()
        try:
            r = self.fn(self)
        except Undecided as ex:
            r = Result(self.name, "undecided", proof_error="undecided: %s" % ex)
        except Exception as ex:
            if VERBOSE:
                traceback.print_exc()
            r = Result(self.name, "undecided", proof_error="".join(traceback.format_exception_only(type(ex), ex))[:600])
        r.setdefault("doc", self.doc)
        r.setdefault("kind", self.kind)
        r.setdefault("proof_s", round(time.time() - t0, 2))
        r.setdefault("functions", sorted(REACHED))
        return r


class Ineq:
    """Obligation: every expression returned by law(M) is > 0 (>= 0 up to slack on the real code) on the domain.
    Proof: interval / sign lemmas on the normal form of the extracted code, over the whole box."""

    def __init__(self, name, law, doc="", over=None, samples=4000, slack=0.0, box=BOX, cost=10, time_s=300, budget=6_000_000, rule=None, assume=None, lanes=()):
        self.assume, self.lanes = assume, lanes     # facts about the variables that hold on the whole domain
        self.name, self.law, self.over, self.samples, self.slack = name, law, over, samples, slack
        self.doc = doc or (law.__doc__ or "").strip()
        self.box, self.cost, self.time_s, self.n, self.budget = box, cost, time_s, 4, budget
        self.rule = rule

    @staticmethod
    def _even(R, a, e):
        """1 / x**2k > 0 for real x wherever it is defined"""
        return R.atoms[a].kind != "E" and R.atoms[a].real and e < 0 and e.denominator == 1 and e % 2 == 0

    def _num(self, vals):
        with np.errstate(all="ignore"):
            out = self.law(NumM(vals))
        return [np.broadcast_to(np.asarray(o, float), np.broadcast_shapes(np.shape(o), (vals.B, 1))) for o in out]

    def search(self, B, seed):
        vals = Vals(B, self.n, seed, over=self.over)
        for k, o in enumerate(self._num(vals)):
            bad = ~(o > -self.slack) if self.slack else ~(o > 0)
            rows = np.nonzero(bad.any(axis=1))[0]
            if len(rows):
                i = int(rows[0])
                return {"expression": k, "value": float(o[i][bad[i]][0]), "inputs": {a: np.asarray(v)[i].tolist() for a, v in vals.items()}}
        return None

    def replay(self, ce):
        vals = Vals(1, self.n, 0)
        for k, v in ce["inputs"].items():
            vals[k] = np.asarray(v, float).reshape(1, -1)
        o = self._num(vals)[ce["expression"]]
        bad = not bool((o > -self.slack).all() if self.slack else (o > 0).all())
        return bad, "expression %d = %s at %s" % (ce["expression"], o.ravel().tolist(), json.dumps(ce["inputs"]))

    def run(self):
        t0 = time.time()
        r = Result(self.name, "undecided", doc=self.doc, kind="inequality")
        n = 0
        for k in range(3 if TIER == "quick" else 10):
            ce = self.search(self.samples, 100 * SEED + k)
            n += self.samples
            if ce:
                r.update(status="violated", ce=ce, explored_inputs=n)
                return r
        r["explored_inputs"] = n
        t1 = time.time()
        try:
            M = SymM()
            pr = Prover(M.R, box=self.box)
            pr.hard = True
            M.prover = pr
            if self.assume:
                from .prove import Context
                pr.extra_lanes = set(self.lanes)
                ctx = Context(pr)
                for d, rel in self.assume(M):
                    ctx = pr.assume(ctx, d.p, rel)
                M.R.ctx = ctx
            ok = []
            for e in self.law(M):
                q = self.rule(M, e) if self.rule else e
                if M.R.is_const(q.p):
                    good = complex(M.R.const_val(q.p)).real > 0
                elif q.p and all(c > 0 and all(M.R.exp_pos(a, e) or self._even(M.R, a, e) for a, e in m) for m, c in q.p.items()):
                    good = True
                else:
                    good = bool(pr.interval_pos(q.p, budget=self.budget, time_s=self.time_s))
                ok.append(good)
                if VERBOSE:
                    print("ineq", len(ok) - 1, good, "%.1f s" % (time.time() - t1), M.R.show(q.p, 1, 4)[:200], flush=True)
            r["lemmas"] = [{"expr": k, "proved": bool(v[0]), "boxes": v[1]} for k, v in pr.stats.lemmas.items()]
            r["boxes"] = pr.stats.boxes
            r["eqns"] = M.ev.n_eqns
            r["traces"] = dict(TRACE_STATS)
            r["status"] = "proved" if all(ok) else "undecided"
            if not all(ok):
                r["residue"] = "not proved positive: expressions %s" % [k for k, g in enumerate(ok) if not g]
        except Exception as ex:
            r["proof_error"] = "".join(traceback.format_exception_only(type(ex), ex))[:600]
            if VERBOSE:
                traceback.print_exc()
        r["proof_s"] = round(time.time() - t1, 2)
        r["functions"] = sorted(REACHED)
        return r
