from .common import *
import jax, jax.numpy as jnp
from jax.extend import core as jcore
import ripplegw
import ripplegw.waveforms.IMRPhenomD, ripplegw.waveforms.IMRPhenomXAS, ripplegw.waveforms.IMRPhenomD_NRTidalv2, ripplegw.waveforms.IMRPhenomPv2   # noqa
from vc.machine import REACHED
from vc.ring import Undecided

TITLE = "square roots stay in their domain at equal masses"
EVEN = {"integer_pow", "pow"}


class Walk:
    """Executes an extracted program at one input and proves, for all inputs, signs of its intermediate values: a value
    carries the mark `>= 0` when its last operations force it (a maximum with 0, a square, an absolute value, sums and
    products of such).  `sites`: every square root, fractional power and logarithm, with its radicand here and the mark."""

    def __init__(self):
        self.sites = []

    def run(self, jaxpr, consts, args, marks):
        env = {}

        def read(v):
            if hasattr(v, "val"):
                return v.val, bool(np.all(np.asarray(v.val) >= 0)) if np.asarray(v.val).dtype.kind in "fiu" else False
            return env[v]
        for v, c in zip(jaxpr.constvars, consts):
            a = np.asarray(c)
            env[v] = (c, bool(a.dtype.kind in "fiu" and (a >= 0).all()))
        for v, a, m in zip(jaxpr.invars, args, marks):
            env[v] = (a, m)
        for k, e in enumerate(jaxpr.eqns):
            ins = [read(v) for v in e.invars]
            xs, ms = [x for x, _ in ins], [m for _, m in ins]
            n = e.primitive.name
            p = e.params
            sub = p.get("jaxpr") or p.get("call_jaxpr")
            if n in ("jit", "pjit", "closed_call", "custom_jvp_call", "custom_vjp_call", "remat", "checkpoint", "core_call") and sub is not None:
                outs = self.run(sub.jaxpr if hasattr(sub, "jaxpr") else sub, getattr(sub, "consts", []), xs, ms)
            else:
                if n in ("sqrt", "rsqrt", "log") or n == "pow":
                    q = np.asarray(xs[0])
                    frac = n != "pow" or not np.all(np.asarray(xs[1]) == np.round(np.asarray(xs[1])))
                    if frac and q.dtype.kind == "f":
                        src = e.source_info.traceback
                        self.sites.append(((id(jaxpr), k), n, float(np.min(q)) if q.size else 1.0, ms[0], place(e)))
                y = e.primitive.bind(*xs, **p) if not e.primitive.multiple_results else e.primitive.bind(*xs, **p)
                y = list(y) if e.primitive.multiple_results else [y]
                outs = [(v, self.mark(n, p, xs, ms, e)) for v in y]
            for v, o in zip(e.outvars, outs):
                env[v] = o
        return [read(v) for v in jaxpr.outvars]

    def mark(self, n, p, xs, ms, e):
        if n == "max":
            return any(ms)
        if n in ("add", "mul", "div", "min", "reduce_sum", "reduce_max", "reduce_min", "broadcast_in_dim", "reshape", "squeeze", "convert_element_type", "slice",
                 "concatenate", "copy", "sqrt", "cumsum", "transpose", "rev", "expand_dims", "stop_gradient", "exp2"):
            if n == "mul" and len(e.invars) == 2 and e.invars[0] is e.invars[1]:
                return True
            return bool(ms) and all(ms)
        if n in ("abs", "exp", "square", "iota"):
            return True
        if n == "integer_pow":
            return p["y"] % 2 == 0 or ms[0]
        if n == "pow":
            return ms[0]
        if n == "select_n":
            return all(ms[1:])
        return False


def place(e):
    try:
        from jax._src import source_info_util as u
        fr = u.user_frame(e.source_info.traceback if hasattr(e.source_info, "traceback") else e.source_info)
        return "%s:%s" % (fr.file_name.split("/ripplegw/")[-1], fr.function_name)
    except Exception:
        return "?"


def programs():
    """name -> (function of the inputs, inputs at equal masses, number of masses given as eta)"""
    out = {}
    rng = np.random.default_rng(7)

    def eta(rng, e):
        return e
    out["Mc_eta_to_ms"] = (lambda a: jnp.stack(ripplegw.Mc_eta_to_ms(a)), lambda r, e: [jnp.array([r.uniform(5, 60), e])])
    for n in ("lambdas_to_lambda_tildes",):
        out[n] = (lambda a: jnp.stack(ripplegw.lambdas_to_lambda_tildes(a)),
                  lambda r, e: [jnp.array([r.uniform(10, 900), r.uniform(10, 900), 1.4, 1.4 * (1 + (e - .25))])])
    f = jnp.array([20.0, 40.0, 80.0, 160.0])
    for mk, m in MODELS.items():
        fn, kw = resolve(m.h0 or m.hphc), m.kw
        if not m.params or "eta" not in m.params:
            continue
        val = {"Mc": (5, 60), "chi1": (-.8, .8), "chi2": (-.8, .8), "D": (100, 900), "tc": (0, 1), "phic": (0, 1), "iota": (0.1, 3),
               "lam1": (100, 900), "lam2": (100, 900), "lam_tilde": (100, 900), "dlam_tilde": (0, 30), **{s + c: (-.5, .5) for s in ("s1", "s2") for c in "xyz"}}
        ks = [k for k in m.params if k != "iota" or not m.h0]
        if mk in TIDAL or mk in ("N", "Tl", "Nl", "T"):
            val["Mc"] = (1.0, 2.0)
        out[mk] = (lambda p, fn=fn, kw=kw: jnp.stack(jax.tree_util.tree_leaves(fn(f, p, 20.0, **kw))),
                   lambda r, e, ks=ks, val=val: [jnp.array([e if k == "eta" else r.uniform(*val.get(k, (0, 1))) for k in ks])])
    return out


class Defined:
    def __init__(self, name):
        self.name = name

    def bad(self, fn, args):
        for how in ("eager", "jit"):
            y = np.asarray((jax.jit(fn) if how == "jit" else fn)(*args))
            if not np.isfinite(y).all():
                return {"program": self.name, "inputs": [np.asarray(a).tolist() for a in args], "how": how, "non_finite_results": int((~np.isfinite(y)).sum())}
        return None

    def replay(self, ce):
        fn, _ = programs()[ce["program"]]
        r = self.bad(fn, [jnp.array(a) for a in ce["inputs"]])
        return bool(r), r

    def __call__(self, job):
        """every radicand that vanishes at equal masses is >= 0 for all inputs (floating-point rounding included)"""
        fn, gen = programs()[self.name]
        rng = np.random.default_rng(SEED)
        ce = None
        n = 0
        for e in (0.25, 0.25 * (1 + 2.0**-51), float(np.nextafter(0.25, 1)), float(np.nextafter(0.25, 0)), 0.25 * (1 + 1e-13), 0.2499999999):
            args = gen(rng, e)
            n += 1
            ce = ce or self.bad(fn, args)
        # the sites
        seen = {}
        closed = jax.make_jaxpr(fn)(*gen(rng, 0.25))
        for t in range(3):
            a = gen(rng, 0.25)
            w = Walk()
            w.run(closed.jaxpr, closed.consts, a, [False] * len(a))
            for i, (key, op, v, m, pl) in enumerate(w.sites):
                s = seen.setdefault(i, [op, [], m, pl])
                s[1].append(v)
        zero = [s for s in seen.values() if max(map(abs, s[1])) < 1e-12 and not (s[0] == "pow" and False)]
        open_ = sorted({"%s in %s" % (s[0], s[3]) for s in zero if not s[2]})
        if ce:
            return Result(job.name, "violated", ce=ce, explored_inputs=n, proof_error="; ".join(open_) or None)
        if open_:
            return Result(job.name, "undecided", explored_inputs=n, proof_error="radicand not shown non-negative: " + "; ".join(open_))
        return Result(job.name, "proved", explored_inputs=n, sites=len(seen), sites_vanishing_at_equal_masses=len(zero), places=sorted({s[3] for s in zero}),
                      functions=sorted({"ripplegw/" + s[3] for s in zero}) or None)


def obligations():
    return [Custom("C29." + n, Defined(n), "every radicand that vanishes at equal masses is >= 0 for all inputs, rounding included") for n in programs()]
