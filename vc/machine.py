"""Two machines that run the same text of a law: SymM over the normal forms of the code
extracted from /repo (proof), NumM over the real code itself (replay, exploration)."""
from __future__ import annotations
import importlib, math, sys, threading, time
from decimal import Decimal
from fractions import Fraction
import numpy as np
from . import extract as X
from .extract import jax, jnp
from .ring import Ring, Undecided
from .jeval import Evaluator
from .sym import Sym

# ------------------------------------------------------------------ resolution
def resolve(path):
    """'pkg.mod:name' -> the object of /repo (imported from /repo/src on every run)."""
    mod, name = path.split(":")
    o = importlib.import_module(mod)
    for part in name.split("."):
        o = getattr(o, part)
    return o


W = "ripplegw.waveforms."
ALIGNED = ["T", "D", "N", "XAS"]
ALL = ["T", "D", "N", "P", "XAS"]
TIDAL = ["T", "N"]


class Model:
    def __init__(self, key, title, hphc, h0, params, kw=None, ns=False, cut=None):
        self.key, self.title, self.hphc, self.h0, self.params = key, title, hphc, h0, params
        self.kw = kw or {}
        self.ns = ns
        self.cut = cut


MODELS = {
    "T": Model("T", "TaylorF2", W + "TaylorF2:gen_TaylorF2_hphc", W + "TaylorF2:gen_TaylorF2",
               ["Mc", "eta", "chi1", "chi2", "lam_tilde", "dlam_tilde", "D", "tc", "phic", "iota"], ns=True),
    "D": Model("D", "IMRPhenomD", W + "IMRPhenomD:gen_IMRPhenomD_hphc", W + "IMRPhenomD:gen_IMRPhenomD",
               ["Mc", "eta", "chi1", "chi2", "D", "tc", "phic", "iota"], cut=0.2),
    "N": Model("N", "IMRPhenomD_NRTidalv2", W + "IMRPhenomD_NRTidalv2:gen_IMRPhenomD_NRTidalv2_hphc",
               W + "IMRPhenomD_NRTidalv2:gen_IMRPhenomD_NRTidalv2",
               ["Mc", "eta", "chi1", "chi2", "lam_tilde", "dlam_tilde", "D", "tc", "phic", "iota"], ns=True, cut=0.2),
    "P": Model("P", "IMRPhenomPv2", W + "IMRPhenomPv2:gen_IMRPhenomPv2_hphc", None,
               ["Mc", "eta", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "D", "tc", "phic", "iota"], cut=0.2),
    "XAS": Model("XAS", "IMRPhenomXAS", W + "IMRPhenomXAS:gen_IMRPhenomXAS_hphc", W + "IMRPhenomXAS:gen_IMRPhenomXAS",
                 ["Mc", "eta", "chi1", "chi2", "D", "tc", "phic", "iota"], cut=0.3),
}

_l = ["Mc", "eta", "chi1", "chi2", "lam1", "lam2", "D", "tc", "phic", "iota"]
for _k in ("T", "N"):
    _m = MODELS[_k]
    MODELS[_k + "l"] = Model(_k + "l", _m.title + "_individual", _m.hphc, _m.h0, _l, kw={"use_lambda_tildes": False}, ns=True, cut=_m.cut)
INDIVIDUAL = ["Tl", "Nl"]

# domains of the symbolic variables: (lo, hi, positive)
DOM = {"Mc": (0, math.inf, True), "eta": (0, 0.25, True), "D": (0, math.inf, True),
       "chi1": (-1, 1, False), "chi2": (-1, 1, False), "s": (0, math.inf, True),
       "lam1": (0, math.inf, False), "lam2": (0, math.inf, False),
       "m1": (0, math.inf, True), "m2": (0, math.inf, True), "m": (0, math.inf, True),
       "fref": (0, math.inf, True), "fref2": (0, math.inf, True), "f": (0, math.inf, True),
       "lam": (0, math.inf, False), "q": (0, 1, True), "kappa": (0, math.inf, True),
       "hrss": (0, math.inf, True), "Q": (0, math.inf, True), "f0": (0, math.inf, True),
       "ecc": (0, 1, False), "y": (0, math.inf, True), "x": (-math.inf, math.inf, False)}

# ---------------------------------------------------------------- reached code
REACHED = set()


def _prof(frame, event, arg):
    if event == "call":
        co = frame.f_code
        if co.co_filename.startswith(X.SRC):
            REACHED.add(co.co_filename[len(X.SRC) + 1:] + ":" + co.co_qualname)


class reached:
    def __enter__(self):
        sys.setprofile(_prof)

    def __exit__(self, *a):
        sys.setprofile(None)


# ------------------------------------------------------- tracing with branches
class _Fork(Exception):
    pass


def trace_paths(fn, avals, max_paths=16):
    """All paths of fn under tracing: a Python-level branch on a traced value is followed
    both ways, its predicate becomes an extra output of that path.
    Returns [(decisions, closed_jaxpr)]: the last len(decisions) outputs are predicates."""
    Tracer = jax.core.Tracer
    orig = None
    out, work = [], [[]]
    while work:
        prefix = work.pop()
        dec, preds = [], []

        def tobool(self):
            k = len(dec)
            b = prefix[k] if k < len(prefix) else False
            if k >= len(prefix) and k < 8:
                work.append(list(dec) + [True])
            dec.append(b)
            preds.append(self)
            return b

        def wrapped(*a):
            dec.clear(); preds.clear()
            r = fn(*a)
            leaves = jax.tree_util.tree_leaves(r)
            return tuple(jnp.asarray(x) for x in leaves) + tuple(preds)
        orig = Tracer.__bool__
        Tracer.__bool__ = tobool
        try:
            with reached():
                cj = jax.make_jaxpr(wrapped)(*avals)
        finally:
            Tracer.__bool__ = orig
        out.append((tuple(dec), cj))
        if len(out) > max_paths:
            raise Undecided("more than %d traced paths" % max_paths)
    return out


TRACE_STATS = {"eqns": 0, "paths": 0, "traces": 0}


def run_paths(ev: Evaluator, paths, args):
    """Evaluate every path and join the outputs with the path conditions."""
    R = ev.R
    res = None
    for dec, cj in paths:
        outs = ev.run(cj, args)
        k = len(dec)
        preds = outs[len(outs) - k:] if k else []
        outs = outs[:len(outs) - k] if k else outs
        cond = R.one
        for d, p in zip(dec, preds):
            p = ev.lift(p).reshape(-1)[0]
            cond = R.mul(cond, p if d else R.sub(R.one, p))
        if not cond:
            continue
        outs = [ev.lift(o) for o in outs]
        if cond != R.one:
            outs = [ev.ew(lambda v: R.mul(cond, v), o) for o in outs]
        if res is None:
            res = outs
        else:
            res = [ev.ew(R.add, a, b) for a, b in zip(res, outs)]
    if res is None:
        raise Undecided("no feasible path")
    return res


class SymM:
    numeric = False

    def __init__(self, opaque_calls=None, deadline=None):
        self.R = Ring()
        if deadline:
            self.R.deadline = deadline
        self.ev = Evaluator(self.R, opaque_calls)
        self.cache = {}
        self.vars = {}
        self.at = {}               # lane variable pinned to a threshold (equality case)

    # -- values
    def var(self, name, lo=None, hi=None, pos=None):
        base = name.rstrip("0123456789") if name not in DOM else name
        d = DOM.get(name, DOM.get(base, (-math.inf, math.inf, False)))
        if name[:2] in ("s1", "s2"):
            d = (-1, 1, False)
        lo = d[0] if lo is None else lo
        hi = d[1] if hi is None else hi
        pos = d[2] if pos is None else pos
        p = self.R.var(name, lo, hi, pos=pos)
        s = Sym(self.R, p)
        if name == "eta" and name not in self.vars and lo == 0 and hi == 0.25:
            # 0 < eta <= 1/4, hence sqrt(1 - 4 eta) < 1
            self.R.assume_pos((1 - (1 - 4 * s) ** Fraction(1, 2)).p)
        self.vars[name] = s
        return s

    def freq(self, name="f"):
        p = self.R.var(name + "[k]", 0, math.inf, pos=True)
        s = Sym(self.R, p)
        self.vars[name] = s
        (m, c), = p.items()
        if m[0][0] in self.at:
            return Sym(self.R, self.at[m[0][0]])
        return s

    def lane(self, name, lo=-math.inf, hi=math.inf, pos=False):
        """an arbitrary element of an array of symbolic length"""
        s = Sym(self.R, self.R.var(name + "[k]", lo, hi, pos=pos))
        self.vars[name] = s
        return s

    def const(self, x):
        return Sym(self.R, self.R.const(x))

    def id(self, s):
        (m, c), = s.p.items()
        return m[0][0]

    # -- calls of the real code
    def _paths(self, key, fn, avals):
        if key not in self.cache:
            p = trace_paths(fn, avals)
            TRACE_STATS["traces"] += 1
            TRACE_STATS["paths"] += len(p)
            TRACE_STATS["eqns"] += sum(X.count_eqns(c.jaxpr) for _, c in p)
            self.cache[key] = p
        return self.cache[key]

    def arr(self, vals, shape):
        o = np.empty(shape, object)
        flat = o.reshape(-1)
        for i, v in enumerate(vals):
            flat[i] = v.p if isinstance(v, Sym) else self.R.const(v)
        return o

    def wave(self, path, f, params, fref, **kw):
        fn = resolve(path)
        n = X.symdim()
        key = (path, len(params), tuple(sorted(kw.items())))

        def g(a, b, c):
            return fn(a, b, c, **kw)
        paths = self._paths(key, g, (X.sds((n,)), X.sds((len(params),)), X.sds()))
        outs = run_paths(self.ev, paths, [self.arr([f], (1,)), self.arr(params, (len(params),)), self.arr([fref], ())])
        return tuple(Sym(self.R, o.reshape(-1)[0]) for o in outs)

    def hphc(self, mk, f, P, fref, **kw):
        m = MODELS[mk]
        return self.wave(m.hphc, f, [P[k] for k in m.params], fref, **{**m.kw, **kw})

    def h0(self, mk, f, P, fref, full=True, **kw):
        m = MODELS[mk]
        ps = [P[k] for k in m.params if k != "iota"]
        return self.wave(m.h0, f, ps, fref, **{**m.kw, **kw})[0]

    def call(self, path, *args, wrap=None, tag="", concrete=()):
        """Generic call: each argument is a Sym (scalar) or a list of Sym (1-d array)."""
        fn = wrap(resolve(path)) if wrap else resolve(path)
        shapes = []
        vals = []
        for a in args:
            if isinstance(a, (list, tuple)):
                shapes.append(X.sds((len(a),))); vals.append(self.arr(a, (len(a),)))
            elif isinstance(a, np.ndarray):
                shapes.append(X.sds(a.shape)); vals.append(self.arr(list(a.reshape(-1)), a.shape))
            else:
                shapes.append(X.sds()); vals.append(self.arr([a], ()))
        key = (path, tag, tuple(s.shape for s in shapes))
        paths = self._paths(key, fn, tuple(shapes))
        outs = run_paths(self.ev, paths, vals)
        r = []
        for o in outs:
            if o.ndim == 0:
                r.append(Sym(self.R, o[()]))
            else:
                q = np.empty(o.shape, object)
                for i in np.ndindex(o.shape):
                    q[i] = Sym(self.R, o[i])
                r.append(q)
        return r[0] if len(r) == 1 else tuple(r)


# ----------------------------------------------------------------- real code
_JIT = {}


def _batched(path, kw, fref_key):
    key = (path, tuple(sorted(kw.items())), fref_key)
    if key not in _JIT:
        fn = resolve(path)
        if fref_key is None:
            _JIT[key] = jax.jit(jax.vmap(lambda a, b, c: fn(a, b, c, **kw)))
        else:
            _JIT[key] = jax.jit(jax.vmap(lambda a, b: fn(a, b, fref_key, **kw)))
    return _JIT[key]


_STATIC_FREF = {}


class NumM:
    """Concrete machine.  vals: {name: array (B,1)}; frequencies (B,n)."""
    numeric = True

    def __init__(self, vals, eager=False):
        self.vals = vals
        self.eager = eager
        self.R = None

    def var(self, name, *a, **k):
        return self.vals[name]

    def freq(self, name="f"):
        return self.vals[name]

    def lane(self, name, *a, **k):
        return self.vals[name]

    def const(self, x):
        return x

    def wave(self, path, f, params, fref, **kw):
        B = max([np.shape(f)[0]] + [np.shape(p)[0] for p in params if np.ndim(p) == 2] + ([np.shape(fref)[0]] if np.ndim(fref) == 2 else []))
        n = np.shape(f)[1]
        f = np.broadcast_to(f, (B, n))
        ps = np.concatenate([np.broadcast_to(np.asarray(p, float).reshape(-1, 1) if np.ndim(p) else np.full((1, 1), float(p)), (B, 1)) for p in params], axis=1)
        fr = np.broadcast_to(np.asarray(fref, float).reshape(-1), (B,)) if np.ndim(fref) else np.full(B, float(fref))
        fn = resolve(path)
        if not self.eager:
            if not _STATIC_FREF.get(path):
                try:
                    r = _batched(path, kw, None)(jnp.asarray(f), jnp.asarray(ps), jnp.asarray(fr))
                    return tuple(np.asarray(x) for x in (r if isinstance(r, (tuple, list)) else (r,)))
                except jax.errors.ConcretizationTypeError:
                    _STATIC_FREF[path] = True
            u, inv = np.unique(fr, return_inverse=True)
            if len(u) <= 8:
                outs = None
                for k, v in enumerate(u):
                    sel = np.nonzero(inv == k)[0]
                    try:
                        r = _batched(path, kw, float(v))(jnp.asarray(f[sel]), jnp.asarray(ps[sel]))
                    except jax.errors.ConcretizationTypeError:
                        outs = None
                        break
                    r = r if isinstance(r, (tuple, list)) else (r,)
                    if outs is None:
                        outs = [np.zeros((B,) + np.shape(x)[1:], np.asarray(x).dtype) for x in r]
                    for o, x in zip(outs, r):
                        o[sel] = np.asarray(x)
                if outs is not None:
                    return tuple(outs)
        outs = None
        for i in range(B):
            r = fn(jnp.asarray(f[i]), jnp.asarray(ps[i]), float(fr[i]), **kw)
            r = r if isinstance(r, (tuple, list)) else (r,)
            if outs is None:
                outs = [[] for _ in r]
            for o, x in zip(outs, r):
                o.append(np.asarray(x))
        return tuple(np.stack(o) for o in outs)

    hphc = SymM.hphc
    h0 = SymM.h0

    def call(self, path, *args, wrap=None, tag="", concrete=()):
        """Batched over rows: scalars are (B,1) arrays, vectors are lists of (B,1)."""
        fn = wrap(resolve(path)) if wrap else resolve(path)
        B = 1
        for a in args:
            for x in (a if isinstance(a, (list, tuple)) else (list(a.reshape(-1)) if isinstance(a, np.ndarray) and a.dtype == object else [a])):
                if np.ndim(x) == 2:
                    B = max(B, np.shape(x)[0])
        cols = []
        for a in args:
            if isinstance(a, (list, tuple)) or (isinstance(a, np.ndarray) and a.dtype == object):
                shp = (len(a),) if isinstance(a, (list, tuple)) else a.shape
                flat = list(a) if isinstance(a, (list, tuple)) else list(a.reshape(-1))
                c = np.stack([np.broadcast_to(np.asarray(x, float).reshape(-1), (B,)) for x in flat], axis=1)
                cols.append(c.reshape((B,) + shp))
            else:
                cols.append(np.broadcast_to(np.asarray(a, float).reshape(-1), (B,)))
        if not self.eager:
            key = (path, tag, tuple(c.shape[1:] for c in cols))
            if key not in _JIT:
                _JIT[key] = jax.jit(jax.vmap(lambda *a: jax.tree_util.tree_leaves(fn(*a))))
            try:
                r = [np.asarray(x) for x in _JIT[key](*[jnp.asarray(c) for c in cols])]
                return self._pack(r, B)
            except jax.errors.ConcretizationTypeError:
                pass
        outs = None
        for i in range(B):
            r = [np.asarray(x) for x in jax.tree_util.tree_leaves(fn(*[jnp.asarray(c[i]) if np.ndim(c[i]) else float(c[i]) for c in cols]))]
            if outs is None:
                outs = [[] for _ in r]
            for o, x in zip(outs, r):
                o.append(x)
        return self._pack([np.stack(o) for o in outs], B)

    @staticmethod
    def _pack(r, B):
        out = []
        for x in r:
            if x.ndim == 1:
                out.append(x.reshape(B, 1))
            else:
                q = np.empty(x.shape[1:], object)
                for i in np.ndindex(x.shape[1:]):
                    q[i] = x[(slice(None),) + i].reshape(B, 1)
                out.append(q)
        return out[0] if len(out) == 1 else tuple(out)
