"""Symbolic evaluation of a jaxpr (the mechanically extracted text of the real code)
over the term algebra of ring.py.

Arrays are numpy object arrays of normal forms.  An axis whose length is the symbolic
grid length `n` is carried as ONE generic lane (index k, arbitrary): an operation that
mixes lanes (reduction, slice, argmin, gather ... along such an axis) yields an opaque
atom whose name starts with "GLOBAL:", unless it is a reduce_sum, which becomes the
linear operator SUM_k.  Primitives without a rule become uninterpreted (congruent)
functions of their arguments.
"""
from __future__ import annotations
import hashlib
from decimal import Decimal
from fractions import Fraction
import numpy as np
import jax
import jax.numpy as jnp
from jax.extend import core as jcore
from .ring import dec, Ring, Undecided, to_fraction, PI50

MAXCONST = 20000


def is_sym_dim(d):
    return not isinstance(d, (int, np.integer))


def cshape(shape):
    return tuple(1 if is_sym_dim(d) else int(d) for d in shape)


def lane_axes(aval):
    return [i for i, d in enumerate(aval.shape) if is_sym_dim(d)]


def fingerprint(a):
    a = np.ascontiguousarray(np.asarray(a))
    return hashlib.sha1(str(a.dtype).encode() + str(a.shape).encode() + a.tobytes()).hexdigest()[:16]


class Evaluator:
    def __init__(self, ring: Ring, opaque_calls=None):
        self.R = ring
        self.opaque_calls = opaque_calls or {}
        self.n_eqns = 0
        self.prims = {}
        self.opaques = {}
        self.tables = {}           # interpolation tables met so far
        self.calls = {}
        self.path_hook = None
        self.sqrt_args = None      # list collecting (primitive, argument) for definedness
        self._fu = {}
        self.hints = None

    # ------------------------------------------------------------ conversions
    def lift(self, x):
        if isinstance(x, np.ndarray) and x.dtype == object:
            return x
        a = np.asarray(x)
        if a.size > MAXCONST:
            raise Undecided("large constant array in a symbolic operation")
        out = np.empty(a.shape, dtype=object)
        for idx in np.ndindex(a.shape):
            v = a[idx]
            if a.dtype == bool:
                out[idx] = self.R.one if v else {}
            elif np.iscomplexobj(a):
                out[idx] = self.R.const(complex(v))
            elif np.issubdtype(a.dtype, np.integer):
                out[idx] = self.R.const(int(v))
            else:
                fv = float(v)
                if not np.isfinite(fv):
                    out[idx] = self.R.opaque("inf" if fv > 0 else "-inf" if fv < 0 else "nan", ())
                else:
                    out[idx] = self.R.const(fv)
        return out

    @staticmethod
    def is_sym(x):
        return isinstance(x, np.ndarray) and x.dtype == object

    def ew(self, f, *args):
        args = [self.lift(a) for a in args]
        if all(a.ndim == 0 for a in args):
            out = np.empty((), dtype=object)
            out[()] = f(*[a[()] for a in args])
            return out
        args = np.broadcast_arrays(*args) if len(args) > 1 else args
        out = np.empty(args[0].shape, dtype=object)
        of = out.reshape(-1) if out.size else out
        flat = [a.reshape(-1) for a in args]
        for i in range(out.size):
            of[i] = f(*[a[i] for a in flat])
        return of.reshape(out.shape)

    # -------------------------------------------------------------- main loop
    def run(self, closed, args):
        return self.eval_jaxpr(closed.jaxpr, closed.consts, args)

    def eval_jaxpr(self, jaxpr, consts, args):
        env = {}

        def read(v):
            if isinstance(v, jcore.Literal):
                return np.asarray(v.val)
            return env[v]

        for v, c in zip(jaxpr.constvars, consts):
            env[v] = c if self.is_sym(c) else np.asarray(c)
        assert len(jaxpr.invars) == len(args), (len(jaxpr.invars), len(args))
        for v, a in zip(jaxpr.invars, args):
            env[v] = a
        last = {}
        for i, e in enumerate(jaxpr.eqns):
            for v in e.invars:
                if not isinstance(v, jcore.Literal):
                    last[v] = i
        for v in jaxpr.outvars:
            if not isinstance(v, jcore.Literal):
                last[v] = len(jaxpr.eqns)
        for i, e in enumerate(jaxpr.eqns):
            ins = [read(v) for v in e.invars]
            outs = self.eqn(e, ins)
            for v, o in zip(e.outvars, outs):
                env[v] = o
            for v in e.invars:
                if not isinstance(v, jcore.Literal) and last.get(v) == i:
                    env.pop(v, None)
        return [read(v) for v in jaxpr.outvars]

    def eqn(self, e, ins):
        name = e.primitive.name
        self.n_eqns += 1
        self.prims[name] = self.prims.get(name, 0) + 1
        h = getattr(self, "p_" + name.replace("-", "_"), None)
        if h is not None:
            r = h(e, ins)
            return r if isinstance(r, list) else [r]
        if name in CALLS:
            return self.call(e, ins)
        if not any(self.is_sym(x) for x in ins):
            r = self.concrete(e, ins)
            if r is not None:
                return r
        if name in self.EW:
            r = self.EW[name](self, e, ins)
            if self.hints and name in ("add", "sub", "mul", "div") and r.size <= 4:
                r = self.ew(self.hint, r)
            return [r]
        return self.opaque_eqn(e, ins)

    # ------------------------------------------------------------------ hints
    def set_hints(self, hints, envs):
        """Normal forms worth recognising: an intermediate value that agrees with one of
        them at two random points and is proved equal to it is replaced by it."""
        self.hints = [(h, [self.R.evalf(h, e, {}) for e in envs]) for h in hints]
        self.hint_envs = [(e, {}) for e in envs]
        self.hint_done = {}
        self.hint_hits = 0

    def hint(self, p):
        R = self.R
        if len(p) == 0 or R.is_const(p):
            return p
        key = R.poly_key(p)
        if key in self.hint_done:
            return self.hint_done[key]
        out = p
        try:
            vals = [R.evalf(p, e, memo) for e, memo in self.hint_envs]
        except Exception:
            vals = None
        if vals is not None and not any(isinstance(v, complex) for v in vals):
            for h, hv in self.hints:
                if all(abs(v - w) <= 1e-7 * abs(w) for v, w in zip(vals, hv)) and p != h:
                    try:
                        if not R.residual(R.sub(p, h), 200000):
                            out = h
                            self.hint_hits += 1
                    except Undecided:
                        pass
                    break
        self.hint_done[key] = out
        return out

    def concrete(self, e, ins):
        params = dict(e.params)
        if any(is_sym_dim(d) for v in e.outvars for d in v.aval.shape) or \
           any(is_sym_dim(d) for v in e.invars for d in v.aval.shape):
            if e.primitive.name in self.EW or e.primitive.name in STRUCT_SHAPE:
                return None if e.primitive.name in self.EW and False else self._concrete_sym(e, ins)
            return None
        outs = e.primitive.bind(*[jnp.asarray(x) for x in ins], **params)
        if not e.primitive.multiple_results:
            outs = [outs]
        return [o if jax.dtypes.issubdtype(o.dtype, jax.dtypes.prng_key) else np.asarray(o) for o in outs]

    def _concrete_sym(self, e, ins):
        outs = e.primitive.bind(*[jnp.asarray(x) for x in ins], **self.sub_params(e))
        if not e.primitive.multiple_results:
            outs = [outs]
        return [np.asarray(o) for o in outs]

    def sub_params(self, e):
        p = {}
        for k, v in e.params.items():
            if isinstance(v, tuple) and any(is_sym_dim(d) and not isinstance(d, (tuple, type(None))) and hasattr(d, "_get_vars") for d in v):
                v = tuple(1 if hasattr(d, "_get_vars") else d for d in v)
            p[k] = v
        return p

    # ----------------------------------------------------------------- calls
    def call(self, e, ins):
        p = e.params
        name = p.get("name", e.primitive.name)
        self.calls[name] = self.calls.get(name, 0) + 1
        if e.primitive.name in ("jit", "pjit"):
            lib = self.library(name, e, ins)
            if lib is not None:
                return lib
            if name in self.opaque_calls:
                r = self.opaque_calls[name](self, e, ins)
                if r is not None:
                    return r
        cj = p.get("jaxpr") or p.get("call_jaxpr") or p.get("fun_jaxpr")
        if hasattr(cj, "consts"):
            return self.eval_jaxpr(cj.jaxpr, cj.consts, ins)
        return self.eval_jaxpr(cj, [], ins)

    def interp_between(self, x, xp, fp, extra):
        """the linear interpolation at a place known (from the case assumptions) to lie between two table entries:
        the constant where the table is constant there, the straight line between neighbours"""
        R = self.R
        if not self.is_poly_var(x):
            return None
        side = lambda k, op: R.ind(R.sub(x, R.const(float(xp[k]))), op) == R.one
        if side(0, "lt"):
            return R.const(extra[0] if extra else float(fp[0]))
        if side(len(xp) - 1, "gt"):
            return R.const(extra[1] if len(extra) > 1 else float(fp[-1]))
        if not (side(0, "gt") and side(len(xp) - 1, "lt")):
            return None
        a, b = 0, len(xp) - 1
        while b - a > 1:
            k = (a + b) // 2
            if side(k, "gt"):
                a = k
            else:
                b = k
        i = a
        a, b = i, len(xp) - 1
        while b - a > 1:
            k = (a + b) // 2
            if side(k, "lt"):
                b = k
            else:
                a = k
        j = b
        if np.all(fp[i:j + 1] == fp[i]):
            return R.const(float(fp[i]))
        if j == i + 1:
            slope = (dec(float(fp[j])) - dec(float(fp[i]))) / (dec(float(xp[j])) - dec(float(xp[i])))
            return R.add(R.const(float(fp[i])), R.scale(R.sub(x, R.const(float(xp[i]))), slope))
        return None

    def is_poly_var(self, x):
        return not self.infinite(x) and all(not m or all(self.R.atoms[a].kind == "var" for a, _ in m) for m in x)

    def library(self, name, e, ins):
        R = self.R
        if not any(self.is_sym(x) for x in ins):
            return None
        if name in ("copysign", "_copysign") and len(ins) == 2:
            # numpy.copysign on the reals: |x| with the sign of y (y = 0 counts as +0)
            return [self.ew(lambda x, y: R.mul(R.abs(x), R.sub(R.one, R.scale(R.ind(y, "lt"), 2))), *ins)]
        if name in ("interp", "_interp") and len(ins) >= 3 and not self.is_sym(ins[1]) and not self.is_sym(ins[2]) \
                and np.ndim(ins[1]) == 1 and np.ndim(ins[2]) == 1 and all(not self.is_sym(x) for x in ins[1:]):
            xp, fp = np.asarray(ins[1], float), np.asarray(ins[2], float)
            extra = tuple(float(x) for x in ins[3:])
            fpn = (fingerprint(xp), fingerprint(fp)) + extra
            ok = np.all(np.isfinite(fp)) and all(np.isfinite(extra))
            lo, hi = (float(min(fp.min(), *extra)) if extra else float(fp.min()), float(max(fp.max(), *extra)) if extra else float(fp.max())) if ok else (-np.inf, np.inf)

            def ev(a, xp=xp, fp=fp, extra=extra):
                l = extra[0] if len(extra) > 0 else None
                r = extra[1] if len(extra) > 1 else None
                return float(np.interp(a[0], xp, fp, left=l, right=r))
            self.opaques["interp"] = self.opaques.get("interp", 0) + 1
            self.tables["interp:" + "/".join(map(str, fpn))] = (xp, fp, extra)
            from .prove import TABLES
            if ok:
                TABLES["interp:" + "/".join(map(str, fpn))] = (xp, fp, extra)
            if ok and np.all(fp == fp[0]) and all(v == fp[0] for v in extra):
                return [self.ew(lambda x: R.const(float(fp[0])), ins[0])]

            def one(x):
                if R.ctx is not None and ok:
                    p = self.interp_between(x, xp, fp, extra)
                    if p is not None:
                        return p
                return R.opaque("interp:" + "/".join(map(str, fpn)), (x,), lo=lo, hi=hi, ev=ev)
            return [self.ew(one, ins[0])]
        if name in ("solve", "_solve") and len(ins) == 2 and np.ndim(ins[0]) == 2 and np.ndim(ins[1]) == 1 and \
                not any(lane_axes(v.aval) for v in e.invars):
            A, b = self.lift(ins[0]), self.lift(ins[1])
            k = b.shape[0]
            args = tuple(A.reshape(-1)) + tuple(b)

            def mk(i):
                def ev(a):
                    M = np.array(a[:k * k], float).reshape(k, k)
                    return float(np.linalg.solve(M, np.array(a[k * k:], float))[i])
                return ev
            out = np.empty((k,), object)
            for i in range(k):
                out[i] = R.opaque("linsolve[%d/%d]" % (i, k), args, ev=mk(i))
            self.opaques["linsolve"] = self.opaques.get("linsolve", 0) + 1
            return [out]
        return None

    def opaque_eqn(self, e, ins):
        R = self.R
        name = e.primitive.name
        glob = any(lane_axes(v.aval) for v in e.invars) or any(lane_axes(v.aval) for v in e.outvars)
        args = []
        for x in ins:
            if self.is_sym(x):
                args.append(str(x.shape)); args.extend(x.reshape(-1))
            else:
                args.append(fingerprint(x))
        params = hashlib.sha1(str(sorted((k, str(v)) for k, v in e.params.items())).encode()).hexdigest()[:12]
        self.opaques[name] = self.opaques.get(name, 0) + 1
        outs = []
        for j, v in enumerate(e.outvars):
            out = np.empty(cshape(v.aval.shape), object)
            real = not np.issubdtype(v.aval.dtype, np.complexfloating)
            for idx in np.ndindex(out.shape):
                out[idx] = R.opaque(("GLOBAL:" if glob else "") + "%s|%s|%d%s" % (name, params, j, idx), tuple(args), real=real)
            outs.append(out)
        return outs

    # ---------------------------------------------------------- control flow
    def p_cond(self, e, ins):
        R = self.R
        idx, ops = ins[0], ins[1:]
        brs = e.params["branches"]
        if not self.is_sym(idx):
            k = int(np.clip(int(idx), 0, len(brs) - 1))
            return self.eval_jaxpr(brs[k].jaxpr, brs[k].consts, ops)
        p = idx[()]
        if R.is_const(p):
            k = int(np.clip(int(R.const_val(p)), 0, len(brs) - 1))
            return self.eval_jaxpr(brs[k].jaxpr, brs[k].consts, ops)
        res = [self.eval_jaxpr(b.jaxpr, b.consts, ops) for b in brs]
        if len(brs) == 2:
            return [self.ew(lambda a, b: R.ite(p, b, a), r0, r1) for r0, r1 in zip(*res)]
        out = []
        for rs in zip(*res):
            acc = self.lift(rs[0])
            for k in range(1, len(rs)):
                sel = R.opaque("case%d" % k, (p,), lo=0.0, hi=1.0)
                acc = self.ew(lambda a, b: R.ite(sel, b, a), acc, rs[k])
            out.append(acc)
        return out

    def p_scan(self, e, ins):
        p = e.params
        nc, nk, length = p["num_consts"], p["num_carry"], p["length"]
        if not any(self.is_sym(x) for x in ins):
            r = self.concrete(e, ins)
            if r is not None:
                return r
        if is_sym_dim(length) and self.maps_lanes(e):
            # lax.map over the grid: the body on one generic element
            consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), [self.lift(x) for x in ins[nc + nk:]]
            outs = self.eval_jaxpr(p["jaxpr"].jaxpr, p["jaxpr"].consts, list(consts) + carry + [self._box(x, 0) for x in xs])
            return list(carry) + [np.stack([self.lift(y)]) for y in outs[nk:]]
        if is_sym_dim(length) or length > 64:
            return self.opaque_eqn(e, ins)
        consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
        ys = None
        order = range(length - 1, -1, -1) if p["reverse"] else range(length)
        for i in order:
            outs = self.eval_jaxpr(p["jaxpr"].jaxpr, p["jaxpr"].consts, list(consts) + carry + [x[i] if isinstance(x[i], np.ndarray) else self._box(x, i) for x in xs])
            carry = list(outs[:nk])
            y = outs[nk:]
            if ys is None:
                ys = [[None] * length for _ in y]
            for k, v in enumerate(y):
                ys[k][i] = self.lift(v)
        stacked = [np.stack(col) for col in (ys or [])]
        return carry + stacked

    @staticmethod
    def maps_lanes(e):
        """every carried value is passed on unchanged, so the iterations are independent"""
        p = e.params
        jp = p["jaxpr"].jaxpr
        nc, nk = p["num_consts"], p["num_carry"]
        return all(jp.outvars[i] is jp.invars[nc + i] for i in range(nk))

    def _box(self, x, i):
        v = x[i]
        if isinstance(v, dict):
            o = np.empty((), object); o[()] = v
            return o
        return np.asarray(v)

    def p_while(self, e, ins):
        if not any(self.is_sym(x) for x in ins):
            r = self.concrete(e, ins)
            if r is not None:
                return r
        return self.opaque_eqn(e, ins)

    # ------------------------------------------------------------- structural
    def p_broadcast_in_dim(self, e, ins):
        x = ins[0]
        shape = cshape(e.params["shape"])
        bd = e.params["broadcast_dimensions"]
        x = x if isinstance(x, np.ndarray) else np.asarray(x)
        tmp = [1] * len(shape)
        for i, d in enumerate(bd):
            tmp[d] = x.shape[i]
        return np.broadcast_to(x.reshape(tmp), shape)

    def p_reshape(self, e, ins):
        return np.asarray(ins[0]).reshape(cshape(e.params["new_sizes"]))

    def p_squeeze(self, e, ins):
        x = ins[0]
        if any(d in lane_axes(e.invars[0].aval) for d in e.params["dimensions"]):
            return self.opaque_eqn(e, ins)
        dims = e.params["dimensions"]
        return x.reshape([s for i, s in enumerate(x.shape) if i not in dims])

    def p_expand_dims(self, e, ins):
        x = ins[0]
        for d in sorted(e.params["dimensions"]):
            x = np.expand_dims(x, d)
        return x

    def p_transpose(self, e, ins):
        return np.transpose(ins[0], e.params["permutation"])

    def p_rev(self, e, ins):
        if set(e.params["dimensions"]) & set(lane_axes(e.invars[0].aval)):
            return self.opaque_eqn(e, ins)
        return np.flip(ins[0], e.params["dimensions"])

    def p_slice(self, e, ins):
        la = lane_axes(e.invars[0].aval)
        st, li, sr = e.params["start_indices"], e.params["limit_indices"], e.params["strides"]
        sh = e.invars[0].aval.shape
        sl = []
        for i, d in enumerate(sh):
            if i in la:
                full = (not is_sym_dim(st[i]) and st[i] == 0) and str(li[i]) == str(d) and (sr is None or sr[i] == 1)
                if not full:
                    return self.opaque_eqn(e, ins)
                sl.append(slice(None))
            else:
                sl.append(slice(st[i], li[i], 1 if sr is None else sr[i]))
        return ins[0][tuple(sl)]

    def p_concatenate(self, e, ins):
        d = e.params["dimension"]
        if any(d in lane_axes(v.aval) for v in e.invars):
            return self.opaque_eqn(e, ins)
        if any(self.is_sym(x) for x in ins):
            ins = [self.lift(x) for x in ins]
        shapes = [list(x.shape) for x in ins]
        return np.concatenate(ins, axis=d)

    def p_split(self, e, ins):
        ax = e.params["axis"]
        if ax in lane_axes(e.invars[0].aval):
            return self.opaque_eqn(e, ins)
        return [np.asarray(x) for x in np.split(ins[0], np.cumsum(e.params["sizes"])[:-1], axis=ax)]

    def by_index(self, e, ins, data_pos, extra_concrete):
        """Run a data-movement primitive on integer labels, then look the labels up."""
        off, labels, objs = 0, list(ins), []
        for i in data_pos:
            x = self.lift(ins[i])
            labels[i] = np.arange(off, off + x.size).reshape(x.shape)
            objs.extend(x.reshape(-1)); off += x.size
        params = self.sub_params(e)
        if "fill_value" in params:
            params["fill_value"] = None
        out = e.primitive.bind(*[jnp.asarray(v) for v in labels], **params)
        out = np.asarray(out)
        res = np.empty(out.shape, object)
        for idx in np.ndindex(out.shape):
            k = int(out[idx])
            if k < 0 or k >= len(objs):
                raise Undecided("out-of-bounds data movement")
            res[idx] = objs[k]
        return res

    def p_gather(self, e, ins):
        la = lane_axes(e.invars[0].aval)
        if self.is_sym(ins[1]):
            c = self.fold_const(ins[1])
            if c is None:
                return self.opaque_eqn(e, ins)
            ins = [ins[0], c.astype(np.int64)]
        if la:
            dn = e.params["dimension_numbers"]
            ss = e.params["slice_sizes"]
            if any(str(ss[i]) != str(e.invars[0].aval.shape[i]) for i in la):
                return self.opaque_eqn(e, ins)
        if not self.is_sym(ins[0]):
            r = self.concrete(e, ins)
            if r is not None:
                return r
        return self.by_index(e, ins, [0], None)

    def fold_const(self, x):
        R = self.R
        flat = [R.const_val(v) if R.is_const(v) else None for v in x.reshape(-1)]
        if any(v is None for v in flat):
            return None
        return np.array([float(v) for v in flat]).reshape(x.shape)

    def p_dynamic_slice(self, e, ins):
        la = lane_axes(e.invars[0].aval)
        idx = []
        for v in ins[1:]:
            if self.is_sym(v):
                c = self.fold_const(v)
                if c is None:
                    return self.opaque_eqn(e, ins)
                v = c.astype(np.int64)
            idx.append(v)
        if la:
            return self.opaque_eqn(e, ins)
        return self.by_index(e, [ins[0]] + idx, [0], None) if self.is_sym(ins[0]) else self.concrete(e, [ins[0]] + idx)

    def p_dynamic_update_slice(self, e, ins):
        if any(self.is_sym(v) for v in ins[2:]) or lane_axes(e.invars[0].aval):
            return self.opaque_eqn(e, ins)
        if not (self.is_sym(ins[0]) or self.is_sym(ins[1])):
            return self.concrete(e, ins)
        return self.by_index(e, ins, [0, 1], None)

    def p_scatter(self, e, ins):
        if self.is_sym(ins[1]) or lane_axes(e.invars[0].aval):
            return self.opaque_eqn(e, ins)
        if not (self.is_sym(ins[0]) or self.is_sym(ins[2])):
            return self.concrete(e, ins)
        return self.by_index(e, ins, [0, 2], None)

    def p_scatter_add(self, e, ins):
        """operand.at[idx].add(updates) for concrete indices: label matrix trick."""
        R = self.R
        if self.is_sym(ins[1]) or lane_axes(e.invars[0].aval) or lane_axes(e.invars[2].aval):
            return self.opaque_eqn(e, ins)
        if not (self.is_sym(ins[0]) or self.is_sym(ins[2])):
            return self.concrete(e, ins)
        op, up = self.lift(ins[0]).copy(), self.lift(ins[2])
        flat = op.reshape(-1)
        uf = up.reshape(-1)
        z = jnp.zeros(op.shape)
        for k in range(up.size):
            u = np.zeros(up.size); u[k] = 1.0
            hit = np.asarray(e.primitive.bind(z, jnp.asarray(ins[1]), jnp.asarray(u.reshape(up.shape)), **self.sub_params(e))).reshape(-1)
            for t in np.nonzero(hit)[0]:
                flat[t] = R.add(flat[t], R.scale(uf[k], Decimal(float(hit[t]))))
        return flat.reshape(op.shape)

    def p_pad(self, e, ins):
        if lane_axes(e.invars[0].aval):
            return self.opaque_eqn(e, ins)
        if not (self.is_sym(ins[0]) or self.is_sym(ins[1])):
            return self.concrete(e, ins)
        return self.by_index(e, ins, [0, 1], None)

    def p_iota(self, e, ins):
        if lane_axes(e.outvars[0].aval):
            return self.opaque_eqn(e, ins)
        return self.concrete(e, ins)

    def p_dim_as_value(self, e, ins):
        out = np.empty((), object)
        out[()] = self.R.var("GLOBAL:n", 2, np.inf, pos=True)
        return out

    def p_copy(self, e, ins):
        return ins[0]
    p_copy_p = p_stop_gradient = p_optimization_barrier = p_copy

    def p_convert_element_type(self, e, ins):
        x = ins[0]
        if not self.is_sym(x):
            return np.asarray(x).astype(e.params["new_dtype"])
        src, dst = e.invars[0].aval.dtype, np.dtype(e.params["new_dtype"])
        if np.issubdtype(src, np.floating) and np.issubdtype(dst, np.integer):
            return self.ew(lambda p: p if self.R.is_const(p) and self.R.const_val(p) == self.R.const_val(p).to_integral_value() else self.R.opaque("trunc", (p,), ev=lambda a: float(int(a[0]))), x)
        if dst == bool and src != bool:
            return self.ew(lambda p: self.R.sub(self.R.add(self.R.ind(p, "lt"), self.R.ind(p, "gt")), {}), x)
        if np.issubdtype(src, np.floating) and np.issubdtype(dst, np.floating) and dst.itemsize < src.itemsize \
                or np.issubdtype(src, np.complexfloating) and np.issubdtype(dst, np.complexfloating) and dst.itemsize < src.itemsize:
            nm = np.dtype(dst).name           # a narrowing conversion is not the identity on the reals
            return self.ew(lambda p: p if self.R.is_const(p) else self.R.opaque("round:" + nm, (p,), real=self.R.is_real(p), ev=lambda a: float(np.float32(a[0]))), x)
        if np.issubdtype(src, np.complexfloating) and np.issubdtype(dst, np.floating):
            return self.ew(self.R.re, x)
        return x

    # -------------------------------------------------------------- reductions
    def reduce(self, e, ins, f, init):
        x = ins[0]
        axes = e.params["axes"]
        la = lane_axes(e.invars[0].aval)
        if set(axes) & set(la):
            return None
        if not self.is_sym(x):
            return self.concrete(e, ins)
        y = np.moveaxis(x, axes, range(len(axes)))
        rest = y.shape[len(axes):]
        y = y.reshape((-1,) + rest)
        out = np.empty(rest, object)
        for idx in np.ndindex(rest):
            acc = init
            for k in range(y.shape[0]):
                v = y[(k,) + idx]
                acc = v if acc is None else f(acc, v)
            out[idx] = acc
        return out

    def p_reduce_sum(self, e, ins):
        r = self.reduce(e, ins, self.R.add, {})
        if r is not None:
            return r
        la = lane_axes(e.invars[0].aval)
        x = self.lift(ins[0])
        axes = e.params["axes"]
        if set(axes) != set(la) or x.ndim != len(axes):
            return self.opaque_eqn(e, ins)
        out = np.empty((), object)
        out[()] = self.lane_sum(x.reshape(-1)[0])
        return out

    def lane_sum(self, p):
        R = self.R
        tot = {}
        for m, c in p.items():
            lane, rest = [], []
            for a, ex in m:
                (lane if self.lane_dep(a) else rest).append((a, ex))
            body = {tuple(lane): Decimal(1)}
            pos = R.sign(body) == 1
            s = R.opaque("SUM", (body,), real=R.is_real(body), lo=0.0 if pos else -np.inf)
            if pos:
                for mm in s:
                    for a, _ in mm:
                        R.atoms[a].pos = True
            tot = R.add(tot, R.scale(R.mul(s, {tuple(rest): Decimal(1)}), c))
        return tot

    def lane_dep(self, a):
        return any(getattr(self.R.atoms[v], "name", "").endswith("[k]") for v in self.R.atom_deps(a))

    def p_reduce_prod(self, e, ins):
        r = self.reduce(e, ins, self.R.mul, self.R.one)
        return r if r is not None else self.opaque_eqn(e, ins)

    def p_reduce_max(self, e, ins):
        r = self.reduce(e, ins, self.maximum, None)
        return r if r is not None else self.opaque_eqn(e, ins)

    def p_reduce_min(self, e, ins):
        r = self.reduce(e, ins, self.minimum, None)
        return r if r is not None else self.opaque_eqn(e, ins)

    def p_reduce_and(self, e, ins):
        r = self.reduce(e, ins, self.R.mul, self.R.one)
        return r if r is not None else self.opaque_eqn(e, ins)

    def p_argmin(self, e, ins):
        ax = e.params["axes"][0]
        if ax in lane_axes(e.invars[0].aval):
            return self.opaque_eqn(e, ins)
        if ins[0].shape[ax] == 1:
            return np.zeros(tuple(s for i, s in enumerate(ins[0].shape) if i != ax), dtype=np.int64)
        if not self.is_sym(ins[0]):
            return self.concrete(e, ins)
        return self.opaque_eqn(e, ins)

    def p_cumsum(self, e, ins):
        if e.params["axis"] in lane_axes(e.invars[0].aval):
            return self.opaque_eqn(e, ins)
        if not self.is_sym(ins[0]):
            return self.concrete(e, ins)
        x = ins[0].copy()
        ax = e.params["axis"]
        y = np.moveaxis(x, ax, 0)
        for k in range(1, y.shape[0]):
            y[k] = self.ew(self.R.add, y[k], y[k - 1])
        return x

    def p_dot_general(self, e, ins):
        if not any(self.is_sym(x) for x in ins):
            r = self.concrete(e, ins)
            if r is not None:
                return r
        (lc, rc), (lb, rb) = e.params["dimension_numbers"]
        if set(lc) & set(lane_axes(e.invars[0].aval)) or lb or rb:
            return self.opaque_eqn(e, ins)
        R = self.R
        a, b = self.lift(ins[0]), self.lift(ins[1])
        a = np.moveaxis(a, lc, range(a.ndim - len(lc), a.ndim))
        b = np.moveaxis(b, rc, range(len(rc)))
        sa, sb = a.shape[:a.ndim - len(lc)], b.shape[len(rc):]
        k = int(np.prod(a.shape[a.ndim - len(lc):], dtype=int))
        A, B = a.reshape(-1, k), b.reshape(k, -1)
        out = np.empty((A.shape[0], B.shape[1]), object)
        for i in range(A.shape[0]):
            for j in range(B.shape[1]):
                out[i, j] = R.sum([R.mul(A[i, t], B[t, j]) for t in range(k)])
        return out.reshape(sa + sb)

    # ------------------------------------------------------------- elementwise
    def maximum(self, a, b):
        R = self.R
        return R.ite(R.lt(a, b), b, a)

    def minimum(self, a, b):
        R = self.R
        return R.ite(R.lt(b, a), b, a)

    def note(self, kind, p):
        if self.sqrt_args is not None:
            self.sqrt_args.append((kind, p))

    def _pow(self, e, ins):
        x, y = ins
        R = self.R
        if not self.is_sym(y):
            yv = np.asarray(y)

            def f(a, b):
                r = to_fraction(float(b.get((), 0)))
                if r.denominator != 1:
                    self.note("sqrt", a)
                if r < 0:
                    self.note("div", a)
                return R.pow(a, r)
            return self.ew(f, x, y)

        def g(a, b):
            if R.is_const(b):
                return R.pow(a, to_fraction(float(R.const_val(b))))
            return R.exp(R.mul(R.log(a), b))
        return self.ew(g, x, y)

    def p_select_n(self, e, ins):
        R = self.R
        w, cases = ins[0], ins[1:]
        if not self.is_sym(w) and len(cases) == 2:
            wv = np.asarray(w)
            if wv.ndim == 0 or wv.size == 1:
                return cases[1] if bool(wv.reshape(-1)[0]) else cases[0]
        if not any(self.is_sym(x) for x in ins):
            r = self.concrete(e, ins)
            if r is not None:
                return r
        if len(cases) != 2:
            return self.opaque_eqn(e, ins)
        return self.ew(lambda c, a, b: R.ite(c, b, a), w, cases[0], cases[1])

    def p_clamp(self, e, ins):
        lo, x, hi = ins
        if not any(self.is_sym(v) for v in ins):
            r = self.concrete(e, ins)
            if r is not None:
                return r
        return self.ew(lambda l, a, h: self.minimum(self.maximum(a, l), h), lo, x, hi)

    def infinite(self, p):
        """+1 / -1 for an infinite constant, 0 for a real expression, None for a mixture"""
        if not p:
            return 0
        if len(p) == 1:
            (m, c), = p.items()
            if len(m) == 1 and m[0][1] == 1:
                k = self.R.atoms[m[0][0]]
                if k.kind == "opaque" and k.data[0] in ("inf", "-inf"):
                    return (1 if k.data[0] == "inf" else -1) * (1 if c > 0 else -1)
        if self.R.find_atoms(p, lambda a: a.kind == "opaque" and a.data[0] in ("inf", "-inf", "nan", "div0")):
            return None
        return 0

    def cmp(self, kind):
        def f(e, ins):
            R = self.R
            bools = all(v.aval.dtype == bool for v in e.invars)

            def g(a, b):
                if kind in ("eq", "ne") and bools:
                    x = R.add(R.sub(R.one, R.add(a, b)), R.scale(R.mul(a, b), 2))
                    return x if kind == "eq" else R.sub(R.one, x)
                u, v = self.infinite(a), self.infinite(b)
                if (u or v) and u is not None and v is not None:
                    # a comparison with infinity: the other operand is a real number
                    t = {"lt": u < v, "gt": u > v, "le": u <= v, "ge": u >= v, "eq": u == v, "ne": u != v}[kind]
                    return R.one if t else {}
                d = R.sub(a, b)
                if kind == "lt":
                    return R.ind(d, "lt")
                if kind == "gt":
                    return R.ind(d, "gt")
                if kind == "le":
                    return R.sub(R.one, R.ind(d, "gt"))
                if kind == "ge":
                    return R.sub(R.one, R.ind(d, "lt"))
                x = R.add(R.ind(d, "lt"), R.ind(d, "gt"))
                return x if kind == "ne" else R.sub(R.one, x)
            return self.ew(g, *ins)
        return f


def _mk(fn):
    def h(self, e, ins):
        return self.ew(lambda *a: fn(self, *a), *ins)
    return h


def _sqrt(s, a):
    s.note("sqrt", a)
    return s.R.sqrt(a)


def _log(s, a):
    s.note("log", a)
    return s.R.log(a)


def _div(s, a, b):
    if s.sqrt_args is not None and not s.R.is_const(b):
        s.note("div", b)
    return s.R.div(a, b)


def _ipow(s, e, ins):
    if e.params["y"] < 0 and s.sqrt_args is not None:
        for v in s.lift(ins[0]).reshape(-1):
            s.note("div", v)
    return s.ew(lambda a: s.R.pow(a, e.params["y"]), ins[0])


def _rsqrt(s, a):
    s.note("sqrt", a)
    s.note("div", a)
    return s.R.pow(a, Fraction(-1, 2))


def _cbrt(s, a):
    R = s.R
    if R.sign(a) == -1:
        return R.neg(R.pow(R.neg(a), Fraction(1, 3)))
    return R.pow(a, Fraction(1, 3))


def _sign(s, a):
    return s.R.sub(s.R.ind(a, "gt"), s.R.ind(a, "lt"))


def _tan(s, a):
    return s.R.div(s.R.sin(a), s.R.cos(a))


def _or(s, a, b):
    return s.R.sub(s.R.add(a, b), s.R.mul(a, b))


def _fun(kind):
    return lambda s, *a: s.R.fun_atom(kind, *a)


def _acos(s, a):
    return s.R.acos(a)


def _expm1(s, a):
    return s.R.sub(s.R.exp(a), s.R.one)


def _tanh(s, a):
    e = s.R.exp(s.R.scale(a, 2))
    return s.R.div(s.R.sub(e, s.R.one), s.R.add(e, s.R.one))


Evaluator.EW = {
    "add": _mk(lambda s, a, b: s.R.add(a, b)),
    "add_any": _mk(lambda s, a, b: s.R.add(a, b)),
    "sub": _mk(lambda s, a, b: s.R.sub(a, b)),
    "mul": _mk(lambda s, a, b: s.R.mul(a, b)),
    "div": _mk(_div),
    "neg": _mk(lambda s, a: s.R.neg(a)),
    "square": _mk(lambda s, a: s.R.pow(a, 2)),
    "integer_pow": _ipow,
    "pow": lambda s, e, ins: s._pow(e, ins),
    "sqrt": _mk(_sqrt),
    "rsqrt": _mk(_rsqrt),
    "cbrt": _mk(_cbrt),
    "exp": _mk(lambda s, a: s.R.exp(a)),
    "exp2": _mk(lambda s, a: s.R.exp(s.R.scale(a, Decimal(2).ln()))),
    "expm1": _mk(_expm1),
    "log": _mk(_log),
    "log1p": _mk(lambda s, a: _log(s, s.R.add(s.R.one, a))),
    "sin": _mk(lambda s, a: s.R.sin(a)),
    "cos": _mk(lambda s, a: s.R.cos(a)),
    "tan": _mk(_tan),
    "atan": _mk(lambda s, a: s.R.arctan(a)),
    "atan2": _mk(lambda s, a, b: s.R.atan2(a, b)),
    "acos": _mk(_acos),
    "asin": _mk(_fun("asin")),
    "tanh": _mk(_tanh),
    "logistic": _mk(lambda s, a: s.R.pow(s.R.add(s.R.one, s.R.exp(s.R.neg(a))), -1)),
    "abs": _mk(lambda s, a: s.R.abs(a)),
    "sign": _mk(_sign),
    "max": _mk(lambda s, a, b: s.maximum(a, b)),
    "min": _mk(lambda s, a, b: s.minimum(a, b)),
    "real": _mk(lambda s, a: s.R.re(a)),
    "imag": _mk(lambda s, a: s.R.im(a)),
    "conj": _mk(lambda s, a: s.R.conj(a)),
    "complex": _mk(lambda s, a, b: s.R.add(a, s.R.mul(s.R.I, b))),
    "and": _mk(lambda s, a, b: s.R.mul(a, b)),
    "or": _mk(_or),
    "not": _mk(lambda s, a: s.R.sub(s.R.one, a)),
    "is_finite": _mk(lambda s, a: s.R.one),
    "lt": lambda s, e, ins: s.cmp("lt")(e, ins),
    "gt": lambda s, e, ins: s.cmp("gt")(e, ins),
    "le": lambda s, e, ins: s.cmp("le")(e, ins),
    "ge": lambda s, e, ins: s.cmp("ge")(e, ins),
    "eq": lambda s, e, ins: s.cmp("eq")(e, ins),
    "ne": lambda s, e, ins: s.cmp("ne")(e, ins),
}

CALLS = {"jit", "pjit", "closed_call", "core_call", "custom_jvp_call", "custom_vjp_call",
         "custom_vjp_call_jaxpr", "remat", "checkpoint", "remat2", "xla_call", "custom_jvp_call_jaxpr"}
STRUCT_SHAPE = {"broadcast_in_dim", "reshape"}
