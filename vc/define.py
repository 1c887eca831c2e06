"""Definedness obligations: every divisor of the extracted code is non-zero, every radicand
non-negative and every logarithm's argument positive on the domain."""
from __future__ import annotations
import math
import numpy as np
from .ring import Undecided, F1, D1
from .prove import Prover, random_env, VERBOSE
from .check import Result
from .machine import TRACE_STATS


def nonneg(pr, p):
    R = pr.R
    if not p:
        return True
    s = R.sign(p)
    if s is not None:
        return s >= 0
    if R.is_const(p):
        return R.const_val(p) >= 0
    w = R.wrap(p)
    if len(w) == 1 and R.weak_sign(w) == 1:
        return True
    return bool(pr.interval_pos(p))


def nonzero(pr, p):
    R = pr.R
    s = R.sign(p)
    if s in (1, -1):
        return True
    w = R.wrap(p)
    if len(w) == 1:
        (m, c), = w.items()
        return all(atom_nonzero(pr, a) for a, e in m)
    return bool(pr.interval_pos(p)) or bool(pr.interval_pos(R.neg(p)))


def atom_nonzero(pr, a):
    R = pr.R
    at = R.atoms[a]
    if at.pos or at.kind == "E" or at.hi < 0 or getattr(at, "nonzero", False):
        return True
    if at.kind == "abs":
        return False
    q = {((a, F1),): D1}
    pr.hard = True
    return pr.sign_of(q) in (1, -1)


def definedness(name, M, call, box, skip=None, guard=None, doc=""):
    """call() evaluates the code; box bounds the variables for interval lemmas"""
    R = M.R
    pr = Prover(R, box=box)
    M.prover = pr
    M.ev.sqrt_args = []
    call()
    seen, failed, n = set(), [], {"div": 0, "sqrt": 0, "log": 0}
    for kind, p in M.ev.sqrt_args:
        key = (kind, R.poly_key(p))
        if key in seen:
            continue
        seen.add(key)
        if skip and skip(kind, p):
            continue
        n[kind] = n.get(kind, 0) + 1
        try:
            if kind == "sqrt":
                ok = nonneg(pr, p)
            elif kind == "log":
                ok = R.sign(p) == 1 or bool(pr.interval_pos(p))
            else:
                ok = bool(p) and nonzero(pr, p)
        except Undecided as ex:
            ok = False
        if VERBOSE:
            print(kind, ok, R.show(p, 1, 4)[:200])
        if not ok:
            failed.append((kind, R.show(p, 1, 5)[:400]))
    M.ev.sqrt_args = None
    r = Result(name, "proved" if not failed and seen else "undecided", kind="definedness", doc=doc, conditions=n,
               boxes=pr.stats.boxes, eqns=M.ev.n_eqns, traces=dict(TRACE_STATS),
               lemmas=[{"expr": k, "proved": bool(v[0]), "boxes": v[1]} for k, v in pr.stats.lemmas.items()])
    if failed:
        r["residue"] = "; ".join("%s of %s" % f for f in failed[:4])
    if not seen:
        r["residue"] = "no condition extracted"
    return r
