"""Pieces shared by the property files."""
from __future__ import annotations
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import numpy as np
from vc import sym as S
from vc.sym import PI
from vc.sym import Sym
from vc import extract as X
from vc.machine import TRACE_STATS, MODELS, ALIGNED, ALL, TIDAL, INDIVIDUAL, SymM, NumM, resolve
from vc.prove import random_env, Prover
from vc.check import Law, Custom, Result, BOX, TIER, SEED
from fractions import Fraction
Fraction, Fr = Fraction, (lambda a, b: Fraction(a, b))
INF = float("inf")


def tildes(eta, l1, l2):
    """Wade et al.: the mass-weighted pair of two deformabilities (specification text)."""
    dl = S.sqrt(1 - 4 * eta)
    lp, lm = l1 + l2, l1 - l2
    lt = ((1 + 7 * eta - 31 * eta**2) * lp + dl * (1 + 9 * eta - 11 * eta**2) * lm) * Fraction(8, 13) if not isinstance(eta, np.ndarray) \
        else ((1 + 7 * eta - 31 * eta**2) * lp + dl * (1 + 9 * eta - 11 * eta**2) * lm) * (8 / 13)
    F = (lambda a, b: Fraction(a, b)) if not isinstance(eta, np.ndarray) else (lambda a, b: a / b)
    dlt = (dl * (1 - eta * F(13272, 1319) + eta**2 * F(8944, 1319)) * lp
           + (1 - eta * F(15910, 1319) + eta**2 * F(32850, 1319) + eta**3 * F(3380, 1319)) * lm) / 2
    return lt, dlt


def params(M, mk, **over):
    """symbolic / sampled parameters of a model; tidal models are parametrised by the two
    individual deformabilities >= 0, from which the mass-weighted pair is formed"""
    m = MODELS[mk]
    P = {}
    for k in m.params:
        if k in ("lam_tilde", "dlam_tilde"):
            continue
        P[k] = over[k] if k in over else M.var(k)
    if "lam_tilde" in m.params:
        l1, l2 = M.var("lam1"), M.var("lam2")
        P["lam1"], P["lam2"] = l1, l2
        P["lam_tilde"], P["dlam_tilde"] = tildes(P["eta"], l1, l2)
        hint(M, [l1, l2])
    return P


def hint(M, syms):
    """normal forms that intermediate values may be proved equal to (SAT sweeping)"""
    if M.numeric or M.ev.hints is not None:
        return
    R = M.R
    rng = np.random.default_rng(3)
    for nm in ("Mc", "eta", "chi1", "chi2", "D", "tc", "phic", "iota", "fref", "fref2", "d", "s", "lam1", "lam2"):
        M.var(nm)
    M.freq("f"); M.freq("g")
    al = R.one
    for s in M.vars.values():
        al = R.add(al, s.p)
    envs = [random_env(R, al, rng) for _ in range(2)]
    M.ev.set_hints([s.p for s in syms], envs)


def pairs(a, b):
    return list(zip(a, b))
