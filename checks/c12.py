from .common import *

TITLE = "covariance under a change of the total mass"
COST = {"XAS": 100, "XASl": 100, "P": 30}


def law(mk):
    def f(M):
        """h(f/s; s*Mc, s*tc, fref/s) = s^2 h(f; Mc, tc, fref)"""
        fr, fref, s = M.freq(), M.var("fref"), M.var("s")
        P = params(M, mk)
        a = M.hphc(mk, fr, P, fref)
        b = M.hphc(mk, fr / s, {**P, "Mc": P["Mc"] * s, "tc": P["tc"] * s}, fref / s)
        return pairs(a, [x / s**2 for x in b])
    return f


def obligations():
    return [Law("C12.%s" % MODELS[mk].title, law(mk), cost=COST.get(mk, 20)) for mk in ALL + INDIVIDUAL]
