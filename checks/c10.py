from .common import *

TITLE = "coalescence phase enters as exp(2 i phic)"
COST = {"XAS": 100, "XASl": 100, "P": 30}


def law(mk):
    def f(M):
        """h(f; phic) = h(f; phic + d) * exp(-2 i d);  h(f; phic + pi) = h(f; phic)"""
        fr, fref, d = M.freq(), M.var("fref"), M.var("d")
        P = params(M, mk)
        a = M.hphc(mk, fr, P, fref)
        b = M.hphc(mk, fr, {**P, "phic": P["phic"] + d}, fref)
        return pairs(a, [x * S.cis(-2 * d) for x in b])
    return f


def obligations():
    return [Law("C10.%s" % MODELS[mk].title, law(mk), cost=COST.get(mk, 20)) for mk in ALIGNED + INDIVIDUAL]
