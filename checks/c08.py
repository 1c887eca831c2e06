from .common import *

TITLE = "amplitude is inversely proportional to distance"
COST = {"XAS": 100, "XASl": 100, "P": 30}


def law(mk):
    def f(M):
        """h(f; s*D) * s = h(f; D)"""
        fr, fref = M.freq(), M.var("fref")
        P = params(M, mk)
        s = M.var("s")
        a = M.hphc(mk, fr, P, fref)
        b = M.hphc(mk, fr, {**P, "D": P["D"] * s}, fref)
        return pairs(a, [x * s for x in b])
    return f


def obligations():
    return [Law("C08.%s" % MODELS[mk].title, law(mk), cost=COST.get(mk, 20)) for mk in ALL + INDIVIDUAL]
