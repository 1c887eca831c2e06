from .common import *

TITLE = "coalescence time enters as exp(-2 pi i f tc)"
COST = {"XAS": 100, "XASl": 100, "P": 30}


def law(mk):
    def f(M):
        """h(f; tc) = h(f; tc + d) * exp(2 pi i f d)"""
        fr, fref, d = M.freq(), M.var("fref"), M.var("d")
        P = params(M, mk)
        a = M.hphc(mk, fr, P, fref)
        b = M.hphc(mk, fr, {**P, "tc": P["tc"] + d}, fref)
        return pairs(a, [x * S.cis(2 * PI * fr * d) for x in b])
    return f


def obligations():
    return [Law("C09.%s" % MODELS[mk].title, law(mk), cost=COST.get(mk, 20)) for mk in ALL + INDIVIDUAL]
