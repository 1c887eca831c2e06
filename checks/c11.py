from .common import *

TITLE = "inclination enters through the quadrupole pattern"
COST = {"XAS": 100, "XASl": 100, "P": 30}


def law(mk):
    def f(M):
        """h+ = h0 (1 + cos(i)^2)/2,  hx = -i h0 cos(i),  h0 = the single-strain generator (no inclination)"""
        fr, fref = M.freq(), M.var("fref")
        P = params(M, mk)
        a = M.hphc(mk, fr, P, fref)
        h0 = M.h0(mk, fr, P, fref)
        c = S.cos(P["iota"])
        return [(a[0], h0 * (1 + c * c) / 2, h0), (a[1], h0 * c * (-1j), h0)]
    return f


def obligations():
    return [Law("C11.%s" % MODELS[mk].title, law(mk), cost=COST.get(mk, 20)) for mk in ALIGNED + INDIVIDUAL]
