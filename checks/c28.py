from .common import *

TITLE = "both tidal parametrisations give the same waveform"


def law(mk):
    def f(M):
        """h(lambda_tilde, delta_lambda_tilde) = h(lam1, lam2; use_lambda_tildes=False)"""
        fr, fref = M.freq(), M.var("fref")
        P = params(M, mk)
        return pairs(M.hphc(mk, fr, P, fref), M.hphc(mk + "l", fr, P, fref)) + \
            [(M.h0(mk, fr, P, fref), M.h0(mk + "l", fr, P, fref))]
    return f


def obligations():
    return [Law("C28.%s" % MODELS[mk].title, law(mk), cost=20) for mk in TIDAL]
