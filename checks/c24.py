from .common import *
from ripplegw.constants import gt

TITLE = "the reference frequency only fixes a constant phase"


def constant(mk):
    def f(M):
        """h(f; r2) h(g; r1) = h(g; r2) h(f; r1) for every pair of frequencies f, g;  |h(f; r1)| = |h(f; r2)|"""
        fr, g = M.freq(), M.freq("g")
        r1, r2 = M.var("fref"), M.var("fref2")
        P = params(M, mk)
        a1, a2 = M.hphc(mk, fr, P, r1), M.hphc(mk, fr, P, r2)
        b1, b2 = M.hphc(mk, g, P, r1), M.hphc(mk, g, P, r2)
        out = [(a2[0] * b1[0], b2[0] * a1[0]), (a2[0] * a1[1], a1[0] * a2[1])]
        out += [(x * S.conj(x), y * S.conj(y)) for x, y in zip(a1, a2)]
        return out
    return f


def low_g(M):
    """the second frequency lies below the cutoff, M g < 0.2: the ratio of the two waveforms
    there is then THE constant for every other frequency"""
    k = M.var("Mc") * M.var("eta") ** Fraction(-3, 5) * gt
    g, f = M.freq("g") * k - Fraction(2, 10), M.freq() * k - Fraction(2, 10)
    return [[(g, "lt"), (f, rel)] for rel in ("lt", "gt", "eq")]


def anchored(mk):
    def f(M):
        """h0(r; r) exp(2 pi i r tc - 2 i phic) has the same phase (up to sign) for every reference frequency r and every binary"""
        r1, r2 = M.var("fref"), M.var("fref2")
        P = params(M, mk)
        out = []
        hs = []
        for r in (r1, r2):
            h = M.h0(mk, r, P, r) * S.cis(2 * PI * r * P["tc"] - 2 * P["phic"])
            hs.append(h)
        a, b = hs
        return [(a * a * (b * S.conj(b)), b * b * (a * S.conj(a)))]
    return f


def anchored_real(mk):
    def f(M):
        """h0(r; r) exp(2 pi i r tc - 2 i phic) is real for every reference frequency r and every binary"""
        r = M.var("fref")
        P = params(M, mk)
        a = M.h0(mk, r, P, r) * S.cis(2 * PI * r * P["tc"] - 2 * P["phic"])
        return [(a, S.conj(a))]
    return f


def obligations():
    return [Law("C24.%s" % MODELS[mk].title, constant(mk), cost={"XAS": 100}.get(mk, 20), cases=low_g if mk in ("D", "N", "Nl") else None) for mk in ALIGNED + INDIVIDUAL] + \
        [Law("C24.phase_at_reference.TaylorF2", anchored("T"), cost=20),
         Law("C24.phase_at_reference.TaylorF2_individual", anchored("Tl"), cost=20),
         Law("C24.phase_at_reference.IMRPhenomD", anchored_real("D"), cost=20, lanes=("fref",)),
         Law("C24.phase_at_reference.IMRPhenomXAS", anchored("XAS"), cost=100)]
