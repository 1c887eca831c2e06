from .common import *
from ripplegw.constants import gt

TITLE = "the tidal model reduces to its point-particle baseline"
NR = "ripplegw.waveforms.IMRPhenomD_NRTidalv2:"


def baseline(mk):
    def f(M):
        """no taper, no deformability, no spin: h(PhenomD_NRTidalv2) = h(PhenomD) below the cutoff"""
        fr, fref = M.freq(), M.var("fref")
        z = 0 * M.var("eta")
        P = params(M, "D", chi1=z, chi2=z)
        T = dict(P, lam_tilde=z, dlam_tilde=z, lam1=z, lam2=z)
        a = M.hphc("D", fr, P, fref)
        b = M.hphc(mk, fr, T, fref, no_taper=True)
        if M.numeric:
            k = P["Mc"] * S.powr(P["eta"], -3, 5) * gt * fr < 0.2 * (1 - 1e-12)
            return [(x * k, y * k) for x, y in zip(a, b)]
        return pairs(a, b)
    return f


def below(M):
    return [[(M.var("Mc") * M.var("eta") ** Fraction(-3, 5) * gt * M.freq() - Fraction(2, 10), "lt")]]


def two(M, mk):
    P = params(M, mk)
    Q = dict(P)
    for k, alt in (("chi1", "xchi1"), ("chi2", "xchi2"), ("D", "xD"), ("tc", "xtc"), ("phic", "xphic"), ("iota", "xiota")):
        Q[k] = M.var(alt, -1 if "chi" in k else 0 if k == "D" else -INF, 1 if "chi" in k else INF, k == "D")
    return P, Q


def taper(mk):
    def f(M):
        """h_tapered(p) h_untapered(p') = h_tapered(p') h_untapered(p) for p, p' with the same masses and deformabilities;
        h_tapered conj(h_untapered) is real"""
        fr, r1, r2 = M.freq(), M.var("fref"), M.var("fref2")
        P, Q = two(M, mk)
        hT, hU = M.hphc(mk, fr, P, r1), M.hphc(mk, fr, P, r1, no_taper=True)
        gT, gU = M.hphc(mk, fr, Q, r2), M.hphc(mk, fr, Q, r2, no_taper=True)
        out = []
        for k in (0, 1):
            out += [(hT[k] * gU[k], gT[k] * hU[k], abs(hU[k] * gU[k]) if M.numeric else None)]
        out += [(hT[0] * S.conj(hU[0]), S.conj(hT[0]) * hU[0]), (hT[0] * hU[1], hT[1] * hU[0])]
        return out
    return f


def linear(M):
    """psi_T(x; s kappa) = s psi_T(x; kappa); it vanishes at kappa = 0 and depends on the masses through their ratio only"""
    m1, m2, s, k = M.var("m1"), M.var("m2"), M.var("s"), M.var("kappa")
    x = M.var("px", 0, INF, True)
    th = [m1, m2, M.var("chi1"), M.var("chi2"), M.var("lam1"), M.var("lam2")]
    ph = lambda kk: M.call(NR + "get_tidal_phase", x, th, kk)
    a = ph(k)
    return [(ph(s * k), s * a), (ph(0 * k), 0 * x)]


OV = {"px": lambda v, r: r.uniform(0.01, 0.3, (v.B, 1)), "kappa": lambda v, r: np.where(r.random((v.B, 1)) < .3, r.uniform(0, 1, (v.B, 1)), np.exp(r.uniform(-2, 8, (v.B, 1)))),
      "s": lambda v, r: np.exp(r.uniform(-6, 6, (v.B, 1))),
      "xchi1": lambda v, r: r.uniform(-1, 1, (v.B, 1)), "xchi2": lambda v, r: r.uniform(-1, 1, (v.B, 1)),
      "xD": lambda v, r: np.exp(r.uniform(0, 9, (v.B, 1)))}
B = dict(BOX, xchi1=(-1, 1), xchi2=(-1, 1))


def obligations():
    return [Law("C17.baseline", baseline("N"), cases=below, cost=20), Law("C17.baseline_individual", baseline("Nl"), cases=below, cost=20),
            Law("C17.taper_is_real_factor", taper("N"), box=B, over=OV, cost=30), Law("C17.taper_is_real_factor_individual", taper("Nl"), box=B, over=OV, cost=30),
            Law("C17.tidal_phase_linear", linear, over=OV)]
