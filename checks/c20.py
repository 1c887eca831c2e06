from .common import *

TITLE = "equal masses: exchanging the two objects changes nothing"
W = "ripplegw.waveforms."


def swap(mk):
    def f(M):
        """at eta = 1/4: h(chi1, chi2, lam1, lam2) = h(chi2, chi1, lam2, lam1)"""
        fr, fref = M.freq(), M.var("fref")
        q = M.const(Fraction(1, 4)) if not M.numeric else np.full_like(M.var("eta"), 0.25)
        P = params(M, mk, eta=q)
        Q = dict(P, chi1=P["chi2"], chi2=P["chi1"])
        if "lam1" in P:
            Q["lam1"], Q["lam2"] = P["lam2"], P["lam1"]
            if "lam_tilde" in P:
                Q["lam_tilde"], Q["dlam_tilde"] = tildes(q, Q["lam1"], Q["lam2"])
        return pairs(M.hphc(mk, fr, P, fref), M.hphc(mk, fr, Q, fref))
    return f


def kappa(M):
    """get_kappa(1, 2) = get_kappa(2, 1)"""
    m1, m2, c1, c2, l1, l2 = (M.var(k) for k in ("m1", "m2", "chi1", "chi2", "lam1", "lam2"))
    k = W + "IMRPhenom_tidal_utils:get_kappa"
    return [(M.call(k, [m1, m2, c1, c2, l1, l2]), M.call(k, [m2, m1, c2, c1, l2, l1]))]


def spins(M):
    """get_spin_phase_correction(x; 1, 2) = get_spin_phase_correction(x; 2, 1)"""
    m1, m2, c1, c2, l1, l2, x = (M.var(k) for k in ("m1", "m2", "chi1", "chi2", "lam1", "lam2", "x2"))
    k = W + "IMRPhenomD_NRTidalv2:get_spin_phase_correction"
    return [(M.call(k, x, [m1, m2, c1, c2, l1, l2]), M.call(k, x, [m2, m1, c2, c1, l2, l1]))]


def tidal(M):
    """tidal phase and tidal amplitude with kappa: symmetric in the two objects"""
    m1, m2, c1, c2, l1, l2, x = (M.var(k) for k in ("m1", "m2", "chi1", "chi2", "lam1", "lam2", "x2"))
    k = M.var("kappa")
    out = []
    for fn in ("get_tidal_phase", "get_tidal_amplitude"):
        p = W + "IMRPhenomD_NRTidalv2:" + fn
        out.append((M.call(p, x, [m1, m2, c1, c2, l1, l2], k), M.call(p, x, [m2, m1, c2, c1, l2, l1], k)))
    return out


def _ph(fn):
    def g(*a):
        d, l = fn(*a)
        return tuple(d[k] for k in sorted(d)) + tuple(l[k] for k in sorted(l))
    return g


def phasing(M):
    """every TaylorF2 phasing coefficient is symmetric in the two objects, for every mass ratio"""
    m1, m2, c1, c2, l1, l2 = (M.var(k) for k in ("m1", "m2", "chi1", "chi2", "lam1", "lam2"))
    k = W + "TaylorF2:get_PNPhasing_F2"
    return pairs(M.call(k, m1, m2, c1, c2, l1, l2, wrap=_ph), M.call(k, m2, m1, c2, c1, l2, l1, wrap=_ph))


OV = {"x2": lambda v, r: np.exp(r.uniform(-5, -0.5, (v.B, 1)))}


def obligations():
    return [Law("C20.%s" % MODELS[mk].title, swap(mk), cost={"XAS": 100}.get(mk, 20)) for mk in ALIGNED + INDIVIDUAL] + \
        [Law("C20.kappa", kappa), Law("C20.spin_corrections", spins, over=OV), Law("C20.tidal_corrections", tidal, over=OV), Law("C20.phasing_coefficients", phasing)]
