from .common import *

import ripplegw.waveforms.IMRPhenomXAS            # module-level arrays are created outside of any trace
import ripplegw.constants as K
from ripplegw.waveforms import IMRPhenomX_utils

TITLE = "inspiral phases follow the post-Newtonian expansion"
W = "ripplegw.waveforms."
GE = 0.57721566490153286


class Lit:
    """The stationary-phase expansion as published (Buonanno et al. 0907.0700, Bohe et al. 1303.7412, the appendix of
    1508.07253 for the aligned-spin terms, Vines et al. 1101.1673 for the tides; spin-spin at 3PN: Bohe et al. 1501.01529 as
    printed in 2001.11412):
    Psi(v) = 3/(128 eta) v^-5 sum_k (c_k + l_k ln v) v^k  with v = (pi M f)^(1/3)"""

    def __init__(self, eta, d, c1, c2, X=None, num=False):
        F = (lambda a, b=1: a / b) if num else (lambda a, b=1: Fraction(a, b))
        s, a = (c1 + c2) * F(1, 2), (c1 - c2) * F(1, 2)
        n2, n3 = eta * eta, eta * eta * eta
        ln2 = float(np.log(2.0))
        P2 = PI * PI
        c = {0: 1 + 0 * eta, 1: 0 * eta}
        c[2] = F(3715, 756) + F(55, 9) * eta
        c[3] = -16 * PI + F(113, 3) * d * a + (F(113, 3) - F(76, 3) * eta) * s
        c[4] = F(15293365, 508032) + F(27145, 504) * eta + F(3085, 72) * n2 + (200 * eta - F(405, 8)) * a * a - F(405, 4) * d * a * s + (F(5, 2) * eta - F(405, 8)) * s * s
        so5 = d * a * (-F(732985, 2268) - F(140, 9) * eta) + s * (-F(732985, 2268) + F(24260, 81) * eta + F(340, 9) * n2)
        c[5] = PI * (F(38645, 756) - F(65, 9) * eta) + so5
        self.ns6 = F(11583231236531, 4694215680) - F(6848, 21) * GE - F(640, 3) * P2 + (F(2255, 12) * P2 - F(15737765635, 3048192)) * eta \
            + F(76055, 1728) * n2 - F(127825, 1296) * n3 - F(6848, 21) * 2 * ln2
        self.so6 = PI * (F(2270, 3) * d * a + (F(2270, 3) - 520 * eta) * s)
        ss6 = F(5, 4032) * (20 * c1 * c2 * eta * (11763 + 12488 * eta)
                            + 7 * c2 * c2 * (15103 * (1 - d) - 2 * (21683 - 6580 * d) * eta - 9808 * n2)
                            + 7 * c1 * c1 * (15103 * (1 + d) - 2 * (21683 + 6580 * d) * eta - 9808 * n2))
        self.ss6 = ss6
        c[6] = self.ns6 + self.so6
        c[7] = PI * (F(77096675, 254016) + F(378515, 1512) * eta - F(74045, 756) * n2) \
            + d * a * (-F(25150083775, 3048192) + F(26804935, 6048) * eta - F(1985, 48) * n2) \
            + s * (-F(25150083775, 3048192) + F(10566655595, 762048) * eta - F(1042165, 3024) * n2 + F(5345, 36) * n3)
        self.c = c
        self.l = {5: 3 * c[5], 6: -F(6848, 21) + 0 * eta}
        self.F = F

    def tides(self, X1, X2, l1, l2):
        F = self.F
        c10 = lambda X: -24 * (12 - 11 * X) * X**4
        c12 = lambda X: -F(5, 28) * (3179 - 919 * X - 2286 * X**2 + 260 * X**3) * X**4
        return {10: c10(X1) * l1 + c10(X2) * l2, 12: c12(X1) * l1 + c12(X2) * l2}


KEYS = {0: "0PN", 1: "1PN", 2: "2PN", 3: "3PN", 4: "4PN", 5: "5PN", 6: "6PN", 7: "7PN", 10: "10PN", 12: "12PN"}


def _t(fn):
    def g(m1, m2, c1, c2, l1, l2):
        d, l = fn(m1, m2, c1, c2, l1, l2)
        return tuple(d[KEYS[k]] + 0 * m1 for k in KEYS) + (l["5PN"] + 0 * m1, l["6PN"] + 0 * m1)
    return g


def table(M):
    """every TaylorF2 phasing coefficient (0 to 3.5PN with logarithms, no tides) is the published one"""
    m1, m2, c1, c2 = (M.var(k) for k in ("m1", "m2", "chi1", "chi2"))
    z = M.const(0) if not M.numeric else np.zeros_like(m1)
    got = M.call(W + "TaylorF2:get_PNPhasing_F2", m1, m2, c1, c2, z, z, wrap=_t)
    m = m1 + m2
    eta = m1 * m2 / (m * m)
    L = Lit(eta, (m1 - m2) / m, c1, c2, num=M.numeric)
    pre = 3 / (128 * eta)
    L.c[6] = L.c[6] + L.ss6
    want = [L.c[k] for k in range(8)] + [0 * eta, 0 * eta, L.l[5], L.l[6]]
    return [(g, w * pre, pre * (1 + abs(w)) if M.numeric else None) for g, w in zip(got, want)]


def tidal(M):
    """the 5PN and 6PN tidal phasing coefficients of TaylorF2 are the published ones"""
    m1, m2, c1, c2, l1, l2 = (M.var(k) for k in ("m1", "m2", "chi1", "chi2", "lam1", "lam2"))
    got = M.call(W + "TaylorF2:get_PNPhasing_F2", m1, m2, c1, c2, l1, l2, wrap=_t)
    m = m1 + m2
    eta = m1 * m2 / (m * m)
    L = Lit(eta, (m1 - m2) / m, c1, c2, num=M.numeric)
    t = L.tides(m1 / m, m2 / m, l1, l2)
    return [(got[8], t[10] * 3 / (128 * eta)), (got[9], t[12] * 3 / (128 * eta))]


def _lal(fn):
    return lambda f, p, fref: fn(f, p, fref, use_lambda_tildes=False)


def expansion(c, l, v, top=7):
    x = 0
    for k in c:
        x = x + c[k] * v ** (k - 5)
    lv = S.log(v)
    for k in l:
        x = x + l[k] * lv * v ** (k - 5)
    return x


def mono(M, f, Mc, eta):
    """v = (pi M f)^(1/3)"""
    m = Mc * S.powr(eta, -3, 5) * K.gt
    return S.powr(f * m * PI, 1, 3)


def wave(M):
    """the TaylorF2 strain without tides is the published expansion: A f^(-7/6) exp(-i(Psi(f) - Psi(fref) - pi/4 + 2 pi f tc - 2 phic)),
    Psi(v) = 3/(128 eta) v^-5 sum (c_k + l_k ln v) v^k"""
    fr, fref = M.freq(), M.var("fref")
    P = params(M, "Tl")
    z = 0 * P["D"]
    P["lam1"], P["lam2"] = z, z
    h = M.h0("Tl", fr, P, fref)
    eta = P["eta"]
    d = S.sqrt(1 - 4 * eta)
    L = Lit(eta, d, P["chi1"], P["chi2"], num=M.numeric)
    L.c[6] = L.c[6] + L.ss6
    # 7PN of the reference phase is the same series
    pre = 3 / (128 * eta)
    psi = (expansion(L.c, L.l, mono(M, fr, P["Mc"], eta)) - expansion(L.c, L.l, mono(M, fref, P["Mc"], eta))) * pre
    psi = psi - PI / 4 + 2 * PI * fr * P["tc"] - 2 * P["phic"]
    m = P["Mc"] * S.powr(eta, -3, 5)
    v = mono(M, fr, P["Mc"], eta)
    A = -4 * eta * m * m * (K.MRSUN * K.gt / K.m_per_Mpc * np.sqrt(np.pi / 12)) / P["D"] * S.sqrt(5 / (32 * eta)) * S.powr(v, -7, 2)
    return [(h, A * S.cis(-psi))]


def phenomd(M):
    """the PhenomD inspiral phase is the published expansion without 3PN spin-spin term, minus pi/4, plus the four
    fitted terms s1 Mf + 3/4 s2 (Mf)^(4/3) + 3/5 s3 (Mf)^(5/3) + 1/2 s4 (Mf)^2 over eta, for every value of s1..s4"""
    m1, m2, c1, c2 = (M.var(k) for k in ("m1", "m2", "chi1", "chi2"))
    x = M.var("y")
    s = [M.var(k) for k in ("sig1", "sig2", "sig3", "sig4")]
    o = [M.const(i) if not M.numeric else np.full_like(m1, i) for i in range(7)]
    co = o + s + [o[0]] * 8
    y = M.call(W + "IMRPhenomD:get_inspiral_phase", x, [m1, m2, c1, c2], co)
    m = m1 + m2
    eta = m1 * m2 / (m * m)
    L = Lit(eta, (m1 - m2) / m, c1, c2, num=M.numeric)
    psi = expansion(L.c, L.l, S.powr(x * PI, 1, 3)) * 3 / (128 * eta) - PI / 4
    F = L.F
    fit = s[0] * x + F(3, 4) * s[1] * S.powr(x, 4, 3) + F(3, 5) * s[2] * S.powr(x, 5, 3) + F(1, 2) * s[3] * x * x
    return [(y, psi + fit / eta)]


def _xas(fn):
    return lambda x, m1, m2, c1, c2: fn(x, np_stack(m1, m2, c1, c2), IMRPhenomX_utils.PhenomX_phase_coeff_table)


def np_stack(*a):
    import jax.numpy as jnp
    return jnp.stack(a)


ORD = [5, 8, 8, 9, 10, 11]         # a constant phase; (Mf)^(8/3) twice because of the logarithm


def xas(kind):
    def f(M):
        """the PhenomXAS inspiral phase differs from the published expansion only by terms (Mf)^(8/3), (Mf)^(8/3) ln(Mf), (Mf)^3, (Mf)^(10/3)
        and (Mf)^(11/3) relative to the leading one, and by a constant phase: the shift operators annihilating these also annihilate the difference"""
        m, d = M.var("m"), M.var("dl", 0, 1, True)
        m1, m2 = m * (1 + d) / 2, m * (1 - d) / 2            # m1 >= m2
        x = M.var("y")
        z = M.const(0) if not M.numeric else np.zeros_like(m1)
        c1, c2 = (z, z) if kind == "nonspinning" else (M.var("chi1"), M.var("chi2"))
        eta = (1 - d * d) / 4
        F = (lambda a, b=1: a / b) if M.numeric else (lambda a, b=1: Fraction(a, b))
        L = Lit(eta, d, c1, c2, num=M.numeric)
        # each shift doubles the frequency, and multiplies v^k by r^k = 2^(k/3)
        rk = (lambda k: 2 ** (k / 3)) if M.numeric else (lambda k: M.const(2) ** Fraction(k, 3))

        def call(x, c1, c2):
            return M.call(W + "IMRPhenomXAS:get_inspiral_phase", x, m1, m2, c1, c2, wrap=_xas)

        def G(x):
            v = S.powr(x * PI, 1, 3)
            if kind == "nonspinning":
                g = call(x, z, z)
                w = expansion(L.c, L.l, v)
            elif kind == "spin_orbit":
                # the part linear in the spins; o(c) = g(c) - g(-c) = 2 (a c + b c^3) gives 8 o(c/2) - o(c) = 6 a c
                g = (8 * (call(x, c1 / 2, c2 / 2) - call(x, -c1 / 2, -c2 / 2)) - (call(x, c1, c2) - call(x, -c1, -c2))) / 6
                w = expansion(L.c, L.l, v) - expansion(L0.c, L0.l, v) - ss(L) * v ** (-1)
            elif kind == "spin_spin":
                # the part even in the spins; at 3.5PN it has a tail term that is left open
                g = call(x, c1, c2) + call(x, -c1, -c2) - 2 * call(x, z, z)
                w = 2 * (ss(L) * v ** (-1) + L.ss6 * v)
            return -g * v**5 * F(128, 3), w * v**5
        L0 = Lit(eta, d, z, z, num=M.numeric)

        def ss(L):
            s, a = (c1 + c2) * F(1, 2), (c1 - c2) * F(1, 2)
            return (200 * eta - F(405, 8)) * a * a - F(405, 4) * d * a * s + (F(5, 2) * eta - F(405, 8)) * s * s
        # the coefficients of the product of (S - r^k) over k in ORD
        pol = [1]
        for k in ORD + [7] * (kind == "spin_spin"):
            q = [0] * (len(pol) + 1)
            for i, t in enumerate(pol):
                q[i + 1] = q[i + 1] + t
                q[i] = q[i] - t * rk(k)
            pol = q
        A = B = 0
        for i, t in enumerate(pol):
            g, w = G(x * 2**i)
            A, B = A + t * g, B + t * w
        return [(A, B)]
    return f


OVM = {"m1": lambda v, r: r.uniform(5, 50, (v.B, 1)), "m2": lambda v, r: r.uniform(1, 5, (v.B, 1)), "y": lambda v, r: np.exp(r.uniform(-7, -4, (v.B, 1))),
       "sig1": lambda v, r: r.uniform(-2, 2, (v.B, 1)), "sig2": lambda v, r: r.uniform(-2, 2, (v.B, 1)),
       "sig3": lambda v, r: r.uniform(-2, 2, (v.B, 1)), "sig4": lambda v, r: r.uniform(-2, 2, (v.B, 1))}
OVX = {"m": lambda v, r: r.uniform(3, 10, (v.B, 1)), "dl": lambda v, r: r.uniform(0.01, .9, (v.B, 1)), "y": lambda v, r: np.exp(r.uniform(-6, -5, (v.B, 1)))}


def obligations():
    return [Law("C19.TaylorF2.coefficients", table, over=OVM), Law("C19.TaylorF2.tidal", tidal, over=OVM), Law("C19.TaylorF2.strain", wave),
            Law("C19.PhenomD.inspiral", phenomd, over=OVM), Law("C19.PhenomXAS.nonspinning", xas("nonspinning"), over=OVX), Law("C19.PhenomXAS.spin_orbit", xas("spin_orbit"), over=OVX),
            Law("C19.PhenomXAS.spin_spin", xas("spin_spin"), over=OVX)]
