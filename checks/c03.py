from .common import *
import ripplegw.constants as K

TITLE = "effective spin and ISCO frequency"
CE = "ripplegw:get_chi_eff"


def mean(M):
    """chi_eff = (m1 chi1 + m2 chi2)/(m1 + m2): a mean with positive weights, hence between the spins"""
    m1, m2, a, b = (M.var(k) for k in ("m1", "m2", "chi1", "chi2"))
    return [(M.call(CE, [m1, m2, a, b]), (m1 * a + m2 * b) / (m1 + m2), abs_max(a, b))]


def abs_max(a, b):
    return S.absv(a) + S.absv(b) if isinstance(a, np.ndarray) else None


def equal(M):
    """chi_eff(m1, m2, chi, chi) = chi"""
    m1, m2, a = M.var("m1"), M.var("m2"), M.var("chi1")
    return [(M.call(CE, [m1, m2, a, a]), a)]


def swap(M):
    """chi_eff(m2, m1, chi2, chi1) = chi_eff(m1, m2, chi1, chi2)"""
    m1, m2, a, b = (M.var(k) for k in ("m1", "m2", "chi1", "chi2"))
    return [(M.call(CE, [m1, m2, a, b]), M.call(CE, [m2, m1, b, a]), abs_max(a, b))]


def scale(M):
    """chi_eff(s m1, s m2, chi1, chi2) = chi_eff(m1, m2, chi1, chi2)"""
    m1, m2, a, b, s = (M.var(k) for k in ("m1", "m2", "chi1", "chi2", "s"))
    return [(M.call(CE, [m1, m2, a, b]), M.call(CE, [s * m1, s * m2, a, b]), abs_max(a, b))]


def isco(M):
    """f_isco(m) = c^3/(6^(3/2) pi G m)"""
    m = M.var("m")
    x = M.call("ripplegw:get_f_isco", m)
    c3 = float(K.C) ** 3 / float(K.G)
    if not M.numeric:
        from decimal import Decimal as D
        six = M.const(6) ** Fr(3, 2)
        return [(x, M.const(D(repr(c3))) / (six * PI * m) * 1)]
    return [(x, c3 / (6 ** 1.5 * np.pi * m))]


def obligations():
    return [Law("C03.mean", mean, floor=1e-10), Law("C03.equal", equal, floor=1e-10),
            Law("C03.swap", swap, floor=1e-10), Law("C03.scale", scale, floor=1e-10),
            Law("C03.isco", isco, floor=1e-10)]
