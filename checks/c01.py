from .common import *

TITLE = "mass conversions are mutually inverse and ordered"
TO, FROM = "ripplegw:ms_to_Mc_eta", "ripplegw:Mc_eta_to_ms"


def heavy(M):
    """an ordered pair m1 >= m2 > 0: m (1 + dl)/2, m (1 - dl)/2, 0 <= dl < 1"""
    m, dl = M.var("m"), M.var("dl", 0, 1)
    if not M.numeric:
        M.R.assume_pos((1 - dl).p)
    return m * (1 + dl) / 2, m * (1 - dl) / 2


def roundtrip(swap):
    def f(M):
        """Mc_eta_to_ms(ms_to_Mc_eta(m)) is m with the heavier mass first"""
        m1, m2 = heavy(M)
        r = M.call(TO, [m2, m1] if swap else [m1, m2])
        b = M.call(FROM, list(r))
        return [(b[0], m1), (b[1], m2, m1)]
    return f


def eta_of(M):
    """any eta in (0, 1/4] as (1 - delta^2)/4 with 0 <= delta < 1"""
    dl = M.var("dl", 0, 1)
    return dl, (1 - dl * dl) / 4


def closed(M):
    """component masses of (Mc, eta) are M (1 +- sqrt(1 - 4 eta))/2 with M = Mc eta^(-3/5):
    real, positive and ordered"""
    dl, eta = eta_of(M)
    Mc = M.var("Mc")
    Mt = Mc * S.powr(eta, -3, 5)
    b = M.call(FROM, [Mc, eta])
    return [(b[0], Mt * (1 + dl) / 2), (b[1], Mt * (1 - dl) / 2, Mt)]


def back(M):
    """ms_to_Mc_eta(Mc_eta_to_ms(Mc, eta)) = (Mc, eta)"""
    dl, eta = eta_of(M)
    Mc = M.var("Mc")
    b = M.call(FROM, [Mc, eta])
    r = M.call(TO, list(b))
    return [(r[0], Mc), (r[1], eta)]


def defs(M):
    """ms_to_Mc_eta(m1, m2) = ((m1 m2)^(3/5)/(m1 + m2)^(1/5), m1 m2/(m1 + m2)^2)"""
    m1, m2 = M.var("m1"), M.var("m2")
    r = M.call(TO, [m1, m2])
    return [(r[0], S.powr(m1 * m2, 3, 5) / S.powr(m1 + m2, 1, 5)), (r[1], m1 * m2 / (m1 + m2) ** 2)]


OVER = {"gap": lambda v, r: np.where(r.random((v.B, 1)) < .25, 0.0, np.exp(r.uniform(-9, 5, (v.B, 1)))),
        "dl": lambda v, r: np.where(r.random((v.B, 1)) < .15, 0.0, r.random((v.B, 1)) ** 2 * .98)}


def obligations():
    return [Law("C01.definition", defs, floor=1e-9),
            Law("C01.masses_roundtrip", roundtrip(False), over=OVER, floor=1e-6),
            Law("C01.masses_roundtrip_swapped", roundtrip(True), over=OVER, floor=1e-6),
            Law("C01.components", closed, over=OVER, floor=1e-6),
            Law("C01.chirp_roundtrip", back, over=OVER, floor=1e-6)]
