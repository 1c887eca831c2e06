from .common import *
from vc.check import Ineq

TITLE = "remnant quantities stay physical"
U = "ripplegw.waveforms.IMRPhenomD_utils:"


def masses(M):
    eta = M.var("eta")
    d = S.sqrt(1 - 4 * eta) if not M.numeric else np.sqrt(np.maximum(1 - 4 * eta, 0))
    return eta, (1 + d) / 2, (1 - d) / 2


def erad(M):
    """0 < Erad < 1/2"""
    eta = M.var("eta")
    e = M.call(U + "EradRational0815", eta, M.var("chi1"), M.var("chi2"))
    return [e, Fraction(1, 2) - e if not M.numeric else 0.5 - e]


def spin(M):
    """|final spin| < 1 + 1e-3"""
    eta, m1, m2 = masses(M)
    a = M.call(U + "FinalSpin0815_s", eta, m1 * m1 * M.var("chi1") + m2 * m2 * M.var("chi2"))
    return [1.001 - a, a + 1.001]


def ringdown(M):
    """0 < fRD < 0.2 and 0 < fdamp"""
    eta, m1, m2 = masses(M)
    fr, fd = M.call(U + "get_fRD_fdamp", m1, m2, M.var("chi1"), M.var("chi2"))
    gt = float(resolve("ripplegw.constants:gt")) if M.numeric else M.const(float(resolve("ripplegw.constants:gt")))
    return [fr, Fraction(1, 5) - fr * gt if not M.numeric else 0.2 - fr * gt, fd]


def obligations():
    return [Ineq("C23.radiated_energy", erad), Ineq("C23.final_spin", spin), Ineq("C23.ringdown", ringdown)]
