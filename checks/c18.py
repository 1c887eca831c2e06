from .common import *
from ripplegw.constants import gt
from vc.ring import D1, dec, Undecided

D_UTILS, P_UTILS = "ripplegw.waveforms.IMRPhenomD_utils", "ripplegw.waveforms.IMRPhenomPv2_utils"
TITLE = "the precessing model reduces to the aligned-spin model"


class Aligned(Law):
    """both models share their final-spin and radiated-energy fits, of which the law uses nothing but the sign of the spin"""
    spin = 1

    def prove(self, r):
        from vc.contracts import Contract
        cs = [Contract(D_UTILS + ":FinalSpin0815_s", [(0.0, 1.0) if self.spin > 0 else (-1.0, -1e-300)], also=[P_UTILS], scalar=True),
              Contract(D_UTILS + ":EradRational0815_s", [(0.0, 0.5)], scalar=True)]
        self.opaque_calls = {c.name: c.answer for c in cs}
        with cs[0].installed(), cs[1].installed():
            ok = super().prove(r)
        r["contract_calls"] = sum(c.used for c in cs)
        return ok


def directed(sign, law):
    """J along (sign 1) or against (-1) the orbital angular momentum; its direction is undefined when it vanishes"""
    def f(M):
        if not M.numeric:
            M.R.assume_pos((sign * jz(M)).p)
        return law(M)
    f.__doc__ = law.__doc__
    return f


def par(M):
    z = 0 * M.var("eta")
    A = params(M, "D")
    if not M.numeric:             # inclinations 0 .. pi are the arccosines of -1 .. 1
        A["iota"] = Sym(M.R, M.R.acos(M.var("ci", -1, 1).p))
    P = {k: A[k] for k in ("Mc", "eta", "D", "tc", "phic", "iota")}
    P.update(s1x=z, s1y=z, s2x=z, s2y=z, s1z=A["chi1"], s2z=A["chi2"])
    return A, P


def jz(M):
    """component of the total angular momentum along the orbital angular momentum (units of M^2)"""
    eta = M.var("eta")
    x = (M.var("Mc") * eta ** Fraction(-3, 5) * gt * M.var("fref") * PI) ** Fraction(2, 3)
    L = eta * (1 + (Fraction(3, 2) + eta / 6) * x + (Fraction(27, 8) - eta * 19 / 8 - eta**2 / 24) * x**2) / x ** Fraction(1, 2)
    d = S.sqrt(1 - 4 * eta)
    return L + (1 + d) ** 2 / 4 * M.var("chi1") + (1 - d) ** 2 / 4 * M.var("chi2")


def orient(M):
    """inclined, face-on (face-off, where the code rounds pi, is covered by the search)"""
    c = M.var("ci", -1, 1)
    return [[(c - 1, "lt"), (c + 1, "gt")], [(c - 1, "eq")]]


def mf(M, f):
    return M.var("Mc") * M.var("eta") ** Fraction(-3, 5) * gt * f - Fraction(2, 10)


def keep(M, f):
    return (M.var("Mc") * S.powr(M.var("eta"), -3, 5) * gt * f < 0.2 * (1 - 1e-12)) if M.numeric else 1


def magnitude(M):
    """|h+|, |hx| of PhenomPv2 with vanishing in-plane spins are those of PhenomD"""
    f, r1, r2 = M.freq(), M.var("fref"), M.var("fref2")
    A, P = par(M)
    k = keep(M, f)
    p, d = M.hphc("P", f, P, r1), M.hphc("D", f, A, r2)
    size = (abs(d[0]) + abs(d[1])) ** 2 if M.numeric else None     # rounding is relative to the whole strain
    return [(a * S.conj(a) * k, b * S.conj(b) * k, size) for a, b in zip(p, d)]


def bend(M, r, f):
    """the part of log r that is not affine in the frequency f (zero: |r| is constant and the phase of r linear)"""
    R = M.R
    (fm, _), = f.p.items()
    fa = fm[0][0]
    dep = lambda a: fa in R.atom_deps(a)
    c, m, prim = R.content(r.p)
    bad = {k: v for k, v in prim.items() if any(dep(a) for a, _ in k)}
    L = {}
    for a, e in m:
        if R.atoms[a].kind == "E":
            L = R.add(L, {R.atoms[a].data: dec(e)})
        elif dep(a):
            bad = R.add(bad, {((a, e),): D1})
    for k, v in L.items():
        if any(dep(a) and not (a == fa and e in (0, 1)) for a, e in k):
            bad = R.add(bad, {k: v})
    return Sym(R, bad)


def affine(M):
    """h_Pv2(f) / h_D(f) = exp(i (a + b f)) up to a constant"""
    f, r1, r2 = M.freq(), M.var("fref"), M.var("fref2")
    A, P = par(M)
    p, d = M.hphc("P", f, P, r1), M.hphc("D", f, A, r2)
    out = []
    for a, b in zip(p, d):
        n = b * S.conj(b)
        if not bend(M, a * S.conj(a), f).p:
            raise Undecided("amplitude does not depend on the frequency")     # the probe of bend
        if n.p:                       # h+ or hx vanishes identically
            out.append((bend(M, a * S.conj(b) / n, f), 0))
    return out


def midpoint(M):
    """r(f) = h_Pv2(f) / h_D(f):  r(f) r(g) conj(r((f + g) / 2))^2 = 1 (numbers; scaled by the size of the strains)"""
    f, g, r1, r2 = M.freq(), M.freq("g"), M.var("fref"), M.var("fref2")
    h = (f + g) / 2
    A, P = par(M)
    k = keep(M, f) * keep(M, g)
    p = [M.hphc("P", x, P, r1) for x in (f, g, h)]
    d = [M.hphc("D", x, A, r2) for x in (f, g, h)]
    out = []
    for i in (0, 1):
        q = [a[i] * S.conj(b[i]) for a, b in zip(p, d)]       # r |h_D|^2 at f, g and (f + g) / 2
        n = [b[i] * S.conj(b[i]) for b in d]
        size = np.prod([sum(abs(x) for x in h) ** 2 for h in (p[0], p[1], d[2], d[2])], axis=0)
        c = S.conj(q[2])
        out.append((q[0] * q[1] * c * c * k, n[0] * n[1] * n[2] * n[2] * k, size))
    return out


def one(M):
    return [[(mf(M, M.freq()), "lt")] + o for o in orient(M)]


OV = {"iota": lambda v, r: np.where(r.random((v.B, 1)) < .1, 0.0, np.where(r.random((v.B, 1)) < .1, np.where(r.random((v.B, 1)) < .5, np.pi / 2, np.pi), r.uniform(0, np.pi, (v.B, 1))))}


def obligations():
    K = dict(lanes=("fref", "ci"), over=OV)
    out = []
    for sign, nm in ((1, "J_along_L"), (-1, "J_against_L")):
        for spin, sn in ((1, "final_spin_positive"), (-1, "final_spin_negative")):
            first = sign > 0 and spin > 0
            out += [Aligned("C18.magnitude.%s.%s" % (nm, sn), directed(sign, magnitude), cases=one, cost=40, numeric=first, **K),
                    Aligned("C18.linear_phase.%s.%s" % (nm, sn), directed(sign, affine), num=midpoint, cases=one, cost=60, floor=1e-6, numeric=first, **K)]
            for o in out[-2:]:
                o.spin = spin
    return out
