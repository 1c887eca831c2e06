from .common import *
from decimal import Decimal
import jax, jax.numpy as jnp

TITLE = "precession geometry"
U = "ripplegw.waveforms.IMRPhenomPv2_utils:"
PV2 = "ripplegw.waveforms.IMRPhenomPv2"


def vec(M):
    return M.var("x", -INF, INF), M.var("vy", -INF, INF, pos=False), M.var("vz", -INF, INF)


def rotation(fn):
    def f(M):
        """|R(a) v| = |v|,  R(a) R(b) v = R(a+b) v,  R(0) v = v"""
        x, y, z = vec(M)
        a, b = M.var("ang_a", -INF, INF), M.var("ang_b", -INF, INF)
        p = M.call(U + fn, a, x, y, z)
        q = M.call(U + fn, b, *p)
        c = M.call(U + fn, a + b, x, y, z)
        n = S.absv(x) + S.absv(y) + S.absv(z) if M.numeric else None
        t = lambda l, r: (l, r, n) if M.numeric else (l, r)
        i = M.call(U + fn, a * 0, x, y, z)
        return [(p[0] * p[0] + p[1] * p[1] + p[2] * p[2], x * x + y * y + z * z)] + \
            [t(l, r) for l, r in zip(q, c)] + [t(l, r) for l, r in zip(i, (x, y, z))]
    return f


def half_angle(M):
    """cos^2(beta/2) + sin^2(beta/2) = 1 for every velocity and spin"""
    v, eta = M.var("vel", 0, INF, pos=True), M.var("eta")
    c, s = M.call(U + "WignerdCoefficients", v, M.var("SL", -INF, INF), eta, M.var("Sp", 0, INF))
    return [(c * c + s * s, c * 0 + 1)]


def tilt(M):
    """the two coefficients are the half-angle functions of beta with tan(beta) = Sp / (L + SL)"""
    v, eta = M.var("vel", 0, INF, pos=True), M.var("eta")
    SL, Sp = M.var("SL", -INF, INF), M.var("Sp", 0, INF)
    c, s = M.call(U + "WignerdCoefficients", v, SL, eta, Sp)
    L = M.call(U + "L2PNR", v, eta)
    # cos(beta)^2 (1 + tan^2) = 1
    cb = c * c - s * s
    return [(cb * cb * ((L + SL) ** 2 + Sp ** 2), (L + SL) ** 2)]


def harmonics(M):
    """sum_m |Y_2m(theta, phi)|^2 = 5/(4 pi)"""
    th = M.var("theta", -INF, INF)
    tot = 0
    for ph in (0, 0.7):
        tot = 0
        ys = []
        for m in (-2, -1, 0, 1, 2):
            w = (lambda m: lambda fn: (lambda t: fn(t, ph, -2, 2, m)))(m)
            ys.append(M.call(U + "SpinWeightedY", th, wrap=w, tag="%d,%s" % (m, ph)))
        tot = sum(y * S.conj(y) for y in ys)
        if ph == 0:
            out = [(tot, th * 0 + Fraction(5, 4) / PI if False else th * 0 + 5 / (4 * (M.const(PI) if not M.numeric else PI)))]
        else:
            out.append((tot, out[0][1]))
    return out


NOUT = 7


def power_sym(M):
    """(h+ +- i hx) exp(+-2 i zeta) does not depend on the polarisation angle zeta; as
    2(|h+|^2 + |hx|^2) = |h+ + i hx|^2 + |h+ - i hx|^2 the power does not depend on it either"""
    from vc.contracts import Contract
    fr, fref = M.freq(), M.var("fref")
    P = params(M, "P")
    h = M.hphc("P", fr, P, fref)
    R = M.R
    seen = [a for x in h for a in R.find_atoms(x.p, lambda a: a.kind == "opaque") if R.atoms[a].data[0] == "contract:convert_spins[%d]" % (NOUT - 1)]
    if not seen:
        raise Exception("the polarisation angle does not occur in the waveform")
    z = Sym(R, {((seen[0], Fraction(1)),): Decimal(1)})
    out = []
    for sg in (1, -1):
        a = h[0] + h[1] * (M.const(1j) * sg)
        out.append((a * S.cis(z * (2 * sg)), Sym(R, R.subst(a.p, {seen[0]: {}}))))
    return out


_J = {}


def power_num(M):
    """the same with the polarisation angle replaced on the real code"""
    import importlib
    mod = importlib.import_module(PV2)
    fr, fref, P = M.freq(), M.var("fref"), params(M, "P")
    B, n = np.shape(fr)
    if "f" not in _J:
        def run(f, p, r, z, use):
            old = mod.convert_spins

            def g(*a):
                o = old(*a)
                return tuple(o[:-1]) + (jnp.where(use > 0, z, o[-1]),)
            mod.convert_spins = g
            try:
                return mod.gen_IMRPhenomPv2_hphc(f, p, r)
            finally:
                mod.convert_spins = old
        _J["f"] = jax.jit(jax.vmap(run, in_axes=(0, 0, 0, 0, None)))
    ps = np.concatenate([np.broadcast_to(P[k], (B, 1)) for k in MODELS["P"].params], 1)
    z = M.var("zeta").reshape(-1) * 3
    o = []
    for use in (0.0, 1.0):
        a, b = _J["f"](fr, ps, fref.reshape(-1), z, use)
        o.append(np.abs(a) ** 2 + np.abs(b) ** 2)
    return [(o[0], o[1])]


class Power(Law):
    def prove(self, r):
        from vc.contracts import Contract
        c = Contract(PV2 + ":convert_spins", [(-INF, INF)] * NOUT)
        d = Contract(PV2 + ":PhenomPCoreTwistUp", [(-INF, INF)] * 2)      # two arbitrary lanes
        self.opaque_calls = {c.name: c.answer, d.name: d.answer}
        with c.installed(), d.installed():
            ok = super().prove(r)
        r["contract_calls"] = c.used + d.used
        return ok


OV = {"ang_a": lambda v, r: r.uniform(-7, 7, (v.B, 1)), "ang_b": lambda v, r: r.uniform(-7, 7, (v.B, 1)), "theta": lambda v, r: r.uniform(-4, 7, (v.B, 1)),
      "vel": lambda v, r: np.exp(r.uniform(-4, -.3, (v.B, 1))), "Sp": lambda v, r: np.where(r.random((v.B, 1)) < .1, 0, r.uniform(0, 1, (v.B, 1)))}


def obligations():
    return [Law("C25.ROTATEZ", rotation("ROTATEZ"), over=OV), Law("C25.ROTATEY", rotation("ROTATEY"), over=OV),
            Law("C25.half_angle", half_angle, over=OV), Law("C25.tilt_angle", tilt, over=OV), Law("C25.harmonics", harmonics, over=OV),
            Power("C25.polarisation_power", power_sym, num=power_num, cost=60)]
