from .common import *

TITLE = "tidal deformability conversions"
F4 = ("ripplegw:lambdas_to_lambda_tildes", "ripplegw:lambda_tildes_to_lambdas")
FQ = ("ripplegw:lambdas_to_lambda_tildes_from_q", "ripplegw:lambda_tildes_to_lambdas_from_q")


def setup(M):
    q, m = M.var("q"), M.var("m")
    return q, m, m * q, M.var("lam1"), M.var("lam2")


def rt_m(M):
    """lambda_tildes_to_lambdas(lambdas_to_lambda_tildes(l1, l2, m1, m2), m1, m2) = (l1, l2)"""
    q, m1, m2, l1, l2 = setup(M)
    a = M.call(F4[0], [l1, l2, m1, m2])
    b = M.call(F4[1], [a[0], a[1], m1, m2])
    return [(b[0], l1, l1 + l2), (b[1], l2, l1 + l2)]


def rt_q(M):
    """the same in the mass-ratio variant"""
    q, m1, m2, l1, l2 = setup(M)
    a = M.call(FQ[0], [l1, l2, q])
    b = M.call(FQ[1], [a[0], a[1], q])
    return [(b[0], l1, l1 + l2), (b[1], l2, l1 + l2)]


def agree(M):
    """both variants give the same values for the same binary"""
    q, m1, m2, l1, l2 = setup(M)
    a, b = M.call(F4[0], [l1, l2, m1, m2]), M.call(FQ[0], [l1, l2, q])
    c, d = M.call(F4[1], [l1, l2, m1, m2]), M.call(FQ[1], [l1, l2, q])
    return [(a[0], b[0], l1 + l2), (a[1], b[1], l1 + l2), (c[0], d[0], S.absv(d[0]) + S.absv(d[1])), (c[1], d[1], S.absv(d[0]) + S.absv(d[1]))] \
        if M.numeric else [(a[0], b[0]), (a[1], b[1]), (c[0], d[0]), (c[1], d[1])]


def wade(M):
    """the forward conversion is the published combination (Wade et al.)"""
    q, m1, m2, l1, l2 = setup(M)
    eta = m1 * m2 / (m1 + m2) ** 2
    a = M.call(F4[0], [l1, l2, m1, m2])
    lt, dlt = tildes(eta, l1, l2)
    return [(a[0], lt, l1 + l2), (a[1], dlt, l1 + l2)]


def same(M):
    """two equal objects: dominant combination = common deformability, secondary = 0"""
    m, l = M.var("m"), M.var("lam1")
    a = M.call(F4[0], [l, l, m, m])
    b = M.call(FQ[0], [l, l, M.const(1) if not M.numeric else np.ones_like(m)])
    return [(a[0], l, l), (a[1], l * 0, l), (b[0], l, l), (b[1], l * 0, l)]


OVER = {"q": lambda v, r: np.where(r.random((v.B, 1)) < .2, 1.0, r.uniform(.05, 1, (v.B, 1)))}


def defined(variant):
    def run(self):
        """no divisor of the back-conversion vanishes for any mass ratio in (0, 1]"""
        from vc.define import definedness
        M = SymM()
        q = M.var("q")
        a, b = M.var("lt", -INF, INF), M.var("dlt", -INF, INF)
        m = M.var("m")
        if variant == 4:
            call = lambda: M.call(F4[1], [a, b, m, m * q])
        else:
            call = lambda: M.call(FQ[1], [a, b, q])
        return definedness(self.name, M, call, {"q": (0.05, 1)})
    return run


def obligations():
    return [Law("C02.roundtrip_masses", rt_m, over=OVER, floor=1e-6), Law("C02.roundtrip_q", rt_q, over=OVER, floor=1e-6),
            Law("C02.variants_agree", agree, over=OVER, floor=1e-7), Law("C02.definition", wade, over=OVER, floor=1e-9),
            Law("C02.equal_objects", same, floor=1e-9),
            Custom("C02.denominators_masses", defined(4)), Custom("C02.denominators_q", defined(1))]
