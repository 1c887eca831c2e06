from .common import *

TITLE = "sine-Gaussian burst"
W = "ripplegw.waveforms.SineGaussian:gen_SineGaussian_hphc"
AX = "ripplegw.waveforms.SineGaussian:semi_major_minor_from_e"


def sg(M, t, Q, f0, hrss, ph, ecc):
    if M.numeric:
        n = np.shape(t)[1]
        cols = [M.call(W, [t[:, i:i + 1]], [Q, f0, hrss, ph, ecc]) for i in range(n)]
        return tuple(np.concatenate([c[k].reshape(-1)[0] for c in cols], axis=1) for k in (0, 1))
    key = ("SG",)
    n = X.symdim()
    if key not in M.cache:
        from vc.machine import trace_paths
        fn = resolve(W)
        M.cache[key] = trace_paths(lambda a, b: fn(a, b), (X.sds((n,)), X.sds((5,))))
        TRACE_STATS["traces"] += 1
    from vc.machine import run_paths
    outs = run_paths(M.ev, M.cache[key], [M.arr([t], (1,)), M.arr([Q, f0, hrss, ph, ecc], (5,))])
    return tuple(Sym(M.R, o.reshape(-1)[0]) for o in outs)


def inp(M):
    t = M.lane("t")
    return t, [M.var(k) for k in ("Q", "f0", "hrss", "ph", "ecc")]


def amp(M):
    """both polarisations are proportional to hrss"""
    t, (Q, f0, h, ph, e) = inp(M)
    s = M.var("s")
    a, b = sg(M, t, Q, f0, h, ph, e), sg(M, t, Q, f0, h * s, ph, e)
    return [(a[0] * s, b[0]), (a[1] * s, b[1])]


def spec(M):
    """h = G(t) {A+ cos(2 pi f t - phase), Ax sin(2 pi f t - phase)} with the Gaussian
    G = exp(-(2 pi f t)^2/(2 Q^2)) and amplitudes A+, Ax that do not depend on t"""
    t, (Q, f0, h, ph, e) = inp(M)
    u = M.lane("u")
    a, b = sg(M, t, Q, f0, h, ph, e), sg(M, u, Q, f0, h, ph, e)
    x, y = 2 * PI * f0 * t, 2 * PI * f0 * u
    G = lambda z: S.exp(-(z * z) / (2 * Q * Q))
    return [(a[0] * G(y) * S.cos(y - ph), b[0] * G(x) * S.cos(x - ph), G(x) * G(y) * big(a[0], G(x))),
            (a[1] * G(y) * S.sin(y - ph), b[1] * G(x) * S.sin(x - ph), G(x) * G(y) * big(a[1], G(x)))]


def big(a, g):
    """scale of the comparison: the amplitude"""
    return np.max(np.abs(a) / g, axis=1, keepdims=True) if isinstance(a, np.ndarray) else 1


def scale(M):
    """h(s t; f/s) = h(t; f)/sqrt(s)"""
    t, (Q, f0, h, ph, e) = inp(M)
    s = M.var("s")
    a, b = sg(M, t, Q, f0, h, ph, e), sg(M, t * s, Q, f0 / s, h, ph, e)
    r = S.sqrt(s)
    return [(a[0], b[0] * r, mx(a[0])), (a[1], b[1] * r, mx(a[1]))]


def mx(a):
    return np.max(np.abs(a), axis=1, keepdims=True) if isinstance(a, np.ndarray) else None


def parity(M):
    """h+(-t; phase) = h+(t; -phase), hx(-t; phase) = -hx(t; -phase)"""
    t, (Q, f0, h, ph, e) = inp(M)
    a, b = sg(M, -t, Q, f0, h, ph, e), sg(M, t, Q, f0, h, -ph, e)
    return [(a[0], b[0], mx(a[0])), (a[1], -b[1], mx(a[1]))]


def circular(M):
    """eccentricity 0 at phase pi/4: equal amplitudes, h+ sin = hx cos of the carrier phase"""
    t, (Q, f0, h, ph, e) = inp(M)
    zero = np.zeros_like(e) if M.numeric else M.const(0)
    p4 = np.zeros_like(e) + np.pi / 4 if M.numeric else PI * M.const(1) / 4
    a = sg(M, t, Q, f0, h, p4, zero)
    x = 2 * PI * f0 * t
    return [(a[0] * S.sin(x - p4), a[1] * S.cos(x - p4), mx(a[0]))]


def linear(M):
    """eccentricity 1: the cross polarisation vanishes"""
    t, (Q, f0, h, ph, e) = inp(M)
    one = np.ones_like(e) if M.numeric else M.const(1)
    a = sg(M, t, Q, f0, h, ph, one)
    return [(a[1], 0 * a[1], mx(a[0]))]


def axes(M):
    """semi axes: a^2 + b^2 = 1, b^2 = a^2 (1 - e^2)"""
    e = M.var("ecc")
    a, b = M.call(AX, e)
    return [(a * a + b * b, a * 0 + 1), (b * b, a * a * (1 - e * e), a)]


def _t(v, r):
    return r.normal(size=(v.B, v.n)) * v["Q"] / v["f0"] * .25


OVER = {"t": _t, "u": _t, "Q": lambda v, r: np.exp(r.uniform(0, 3, (v.B, 1))), "f0": lambda v, r: np.exp(r.uniform(3, 7, (v.B, 1))),
        "hrss": lambda v, r: np.exp(r.uniform(-2, 2, (v.B, 1))), "ph": lambda v, r: r.uniform(-3.2, 3.2, (v.B, 1)),
        "ecc": lambda v, r: np.where(r.random((v.B, 1)) < .1, 0.0, r.uniform(0, .999, (v.B, 1)))}
BX = {"ecc": (0, 1)}


def obligations():
    L = lambda n, f: Law("C26." + n, f, over=OVER, box=BX, floor=1e-8)
    return [L("amplitude", amp), L("gaussian", spec), L("scaling", scale), L("time_reversal", parity), L("circular", circular),
            L("linear", linear), L("axes", axes)]
