from .common import *
from decimal import Decimal as D

TITLE = "unit constants agree with one another"
# published values the relations are stated against (CODATA 2018 / IAU 2015)
PI_D = D("3.14159265358979323846264338327950288419716939937510")
C_D = D(299792458)
MPC_D = D("3.0856775814913672789e22")
GM_SUN = D("1.32712440e20")           # IAU nominal solar mass parameter, m^3/s^2


def names():
    import importlib
    m = importlib.import_module("ripplegw.constants")
    return m


def rel(fn, tol):
    def run(self):
        m = names()
        g = lambda k: D(repr(float(getattr(m, k))))
        a, b = fn(g)
        err = abs(a - b) / abs(b)
        ok = err < D(tol)
        r = Result(self.name, "proved" if ok else "violated", explored_inputs=1, left=str(+a)[:30], right=str(+b)[:30], relative_error=str(err)[:12],
                   tolerance=tol, functions=["ripplegw/constants.py"])
        if not ok:
            r["ce"] = {"left": str(+a)[:30], "right": str(+b)[:30], "relative_error": str(err)[:12]}
        return r
    return run


RELS = {
    "gt": (lambda g: (g("gt"), g("G") * g("MSUN") / g("C") ** 3), "1e-4", "gt = G MSUN / C^3"),
    "MRSUN": (lambda g: (g("MRSUN"), g("G") * g("MSUN") / g("C") ** 2), "1e-4", "MRSUN = G MSUN / C^2"),
    "MRSUN_gt": (lambda g: (g("MRSUN"), g("gt") * g("C")), "1e-4", "MRSUN = C gt"),
    "clightGpc": (lambda g: (g("clightGpc"), g("C") / (g("m_per_Mpc") * 1000)), "1e-4", "clightGpc = C / (1000 m_per_Mpc)"),
    "PI": (lambda g: (g("PI"), PI_D), "1e-15", "PI is pi"),
    "TWO_PI": (lambda g: (g("TWO_PI"), 2 * g("PI")), "1e-15", "TWO_PI = 2 PI"),
    "C": (lambda g: (g("C"), C_D), "1e-15", "C is the exact SI value"),
    "Mpc": (lambda g: (g("m_per_Mpc"), MPC_D), "1e-12", "m_per_Mpc is the IAU megaparsec"),
    "GMsun": (lambda g: (g("G") * g("MSUN"), GM_SUN), "1e-4", "G MSUN is the IAU solar mass parameter"),
}


def obligations():
    return [Custom("C30." + k, rel(f, t), doc=d, kind="constants") for k, (f, t, d) in RELS.items()]
