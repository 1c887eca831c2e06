from .joins import *

import ripplegw.waveforms.IMRPhenomD            # module-level arrays are created outside of any trace

TITLE = "PhenomD joins smoothly at every region boundary"
PD = "ripplegw.waveforms.IMRPhenomD"
DU = PD + "_utils"


def contracts(side):
    """the fits are unknown numbers, the boundary frequencies unknown positive numbers, and of the intermediate
    amplitude's quartic only the conditions at one of its ends are used"""
    st = {"side": side}
    return [Contract(DU + ":get_coeffs", [(-INF, INF)], also=[PD], scalar=True),
            Contract(DU + ":get_transition_frequencies", [(0.0, INF)] * 6, also=[PD])] + [DeltaContract(k, st) for k in range(5)]


def quartic(M):
    """sum_k delta_k x^k takes the values v1, v2, v3 at f1, f2, f3 and has the slopes d1, d3 at f1, f3"""
    a = [M.var(n) for n in ("f1", "f2", "f3", "v1", "v2", "v3", "d1", "d3")]
    d = [M.call(DU + ":get_delta%d" % k, *a) for k in range(5)]
    f1, f2, f3, v1, v2, v3, d1, d3 = a
    val = lambda x: d[0] + d[1] * x + d[2] * x**2 + d[3] * x**3 + d[4] * x**4
    der = lambda x: d[1] + 2 * d[2] * x + 3 * d[3] * x**2 + 4 * d[4] * x**3
    s = 1 + abs(v1) + abs(v2) + abs(v3) + abs(d1) + abs(d3) if M.numeric else None
    items = [(val(f1), v1), (val(f2), v2), (val(f3), v3), (der(f1), d1), (der(f3), d3)]
    return [(x, y, s) for x, y in items] if M.numeric else items


OV = {"f1": lambda v, r: r.uniform(0.5, 1, (v.B, 1)), "f2": lambda v, r: r.uniform(1.4, 2, (v.B, 1)), "f3": lambda v, r: r.uniform(2.5, 3, (v.B, 1)),
      **{n: (lambda v, r: r.uniform(-1, 1, (v.B, 1))) for n in ("v1", "v2", "v3", "d1", "d3")}}


def obligations():
    return [Law("C14.quartic", quartic, over=OV), Custom("C14.joins", Joins("C14", "D", contracts, sides=(0, 1)),
                                                         "at every internal boundary T of the code's own case distinctions h(T-) = h(T+) = h(T) and h'(T-) = h'(T+)")]
