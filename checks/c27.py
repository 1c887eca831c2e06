from .common import *

import ripplegw.FD_waveform            # module-level arrays are created outside of any trace

TITLE = "the front end dispatches to the named model"
FE = "ripplegw.FD_waveform:FD_waveform_generator"
GEN = {"XAS": "ripplegw.waveforms.IMRPhenomXAS:gen_IMRPhenomXAS_hphc", "D": "ripplegw.waveforms.IMRPhenomD:gen_IMRPhenomD_hphc",
       "D_NRTidalv2": "ripplegw.waveforms.IMRPhenomD_NRTidalv2:gen_IMRPhenomD_NRTidalv2_hphc",
       "Pv2": "ripplegw.waveforms.IMRPhenomPv2:gen_IMRPhenomPv2"}
MK = {"XAS": "XAS", "D": "D", "D_NRTidalv2": "N"}
PV2 = ["m1", "m2", "s1x", "s1y", "s1z", "s2x", "s2y", "s2z", "D", "tc", "phic", "iota"]


def law(name):
    def f(M):
        """generate_waveform(name, f, p, fref) equals the model's own generator on the same arguments"""
        from vc import machine
        machine_resolve = machine.resolve
        fr, fref = M.freq(), M.var("fref")
        if name == "Pv2":
            ps = [M.var(k) for k in PV2]
        else:
            P = params(M, MK[name])
            ps = [P[k] for k in MODELS[MK[name]].params]
        a = M.wave(GEN[name], fr, ps, fref)
        b = M.wave("checks.c27:front_" + name, fr, ps, fref)
        return pairs(a, b)
    return f


def _front(name):
    def g(f, p, fref):
        return resolve(FE)().generate_waveform(name, f, p, fref)
    return g


front_XAS, front_D, front_D_NRTidalv2, front_Pv2 = (_front(n) for n in ("XAS", "D", "D_NRTidalv2", "Pv2"))


class Other(str):
    """A name about which only this is known: it differs from every string it is compared with.
    Using it in any other way than (in)equality, hashing and formatting makes the check undecided."""
    used = None

    def __eq__(self, o):
        return False

    def __ne__(self, o):
        return True

    __hash__ = str.__hash__

    def _no(self, what):
        Other.used = what
        raise _Inspect(what)


class _Inspect(Exception):
    pass


for _k in ("lower", "upper", "strip", "split", "startswith", "endswith", "replace", "find", "index", "title", "casefold", "rstrip", "lstrip", "partition",
           "__getitem__", "__len__", "__iter__", "__contains__", "__lt__", "__gt__", "__le__", "__ge__", "__add__", "join", "removeprefix", "removesuffix", "swapcase", "capitalize"):
    def _mk(k):
        return lambda self, *a, **kw: self._no(k)
    setattr(Other, _k, _mk(_k))


def reject(self):
    """every name other than the supported ones raises ValueError"""
    import numpy as np
    from vc.machine import reached
    gen = resolve(FE)()
    f, p = np.array([20.0, 30.0]), np.array([20.0, 0.24, 0.1, 0.2, 100.0, 0.0, 0.0, 0.3])

    def outcome(name):
        try:
            with reached():
                gen.generate_waveform(name, f, p, 20.0)
            return "returned a waveform"
        except ValueError as ex:
            return "ValueError" if type(ex) is ValueError or isinstance(ex, ValueError) and "generator" in str(ex).lower() else "ValueError"
        except _Inspect as ex:
            return "inspects the name (%s)" % ex
        except Exception as ex:
            return type(ex).__name__
    o = outcome(Other("generic"))
    bad = []
    names = set()
    for k in list(GEN) + ["T", "TaylorF2", "NRTidalv2", "X", "P", "SineGaussian", "IMRPhenom"]:
        names |= {k.lower(), k.upper(), k.title(), " " + k, k + " ", k[:-1], k[1:], k + "x", k * 2, "IMRPhenom" + k, "IMRPhenom_" + k, k.replace("_", ""), k.replace("v2", ""), k + "_hphc",
                  "Phenom" + k, k.swapcase(), k + "v2", k + "\n", k.replace("v2", "v1"), k.replace("_", "-")}
    names |= {"", "?", "None", "XASD", "XHM", "HM", "XP", "D_NRTidal", "Pv3", "default", "0"}
    names -= set(GEN)
    for n in sorted(names):
        w = outcome(n)
        if w != "ValueError":
            bad.append({"name": n, "outcome": w})
    r = Result(self.name, "proved", explored_inputs=len(names), generic_name=o)
    if bad:
        r["status"] = "violated"
        r["ce"] = bad[:10]
    elif o != "ValueError":
        r["status"] = "undecided"
        r["residue"] = "for a name that equals none of the strings it is compared with: " + o
    return r


def _pv(k):
    return lambda v, r: np.exp(r.uniform(0, 4, (v.B, 1)))


OVER = {}


def obligations():
    return [Law("C27." + n, law(n), cost={"XAS": 100, "Pv2": 30}.get(n, 20), num=None) for n in GEN] + [Custom("C27.other_names", reject)]
