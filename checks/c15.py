from .joins import *

import ripplegw.waveforms.IMRPhenomXAS          # module-level arrays are created outside of any trace

TITLE = "PhenomXAS joins smoothly at every region boundary"
PX = "ripplegw.waveforms.IMRPhenomXAS"
U = "ripplegw.waveforms.IMRPhenomX_utils"
PIECES = {"get_inspiral_phase": (), "get_intermediate_raw_phase": (), "get_mergerringdown_raw_phase": (1, 2), "get_inspiral_Amp": (), "get_mergerringdown_Amp": (1,)}


class Cutoffs(Contract):
    """get_cutoff_fMs: unknown positive frequencies; the ISCO value is written as 4 a - 3 MECO with an unknown a (the
    same as an unknown ISCO value; a is the amplitude's first boundary, which keeps the algebra small)"""

    def unknowns(self, seen):
        return {**seen, 3: (seen[3] + 3 * seen[2]) / 4}

    def answer(self, ev, e, ins):
        out = super().answer(ev, e, ins)
        if out is None:
            return None
        R = ev.R
        a = out[3].reshape(-1)[0]
        o = np.empty(out[3].shape, object)
        for i in range(o.size):
            o.reshape(-1)[i] = R.sub(R.scale(a, 4), R.scale(out[2].reshape(-1)[0], 3))
        return out[:3] + [o]


def contracts(side):
    """the fits are unknown numbers, and the uncorrected region formulas unknown C1 functions of the frequency"""
    cut = Cutoffs(U + ":get_cutoff_fMs", [(0.0, INF)] * 4)
    return [cut, Contract(U + ":calc_phaseatpeak", [(-INF, INF)] * 3)] \
        + [Contract(U + ":" + n, [(-INF, INF)], scalar=True) for n in ("Amp_Nospin_CV", "Amp_Eqspin_CV", "Amp_Uneqspin_CV")] \
        + [Piece(PX + ":" + n, c, cut) for n, c in PIECES.items()]


class Piece(SmoothContract):
    """the amplitude's second boundary is written as the first one plus an unknown"""

    def __init__(self, path, const, cut):
        super().__init__(path, const, {1: lambda: cut.given.get((3, 0))} if path.endswith("get_mergerringdown_Amp") else None)
        self.cut = cut

    def unknowns(self, seen):
        return {**seen, 1: seen[1] - self.cut.seen[3]} if self.beyond and 1 in seen else seen


def pieces(job):
    """the contract of the uncorrected region formulas, at every call with the frequency: a formula in it without case
    distinctions; the numbers they return besides do not depend on it"""
    cs = contracts(None)
    J = Jet("XAS", cs)
    for c in cs:
        if isinstance(c, SmoothContract):
            c.fid = J.fid
    J.at()
    bad = [b for c in cs if isinstance(c, SmoothContract) for b in c.failed]
    n = sum(c.passed for c in cs if isinstance(c, SmoothContract))
    if bad:
        return Result(job.name, "undecided", proof_error="; ".join(bad)[:800])
    return Result(job.name, "proved", results_checked=n)


def obligations():
    return [Custom("C15.pieces", pieces), Custom("C15.joins", Joins("C15", "XAS", contracts),
                                                 "at every internal boundary T of the code's own case distinctions h(T-) = h(T+) = h(T) and h'(T-) = h'(T+)")]
