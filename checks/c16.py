from .common import *

TITLE = "the strain vanishes above the cutoff"
GT = 4.925490947641267e-06            # G Msun / c^3 in seconds


def total(M, P):
    return P["Mc"] * S.powr(P["eta"], -3, 5) * GT


def law(mk, cut, strict):
    def f(M):
        """h+ = hx = 0 wherever G(m1+m2)f/c^3 is at or above (XAS: above) the cutoff"""
        fr, fref = M.freq(), M.var("fref")
        P = params(M, mk)
        a = M.hphc(mk, fr, P, fref)
        if not M.numeric:
            return [(x, 0 * x) for x in a]
        x = total(M, P) * fr - cut
        above = (x > 1e-12) if strict else (x > -1e-17)
        return [(v * above, 0 * v) for v in a]

    def cases(M):
        M.freq()
        x = total(M, params(M, mk)) * M.freq() - Fraction(str(cut))
        return [[(x, "gt")]] + ([] if strict else [[(x, "eq")]])
    return f, cases


def merger(M, P):
    eta = P["eta"]
    d = S.sqrt(1 - 4 * eta)
    X1, X2 = (1 + d) / 2, (1 - d) / 2
    k = (X2 / X1 * 12 + 1) * X1**5 * P["lam1"] + (X1 / X2 * 12 + 1) * X2**5 * P["lam2"]
    k = k * 3 / 13
    F = (lambda s: float(s)) if M.numeric else (lambda s: Fraction(s))
    Q0 = F("0.3586") / S.sqrt(X1 / X2)
    num = 1 + F("0.0335411203") * k + F("0.0000431460284") * k**2
    den = 1 + F("0.0754224145") * k + F("0.000223626859") * k**2
    return Q0 * num / den / (2 * PI * total(M, P))


def taper(mk):
    def f(M):
        """h+ = hx = 0 from 1.2 times the merger frequency on"""
        fr, fref = M.freq(), M.var("fref")
        P = params(M, mk)
        a = M.hphc(mk, fr, P, fref)
        if not M.numeric:
            return [(x, 0 * x) for x in a]
        above = fr / (merger(M, P) * 1.2) > 1 + 1e-9
        return [(v * above, 0 * v) for v in a]

    def cases(M):
        x = M.freq() - merger(M, params(M, mk)) * Fraction(6, 5)
        return [[(x, "gt")], [(x, "eq")]]
    return f, cases


CUT = "ripplegw.waveforms.IMRPhenomX_utils:get_cutoff_fMs"
MRD = "ripplegw.waveforms.IMRPhenomXAS:get_mergerringdown_Amp"
RANGES = [(0.02, 0.25), (0.0, 0.06), (0.0, 0.25), (0.0, 0.25)]      # fRD, fdamp, fMECO, fISCO


class Modular(Law):
    """callers are proved against the contracts: get_cutoff_fMs returns four frequencies in RANGES, the
    second result of get_mergerringdown_Amp (start of the ringdown region) lies in (0, 0.25)"""
    def prove(self, r):
        from vc.contracts import Contract
        c, d = Contract(CUT, RANGES), Contract(MRD, [(-INF, INF), (0.0, 0.25)], indep=[(1, 0)])
        self.opaque_calls = {c.name: c.answer, d.name: d.answer}
        with c.installed(), d.installed():
            ok = super().prove(r)
        r["contract_calls"] = c.used + d.used
        return ok


def ranges(self):
    """bounded: the ranges of fRD, fdamp, fISCO and of the start of the ringdown region (on a grid of masses and spins)"""
    import jax, jax.numpy as jnp
    fn, fm = resolve(CUT), resolve(MRD)
    tab = resolve("ripplegw.waveforms.IMRPhenomX_utils:PhenomX_amp_coeff_table")
    g = jax.jit(jax.vmap(lambda m1, m2, a, b: jnp.stack(list(fn(m1, m2, a, b)) + [fm(0.1, jnp.array([m1, m2, a, b]), tab)[1]])))
    fx = [np.asarray(fm(x, jnp.array([0.6, 0.4, 0.3, -0.2]), tab)[1]) for x in (0.01, 0.1, 0.3)]
    if len({float(x) for x in fx}) != 1:
        return Result(self.name, "undecided", level="bounded", residue="the start of the ringdown region depends on the frequency")
    q = np.concatenate([np.linspace(0.002, 0.1, 60), np.linspace(0.1, 1.0, 91)])
    s = np.linspace(-1, 1, 41)
    q, a, b = (x.ravel() for x in np.meshgrid(q, s, s, indexing="ij"))
    o = np.asarray(g(1 / (1 + q), q / (1 + q), a, b))
    bad = []
    for k, (lo, hi) in enumerate(RANGES + [(0.0, 0.25)]):
        if not (np.nanmin(o[:, k]) > lo and np.nanmax(o[:, k]) < hi and np.isfinite(o[:, k]).all()):
            i = int(np.argmax(np.where(np.isfinite(o[:, k]), np.abs(o[:, k] - (lo + hi) / 2), 9)))
            bad.append({"output": k, "q": q[i], "chi1": a[i], "chi2": b[i], "value": float(o[i, k])})
    r = Result(self.name, "proved" if not bad else "undecided", level="bounded", bound="%d points of (q, chi1, chi2), q >= 0.002" % len(q),
               explored_inputs=len(q), observed=[[float(o[:, k].min()), float(o[:, k].max())] for k in range(5)])
    if bad:
        r["residue"] = str(bad)
    return r


def meco(self):
    """0 < fMECO < 0.25 for every mass ratio and all spins"""
    M = SymM()
    pr = Prover(M.R, box=BOX)
    pr.hard = True
    eta, c1, c2 = M.var("eta"), M.var("chi1"), M.var("chi2")
    d = S.sqrt(1 - 4 * eta)
    o = M.call(CUT, (1 + d) / 2, (1 - d) / 2, c1, c2)
    ok = [bool(pr.interval_pos((RANGES[2][1] - o[2]).p)), bool(pr.interval_pos(o[2].p))]
    return Result(self.name, "proved" if all(ok) else "undecided", boxes=pr.stats.boxes, residue=str(ok))


def L(name, fc, **kw):
    return Law(name, fc[0], cases=fc[1], abs_floor=1e-30, **kw)


def obligations():
    return [L("C16.IMRPhenomD", law("D", 0.2, False)), L("C16.IMRPhenomPv2", law("P", 0.2, False), cost=30),
            Modular("C16.IMRPhenomXAS", law("XAS", 0.3, True)[0], cases=law("XAS", 0.3, True)[1], abs_floor=1e-30, cost=100),
            Custom("C16.fMECO_range", meco), Custom("C16.fRD_fdamp_fISCO_ranges", ranges),
            L("C16.taper", taper("N"), cost=20), L("C16.taper_individual", taper("Nl"), cost=20)]
