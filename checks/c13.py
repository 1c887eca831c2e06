from .common import *
from vc.ring import Undecided

TITLE = "the strain at one frequency does not depend on the rest of the grid"
COST = {"XAS": 100, "P": 30}


def same_lane(mk):
    """The outputs at grid position k of an array of arbitrary length n are terms over f[k], the
    parameters and the reference frequency only."""
    def f(M):
        fr, fref = M.freq(), M.var("fref")
        P = params(M, mk)
        return M.hphc(mk, fr, P, fref)
    return f


class Lane(Law):
    def prove(self, r):
        M = SymM()
        R = M.R
        outs = self.term(M)
        allowed = {m[0][0] for v in M.vars.values() for m in v.p}
        bad, count = set(), [0]

        def look(at):
            count[0] += 1
            nm = str(at.data[0]) if at.kind == "opaque" else str(at.name or "")
            if nm.startswith("GLOBAL") or nm == "SUM" or at.kind == "var" and at not in [R.atoms[i] for i in allowed]:
                bad.add(nm[:80])
            return False
        for o in outs:
            R.find_atoms(o.p, look)
        n = count[0]
        r["eqns"], r["atoms"], r["opaque"], r["traces"] = M.ev.n_eqns, n, dict(M.ev.opaques), dict(TRACE_STATS)
        r["case"] = "one generic lane k of a grid of symbolic length"
        if bad:
            r["residue"] = "the output at f[k] depends on " + ", ".join(sorted(bad)[:5])
            return False
        # the term agrees with the real code at random inputs
        prs = [(o, o) for o in outs]
        r["probe_refuted"], r["cross_checked"] = None, self.validate(M, prs)[1]
        if r["cross_checked"] is False:
            r["residue"] = "engine self-check failed"
            return False
        return True


def replayed(mk):
    def f(M):
        """the same strain from the whole grid, the reversed grid, a sub-grid and single frequencies"""
        fr, fref = M.freq(), M.var("fref")
        P = params(M, mk)
        a = M.hphc(mk, fr, P, fref)
        n = fr.shape[1]
        perm = np.random.default_rng(0).permutation(n)
        inv = np.argsort(perm)
        out = []
        for sel, back in ((perm, inv), (slice(None, None, -1), slice(None, None, -1))):
            b = M.hphc(mk, fr[:, sel], P, fref)
            out += [(x, y[:, back]) for x, y in zip(a, b)]
        s = np.sort(fr, axis=1)
        b = M.hphc(mk, s, P, fref)
        out += [(np.take_along_axis(x, np.argsort(fr, axis=1), 1), y) for x, y in zip(a, b)]
        h = n // 2
        b = M.hphc(mk, fr[:, :h], P, fref)
        out += [(x[:, :h], y) for x, y in zip(a, b)]
        b = M.hphc(mk, np.repeat(fr, 40, axis=1), P, fref)
        out += [(x, y[:, ::40]) for x, y in zip(a, b)]
        for k in (0, n - 1):
            b = M.hphc(mk, fr[:, k:k + 1], P, fref)
            out += [(x[:, k:k + 1], y) for x, y in zip(a, b)]
        # a uniform grid of 2049 points that contains the frequencies of the first two columns
        lo, hi = s[:, :1], s[:, -1:]
        u = np.linspace(0, 1, 2049)[None, :]
        grid = lo + (hi - lo) * u
        b = M.hphc(mk, grid, P, fref)
        c = M.hphc(mk, grid[:, [1, 700, 2000]], P, fref)
        out += [(x[:, [1, 700, 2000]], y) for x, y in zip(b, c)]
        return out
    return f


def obligations():
    out = []
    for mk in ALL + INDIVIDUAL:
        o = Lane("C13.%s" % MODELS[mk].title, same_lane(mk), num=replayed(mk), cost=COST.get(mk, 20), doc=same_lane.__doc__, samples=24, floor=1e-9)
        o.term = o.law
        out.append(o)
    return out
