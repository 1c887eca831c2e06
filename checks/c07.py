from .common import *
from vc.prove import Context
from vc.ring import Undecided
from vc.machine import REACHED

TITLE = "noise curves reproduce their tables and are infinite outside them"
RES = "/repo/src/ripplegw/noise_resources/"
CURVES = {"aLIGO": "aLIGO", "ce": "ce", "et": "et", "aLIGOZeroDetHighPower": "aLIGOZeroDetHighPower", "O3a": "O3a_Livingston_ASD", "O2": "O2_ASD"}


def table(name):
    """the data file, read without the code under test: frequencies, PSD (infinite where the file holds zero).
    Files holding amplitudes (about 1e-23) are told from files holding power (about 1e-46) by their size"""
    x, y = [], []
    for line in open(RES + CURVES[name] + ".dat"):
        t = line.split("#")[0].split()
        if t:
            x.append(float(t[0])); y.append(float(t[1]))
    x, y = np.array(x), np.array(y)
    if np.median(y[y > 0]) > 1e-35:
        y = y * y
    return x, np.where(y == 0, INF, y)


def close(a, b):
    a, b = np.asarray(a, float), np.asarray(b, float)
    with np.errstate(all="ignore"):
        return a.shape == b.shape and bool(np.all((a == b) | (abs(a - b) <= 1e-13 * abs(b))))


def is_inf(M, p):
    return M.ev.infinite(p) == 1


def symbolic(name):
    """for every frequency: the code's value is infinite outside the file's range and the library's linear
    interpolation of exactly the file's table inside it"""
    def run(self):
        x, y = table(name)
        M = SymM()
        R = M.R
        pr = Prover(R, box=BOX)
        f = M.freq()
        bad = []
        fin = np.isfinite(y)
        parts = [("below", [(float(x[0]), "lt")]), ("above", [(float(x[-1]), "gt")])]
        # maximal runs of finite entries, and the stretches from one to the next
        cuts = [0] + [i for i in range(1, len(x)) if fin[i] != fin[i - 1]]
        runs = [(i, (cuts[k + 1] if k + 1 < len(cuts) else len(x)) - 1) for k, i in enumerate(cuts)]
        for i, j in runs:
            if j > i:
                parts.append(("inside" if fin[i] else "infinite", [(float(x[i]), "gt"), (float(x[j]), "lt")]))
            if j + 1 < len(x):
                parts.append(("infinite", [(float(x[j]), "gt"), (float(x[j + 1]), "lt")]))
        for part, conds in parts:
            ctx = Context(pr)
            for e, rel in conds:
                ctx = pr.assume(ctx, (f - e).p, rel)
            R.ctx = ctx
            p = M.call("ripplegw.noise:Sn_" + name, f).p
            R.ctx = None
            if part != "inside" and is_inf(M, p):
                continue
            t = None
            if len(p) == 1:
                (m, c), = p.items()
                if len(m) == 1 and m[0][1] == 1 and abs(c - 1) < 1e-15:
                    at = R.atoms[m[0][0]]
                    if at.kind == "opaque" and at.data[0] in M.ev.tables and R.sub(at.data[1][0], f.p) == {}:
                        t = M.ev.tables[at.data[0]]
            if t is None or part == "infinite":
                raise Undecided("value in part %s %s is not as the table says: %s" % (part, conds, R.show(p, 1, 4)[:200]))
            xp, fp, extra = t
            if part == "inside":
                here = (x >= conds[0][0]) & (x <= conds[1][0])
                if not (close(xp, x) and close(np.asarray(fp)[here], y[here])):
                    bad.append("table differs from the file")
            edge = {"below": 0, "above": 1}.get(part)
            if edge is not None and not (len(extra) == 2 and extra[edge] == INF and ((xp[0] >= x[0]) if edge == 0 else (xp[-1] <= x[-1]))):
                bad.append("finite %s the range" % part)
        return Result(self.name, "undecided" if bad else "proved", proof_error="; ".join(bad), eqns=M.ev.n_eqns, entries=len(x), functions=sorted(REACHED))
    return run


def exhaustive(name):
    """bounded: every tabulated frequency, two points of every interval, points outside, and the published range"""
    def run(self):
        import jax.numpy as jnp
        x, y = table(name)
        fn, rng = resolve("ripplegw.noise:Sn_" + name), resolve("ripplegw.noise:f_range_" + name)
        mid = np.concatenate([(x[:-1] + x[1:]) / 2, x[:-1] * .9 + x[1:] * .1])
        mid = mid[(mid > x[0]) & (mid < x[-1])]
        out = np.array([0.0, x[0] * .5, np.nextafter(x[0], 0), np.nextafter(x[-1], INF), x[-1] * 2])
        f = np.concatenate([x, mid, out])
        with np.errstate(all="ignore"):
            i = np.clip(np.searchsorted(x, mid, side="right") - 1, 0, len(x) - 2)
            lin = np.where(np.isfinite(y[i]) & np.isfinite(y[i + 1]), y[i] + (y[i + 1] - y[i]) * ((mid - x[i]) / (x[i + 1] - x[i])), INF)
        want = np.concatenate([y, lin, np.full(len(out), INF)])
        got = np.concatenate([np.asarray(fn(jnp.asarray(c)), float) for c in np.array_split(f, 2)])
        with np.errstate(all="ignore"):
            ok = (got == want) | (abs(got - want) <= 1e-9 * abs(want))
        lo, hi = float(rng[0]), float(rng[1])
        # scalars and single-element arrays are the same function
        s = [float(np.asarray(fn(float(v))).reshape(())) for v in (x[0], x[len(x) // 2], x[-1], x[-1] * 2)]
        sw = [y[0], y[len(x) // 2], y[-1], INF]
        r = Result(self.name, "proved", kind="bounded", explored_inputs=len(f) + 4)
        if not ok.all():
            k = int(np.argmin(ok))
            r.update(status="violated", ce={"f": f[k], "got": got[k], "want": want[k]})
        elif (lo, hi) != (x[0], x[-1]):
            r.update(status="violated", ce={"f_range": (lo, hi), "table": (x[0], x[-1])})
        elif not close(s, sw):
            r.update(status="violated", ce={"scalar": s, "want": sw})
        return r
    return run


def ligo1_inside(M):
    """above 40 Hz: the published expression"""
    F = (lambda a, b: a / b) if M.numeric else Fraction
    if M.numeric:
        import jax.numpy as jnp
        f = M.freq()
        y = np.asarray(resolve("ripplegw.noise:Sn_LIGOI")(jnp.asarray(f)))
    else:
        f = M.freq()
        y = M.call("ripplegw.noise:Sn_LIGOI", f)
    x = f / 150
    w = 9e-46 * ((x * F(449, 100)) ** -56 + x ** F(-452, 100) * F(16, 100) + F(52, 100) + x**2 * F(32, 100))
    if M.numeric:
        y, w = np.where(f > 40, y, 0), np.where(f > 40, w, 0)
    return [(y, w)]


def ligo1_outside(self):
    """up to and including 40 Hz the curve is infinite"""
    import jax.numpy as jnp
    M = SymM()
    pr = Prover(M.R, box=BOX)
    f = M.freq()
    for rel in ("lt", "eq"):
        ctx = pr.assume(Context(pr), (f - 40).p, rel)
        M.R.ctx, M.at = ctx, ctx.at
        p = M.call("ripplegw.noise:Sn_LIGOI", M.freq()).p
        M.R.ctx = None
        if not is_inf(M, p):
            return Result(self.name, "undecided", proof_error="finite for f %s 40: %s" % (rel, M.R.show(p, 1, 4)[:200]))
    fn, rng = resolve("ripplegw.noise:Sn_LIGOI"), resolve("ripplegw.noise:f_range_LIGOI")
    f = np.array([1e-3, 1., 10., 39.9, np.nextafter(40, 0), 40.])
    got = np.asarray(fn(jnp.asarray(f)))
    r = Result(self.name, "proved", explored_inputs=len(f), functions=sorted(REACHED))
    if not np.all(got == INF) or (float(rng[0]), float(rng[1])) != (40.0, 1e4):
        r.update(status="violated", ce={"f": f.tolist(), "got": got.tolist(), "range": [float(v) for v in rng]})
    return r


def obligations():
    out = [Law("C07.LIGOI.above", ligo1_inside, cases=lambda M: [[(M.freq() - 40, "gt")]], over={"f": lambda v, r: r.uniform(10, 3000, (v.B, v.n))}),
           Custom("C07.LIGOI.below", ligo1_outside)]
    for k in CURVES:
        out += [Custom("C07.table." + k, symbolic(k), doc=symbolic.__doc__), Custom("C07.exhaustive." + k, exhaustive(k), doc=exhaustive.__doc__, kind="bounded")]
    return out
