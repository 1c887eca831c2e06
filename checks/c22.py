from .common import *
from vc.check import Ineq
import jax

TITLE = "universal relations"
Q = "ripplegw.waveforms.IMRPhenom_tidal_utils:get_quadparam_octparam"
TOL = 1e-6


def slope(k):
    return lambda fn: jax.grad(lambda l: fn(l)[k])


def zero(M):
    """quadrupole parameter of an object without deformability = 1"""
    lam = M.const(0) if not M.numeric else np.zeros_like(M.var("lam"))
    q, o = M.call(Q, lam)
    return [(q, q * 0 + 1)]


OCT = ("0.003131", "2.071", "-0.7152", "0.2458", "-0.03309")


def octupole(M):
    """ln(oct) = 0.003131 + 2.071 x - 0.7152 x^2 + 0.2458 x^3 - 0.03309 x^4, x = ln(quad), below and above lambda = 1"""
    q, o = M.call(Q, M.var("lam"))
    x = S.log(q)
    if not M.numeric:   # log(exp(c)) = c up to one rounding: the coefficients to 13 significant digits
        from decimal import Decimal
        x = Sym(M.R, {k: Decimal(float('%.13g' % v)) for k, v in x.p.items()})
    c = [float(t) for t in OCT]
    return [(S.log(o), c[0] + c[1] * x + c[2] * x**2 + c[3] * x**3 + c[4] * x**4)]


def sides(M):
    x = M.var("lam") - 1
    return [[(x, "lt")], [(x, "gt")], [(x, "eq")]]


def low_slope(M):
    """d quad / d lambda > 0 on [0, 1)"""
    u = M.var("u", 0, 1)
    return [M.call(Q, u, wrap=slope(0), tag="s0")]


def high_slope(M):
    """d quad / d lambda > 0 on [1, 10000]  (lambda = exp(x))"""
    x = M.var("x_ln", 0, 9.22)
    return [M.call(Q, S.exp(x), wrap=slope(0), tag="s0")]


def side_rule(side):
    def rule(M, e):
        """the indicator lambda < 1 has its value on this side"""
        R = M.R
        mp = {}
        for a in R.find_atoms(e.p, lambda a: a.kind == "ind"):
            prim, op = R.atoms[a].data
            v = R.evalf(prim, {i: 0.5 for i in R.deps(prim)}).real
            # the condition must be  u < 1  or  exp(x) < 1: one sign on the whole side
            w = R.evalf(prim, {i: (1e-9 if side == "high" else 0.999999) for i in R.deps(prim)}).real
            z = R.evalf(prim, {i: (9.2 if side == "high" else 0.0) for i in R.deps(prim)}).real
            if not (v * w > 0 and v * z > 0):
                raise Exception("the branch is not taken on one side of lambda = 1")
            mp[a] = R.one if (v < 0) == (op == "lt") else {}
        return Sym(R, R.subst(e.p, mp))
    return rule


def join(self):
    """where the branches meet (lambda = 1): value and slope agree to a relative 1e-6"""
    M = SymM()
    pr = Prover(M.R, box=BOX)
    pr.extra_lanes = {"lam"}
    from vc.prove import Context
    R = M.R
    lam = M.var("lam")
    val = {}
    for rel in ("lt", "gt", "eq"):
        ctx = pr.assume(Context(pr), (lam - 1).p, rel)
        old, R.ctx = R.ctx, ctx
        try:
            q, o = M.call(Q, lam)
            d = M.call(Q, lam, wrap=slope(0), tag="s0")
            do = M.call(Q, lam, wrap=slope(1), tag="s1")
        finally:
            R.ctx = old
        i = M.id(lam)
        # the limit from this side: continuous expressions evaluated at lambda = 1
        val[rel] = [R.evalf(R.subst(e.p, {i: R.one}), {}).real for e in (q, d, o, do)]
        if any(R.find_atoms(e.p, lambda a: a.kind == "ind") for e in (q, d, o, do)):
            return Result(self.name, "undecided", residue="another branch remains on the side %s" % rel)
    bad = []
    for rel in ("lt", "eq"):
        for k, nm in enumerate(("quad", "slope of quad")):
            if abs(val[rel][k] - val["gt"][k]) > TOL * abs(val["gt"][k]):
                bad.append("%s: %r on side %s, %r above" % (nm, val[rel][k], rel, val["gt"][k]))
    import jax.numpy as jnp
    fn = resolve(Q)
    e = 1e-9
    a, b, c = (float(fn(x)[0]) for x in (1 - e, 1.0, 1 + e))
    real = max(abs(a - b), abs(c - b)) > TOL * abs(b)
    g = [float(jax.grad(lambda l: fn(l)[0])(x)) for x in (1 - e, 1.0, 1 + e)]
    real |= max(abs(g[0] - g[1]), abs(g[2] - g[1])) > TOL * abs(g[1])
    if real:
        return Result(self.name, "violated", ce={"inputs": {"lambda": [1 - e, 1.0, 1 + e]}, "quad": [a, b, c], "slope": g}, functions=[Q])
    if bad:
        return Result(self.name, "undecided", residue="; ".join(bad))
    return Result(self.name, "proved", values=val, eqns=M.ev.n_eqns)


def growth(M):
    """exploration of the whole statement on the real code: quad >= 1 and increasing"""
    l1 = M.var("lam")
    l2 = l1 * (1 + M.var("step")) + 1e-4
    a, b = M.call(Q, l1)[0], M.call(Q, l2)[0]
    return [a - 1 + 1e-13, b - a]


OV = {"u": lambda v, r: r.uniform(0, 1, (v.B, 1)), "x_ln": lambda v, r: r.uniform(0, 9.2, (v.B, 1)),
      "step": lambda v, r: np.exp(r.uniform(-9, 0, (v.B, 1))),
      "lam": lambda v, r: np.where(r.random((v.B, 1)) < .2, r.uniform(0, 1, (v.B, 1)), np.exp(r.uniform(-3, 9.2, (v.B, 1))))}


def explore(self):
    """bounded: quad >= 1 and increasing at sampled pairs of deformabilities"""
    q = Ineq(self.name, growth, over=OV)
    n = 0
    for k in range(3):
        ce = q.search(4000, 100 * SEED + k)
        n += 4000
        if ce:
            return Result(self.name, "violated", level="bounded", bound="%d pairs" % n, ce=ce)
    return Result(self.name, "proved", level="bounded", bound="%d pairs" % n, explored_inputs=n)


def obligations():
    B = dict(BOX, u=(0, 1), x_ln=(0, 9.22))
    return [Law("C22.black_hole", zero), Law("C22.octupole", octupole, cases=sides, lanes=("lam",), over=OV),
            Ineq("C22.slope_low", low_slope, over=OV, box=B, rule=side_rule("low")),
            Ineq("C22.slope_high", high_slope, over=OV, box=B, rule=side_rule("high")),
            Custom("C22.join", join), Custom("C22.growth", explore)]
