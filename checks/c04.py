"""Twisted Edwards points (a = -1): the curve macros and the addition formulas are instantiated for one curve in roots/src/jubjub.rs
and analysed for symbolic points; results are compared with the complete addition law modulo the curve equation."""
from curves import *

FLOOR = 50
NS = "verif_roots::jubjub::jubjub_curve::"
AFF, EXT, BASE_T = NS + "JubjubAffine", NS + "JubjubExtended", NS + "BlsScalar"
RX = re.compile(r"^<(&?)([\w:]+) as std::ops::(Add|Sub|AddAssign|SubAssign)(?:<(&?)([\w:]+)>)?>::(\w+)$")
P0 = BLSR


def short(t):
    return t.replace("verif_roots::", "", 1)


class Ed:
    def __init__(self, ctx):
        self.prog = ctx.prog
        self.D, self.I = session(ctx.prog)
        self.rules = []
        self.p = P0
        self.d = D_CONST
        self.one = Poly.const(1, P0)

    def pt(self, n):
        """symbolic curve point: x^2 y^2 = (y^2 - x^2 - 1)/d"""
        x, y = self.D.var("x" + n, P0), self.D.var("y" + n, P0)
        (ax,), (ay,) = x.atoms(), y.atoms()
        self.rules.append((tuple(sorted((ax, ax, ay, ay))), (y * y - x * x - self.one).scale(pow(self.d, -1, P0))))
        return x, y

    def nz(self, n):
        return Poly.var(self.D.atom(("nz", n, P0), n), P0)

    def elem(self, q):
        return self.D.elem(self.prog.ty(short(BASE_T)), P0, q)

    def struct(self, ty, **kw):
        t = self.prog.ty(short(ty))
        names = [f[0] for f in self.prog.types[t]["vs"][0][1]]
        if sorted(names) != sorted(kw):
            raise Unsupported("%s has fields %s" % (ty, names))
        return Agg(t, 0, tuple(self.elem(kw[n]) for n in names))

    def rep(self, ty, P, n):
        if ty == AFF:
            return self.struct(AFF, x=P[0], y=P[1])
        z = self.nz("z" + n)
        return self.struct(EXT, x=P[0] * z, y=P[1] * z, t=P[0] * P[1] * z, z=z)

    def get(self, v, f):
        v = self.I.simp(v)
        names = [x[0] for x in self.prog.types[v.tid]["vs"][0][1]]
        return self.D.val(v.f[names.index(f)], P0)

    def rw(self, q):
        return rewrite_(q, self.rules)

    def dens(self, P, Q):
        k = (P[0] * Q[0] * P[1] * Q[1]).scale(self.d)
        return self.one + k, self.one - k

    def zero(self, q, facts):
        return self.D.zero(q, facts, self.rules)

    def law(self, P, Q):
        """(xn, xd, yn, yd)"""
        d1, d2 = self.dens(P, Q)
        return P[0] * Q[1] + Q[0] * P[1], d1, P[1] * Q[1] + P[0] * Q[0], d2

    def same(self, v, want, facts, zs=()):
        w = show_facts(self.D, facts)
        xn, xd, yn, yd = want
        T = NS + self.prog.types[self.I.simp(v).tid]["s"].split("::")[-1]
        x, y = self.get(v, "x"), self.get(v, "y")
        z = self.one if T == AFF else self.get(v, "z")
        if T != AFF:
            if self.zero(z, facts):
                return "z coordinate is zero" + w
        if not self.zero(x * xd - xn * z, facts):
            return "x coordinate is not that of the Edwards addition law" + w
        if not self.zero(y * yd - yn * z, facts):
            return "y coordinate is not that of the Edwards addition law" + w
        if T != AFF:
            if not self.zero(self.get(v, "t") * z - x * y, facts):
                return "extended coordinate does not satisfy t z = x y" + w
            self.znz(z, xd, yd, zs)
        return None

    def znz(self, z, d1, d2, zs):
        """z is a nonzero multiple of the (never vanishing) denominators and z inputs"""
        z = self.rw(z)
        if z.is_const() and not z.is_zero():
            return
        import itertools
        for e1, e2 in ((1, 1), (0, 0), (1, 0), (0, 1)):
            for es in itertools.product(range(5), repeat=len(zs)):
                q = self.one
                for a, e in zip(zs, es):
                    for _ in range(e):
                        q = q * a
                if e1:
                    q = q * d1
                if e2:
                    q = q * d2
                q = self.rw(q)
                if not q.is_zero() and monic(q) == monic(z):
                    return
        raise Unsupported("z coordinate not shown to be nonzero")


D_CONST = 0x2a9318e74bfa2b48f5fd9207e6bd7fd4292d7f6d37579d2601065fd6d6343eb1


def run_one(ctx, name, mk):
    f = ctx.prog.fn(name)
    S = Ed(ctx)
    vals, judge = mk(S)
    args = [wrap_arg(S.I, ctx.prog, f.locals[1 + i], v) for i, v in enumerate(vals)]
    r = S.I.analyse(f, args)
    ctx.used(S.I)
    bad = lambda facts: S.D.zero(S.one, facts, S.rules)
    for x in S.I.panics:
        if not bad(x.facts):
            return "may panic: %s" % x
    if r is None:
        return "always panics"
    if name.endswith("_assign"):
        r = S.I.load(args[0])
        while type(r) is Ptr:
            r = S.I.load(r)
    n = 0
    for facts, leaf in leaves(S.I, r):
        if bad(facts):
            continue
        n += 1
        d = judge(leaf, facts)
        if d:
            return d
    if not n:
        raise Unsupported("no feasible result")
    return None


def variants(S, case):
    P = S.pt("1")
    I = (Poly.const(0, P0), S.one)
    if case == "generic":
        return P, S.pt("2")
    if case == "same":
        return P, P
    if case == "opposite":
        return P, (-P[0], P[1])
    if case == "id+Q":
        return I, P
    return P, I


def binary(ctx, name, ta, tb, sub):
    for case in ("generic", "same", "opposite", "id+Q", "P+id"):
        def mk(S):
            P, Q = variants(S, case)
            a, b = S.rep(ta, P, "1"), S.rep(tb, Q, "2")
            R = (-Q[0], Q[1]) if sub else Q
            return (a, b), lambda v, facts: S.same(v, S.law(P, R), facts, (S.nz("z1"), S.nz("z2")))
        d = run_one(ctx, name, mk)
        if d:
            return "%s operands: %s" % (case, d)


def double(ctx, name, ty):
    def mk(S):
        P = S.pt("1")
        return (S.rep(ty, P, "1"),), lambda v, facts: S.same(v, S.law(P, P), facts, (S.nz("z1"),))
    return run_one(ctx, name, mk)


def unary(ctx, name, ty, fn):
    def mk(S):
        P = S.pt("1")

        def judge(v, facts):
            R = fn(P)
            return S.same(v, (R[0], S.one, R[1], S.one), facts, (S.nz("z1"),))
        return (S.rep(ty, P, "1"),), judge
    return run_one(ctx, name, mk)


def equality(ctx, name, ty):
    def mk(S):
        P, Q = S.pt("1"), S.pt("2")

        def judge(v, facts):
            eqs = (P[0] - Q[0], P[1] - Q[1])
            if v == 1:
                if not all(S.zero(e, facts) for e in eqs):
                    return "different points compare equal" + show_facts(S.D, facts)
            else:
                sub = {min(Q[0].atoms()): P[0], min(Q[1].atoms()): P[1]}
                f2 = {}
                for k, val in facts.items():
                    q = k[2].subst(sub)
                    if q.is_const():
                        if q.is_zero() != val:
                            return None
                        continue
                    f2[("z", P0, monic(q))] = val
                if not S.D.zero(S.one, f2, S.rules[:1]):
                    return "equal points compare different" + show_facts(S.D, facts)
        return (S.rep(ty, P, "1"), S.rep(ty, Q, "2")), judge
    return run_one(ctx, name, mk)


def membership(ctx, name, ty):
    def mk(S):
        x, y = S.D.var("x", P0), S.D.var("y", P0)
        E = y * y - x * x - S.one - (x * x * y * y).scale(S.d)
        (ax,), (ay,) = x.atoms(), y.atoms()
        rule = [(tuple(sorted((ax, ax, ay, ay))), (y * y - x * x - S.one).scale(pow(S.d, -1, P0)))]

        def judge(v, facts):
            if v == 1:
                if not S.zero(E, facts):
                    return "accepts points off the curve" + show_facts(S.D, facts)
                return None
            if any(S.D.zero(k[2], facts, rule) for k, val in facts.items() if k[0] == "z" and not val):
                return None
            if not S.D.zero(S.one, facts, rule):
                return "rejects points on the curve" + show_facts(S.D, facts)
        return (S.rep(ty, (x, y), "1"),), judge
    return run_one(ctx, name, mk)


def identity_test(ctx, name, ty):
    def mk(S):
        P = S.pt("1")

        def judge(v, facts):
            if v == 1:
                if not (S.zero(P[0], facts) and S.zero(P[1] - S.one, facts)):
                    return "true for a point that is not the identity" + show_facts(S.D, facts)
            else:
                f2 = dict(facts)
                for q in (P[0], P[1] - S.one):
                    k = ("z", P0, monic(q))
                    if f2.get(k) is False:
                        return None
                    f2[k] = True
                if not S.D.zero(S.one, f2, []):
                    return "false for the identity" + show_facts(S.D, facts)
        return (S.rep(ty, P, "1"),), judge
    return run_one(ctx, name, mk)


def constant(ctx, name, want):
    """a constructor without arguments gives the identity"""
    def mk(S):
        return (), lambda v, facts: S.same(v, (Poly.const(0, P0), S.one, S.one, S.one), facts, ())
    return run_one(ctx, name, mk)


def build(ctx, name, n):
    def mk(S):
        P = S.pt("1")
        z = S.nz("z1")
        args = [S.elem(P[0]), S.elem(P[1])] if n == 2 else [S.elem(P[0] * z), S.elem(P[1] * z), S.elem(P[0] * P[1] * z), S.elem(z)]
        return args, lambda v, facts: S.same(v, (P[0], S.one, P[1], S.one), facts, (z,))
    return run_one(ctx, name, mk)


def accessor(ctx, name, ty, fld):
    def mk(S):
        q = {k: S.D.var(k, P0) for k in "xytz"}
        v = S.struct(AFF, x=q["x"], y=q["y"]) if ty == AFF else S.struct(EXT, **q)
        return (v,), lambda v, facts: None if S.zero(S.D.val(v, P0) - q[fld], facts) else "does not return the %s coordinate" % fld
    return run_one(ctx, name, mk)


def run(ctx):
    prog = ctx.prog
    for name in sorted(prog.by_name):
        m = RX.match(name)
        if m and m.group(2) in (AFF, EXT):
            tb = m.group(5) or m.group(2)
            if tb in (AFF, EXT):
                ctx.ob(name, "edwards-addition-law", lambda: binary(ctx, name, m.group(2), tb, m.group(3).startswith("Sub")))
    Z = "zkstd::common::"
    for ty, tr in ((AFF, "TwistedEdwardsAffine"), (EXT, "TwistedEdwardsExtended")):
        name = "<%s as %s%s>::double" % (ty, Z, tr)
        ctx.ob(name, "edwards-addition-law", lambda: double(ctx, name, ty))
        name = "<%s as std::ops::Neg>::neg" % ty
        ctx.ob(name, "negation", lambda: unary(ctx, name, ty, lambda P: (-P[0], P[1])))
        name = "<%s as std::cmp::PartialEq>::eq" % ty
        ctx.ob(name, "equal-iff-same-point", lambda: equality(ctx, name, ty))
        name = "<%s as %sCurveGroup>::is_on_curve" % (ty, Z)
        ctx.ob(name, "curve-equation", lambda: membership(ctx, name, ty))
        name = "<%s as %sCurveGroup>::is_identity" % (ty, Z)
        ctx.ob(name, "identity-test", lambda: identity_test(ctx, name, ty))
        name = "<%s as std::default::Default>::default" % ty
        ctx.ob(name, "identity", lambda: constant(ctx, name, None))
        name = "<%s as %sCurveGroup>::from_x_and_y" % (ty, Z)
        ctx.ob(name, "constructor", lambda: build(ctx, name, 2))
        for fld in "xy":
            name = "<%s as %sCurveGroup>::get_%s" % (ty, Z, fld)
            ctx.ob(name, "accessor", lambda: accessor(ctx, name, ty, fld))
    for fld in "tz":
        name = "<%s as %sTwistedEdwardsExtended>::get_%s" % (EXT, Z, fld)
        ctx.ob(name, "accessor", lambda: accessor(ctx, name, EXT, fld))
    for name, ty in (("<%s as %sTwistedEdwardsExtended>::to_affine" % (EXT, Z), EXT),
                     ("<%s as std::convert::From<%s>>::from" % (AFF, EXT), EXT),
                     ("<%s as %sTwistedEdwardsAffine>::to_extended" % (AFF, Z), AFF),
                     ("<%s as std::convert::From<%s>>::from" % (EXT, AFF), AFF)):
        ctx.ob(name, "same-point", lambda: unary(ctx, name, ty, lambda P: P))
    name = "<%s as %sTwistedEdwardsAffine>::from_raw_unchecked" % (AFF, Z)
    ctx.ob(name, "constructor", lambda: build(ctx, name, 2))
    name = "<%s as %sTwistedEdwardsExtended>::new" % (EXT, Z)
    ctx.ob(name, "constructor", lambda: build(ctx, name, 4))
    import c03
    c03.run_for(ctx, c03.GCURVES[3:])
