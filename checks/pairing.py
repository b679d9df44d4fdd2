"""The pairing summarised as a bilinear map: values of the target group are sums of coefficient * e(P, Q) over named points
(the group operations and P01 / P02 cover the bodies behind this summary)."""
from groups import *
from circ import Split, explore, vec, items, Fld

PX = r"(?:bn_254::G2PairingAffine)"
G2P_RX = re.compile(r"^<bn_254::G2PairingAffine as std::(?:convert::From<bn_254::G2Affine>>::from|clone::Clone>::clone)$|"
                    r"^<bn_254::G2Affine as std::(?:convert::Into<bn_254::G2PairingAffine>>::into)$")
G2ID_RX = re.compile(r"^bn_254::G2PairingAffine::is_identity$")
MML_RX = re.compile(r"^bn_254::AteParing::(multi_miller_loop|pairing)$")
EXP_RX = re.compile(r"^bn_254::Fq12::final_exp$")
GT_RX = re.compile(r"^<&?bn_254::(Gt|Fq12) as std::ops::(Add|Sub|Neg|Mul|AddAssign|SubAssign|MulAssign)(?:<&?bn_254::(?:Gt|Fq12)>)?>::\w+$")
GTE_RX = re.compile(r"^<bn_254::Gt as std::(?:cmp::PartialEq>::(eq|ne)|clone::Clone>::(clone))$")


class PVal:
    """element of the target group (gt) or a Miller loop value before the final exponentiation"""
    __slots__ = ("gt", "t")

    def __init__(self, gt, t):
        self.gt, self.t = gt, {k: c for k, c in t.items() if not c.is_zero()}

    def key(self):
        return (self.gt, frozenset(self.t.items()))

    def __eq__(self, o):
        return type(o) is PVal and self.gt == o.gt and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return " + ".join("[%s]e(%s,%s)" % (c.show(), a, b) for (a, b), c in sorted(self.t.items())) or "0"


class PairDomain(GroupDomain):
    def __init__(self):
        GroupDomain.__init__(self, FR, True)

    def gen(self, C, name):
        return GVal(C.name, {name: Poly.const(1, FR)})

    def iszero(self, v):
        if not v.t:
            return 1
        if len(v.t) == 1:
            (g, c), = v.t.items()
            if g == "G" or g.startswith("!"):
                return self.polyzero(c)
        k = min(v.key(), self.neg(v).key(), key=lambda k: sorted((g, sorted(p.t.items())) for g, p in k[1]))
        return Ite(("gz", v.C, k), 1, 0)

    def polyzero(self, c):
        if c.is_const():
            return 0
        z = self.zcond(c)
        return z if type(z) is int else Ite(z, 1, 0)

    def pneg(self, v):
        return PVal(v.gt, {k: -c for k, c in v.t.items()})

    def padd(self, a, b):
        if a.gt != b.gt:
            raise Unsupported("a Miller loop value combined with a target group element")
        t = dict(a.t)
        for k, c in b.t.items():
            t[k] = t[k] + c if k in t else c
        return PVal(a.gt, t)

    def pzero(self, v):
        if not v.gt:
            raise Unsupported("comparison before the final exponentiation")
        if not v.t:
            return 1
        k = min(v.key(), self.pneg(v).key(), key=lambda k: sorted((g, sorted(p.t.items())) for g, p in k[1]))
        return Ite(("gt", k), 1, 0)

    def pair(self, a, b, gt=False):
        return PVal(gt, {(x, y): c * d for x, c in a.t.items() for y, d in b.t.items()})

    def decide(self, g):
        raise Split(g.c)

    def feasible(self, facts, c, val):
        r = GroupDomain.feasible(self, facts, c, val)
        if r and not val and GroupDomain.feasible(self, facts, c, True):
            raise Split(c)
        return r

    def join(self, c, a, b):
        return None if type(a) is PVal or type(b) is PVal else GroupDomain.join(self, c, a, b)

    def eq(self, a, b):
        if type(a) is PVal and type(b) is PVal:
            return self.pzero(self.padd(a, self.pneg(b)))
        return GroupDomain.eq(self, a, b)

    def pval(self, v):
        I = self.I
        v = I.simp(v)
        while type(v) is Ptr:
            v = I.simp(I.load(v))
        if type(v) is Agg and len(v.f) == 1:
            v = I.simp(v.f[0])
        if type(v) is not PVal:
            raise Unsupported("target group element expected, got %s" % type(v).__name__)
        return v

    def g2p(self, v):
        I = self.I
        v = I.simp(v)
        while type(v) is Ptr:
            v = I.simp(I.load(v))
        if type(v) is Opaque and v.op == "g2p":
            return v.args[0]
        raise Unsupported("prepared point expected")

    def pmodels(self):
        D = self

        def fix(I, v):
            v = I.simp(v)
            while type(v) is Ptr:
                v = I.simp(I.load(v))
            return v

        def prep(I, c, a):
            return I.lift(lambda v: v if type(v) is Opaque and v.op == "g2p" else Opaque("g2p", (D.pt(v),)), fix(I, a[0]))

        def mml(I, c, a):
            if MML_RX.match(c.fn.name).group(1) == "pairing":
                return D.pair(D.pt(a[0]), D.pt(a[1]), True)
            r = PVal(False, {})
            for x in items(I, a[0]):
                x = fix(I, x)
                r = D.padd(r, D.pair(D.pt(x.f[0]), D.g2p(x.f[1])))
            return r

        def fexp(I, c, a):
            v = D.pval(a[0])
            if v.gt:
                raise Unsupported("final exponentiation applied twice")
            return PVal(True, v.t)

        def gt(I, c, a):
            ty, op = GT_RX.match(c.fn.name).groups()
            try:
                x = D.pval(a[0])
            except Unsupported:
                if ty == "Fq12":
                    return NotImplemented
                raise
            if (ty == "Gt") != x.gt or ty == "Fq12" and not op.startswith("Mul"):
                raise Unsupported("%s of a Miller loop value" % op)
            if op == "Neg":
                return D.pneg(x)
            y = D.pval(a[1])
            r = D.padd(x, D.pneg(y) if op.startswith("Sub") else y)
            if op.endswith("Assign"):
                I.store(a[0], r)
                return UNIT
            return r

        def gte(I, c, a):
            op = GTE_RX.match(c.fn.name)
            if op.group(2):
                return D.pval(a[0])
            r = D.pzero(D.padd(D.pval(a[0]), D.pneg(D.pval(a[1]))))
            return r if op.group(1) == "eq" else I.lift(lambda x: 1 - x, r)
        return [(G2P_RX, prep), (G2ID_RX, lambda I, c, a: D.iszero(D.g2p(a[0]))), (MML_RX, mml), (EXP_RX, fexp), (GT_RX, gt), (GTE_RX, gte)]


class Pairing:
    def __init__(self, ctx, facts=None, overrides=None, patterns=(), domain=PairDomain):
        self.ctx, self.prog = ctx, ctx.prog
        D = self.D = domain()
        self.I = Interp(ctx.prog, D, Models(overrides=overrides, patterns=list(patterns) + D.pmodels() + D.gmodels() + D.ext_models() + D.limb_models()))
        self.I.st.facts.update(facts or {})
        self.F = Fld(ctx.prog, "bn_254::Fr")

    def fix(self, v):
        v = self.I.simp(v)
        while type(v) is Ptr:
            v = self.I.simp(self.I.load(v))
        return v

    def fields(self, v):
        return [f[0] for f in self.prog.types[v.tid]["vs"][0][1]]

    def get(self, v, name):
        v = self.fix(v)
        if type(v) is not Agg or v.tid is None or name not in self.fields(v):
            raise Unsupported("no field %s" % name)
        return self.I.simp(v.f[self.fields(v).index(name)])

    def mk(self, ty, **f):
        t = self.prog.ty(ty)
        names = [x[0] for x in self.prog.types[t]["vs"][0][1]]
        if set(names) - set(f):
            raise Unsupported("%s has other fields: %s" % (ty, names))
        return Agg(t, 0, tuple(f[n] for n in names))

    def run(self, fn, *args):
        f = self.prog.fn(fn)
        r = self.I.analyse(f, [x if type(x) is Ptr else wrap_arg(self.I, self.prog, f.locals[1 + i], x) for i, x in enumerate(args)])
        self.ctx.used(self.I)
        return r

    def g1(self, n):
        return self.D.gen(GCURVES[0], n)

    def g2(self, n):
        return self.D.gen(GCURVES[1], n)

    def var(self, n):
        return self.D.var(n, FR)

    def el(self, p):
        return self.F.el(self.D, p)

    def slice(self, xs):
        a = self.I.ref(Arr(tuple(xs)))
        return Ptr(a.cell, a.path, 0, len(xs))


def reduce_by(v, facts):
    """a bilinear form with the points known to be the identity eliminated (one solvable generator per fact)"""
    for c, val in facts.items():
        if c[0] != "gz" or not val:
            continue
        t = dict(c[2][1])
        g = next((g for g in t if t[g].is_const()), None)
        if g is None:
            raise Unsupported("case distinction on a combination of points")
        inv = pow(t[g].cval(), -1, FR)
        sub = {h: (-d).scale(inv) for h, d in t.items() if h != g}
        side = 0 if c[1] == "G1" else 1
        r = {}
        for k, d in v.t.items():
            for h, e in (sub.items() if k[side] == g else [(k[side], None)]):
                n = (h, k[1]) if side == 0 else (k[0], h)
                d2 = d if e is None else d * e
                r[n] = r[n] + d2 if n in r else d2
        v = PVal(v.gt, r)
    return v
