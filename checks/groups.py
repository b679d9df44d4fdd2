"""Group-level domain: curve points are linear forms over named points, the point operations are summarised by the group law
(C01, C02, C04 establish it from their bodies)."""
from curves import *

BIG = (1 << 1279) - 1        # integers are represented modulo this Mersenne prime


class GVal:
    """sum of coefficient * named point on one curve"""
    __slots__ = ("C", "t")

    def __init__(self, C, t):
        self.C = C
        self.t = {g: c for g, c in t.items() if not c.is_zero()}

    def key(self):
        return (self.C, frozenset(self.t.items()))

    def __eq__(self, o):
        return type(o) is GVal and self.C == o.C and self.t == o.t

    def __hash__(self):
        return hash(self.key())

    def __repr__(self):
        return "%s(%s)" % (self.C, " + ".join("[%s]%s" % (c.show(), g) for g, c in self.t.items()))


class GCurve:
    def __init__(self, name, aff, proj, scalar, order, gens):
        self.name, self.aff, self.proj, self.scalar, self.order = name, aff, proj, scalar, order
        self.gens = gens


from c05 import SPEC
EDN = "verif_roots::jubjub::jubjub_curve::"
GCURVES = [GCurve("G1", "bn_254::G1Affine", "bn_254::G1Projective", "bn_254::Fr", FR, "g1"),
           GCurve("G2", "bn_254::G2Affine", "bn_254::G2Projective", "bn_254::Fr", FR, "g2"),
           GCurve("Grumpkin", "grumpkin::Affine", "grumpkin::Projective", "bn_254::Fq", FQ, "gk"),
           GCurve("Edwards", EDN + "JubjubAffine", EDN + "JubjubExtended", EDN + "BlsScalar", None, None)]
PT = "|".join(re.escape(t) for C in GCURVES for t in (C.aff, C.proj))
OPS_RX = re.compile(r"^<(&?)(%s) as std::ops::(Add|Sub|AddAssign|SubAssign|Neg)(?:<&?[\w:]+>)?>::\w+$" % PT)
FML_RX = re.compile(r"^zkstd::arithmetic::(?:points::)?(?:weierstrass|edwards)::(add_affine_point|add_mixed_point|add_projective_point|"
                    r"double_affine_point|double_projective_point)::<(%s)>$" % PT)
TR_RX = re.compile(r"^<(%s) as zkstd::common::\w+>::(double|to_affine|to_extended|is_identity|invert)$" % PT)
STD_RX = re.compile(r"^<(%s) as std::(?:convert::From<(?:%s)>|clone::Clone|cmp::PartialEq|default::Default)>::(from|clone|eq|ne|default)$" % (PT, PT))
CONV_RX = re.compile(r"^<(%s) as std::convert::(?:Into|From)<(%s)>>::(into|from)$" % (PT, PT))
MUL_RX = re.compile(r"^<&?([\w:]+) as std::ops::(Mul|MulAssign)<&?([\w:]+)>>::\w+$")
LMUL_RX = re.compile(r"^[\w:]+::<impl std::ops::(Mul|MulAssign)<&?([\w:]+)> for &?([\w:]+)>::\w+$")


def mul_form(name):
    """(left type, operator, right type) of a multiplication operator, or None"""
    m = MUL_RX.match(name)
    if m:
        return m.groups()
    m = LMUL_RX.match(name)
    return m and (m.group(3), m.group(1), m.group(2))


SUM_RX = re.compile(r"^<(%s) as std::iter::Sum<&?(%s)>>::sum" % (PT, PT))


def curve_of(ty):
    for C in GCURVES:
        if ty in (C.aff, C.proj):
            return C
    return None


class GroupDomain(CurveDomain):
    def __init__(self, modulus=BIG, mul=False):
        CurveDomain.__init__(self)
        self.gm = modulus
        self.mul = mul
        self.excl = {}

    # ------------------------------------------------------------ indicators
    def digit(self, i):
        """signed digit as gated Naf variants"""
        t = self.I.p.ty(next(s for s in self.I.p.type_by_str if re.search(r"(^|::)Naf$", s)))
        names = [v[0] for v in self.I.p.types[t]["vs"]]
        if sorted(names) != ["Minus", "Plus", "Zero"]:
            raise Unsupported("Naf variants %s" % names)
        V = lambda n: Agg(t, names.index(n), ())
        return Ite(("dg", i, "Plus"), V("Plus"), Ite(("dg", i, "Minus"), V("Minus"), V("Zero")))

    def ind(self, c):
        """indicator atom of a digit condition"""
        return self.atom(("ind",) + c, "%s%s=%s" % (c[0], c[1], c[2]))

    def feasible(self, facts, c, val):
        if c[0] == "dg":
            if val:
                return not any(k[0] == "dg" and k[1] == c[1] and k[2] != c[2] and v for k, v in facts.items())
            return True
        return CurveDomain.feasible(self, facts, c, val)

    def imul(self, a, b):
        """product of polynomials in indicators (idempotent, mutually exclusive)"""
        r = {}
        for m, x in a.t.items():
            for n, y in b.t.items():
                k = self.mono(set(m) | set(n))
                if k is not None:
                    r[k] = (r.get(k, 0) + x * y) % a.p
        return Poly({k: v for k, v in r.items() if v}, a.p)

    def mono(self, s):
        seen = {}
        for a in s:
            i = self.info[a]
            if i[0] == "ind":
                if seen.get(i[2], i[3]) != i[3]:
                    return None
                seen[i[2]] = i[3]
        return tuple(sorted(s))

    def join(self, c, a, b):
        if type(a) is GVal or type(b) is GVal:
            if c[0] == "dg":
                try:
                    a, b = self.pt(a), self.pt(b)
                except Unsupported:
                    return None
                I = Poly.var(self.ind(c), self.gm)
                t = {}
                for g in set(a.t) | set(b.t):
                    z = Poly.const(0, self.gm)
                    x, y = a.t.get(g, z), b.t.get(g, z)
                    t[g] = y + self.imul(I, x - y)
                return GVal(a.C, t)
            return None
        return CurveDomain.join(self, c, a, b)

    def eq(self, a, b):
        if type(a) is GVal or type(b) is GVal:
            return self.iszero(self.sub(self.pt(a), self.pt(b)))
        return CurveDomain.eq(self, a, b)

    def iszero(self, v):
        if not v.t:
            return 1
        if set(v.t) == {"G"} and v.t["G"].is_const() and self.gm != BIG:
            return 0
        return Ite(("gz", v.C, v.key()), 1, 0)

    # --------------------------------------------------------------- algebra
    def gen(self, C, name):
        return GVal(C.name, {name: Poly.const(1, self.gm)})

    def add(self, a, b):
        if a.C != b.C:
            raise Unsupported("points of different curves")
        t = dict(a.t)
        for g, c in b.t.items():
            t[g] = t[g] + c if g in t else c
        return GVal(a.C, t)

    def neg(self, a):
        return GVal(a.C, {g: -c for g, c in a.t.items()})

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def scale(self, a, k):
        return GVal(a.C, {g: c * k if type(k) is Poly else c.scale(k) for g, c in a.t.items()})

    def pt(self, v):
        """linear form of a point value (constants become the identity or the generator)"""
        I = self.I
        v = I.simp(v)
        while type(v) is Ptr:
            v = I.simp(I.load(v))
        if type(v) is GVal:
            return v
        if type(v) is not Agg or v.tid is None:
            raise Unsupported("point expected, got %s" % type(v).__name__)
        ty = I.p.types[v.tid]["s"]
        C = next((C for C in GCURVES for t in (C.aff, C.proj) if t.replace("verif_roots::", "", 1) == ty), None)
        if C is None:
            raise Unsupported("point expected, got " + ty)
        names = [f[0] for f in I.p.types[v.tid]["vs"][0][1]]
        f = {n: I.simp(v.f[i]) for i, n in enumerate(names)}
        zero = GVal(C.name, {})
        base = BLSR if C.name == "Edwards" else FR if C.name == "Grumpkin" else FQ

        def c(n):
            p = self.poly2(f[n]) if C.name == "G2" else self.val(f[n], base)
            return p
        if C.name == "Edwards":
            x, y = c("x"), c("y")
            if x.is_zero() and y == (c("z") if "z" in f else Poly.const(1, base)):
                return zero
            raise Unsupported("coordinates of an Edwards point")
        if "z" in f:
            if c("z").is_zero():
                return zero
            if c("z") != Poly.const(1, base):
                raise Unsupported("coordinates of a point")
        elif f["is_infinity"] == 1:
            return zero
        elif f["is_infinity"] != 0:
            raise Unsupported("identity flag")
        s = SPEC[C.gens]

        def mk(co):
            r = Poly.const(co[0], base)
            if len(co) == 2:
                r = r + Poly.var(self.u(), base).scale(co[1])
            return r
        if c("x") == mk(s["gen"][0]) and c("y") == mk(s["gen"][1]):
            return self.gen(C, "G")
        raise Unsupported("coordinates of a point")

    def gmodels(self):
        D = self

        def fix(I, v):
            v = I.simp(v)
            while type(v) is Ptr:
                v = I.simp(I.load(v))
            return v

        def lift(I, f, *xs):
            xs = [D.vec_point(fix(I, x)) for x in xs]
            return I.lift(lambda *ys: f(*[D.pt(y) for y in ys]), *xs)

        def ops(I, c, a):
            m = OPS_RX.match(c.fn.name)
            op = m.group(3)
            if op == "Neg":
                return lift(I, D.neg, a[0])
            f = D.sub if op.startswith("Sub") else D.add
            if op.endswith("Assign"):
                I.store(a[0], lift(I, f, a[0], a[1]))
                return UNIT
            return lift(I, f, a[0], a[1])

        def fml(I, c, a):
            op = FML_RX.match(c.fn.name).group(1)
            if op.startswith("double"):
                return lift(I, lambda x: D.scale(x, 2), a[0])
            return lift(I, D.add, a[0], a[1])

        def tr(I, c, a):
            op = TR_RX.match(c.fn.name).group(2)
            if op == "double":
                return lift(I, lambda x: D.scale(x, 2), a[0])
            if op == "is_identity":
                return lift(I, D.iszero, a[0])
            if op == "invert":
                return NotImplemented
            return lift(I, lambda x: x, a[0])

        def std(I, c, a):
            m = STD_RX.match(c.fn.name)
            op = m.group(2)
            if op in ("eq", "ne"):
                r = lift(I, lambda x, y: D.iszero(D.sub(x, y)), a[0], a[1])
                return r if op == "eq" else I.lift(lambda x: 1 - x, r)
            if op == "default":
                return GVal(curve_of(m.group(1)).name, {})
            return lift(I, lambda x: x, a[0])

        def mul(I, c, a):
            if not D.mul:
                return NotImplemented
            A, op, B = mul_form(c.fn.name)
            C = curve_of(A) or curve_of(B)
            if C is None:
                return NotImplemented
            x, y = (a[0], a[1]) if curve_of(A) else (a[1], a[0])
            if {A, B} - {C.aff, C.proj} != {C.scalar}:
                return NotImplemented
            r = I.lift(lambda p, s: D.scale(D.pt(p), D.val(s, C.order)), fix(I, x), fix(I, y))
            if op == "MulAssign":
                I.store(a[0], r)
                return UNIT
            return r
        return [(OPS_RX, ops), (FML_RX, fml), (TR_RX, tr), (STD_RX, std), (CONV_RX, lambda I, c, a: lift(I, lambda x: x, a[0])), (MUL_RX, mul), (LMUL_RX, mul)]

    def vec_point(self, v):
        return v


def gsession(prog, overrides=None, patterns=(), modulus=BIG, mul=False):
    D = GroupDomain(modulus, mul)
    I = Interp(prog, D, Models(overrides=overrides, patterns=list(patterns) + D.gmodels() + D.ext_models() + D.limb_models()))
    return D, I
