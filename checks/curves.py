"""Shared helpers of the curve checks: points over an abstract base field."""
from fields import *

FQ2 = "bn_254::Fq2"


class Ext:
    """element of Fq2 as a polynomial over Fq in which the atom U stands for u (u^2 = -1)"""
    __slots__ = ("poly",)

    def __init__(self, poly):
        self.poly = poly

    def __eq__(self, o):
        return type(o) is Ext and self.poly == o.poly

    def __hash__(self):
        return hash(("Ext", self.poly))

    def __repr__(self):
        return "Ext(%s)" % self.poly.show()


FQ2_RX = re.compile(r"^<&?(?:mut )?bn_254::Fq2 as ([\w:]+?)(?:<.*>)?>::(\w+)$")


class CurveDomain(FieldDomain):
    """FieldDomain in which Fq2 is one ring: its operations are summarised (A03, A04, A06 decide them)"""

    def u(self):
        return self.atom(("U", FQ), "u")

    def red(self, d):
        """normal form with respect to u^2 = -1"""
        if d.p == FQ and ("U", FQ) in self.intern:
            u = self.u()
            return rewrite_(d, [((u, u), Poly.const(-1, FQ))])
        return d

    def poly2(self, v):
        """polynomial of an Fq2 value"""
        v = self.I.simp(v)
        if type(v) is Ptr:
            return self.poly2(self.I.load(v))
        if type(v) is Ext:
            return v.poly
        if type(v) is Agg:
            a = self.I.simp(v.f[0])
            e = self.I.elems(a)
            c = [self.val(x, FQ) for x in e]
            if c[1].is_zero():
                return c[0]
            return c[0] + c[1] * Poly.var(self.u(), FQ)
        raise Unsupported("Fq2 value expected, got %s" % type(v).__name__)

    def nonzero(self, d, nf):
        if FieldDomain.nonzero(self, d, nf):
            return True
        if d.is_const():
            return not d.is_zero()
        us = {self.intern.get(("U", FQ))}
        mono, rest = content_(monic(d))
        if all(self.nz_atom(a, nf) for a in set(mono) if a not in us) and rest.atoms() <= us and not rest.is_zero():
            return True
        return False

    def eq(self, a, b):
        if type(a) in (Ext,) or type(b) in (Ext,):
            return self.zgate(self.poly2(a) - self.poly2(b))
        return FieldDomain.eq(self, a, b)

    def zgate(self, d):
        d = self.red(d)
        if self.nonzero(d, []):
            return 0
        c = self.zcond(d)
        return c if type(c) is int else Ite(c, 1, 0)

    def ext_models(self):
        D = self

        def val(I, v):
            v = I.simp(v)
            while type(v) is Ptr:
                v = I.load(v)
            return v

        def m(I, c, a):
            g = FQ2_RX.match(c.fn.name)
            tr, op = g.group(1).split("::")[-1], g.group(2)
            if tr in ("Debug", "Encode", "Decode", "Serialize"):
                return NotImplemented

            def res(f, *xs):
                return I.lift(lambda *ys: Ext(D.red(f(*[D.poly2(y) for y in ys]))), *xs)
            B = {"add": lambda x, y: x + y, "sub": lambda x, y: x - y, "mul": lambda x, y: x * y}
            U = {"neg": lambda x: -x, "double": lambda x: x.scale(2), "square": lambda x: x * x}
            if op in B and len(a) == 2:
                return res(B[op], val(I, a[0]), val(I, a[1]))
            if op.replace("_assign", "") in B and op.endswith("_assign"):
                I.store(a[0], res(B[op[:-7]], val(I, a[0]), val(I, a[1])))
                return UNIT
            if op in U:
                return res(U[op], val(I, a[0]))
            if op.replace("_assign", "") in U and op.endswith("_assign"):
                I.store(a[0], res(U[op[:-7]], val(I, a[0])))
                return UNIT
            if op in ("zero", "one") and not a:
                return Ext(Poly.const(int(op == "one"), FQ))
            if op == "clone":
                return val(I, a[0])
            if op in ("eq", "ne"):
                r = I.lift(lambda x, y: D.zgate(D.poly2(x) - D.poly2(y)), val(I, a[0]), val(I, a[1]))
                return r if op == "eq" else I.lift(lambda x: 1 - x, r)
            if op == "is_zero":
                return I.lift(lambda x: D.zgate(D.poly2(x)), val(I, a[0]))
            if op == "invert":
                def inv(x):
                    d = D.red(D.poly2(x))
                    g = D.zgate(d)
                    i = Ext(D.inv2(d))
                    if type(g) is int:
                        return NONE if g else some(i)
                    return Ite(g.c, NONE, some(i))
                return I.lift(inv, val(I, a[0]))
            return NotImplemented
        return [(FQ2_RX, m)]

    def inv2(self, d):
        u = self.intern.get(("U", FQ))
        if d.is_const() or u not in d.atoms():
            return self.inv_poly(d)
        mono, rest = content_(d)
        if rest.atoms() == {u}:
            c = rest.collect(u)
            c0 = c.get(0, Poly.const(0, FQ)).cval()
            c1 = c.get(1, Poly.const(0, FQ)).cval()
            n = pow(c0 * c0 + c1 * c1, -1, FQ)
            r = Poly.const(c0 * n, FQ) - Poly.var(u, FQ).scale(c1 * n)
            m = Poly({mono: 1}, FQ)
            return r if not mono else r * self.inv_poly(m)
        return self.keyed(FQ, "inv", d)


from field import content as content_, rewrite as rewrite_


def csession(prog, overrides=None, patterns=()):
    D = CurveDomain()
    I = Interp(prog, D, Models(overrides=overrides, patterns=list(patterns) + D.ext_models() + D.limb_models()))
    return D, I


class Curve:
    def __init__(self, name, aff, proj, base, p, scalar, order):
        self.name, self.aff, self.proj, self.base, self.p = name, aff, proj, base, p
        self.scalar, self.order = scalar, order

    def b(self, D):
        if self.base == FQ2:
            # 3/(9+u)
            n = pow(82, -1, FQ)
            return Poly.const(27 * n, FQ) - Poly.var(D.u(), FQ).scale(3 * n)
        return Poly.const(3 if self.p == FQ else -17, self.p)


CURVES = [Curve("G1", "bn_254::G1Affine", "bn_254::G1Projective", "bn_254::Fq", FQ, "bn_254::Fr", FR),
          Curve("G2", "bn_254::G2Affine", "bn_254::G2Projective", FQ2, FQ, "bn_254::Fr", FR),
          Curve("Grumpkin", "grumpkin::Affine", "grumpkin::Projective", "bn_254::Fr", FR, "bn_254::Fq", FQ)]


class Pts:
    """symbolic points of one curve in one session"""

    def __init__(self, D, prog, C):
        self.D, self.prog, self.C, self.p = D, prog, C, C.p
        self.rules = []
        if C.base == FQ2:
            u = D.u()
            self.rules.append(((u, u), Poly.const(-1, FQ)))

    def nz(self, n):
        return Poly.var(self.D.atom(("nz", n, self.p), n), self.p)

    def var(self, n):
        return self.D.var(n, self.p)

    def mono(self, v):
        """the atom of a variable"""
        (a,) = v.atoms()
        return a

    def curve_y(self, n, x):
        """a y with y^2 = x^3 + b (never zero: the curves have odd order)"""
        a = self.D.atom(("nz", n, self.p), n)
        self.rules.append(((a, a), x * x * x + self.C.b(self.D)))
        return Poly.var(a, self.p)

    def elem(self, poly):
        if self.C.base == FQ2:
            return Ext(self.D.red(poly))
        return self.D.elem(self.prog.ty(self.C.base), self.p, poly)

    def struct(self, ty, **kw):
        t = self.prog.ty(ty)
        names = [f[0] for f in self.prog.types[t]["vs"][0][1]]
        if sorted(names) != sorted(kw):
            raise Unsupported("%s has fields %s" % (ty, names))
        return Agg(t, 0, tuple(kw[n] for n in names))

    def affine(self, x, y, inf=0):
        return self.struct(self.C.aff, x=self.elem(x), y=self.elem(y), is_infinity=inf)

    def proj(self, x, y, z):
        return self.struct(self.C.proj, x=self.elem(x), y=self.elem(y), z=self.elem(z))

    def point(self, kind, pt, tag):
        """representation of a point: pt is None (identity) or (x, y) affine coordinates"""
        if kind == "a":
            if pt is None:
                return self.affine(self.var("xi" + tag), self.nz("yi" + tag), 1)
            return self.affine(pt[0], pt[1])
        if pt is None:
            return self.proj(Poly.const(0, self.p), self.nz("yi" + tag), Poly.const(0, self.p))
        z = self.nz("z" + tag)
        return self.proj(pt[0] * z, pt[1] * z, z)

    def get(self, v, field):
        """field polynomial of a struct value"""
        v = self.D.I.simp(v)
        T = self.prog.types[v.tid]
        names = [f[0] for f in T["vs"][0][1]]
        x = self.D.I.simp(v.f[names.index(field)])
        if field == "is_infinity":
            return x
        if self.C.base == FQ2:
            return self.D.poly2(x)
        return self.D.val(x, self.p)

    def zero(self, d, facts=None):
        return self.D.zero(d, facts, self.rules)

    def feasible(self, facts):
        return not self.D.zero(Poly.const(1, self.p), facts, self.rules)

    def nonzero(self, d, facts):
        ns = [k[2] for k, v in facts.items() if k[0] == "z" and k[1] == self.p and not v]
        ns = ns + [rewrite_(n, self.rules) for n in ns]
        return self.D.nonzero(d, ns) or self.D.nonzero(rewrite_(d, self.rules), ns)

    def same(self, kind, v, want, facts):
        """None when the representation v of the given kind denotes want: None (identity) or
        (xn, xd, yn, yd) with nonzero denominators"""
        w = show_facts(self.D, facts)
        x, y = self.get(v, "x"), self.get(v, "y")
        if kind == "a":
            inf = self.get(v, "is_infinity")
            if type(inf) is not int:
                raise Unsupported("identity flag %r" % (inf,))
            if want is None:
                return None if inf else "a finite point, expected the identity" + w
            if inf:
                return "the identity, expected a finite point" + w
            z = Poly.const(1, self.p)
        else:
            z = self.get(v, "z")
            if want is None:
                if self.zero(z, facts):
                    return None
                if self.nonzero(z, facts):
                    return "a finite point, expected the identity" + w
                return "z coordinate %s, expected the identity%s" % (z.show(self.D.names, 5), w)
            if self.zero(z, facts):
                return "z coordinate is zero, expected a finite point" + w
        xn, xd, yn, yd = want
        if not self.zero(x * xd - xn * z, facts):
            return "x coordinate is not that of the group law%s" % w
        if not self.zero(y * yd - yn * z, facts):
            return "y coordinate is not that of the group law%s" % w
        if kind != "a" and not self.nonzero(z, facts):
            raise Unsupported("z coordinate not shown to be nonzero%s" % w)
        return None

    def law(self, P, Q, rel):
        """P + Q for rel in generic (x differ by the nonzero d), same, opposite"""
        one = Poly.const(1, self.p)
        fin = lambda R: (R[0], one, R[1], one)
        if P is None and Q is None:
            return None
        if P is None:
            return fin(Q)
        if Q is None:
            return fin(P)
        if rel == "opposite":
            return None
        if rel == "same":
            return self.dbl(P)
        dx, dy = Q[0] - P[0], Q[1] - P[1]
        xn = dy * dy - dx * dx * (P[0] + Q[0])
        xd = dx * dx
        return xn, xd, dy * (P[0] * xd - xn) - P[1] * dx * xd, dx * xd

    def dbl(self, P):
        if P is None:
            return None
        x, y = P
        xn = (x * x * x * x).scale(9) - (x * y * y).scale(8)
        xd = (y * y).scale(4)
        return xn, xd, (x * x).scale(3) * (x * xd - xn) - (y * y * y * y).scale(8), (y * y * y).scale(8)

    def pair(self, rel):
        """affine coordinates of P, Q in the relation"""
        if rel == "id+id":
            return None, None
        x = self.var("x1")
        P = (x, self.curve_y("y1", x))
        if rel == "id+Q":
            return None, P
        if rel == "P+id":
            return P, None
        if rel == "same":
            return P, P
        if rel == "opposite":
            return P, (P[0], -P[1])
        d = self.nz("d")
        x2 = x + d
        return P, (x2, self.curve_y("y2", x2))


def kind_of(C, ty):
    return "a" if ty == C.aff else "p"
