"""The curve constants the compiler evaluates (coefficients, generators, identities in every representation) are compared with the
published parameters of BN254 and Grumpkin; generators are verified to lie on the curve and to have the group order by integer
arithmetic in the analyser."""
from curves import *
from a02 import const

FLOOR = 20


# ------------------------------------------------- integer curve arithmetic (affine), base field Fp or Fp2 as tuples
class F2:
    def __init__(self, p, deg):
        self.p, self.deg = p, deg

    def add(self, a, b):
        return tuple((x + y) % self.p for x, y in zip(a, b))

    def sub(self, a, b):
        return tuple((x - y) % self.p for x, y in zip(a, b))

    def mul(self, a, b):
        if self.deg == 1:
            return (a[0] * b[0] % self.p,)
        return ((a[0] * b[0] - a[1] * b[1]) % self.p, (a[0] * b[1] + a[1] * b[0]) % self.p)

    def inv(self, a):
        if self.deg == 1:
            return (pow(a[0], -1, self.p),)
        n = pow(a[0] * a[0] + a[1] * a[1], -1, self.p)
        return (a[0] * n % self.p, -a[1] * n % self.p)

    def num(self, k):
        return (k % self.p,) + (0,) * (self.deg - 1)


def add_pt(F, P, Q):
    if P is None:
        return Q
    if Q is None:
        return P
    if P[0] == Q[0]:
        if F.add(P[1], Q[1]) == F.num(0):
            return None
        l = F.mul(F.mul(F.num(3), F.mul(P[0], P[0])), F.inv(F.mul(F.num(2), P[1])))
    else:
        l = F.mul(F.sub(Q[1], P[1]), F.inv(F.sub(Q[0], P[0])))
    x = F.sub(F.sub(F.mul(l, l), P[0]), Q[0])
    return x, F.sub(F.mul(l, F.sub(P[0], x)), P[1])


def mul_pt(F, k, P):
    R = None
    while k:
        if k & 1:
            R = add_pt(F, R, P)
        P = add_pt(F, P, P)
        k >>= 1
    return R


G2X = (0x1800deef121f1e76426a00665e5c4479674322d4f75edadd46debd5cd992f6ed,
       0x198e9393920d483a7260bfb731fb5d25f1aa493335a9e71297e485b7aef312c2)
G2Y = (0x12c85ea5db8c6deb4aab71808dcb408fe3d1e7690c43d37b4ce6cc0166fa7daa,
       0x090689d0585ff075ec9e99ad690c3395bc4b313370b38ef355acdadcd122975b)
N82 = pow(82, -1, FQ)
SPEC = {
    "g1": dict(p=FQ, deg=1, b=(3,), gen=((1,), (2,)), order=FR),
    "g2": dict(p=FQ, deg=2, b=(27 * N82 % FQ, -3 * N82 % FQ), gen=(G2X, G2Y), order=FR),
    "gk": dict(p=FR, deg=1, b=((-17) % FR,), gen=((1,), (17631683881184975370165255887551781615748388533673675138860,)), order=FQ),
}


def ints(D, prog, v, p):
    return tuple(c.cval() for c in coeffs(D, prog, v, p))


def canonical(I, v, p):
    """every limb array inside v is below p"""
    v = I.simp(v)
    if type(v) is Agg:
        return all(canonical(I, x, p) for x in v.f)
    if type(v) is Arr:
        e = [I.simp(x) for x in v.e]
        if e and all(type(x) is int for x in e):
            return sum(x << (64 * i) for i, x in enumerate(e)) < p
        return all(canonical(I, x, p) for x in e)
    return True


def run(ctx):
    for k, s in SPEC.items():
        F = F2(s["p"], s["deg"])
        p = s["p"]

        def point(name):
            """affine integer coordinates of a constant point"""
            D, I, r = const(ctx, "%s::%s" % (k, name))
            T = ctx.prog.types[r.tid]
            names = [f[0] for f in T["vs"][0][1]]
            f = {n: r.f[i] for i, n in enumerate(names)}
            c = {n: ints(D, ctx.prog, f[n], p) for n in names if n != "is_infinity"}
            if "is_infinity" in f:
                return None if I.simp(f["is_infinity"]) else (c["x"], c["y"])
            if c["z"] == F.num(0):
                return None
            i = F.inv(c["z"])
            return F.mul(c["x"], i), F.mul(c["y"], i)

        def coefficient(name, want):
            def go():
                D, I, r = const(ctx, "%s::%s" % (k, name))
                if not canonical(I, r, p):
                    return "limbs are not reduced"
                v = ints(D, ctx.prog, r, p)
                return None if v == want else "value %s, expected %s" % (v, want)
            ctx.ob("%s::%s" % (k, name), "published-coefficient", go)

        def generator(name):
            def go():
                g = point(name)
                if g is None:
                    return "the generator is the identity"
                x, y = g
                if F.mul(y, y) != F.add(F.mul(x, F.mul(x, x)), s["b"]):
                    return "the generator is not on the curve"
                if mul_pt(F, s["order"], g) is not None:
                    return "the generator does not have the group order"
                if g != s["gen"]:
                    return "not the published generator"
                return None
            ctx.ob("%s::%s" % (k, name), "generator", go)

        def identity(name):
            def go():
                return None if point(name) is None else "the identity constant denotes a finite point"
            ctx.ob("%s::%s" % (k, name), "identity", go)
        b3 = F.mul(F.num(3), s["b"])
        for r in ("a", "p"):
            coefficient(r + "_b", s["b"])
            coefficient(r + "_b3", b3)
            generator(r + "_generator")
            identity(r + "_identity")

        def agree():
            return None if point("a_generator") == point("p_generator") else "affine and projective generators differ"
        ctx.ob("%s::generators" % k, "same-point", agree)
    def scal(name, p, want):
        def go():
            D, I, r = const(ctx, name)
            v = ints(D, ctx.prog, r, p)
            return None if v == (want,) else "value %s" % (v,)
        ctx.ob(name, "published-coefficient", go)
    scal("b3", FQ, 9)

    def bnx():
        D, I, r = const(ctx, "bn_x")
        if r != BN_X:
            return "BN parameter %r" % (r,)
        x = r
        if 36 * x ** 4 + 36 * x ** 3 + 24 * x ** 2 + 6 * x + 1 != FQ or 36 * x ** 4 + 36 * x ** 3 + 18 * x ** 2 + 6 * x + 1 != FR:
            return "the BN polynomials do not give the moduli"
        return None
    ctx.ob("bn_x", "bn-parameter", bnx)

    def sign():
        D, I, r = const(ctx, "bn_x_neg")
        return None if r == 0 else "the BN parameter is published as negative"
    ctx.ob("bn_x_neg", "bn-parameter", sign)
