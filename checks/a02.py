"""The constants the compiler evaluates for every field (modulus, Montgomery inverse, identities, R-derived
values seen through one(), generators, roots of unity, two-adicity, the ff-crate constants, the
Frobenius coefficients through the maps) are compared with their number-theoretic definition."""
from fields import *

FLOOR = 40
# q-1 and r-1 factored; the check verifies the product
FACT = {FR: {2: 28, 3: 2, 13: 1, 29: 1, 983: 1, 11003: 1, 237073: 1, 405928799: 1, 1670836401704629: 1,
             13818364434197438864469338081: 1},
        FQ: {2: 1, 3: 2, 13: 1, 29: 1, 67: 1, 229: 1, 311: 1, 983: 1, 11003: 1, 405928799: 1, 11465965001: 1,
             13427688667394608761327070753331941386769: 1}}


def const(ctx, name):
    D, I = session(ctx.prog)
    r = I.analyse(ctx.prog.fn("verif_roots::k::" + name), [])
    ctx.used(I)
    if r is None:
        raise Unsupported("constant diverges")
    return D, I, I.simp(r)


def raw(I, v):
    v = I.simp(v)
    while type(v) is Agg and len(v.f) == 1:
        v = I.simp(v.f[0])
    return sum(I.simp(x) << (64 * i) for i, x in enumerate(v.e))


def val(ctx, name, p):
    """integer value of a Montgomery constant; also requires canonical limbs"""
    D, I, r = const(ctx, name)
    k = raw(I, r)
    if k >= p:
        return None, "limbs 0x%x are not below the modulus" % k
    return k * pow(D.R(p), -1, p) % p, None


def tval(ctx, name, p):
    D, I, r = const(ctx, name)
    return [c.cval() for c in coeffs(D, ctx.prog, r, p)]


def primroot(g, p):
    n = 1
    for q, e in FACT[p].items():
        n *= q ** e
    if n != p - 1:
        raise Unsupported("factorisation of p-1")
    for q in FACT[p]:
        if pow(g, (p - 1) // q, p) == 1:
            return "%d does not generate the multiplicative group (its order divides (p-1)/%d)" % (g, q)
    return None


def run(ctx):
    def ob(name, rule, f):
        ctx.ob(name, rule, f)

    def eqv(name, p, want):
        def go():
            v, e = val(ctx, name, p)
            if e:
                return e
            return None if v == want % p else "value is %d, expected %d" % (v, want % p)
        ob(name, "value", go)

    def scal(name, want):
        def go():
            D, I, r = const(ctx, name)
            return None if r == want else "%r, expected %r" % (r, want)
        ob(name, "value", go)

    for f, p in (("fr", FR), ("fq", FQ)):
        def modulus():
            D, I, r = const(ctx, f + "::modulus")
            k = raw(I, r)
            return None if k == p else "0x%x" % k
        ob(f + "::modulus", "value", modulus)
        scal(f + "::inv", (-pow(p, -1, 1 << 64)) % (1 << 64))
        eqv(f + "::add_identity", p, 0)
        eqv(f + "::mul_identity", p, 1)
        eqv(f + "::ff_zero", p, 0)
        eqv(f + "::ff_one", p, 1)
        eqv(f + "::ff_two_inv", p, pow(2, -1, p))

        def addgen():
            v, e = val(ctx, f + "::add_generator", p)
            return e or (None if v else "zero does not generate the additive group")
        ob(f + "::add_generator", "generator", addgen)

        def mod_str():
            D, I, r = const(ctx, f + "::ff_modulus")
            return None if type(r) is StrV and int(r.s, 16) == p else "ff modulus %r" % (r,)
        ob(f + "::ff_modulus", "value", mod_str)
        scal(f + "::ff_num_bits", p.bit_length())
        scal(f + "::ff_capacity", p.bit_length() - 1)
        s = FACT[p][2]
        scal(f + "::ff_s", s)
        t = (p - 1) >> s

        def gen():
            v, e = val(ctx, f + "::ff_generator", p)
            return e or primroot(v, p)
        ob(f + "::ff_generator", "generator", gen)

        def root():
            v, e = val(ctx, f + "::ff_root", p)
            if e:
                return e
            g, e = val(ctx, f + "::ff_generator", p)
            if pow(v, 1 << s, p) != 1 or pow(v, 1 << (s - 1), p) == 1:
                return "not a primitive 2^%d-th root of unity" % s
            return None if v == pow(g, t, p) else "root of unity is not generator^t"
        ob(f + "::ff_root", "root-of-unity", root)

        def rooti():
            v, e = val(ctx, f + "::ff_root", p)
            w, e2 = val(ctx, f + "::ff_root_inv", p)
            return e or e2 or (None if v * w % p == 1 else "not the inverse of the root of unity")
        ob(f + "::ff_root_inv", "root-of-unity", rooti)

        def delta():
            v, e = val(ctx, f + "::ff_delta", p)
            g, e2 = val(ctx, f + "::ff_generator", p)
            return e or e2 or (None if v == pow(g, 1 << s, p) else "delta is not generator^(2^s)")
        ob(f + "::ff_delta", "generator", delta)
    scal("fr_s", 28)
    scal("fr_two_adacity", 28)
    for nm in ("fr_root", "fr_pub_root"):
        def root2():
            v, e = val(ctx, nm, FR)
            if e:
                return e
            g, e = val(ctx, "fr_generator", FR)
            if pow(v, 1 << 28, FR) != 1 or pow(v, 1 << 27, FR) == 1:
                return "not a primitive 2^28-th root of unity"
            return None if pow(g, (FR - 1) >> 28, FR) == v else "root of unity is not generator^t"
        ob(nm, "root-of-unity", root2)
    for nm in ("fr_generator", "fr_pub_generator"):
        def gen2():
            v, e = val(ctx, nm, FR)
            return e or primroot(v, FR)
        ob(nm, "generator", gen2)
    for f, n in (("fq2", 2), ("fq6", 6), ("fq12", 12)):
        for k, want in (("add_identity", [0] * n), ("mul_identity", [1] + [0] * (n - 1))):
            def go():
                v = tval(ctx, "%s::%s" % (f, k), FQ)
                return None if v == want else "%r" % (v,)
            ob("%s::%s" % (f, k), "value", go)
