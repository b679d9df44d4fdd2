"""The extension tower Fq2 = Fq[u]/(u^2+1), Fq6 = Fq2[v]/(v^3-(9+u)), Fq12 = Fq6[w]/(w^2-v): for symbolic
operands (all inputs at once) the coefficients computed by squaring, the sparse products, the
non-residue products, conjugation, every power of the Frobenius map and inversion are compared, as
polynomials over Fq, with the definition of the tower."""
from fields import *

FLOOR = 30
Z = lambda n: [Poly.const(0, FQ)] * n


def call(ctx, name, argtypes, extra=(), overrides=None):
    prog = ctx.prog
    f = prog.fn(name)
    D, I = session(prog, overrides=overrides)
    args, cs = [], []
    for i, ty in enumerate(argtypes):
        v, c = symbolic(D, prog, prog.ty(ty), "abcd"[i])
        args.append(wrap_arg(I, prog, f.locals[1 + i], v))
        cs.append(c)
    args += list(extra)
    r = I.analyse(f, args)
    ctx.used(I)
    return D, I, r, cs


def method(ctx, name, argtypes, spec, extra=()):
    D, I, r, cs = call(ctx, name, argtypes, extra)
    bad = panic_report(I)
    if bad:
        return bad
    if r is None:
        return "always panics"
    want = spec(*cs)
    for facts, leaf in leaves(I, r):
        d = differ(D, coeffs(D, ctx.prog, leaf, FQ), want, facts)
        if d:
            return d
    return None


_FROB = {}


def frob_basis(n):
    """images of the basis of the degree-n field under x -> x^q, as integer vectors"""
    if n not in _FROB:
        out = []
        for i in range(n):
            e = [1 if j == i else 0 for j in range(n)]
            out.append(tpow_const(e, FQ))
        _FROB[n] = out
    return _FROB[n]


def frobenius(a, k):
    n = len(a)
    B = frob_basis(n)
    for _ in range(k):
        r = Z(n)
        for i in range(n):
            for j in range(n):
                if B[i][j]:
                    r[j] = r[j] + a[i].scale(B[i][j])
        a = r
    return a


def conj(a):
    h = len(a) // 2
    return list(a[:h]) + [-x for x in a[h:]]


def norm(a):
    """norm to the next lower level of the tower"""
    n = len(a)
    if n == 2:
        return [a[0] * a[0] + a[1] * a[1]]
    if n == 12:
        return tsub(tmul(a[:6], a[:6]), mul_v(tmul(a[6:], a[6:])))
    A, B, C = a[:2], a[2:4], a[4:]
    t = tmul(A, tmul(A, A))
    t = tadd(t, mul_xi(tmul(B, tmul(B, B))))
    t = tadd(t, mul_xi(mul_xi(tmul(C, tmul(C, C)))))
    return tsub(t, [x.scale(3) for x in mul_xi(tmul(A, tmul(B, C)))])


LOWER = {2: ("bn_254::Fq", 1), 6: ("bn_254::Fq2", 2), 12: ("bn_254::Fq6", 6)}


def inversion(ctx, name, ty, n):
    """the inverse of the level below is summarised by: None iff its argument t is zero, else some u with t*u = 1
    (established by the obligation one level down); the result must be R with self*R = N(self)*u"""
    prog = ctx.prog
    lo, m = LOWER[n]
    seen, seen0 = [], []

    def summary(I, c, args):
        D = I.dom
        v = I.simp(args[0])
        if type(v) is Ptr:
            v = I.load(v)
        t = coeffs(D, prog, v, FQ)
        for t0, r in seen0:
            if t0 == t:
                return r
        val, u = symbolic(D, prog, prog.ty(lo), "u%d_" % len(seen))
        cond = D.zcond(t[0]) if m == 1 else ("tz", tuple(t))
        seen.append((t, u, cond))
        r = (NONE if cond else some(val)) if type(cond) is int else Ite(cond, NONE, some(val))
        seen0.append((t, r))
        return r
    names = ["<%s as zkstd::common::Group>::invert" % lo, "%s::get_invert" % lo]
    D, I, r, (a,) = call(ctx, name, [ty], overrides={k: summary for k in names if prog.has(k)})
    N = norm(a)
    if r is None:
        return "always panics"
    if len(seen) != 1:
        raise Unsupported("%d inversions of the lower level" % len(seen))
    t, u, cond = seen[0]
    if any((x - y).t for x, y in zip(t, N)):
        raise Unsupported("inversion not through the norm")
    for x in I.panics:
        # N(self) = 0 only for self = 0 (the tower is a field); the panic is real only if reachable at self = 0
        if not x.facts.get(cond):
            return "may panic: %s" % x
        if all(z.subst({q: Poly.const(0, FQ) for q in z.atoms()}).is_zero() == v for z, v in
               ((k[2], v) for k, v in x.facts.items() if k[0] == "z")):
            return "inverting zero panics: %s" % x
    saw = set()
    for facts, leaf in leaves(I, r):
        zero_ok = all(z.subst({q: Poly.const(0, FQ) for q in z.atoms()}).is_zero() == v for z, v in
                      ((k[2], v) for k, v in facts.items() if k[0] == "z" and k != cond))
        isz = facts.get(cond)
        iself = all(D.zero(x, facts) for x in a)
        if leaf.v == 0:
            saw.add("none")
            if isz or iself:
                continue
            return "None for an invertible element%s" % show_facts(D, facts)
        saw.add("some")
        if iself or (isz and zero_ok):
            return "Some for zero"
        if isz:
            continue
        got = coeffs(D, prog, leaf.f[0], FQ)
        d = differ(D, tmul(a, got), tmul(list(N) + Z(n - m) if n != 6 else list(N) + Z(4), list(u) + Z(n - m)), facts)
        if d:
            return "self * result is not one: " + d
    if saw != {"none", "some"}:
        return "result is always %s" % saw
    return None


def irreducible(ctx):
    if FQ % 4 != 3:
        return "-1 is a square in Fq"
    xi = [9, 1]
    if tpow_const(xi, (FQ * FQ - 1) // 2) == [1, 0] or tpow_const(xi, (FQ * FQ - 1) // 3) == [1, 0]:
        return "9+u is a square or a cube"
    return None


def fq2_embed(parts, n):
    r = Z(n)
    for pos, c in parts.items():
        r[2 * pos], r[2 * pos + 1] = c
    return r


def run(ctx):
    F2, F6, F12 = "bn_254::Fq2", "bn_254::Fq6", "bn_254::Fq12"
    T = (("bn_254::Fq2", 2), ("bn_254::Fq6", 6), ("bn_254::Fq12", 12))
    ctx.ob("tower definition", "irreducibility", lambda: irreducible(ctx))

    def m(name, tys, spec, extra=(), tag=""):
        if ctx.prog.has(name):
            ctx.ob(name + tag, "tower-definition", lambda: method(ctx, name, tys, spec, extra))
    for t, n in T:
        for op, spec in (("mul_ext_field", tmul),):
            m("%s::%s" % (t, op), [t, t], spec)
        m("%s::square_ext_field" % t, [t], lambda a: tmul(a, a))
        m("%s::frobenius_map" % t, [t], lambda a: frobenius(a, 1))
        for k in range(0, 25 if ctx.thorough() else 14):
            m("%s::frobenius_maps" % t, [t], lambda a: frobenius(a, k), (k,), " power %d" % k)
        nm = "<%s as zkstd::common::Group>::invert" % t
        ctx.ob(nm, "inverse", lambda: inversion(ctx, nm, t, n))
    m("bn_254::Fq2::mul_by_nonres", [F2], mul_xi)
    m("bn_254::Fq6::mul_by_nonres", [F6], mul_v)
    m("bn_254::Fq2::conjugate", [F2], conj)
    m("bn_254::Fq12::conjugate", [F12], conj)
    m("bn_254::Fq6::mul_by_1", [F6, F2], lambda a, c: tmul(a, fq2_embed({1: c}, 6)))
    m("bn_254::Fq6::mul_by_01", [F6, F2, F2], lambda a, c, d: tmul(a, fq2_embed({0: c, 1: d}, 6)))
    m("bn_254::Fq12::mul_by_034", [F12, F2, F2, F2], lambda a, c, d, e: tmul(a, fq2_embed({0: c, 3: d, 4: e}, 12)))
