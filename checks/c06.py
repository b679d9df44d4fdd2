"""Subgroup membership: is_torsion_free of G1 and G2 is analysed with the point as a named group element of unknown order; the test must
compare with the identity a multiple of the point whose kernel is exactly the subgroup of order r."""
from math import gcd
from groups import *

FLOOR = 2
COF = {"G1": 1, "G2": 2 * FQ - FR}


def member(ctx, name, C):
    D, I = gsession(ctx.prog)
    P = D.gen(C, "P")
    r = I.analyse(ctx.prog.fn(name), [I.ref(P)])
    ctx.used(I)
    if r is None or I.panics:
        return "may panic"
    r = I.simp(r)
    if type(r) is int:
        if r and COF[C.name] == 1:
            return None
        return "answers %s for every point" % bool(r)
    if type(r) is not Ite or r.c[0] != "gz" or (I.simp(r.a), I.simp(r.b)) not in ((1, 0), (0, 1)):
        raise Unsupported("membership test is not a comparison with the identity")
    if I.simp(r.a) == 0:
        return "accepts exactly the points outside"
    form = dict(r.c[2][1])
    if set(form) != {"P"} or not form["P"].is_const():
        raise Unsupported("membership test is not a multiple of the point")
    k = form["P"].cval()
    if k > BIG // 2:
        k = BIG - k
    h = COF[C.name]
    if gcd(k, FR * h) != FR:
        return "tests [k]P = 0 with k = %d, whose kernel is not the subgroup of order r" % k
    return None


def run(ctx):
    for C in GCURVES[:2]:
        name = {"G1": "bn_254::G1Affine::is_torsion_free", "G2": "bn_254::G2Affine::is_torsion_free"}[C.name]
        ctx.ob(name, "kernel-is-subgroup", lambda: member(ctx, name, C))
