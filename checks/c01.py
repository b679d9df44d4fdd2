"""Addition, subtraction and doubling of Weierstrass points: every operator impl over affine and projective
operands of G1, G2 and Grumpkin is analysed for symbolic curve points in each relation (generic, equal, opposite, identity on
either side, both identity) and the result is compared, as a rational function on the curve, with the chord-and-tangent law."""
from curves import *

FLOOR = 60
RX = re.compile(r"^<(&?)([\w:]+) as std::ops::(Add|Sub|AddAssign|SubAssign)(?:<(&?)([\w:]+)>)?>::(\w+)$")
RELS = ("generic", "same", "opposite", "id+Q", "P+id", "id+id")


def one_call(ctx, f, C, mk, assign=False):
    D, I = csession(ctx.prog)
    S = Pts(D, ctx.prog, C)
    vals, want, kind = mk(S)
    args = [wrap_arg(I, ctx.prog, f.locals[1 + i], v) for i, v in enumerate(vals)]
    r = I.analyse(f, args)
    ctx.used(I)
    for x in I.panics:
        if S.feasible(x.facts):
            return "may panic: %s" % x
    if r is None:
        return "always panics"
    if assign:
        r = I.load(args[0])
        while type(r) is Ptr:
            r = I.load(r)
    n = 0
    for facts, leaf in leaves(I, r):
        if not S.feasible(facts):
            continue
        n += 1
        d = S.same(kind, leaf, want, facts)
        if d:
            return d
    if not n:
        raise Unsupported("no feasible result")
    return None


def binary(ctx, f, C, ta, tb, sub, assign, rels=RELS):
    bad = None
    for rel in rels:
        def mk(S):
            P, Q = S.pair(rel)
            va = S.point(kind_of(C, ta), P, "1")
            vb = S.point(kind_of(C, tb), Q, "2")
            rr = rel
            if sub:
                Q = None if Q is None else (Q[0], -Q[1])
                rr = {"same": "opposite", "opposite": "same"}.get(rel, rel)
            return (va, vb), S.law(P, Q, rr), "p"
        d = one_call(ctx, f, C, mk, assign)
        if d:
            return "%s operands: %s" % (rel, d)
    return None


def unary(ctx, f, C, ta, fn, kind):
    for P0 in ("pt", "id"):
        def mk(S):
            P = None
            if P0 == "pt":
                x = S.var("x1")
                P = (x, S.curve_y("y1", x))
            return (S.point(kind_of(C, ta), P, "1"),), fn(S, P), kind
        d = one_call(ctx, f, C, mk)
        if d:
            return "%s: %s" % ("identity" if P0 == "id" else "finite point", d)
    return None


def run(ctx):
    prog = ctx.prog
    for C in CURVES:
        for name in sorted(prog.by_name):
            m = RX.match(name)
            if not m or m.group(2) not in (C.aff, C.proj):
                continue
            tb = m.group(5) or m.group(2)
            if tb not in (C.aff, C.proj):
                continue
            f = prog.fn(name)
            op = m.group(3)
            ctx.ob(name, "chord-and-tangent", lambda: binary(ctx, f, C, m.group(2), tb, op.startswith("Sub"), op.endswith("Assign")))
        for name, ty in (("<%s as zkstd::common::BNAffine>::double" % C.aff, C.aff),
                         ("<%s as zkstd::common::BNProjective>::double" % C.proj, C.proj)):
            ctx.ob(name, "chord-and-tangent", lambda: unary(ctx, prog.fn(name), C, ty, lambda S, P: S.dbl(P), "p"))
        name = "verif_roots::sums::" + C.name.lower()
        ctx.ob(name, "iterator-sum", lambda: iter_sum(ctx, name, C))


def iter_sum(ctx, name, C):
    """sum() over points is the sum of all of them (0 to 3 elements)"""
    import groups
    G = next(g for g in groups.GCURVES if g.name == C.name)
    for n in range(4):
        D, I = groups.gsession(ctx.prog)
        ps = [D.gen(G, "P%d" % i) for i in range(n)]
        a = I.ref(Arr(tuple(ps)))
        r = I.analyse(ctx.prog.fn(name), [Ptr(a.cell, a.path, 0, n)])
        ctx.used(I)
        if I.panics or r is None:
            return "may panic"
        want = groups.GVal(C.name, {})
        for q in ps:
            want = D.add(want, q)
        if D.pt(r) != want:
            return "sum of %d points is %r" % (n, D.pt(r))
    return None
