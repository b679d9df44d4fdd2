"""Representations of Weierstrass points: conversions between affine and projective form, negation, equality, identity and
curve-membership tests, constructors and accessors of G1, G2 and Grumpkin are analysed for symbolic points (finite, identity, equal,
opposite, unrelated; arbitrary coordinates for membership) and compared with the point they denote."""
from curves import *
from c01 import one_call
from limb import IE

FLOOR = 60


def fin(S, P):
    one = Poly.const(1, S.p)
    return None if P is None else (P[0], one, P[1], one)


def each(ctx, name, C, ta, out, kind, unwrap=False, ids=True):
    prog = ctx.prog
    f = prog.fn(name)
    for P0 in (("pt", "id") if ids else ("pt",)):
        D, I = csession(prog)
        S = Pts(D, prog, C)
        P = None
        if P0 == "pt":
            x = S.var("x1")
            P = (x, S.curve_y("y1", x))
        v = S.point(kind_of(C, ta), P, "1")
        r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], v)])
        ctx.used(I)
        w = "identity" if P is None else "finite point"
        for x in I.panics:
            if S.feasible(x.facts):
                return "%s: may panic: %s" % (w, x)
        if r is None:
            return w + ": always panics"
        for facts, leaf in leaves(I, r):
            if not S.feasible(facts):
                continue
            if unwrap:
                if leaf.v == 0:
                    return w + ": none"
                leaf = leaf.f[0]
            d = S.same(kind, leaf, out(S, P), facts)
            if d:
                return "%s: %s" % (w, d)
    return None


def equality(ctx, name, C, ty):
    prog = ctx.prog
    f = prog.fn(name)
    for rel in ("generic", "same", "opposite", "id+Q", "P+id", "id+id"):
        D, I = csession(prog)
        S = Pts(D, prog, C)
        P, Q = S.pair(rel)
        a, b = S.point(kind_of(C, ty), P, "1"), S.point(kind_of(C, ty), Q, "2")
        r = I.analyse(f, [I.ref(a), I.ref(b)])
        ctx.used(I)
        for x in I.panics:
            if S.feasible(x.facts):
                return "%s: may panic: %s" % (rel, x)
        want = int(rel in ("same", "id+id"))
        for facts, leaf in leaves(I, r):
            if not S.feasible(facts):
                continue
            if type(leaf) is not int:
                raise Unsupported("boolean expected")
            if leaf != want:
                return "%s points compare %s%s" % (rel, "equal" if leaf else "different", show_facts(D, facts))
    return None


def membership(ctx, name, C, ty):
    prog = ctx.prog
    f = prog.fn(name)
    for case in ("id", "pt"):
        D, I = csession(prog)
        S = Pts(D, prog, C)
        x, y = S.var("x"), S.var("y")
        P = None if case == "id" else (x, y)
        v = S.point(kind_of(C, ty), P, "1")
        r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], v)])
        ctx.used(I)
        E = y * y - x * x * x - C.b(D)
        for facts, leaf in leaves(I, r):
            if not S.feasible(facts):
                continue
            if case == "id":
                if leaf != 1:
                    return "the identity is rejected"
                continue
            if leaf == 1:
                if not S.zero(E, facts):
                    return "accepts points off the curve%s" % show_facts(D, facts)
            else:
                rule = S.rules + [((S.mono(y), S.mono(y)), x * x * x + C.b(D))]
                if any(D.zero(k[2], facts, rule) for k, val in facts.items() if k[0] == "z" and k[1] == S.p and not val):
                    continue
                if not D.zero(Poly.const(1, S.p), facts, rule):
                    return "rejects points on the curve%s" % show_facts(D, facts)
    return None


def is_identity(ctx, name, C, ty):
    prog = ctx.prog
    f = prog.fn(name)
    for case in ("id", "pt"):
        D, I = csession(prog)
        S = Pts(D, prog, C)
        P = None
        if case == "pt":
            x = S.var("x1")
            P = (x, S.curve_y("y1", x))
        r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], S.point(kind_of(C, ty), P, "1"))])
        ctx.used(I)
        for facts, leaf in leaves(I, r):
            if S.feasible(facts) and leaf != int(case == "id"):
                return "%s%s" % ("true for a finite point" if leaf else "false for the identity", show_facts(D, facts))
    return None


def construct(ctx, name, C, kind, n):
    prog = ctx.prog
    f = prog.fn(name)
    D, I = csession(prog)
    S = Pts(D, prog, C)
    x = S.var("x1")
    y = S.curve_y("y1", x)
    z = S.nz("z1")
    one = Poly.const(1, S.p)
    if n == 0:
        args, want = [], None
    elif n == 2:
        args, want = [S.elem(x), S.elem(y)], (x, one, y, one)
    else:
        args, want = [S.elem(x * z), S.elem(y * z), S.elem(z)], (x, one, y, one)
    r = I.analyse(f, args)
    ctx.used(I)
    for facts, leaf in leaves(I, r):
        d = S.same(kind, leaf, want, facts)
        if d:
            return d
    return None


def accessor(ctx, name, C, ty, field):
    prog = ctx.prog
    f = prog.fn(name)
    D, I = csession(prog)
    S = Pts(D, prog, C)
    x, y, z = S.var("x"), S.var("y"), S.var("z")
    v = S.affine(x, y) if ty == C.aff else S.proj(x, y, z)
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], v)])
    ctx.used(I)
    for facts, leaf in leaves(I, r):
        got = D.poly2(leaf) if C.base == FQ2 else D.val(leaf, S.p)
        if not S.zero(got - {"x": x, "y": y, "z": z}[field], facts):
            return "does not return the %s coordinate" % field
    return None


def batch(ctx, name, C, cases):
    prog = ctx.prog
    f = prog.fn(name)
    for case in cases:
        D, I = csession(prog)
        S = Pts(D, prog, C)
        ps = []
        for i, k in enumerate(case):
            if k == "i":
                ps.append(None)
            else:
                x = S.var("x%d" % i)
                ps.append((x, S.curve_y("y%d" % i, x)))
        src = Arr(tuple(S.point("p", P, str(i)) for i, P in enumerate(ps)))
        dst = Arr(tuple(S.point("a", None, "o%d" % i) for i, P in enumerate(ps)))
        a, b = I.ref(src), I.ref(dst)
        sl = lambda p: Ptr(p.cell, p.path, 0, len(ps))
        r = I.analyse(f, [sl(a), sl(b)])
        ctx.used(I)
        for x in I.panics:
            if S.feasible(x.facts):
                return "may panic: %s" % x
        if r is None:
            return "always panics"
        out = I.load(b)
        for i, P in enumerate(ps):
            for facts, leaf in leaves(I, out.e[i]):
                if not S.feasible(facts):
                    continue
                d = S.same("a", leaf, fin(S, P), facts)
                if d:
                    return "element %d of %s: %s" % (i, case, d)
    return None


def raw_session(ctx):
    from a07 import bsession
    return bsession(ctx.prog)


def affine_limbs(D, I, prog, C):
    """the affine point whose coordinates have the given unknown words, with the flag unknown"""
    T = prog.types[prog.ty(C.aff)]
    ws, fs = [], []
    for nm, t in T["vs"][0][1]:
        if prog.types[t]["s"] == "bool":
            fs.append(None)
            continue
        w = [IE(D.number("%s%d" % (nm, i), 0, (1 << 64) - 1)) for i in range(4)]
        ws += w
        fs.append(Agg(t, 0, (Arr(tuple(w)),)))
    return ws, fs


def raw_form(ctx, C):
    """decoding the raw byte form of an affine point gives back its coordinate words and its flag"""
    prog = ctx.prog
    for flag in (0, 1):
        D, I = raw_session(ctx)
        ws, fs = affine_limbs(D, I, prog, C)
        v = Agg(prog.ty(C.aff), 0, tuple(flag if x is None else x for x in fs))
        r = I.analyse(prog.fn("%s::to_raw_bytes" % C.aff), [I.ref(v)])
        ctx.used(I)
        if I.panics or r is None:
            return "to_raw_bytes may panic"
        d = raw_decode(ctx, D, I, C, I.elems(I.simp(r)), ws, flag)
        if d:
            return d
    return None


def raw_decode(ctx, D, I, C, bs, ws, flag):
    prog = ctx.prog
    n = len(bs)
    p = I.ref(Arr(tuple(bs)))
    r = I.analyse(prog.fn("%s::from_slice_unchecked" % C.aff), [Ptr(p.cell, p.path, 0, n)])
    ctx.used(I)
    if I.panics or r is None:
        return "from_slice_unchecked may panic"
    for facts, leaf in leaves(I, r):
        got = []
        for x in leaf.f:
            x = I.simp(x)
            if type(x) is Agg:
                got += list(I.elems(I.simp(x.f[0])))
            elif x != flag:
                if type(x) is not int:
                    raise Unsupported("flag is not decided")
                return "the identity flag %d is decoded as %d" % (flag, x)
        if len(got) != len(ws):
            raise Unsupported("shape of the decoded point")
        for i, (a, b) in enumerate(zip(got, ws)):
            if not D.unfold(D.poly(a) - D.poly(b)).is_zero():
                return "word %d of the coordinates is not restored" % i
    return None


def raw_layout(ctx, C):
    """the coordinates are the little-endian words of the first 64 bytes, the flag is the byte after the 32 reserved ones"""
    prog = ctx.prog
    for n in (97, 64):
        for flag in ((0, 1) if n == 97 else (0,)):
            D, I = raw_session(ctx)
            bs = [IE(D.number("b%d" % i, 0, 255)) for i in range(n)]
            ws = [IE(D.value(bs[8 * i:8 * i + 8], 8)) for i in range(8)]
            if n == 97:
                bs[96] = flag
            d = raw_decode(ctx, D, I, C, bs, ws, flag)
            if d:
                return "%d bytes: %s" % (n, d)
    return None


def run(ctx):
    prog = ctx.prog
    T = "zkstd::common::"
    for C in CURVES:
        A, P = C.aff, C.proj
        neg = lambda S, X: fin(S, None if X is None else (X[0], -X[1]))
        for name, ty, kind in (("<%s as %sBNProjective>::to_affine" % (P, T), P, "a"),
                               ("<%s as std::convert::From<%s>>::from" % (A, P), P, "a"),
                               ("<%s as %sBNAffine>::to_extended" % (A, T), A, "p"),
                               ("<%s as std::convert::From<%s>>::from" % (P, A), A, "p"),
                               ("<%s as std::convert::Into<%s>>::into" % (P, A), P, "a"),
                               ("<%s as std::convert::Into<%s>>::into" % (A, P), A, "p"),
                               ("<%s as std::clone::Clone>::clone" % A, A, "a"),
                               ("<%s as std::clone::Clone>::clone" % P, P, "p")):
            if "Into<" not in name or prog.has(name):
                ctx.ob(name, "same-point", lambda: each(ctx, name, C, ty, fin, kind))
        for name, ty, kind in (("<%s as std::ops::Neg>::neg" % A, A, "a"), ("<%s as std::ops::Neg>::neg" % P, P, "p")):
            ctx.ob(name, "negation", lambda: each(ctx, name, C, ty, neg, kind))
        for ty, kind in ((A, "a"), (P, "p")):
            name = "<%s as %sGroup>::invert" % (ty, T)
            ctx.ob(name, "negation", lambda: each(ctx, name, C, ty, neg, kind, True, False))
            name = "<%s as std::cmp::PartialEq>::eq" % ty
            ctx.ob(name, "equal-iff-same-point", lambda: equality(ctx, name, C, ty))
            name = "<%s as %sCurveGroup>::is_on_curve" % (ty, T)
            ctx.ob(name, "curve-equation", lambda: membership(ctx, name, C, ty))
            name = "<%s as %sCurveGroup>::is_identity" % (ty, T)
            ctx.ob(name, "identity-test", lambda: is_identity(ctx, name, C, ty))
            name = "<%s as %sCurveGroup>::from_x_and_y" % (ty, T)
            ctx.ob(name, "constructor", lambda: construct(ctx, name, C, kind, 2))
            name = "<%s as std::default::Default>::default" % ty
            ctx.ob(name, "identity", lambda: construct(ctx, name, C, kind, 0))
            for fld in ("x", "y"):
                name = "<%s as %sCurveGroup>::get_%s" % (ty, T, fld)
                ctx.ob(name, "accessor", lambda: accessor(ctx, name, C, ty, fld))
        name = "<%s as %sBNProjective>::get_z" % (P, T)
        ctx.ob(name, "accessor", lambda: accessor(ctx, name, C, P, "z"))
        name = "<%s as %sBNAffine>::new_unchecked" % (A, T)
        ctx.ob(name, "constructor", lambda: construct(ctx, name, C, "a", 2))
        name = "<%s as %sBNProjective>::new_unchecked" % (P, T)
        ctx.ob(name, "constructor", lambda: construct(ctx, name, C, "p", 3))
        if prog.has("%s::from_slice_unchecked" % A):
            ctx.ob("%s::from_slice_unchecked" % A, "raw-layout", lambda: raw_layout(ctx, C))
            if prog.has("%s::to_raw_bytes" % A):
                ctx.ob("%s::to_raw_bytes" % A, "raw-form-round-trip", lambda: raw_form(ctx, C))
        name = "%s::batch_normalize" % P
        if prog.has(name):
            ctx.ob(name, "same-point", lambda: batch(ctx, name, C, ("ppp", "pip", "ipp", "iii", "ppi") if not ctx.thorough() else
                                                    ["".join(c) for c in __import__("itertools").product("ip", repeat=4)]))
