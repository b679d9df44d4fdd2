"""Scalar multiplication: every multiplication operator between a curve point and a scalar, and the generic scalar_point routines,
are analysed with the point as a named group element and the signed digits of the scalar as unknowns; the accumulated multiple
must be the weighted digit sum for every digit string of the analysed lengths (A09 relates the digits to the scalar)."""
import itertools
from groups import *

FLOOR = 24
NAF_RX = re.compile(r"::to_nafs$")
BITS_RX = re.compile(r"::to_bits$")
LENS = (0, 1, 2, 3, 257)


def lens(ctx):
    return tuple(range(0, 40)) + (64, 128, 255, 256, 257) if ctx.thorough() else LENS


def check(ctx, name, C, args_of, assign, L):
    f = ctx.prog.fn(name)
    used = []

    taken = []

    def scalar_arg(I, x):
        """the digits are those of a fixed multiple of the scalar"""
        x = I.simp(x)
        while type(x) is Ptr:
            x = I.simp(I.load(x))
        q = D.val(x, C.order)
        if set(q.t) - {sm}:
            raise Unsupported("digits of something other than a multiple of the scalar")
        taken.append(q.t.get(sm, 0))

    def nafs(I, c, a):
        used.append("naf")
        scalar_arg(I, a[0])
        return I.new_vec([D.digit(i) for i in range(L)]) if hasattr(I, "new_vec") else VecV([D.digit(i) for i in range(L)], -1)

    def bits(I, c, a):
        used.append("bits")
        scalar_arg(I, a[0])
        return I.new_vec([Ite(("dg", i, "1"), 1, 0) for i in range(256)])
    D, I = gsession(ctx.prog, patterns=[(NAF_RX, nafs), (BITS_RX, bits)])
    P = D.gen(C, "P")
    s = scalar_value(D, I, ctx.prog, C)
    (sm, _), = D.val(s, C.order).t.items()
    vals = args_of(P, s)
    args = [wrap_arg(I, ctx.prog, f.locals[1 + i], v) for i, v in enumerate(vals)]
    r = I.analyse(f, args)
    ctx.used(I)
    for x in I.panics:
        return "may panic: %s" % x
    if r is None:
        return "always panics"
    if assign:
        r = args[0]
    r = I.simp(r)
    while type(r) is Ptr:
        r = I.simp(I.load(r))
    for fs, leaf in leaves(I, r, I.st.facts):
        d = verdict(D, C, fs, D.pt(leaf), sm, used, taken, L)
        if d:
            return d
    return None


def fixed_scalar(D, C, facts, sm):
    """the scalar's value where the conditions of the path fix it"""
    q = C.order or BLSR
    for c, v in facts.items():
        if v and c[0] == "z" and c[1] == q and not set(c[2].t) - {sm, ()} and sm in c[2].t:
            return -c[2].t.get((), 0) * pow(c[2].t[sm], -1, q) % q
    return None


def verdict(D, C, facts, got, sm, used, taken, L):
    partial = []
    for c, v in facts.items():
        if c[0] != "gz":
            continue
        t = dict(c[2][1])
        if set(t) != {"P"}:
            raise Unsupported("case distinction on another point")
        if not t["P"].is_const():
            partial.append((t["P"], v))
        elif v:
            # the point is the identity: so is every multiple of it
            if set(got.t) - {"P"}:
                raise Unsupported("multiple of another point")
            return None
    if partial or any(c[0] == "dg" for c in facts):
        return by_digits(D, C, facts, partial, got, used, taken, L)
    v = fixed_scalar(D, C, facts, sm)
    if v is not None:
        k = got.t.get("P", Poly.const(0, BIG))
        if v and not k.is_const():
            raise Unsupported("digits of a fixed scalar")
        n = k.t.get((), 0)
        n = n - BIG if n > BIG // 2 else n
        if set(got.t) - {"P"} or got.C != C.name:
            raise Unsupported("multiple of another point")
        if (n - v) % (C.order or BLSR):
            return "%d times the point for the scalar %d" % (n, v)
        return None
    if len(set(used)) != 1:
        if not used:
            raise Unsupported("no digit decomposition of the scalar used")
        raise Unsupported("several digit decompositions used")
    k = taken[0]
    if k == -1 % (C.order or BLSR):
        got = D.neg(got)
    want = Poly.const(0, BIG)
    if used[0] == "naf":
        for i in range(L):
            w = 1 << (L - 1 - i)
            want = want + Poly.var(D.ind(("dg", i, "Plus")), BIG).scale(w) - Poly.var(D.ind(("dg", i, "Minus")), BIG).scale(w)
    else:
        for i in range(256):
            want = want + Poly.var(D.ind(("dg", i, "1")), BIG).scale(1 << (255 - i))
    if k not in (1, -1 % (C.order or BLSR)):
        if got == GVal(C.name, {"P": want}):
            return "multiplies the point by the digits of %d times the scalar" % k
        raise Unsupported("digits of %d times the scalar" % k)
    if got.C != C.name or got != GVal(C.name, {"P": want}):
        d = got.t.get("P", Poly.const(0, BIG)) - want
        m = next(iter(d.t), ())
        return "the result is not the weighted digit sum times the point for %d digits (coefficient of %s)" % (
            L, "*".join(D.names[a] for a in m) or "1")
    return None


def by_digits(D, C, facts, partial, got, used, taken, L):
    """a path taken only when some partial sums (do not) vanish: every digit string of the length in turn"""
    q = C.order or BLSR
    if set(used) != {"naf"} or L > 3 or taken[0] != 1:
        raise Unsupported("case distinction on a partial sum")
    if got.C != C.name or set(got.t) - {"P"}:
        raise Unsupported("multiple of another point")

    def at(p, ds):
        val = {D.ind(("dg", i, n)): int(d == k) for i, d in enumerate(ds) for n, k in (("Plus", 1), ("Minus", -1))}
        r = 0
        for m, x in p.t.items():
            for a in m:
                if a not in val:
                    raise Unsupported("partial sum of something else")
                x = x * val[a]
            r += x
        r %= BIG
        return r - BIG if r > BIG // 2 else r
    sign = {"Plus": 1, "Minus": -1, "Zero": 0}
    for ds in itertools.product((0, 1, -1), repeat=L):
        if any((ds[c[1]] == sign[c[2]]) != v for c, v in facts.items() if c[0] == "dg"):
            continue
        if ds and next((d for d in ds if d), 1) < 0 or any(x and y for x, y in zip(ds, ds[1:])):
            continue                # not the digits of a canonical scalar
        if all((at(p, ds) % q == 0) == v for p, v in partial):
            n, w = at(got.t.get("P", Poly.const(0, BIG)), ds), sum(d << (L - 1 - i) for i, d in enumerate(ds))
            if (n - w) % q:
                return "%d times the point for the digits %s" % (n, list(ds))
    return None


def scalar_value(D, I, prog, C):
    p = {"bn_254::Fr": FR, "bn_254::Fq": FQ}.get(C.scalar, BLSR)
    return D.elem(prog.ty(C.scalar.replace("verif_roots::", "", 1)), p, D.var("s", p))


def run(ctx):
    run_for(ctx, GCURVES[:3])


def run_for(ctx, curves):
    prog = ctx.prog
    for C in curves:
        pts = (C.aff, C.proj)
        forms = []
        for name in sorted(prog.by_name):
            m = mul_form(name)
            if not m:
                continue
            A, op, B = m
            if A in pts and B == C.scalar:
                forms.append((name, lambda P, s: (P, s), op == "MulAssign"))
            elif A == C.scalar and B in pts:
                forms.append((name, lambda P, s: (s, P), op == "MulAssign"))
        for mod in ("weierstrass", "edwards"):
            name = "zkstd::arithmetic::%s::scalar_point::<%s>" % (mod, C.proj)
            if prog.has(name):
                forms.append((name, lambda P, s: (P, s), False))
        done = set()
        for L in lens(ctx):
            for name, order, assign in forms:
                if name not in done and ctx.ob(name, "multiple[%d digits]" % L, lambda: check(ctx, name, C, order, assign, L)) != "ok":
                    done.add(name)
