"""Bit lists and signed-digit lists: every digit of the result is a polynomial over the words of the argument (quotient
atoms); the weighted digit sum is proven equal to the value, digit ranges and non-adjacency are decided from the
defining relations of the digits; the field-level entry points are shown to pass the canonical value."""
import itertools
import re
from fields import *
from limb import LimbDomain, IE
from values import *

FLOOR = 6
R256 = 1 << 256


def num4(D):
    A = D.number("a", 0, R256 - 1)
    return A, Arr(D.limbs_of(A, 4))


def wsum(D, items):
    """sum of item_i 2^i (least significant first)"""
    t = Poly.const(0)
    for i, x in enumerate(items):
        t = t + D.poly(x).scale(1 << i)
    return t


def equals(D, got, want):
    d = D.unfold(got - want)
    if d.is_zero():
        return None
    m, c = next(iter(d.t.items()))
    return "weighted digit sum differs from the value (term %s * %s)" % (c, "*".join(D.names[x] for x in m) or "1")


def bits(ctx):
    D = LimbDomain()
    I = Interp(ctx.prog, D, Models())
    A, la = num4(D)
    r = I.analyse(ctx.prog.fn("verif_roots::limbs::l4_bits"), [la])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    xs = I.elems(r)
    if len(xs) != 256:
        return "%d digits instead of 256" % len(xs)
    for i, x in enumerate(xs):
        lo, hi = D.rng(D.poly(x))
        if lo < 0 or hi > 1:
            return "digit %d ranges over [%d, %d]" % (i, lo, hi)
    return equals(D, wsum(D, reversed(xs)), A)


NAMES = {0: "Zero", 1: "Plus", -1: "Minus"}


def naf_value(prog, I, v):
    """digit value of a concrete Naf"""
    v = I.simp(v)
    vs = prog.types[v.tid]["vs"]
    return {"Zero": 0, "Plus": 1, "Minus": -1}[vs[v.v][0]]


def naf_from(ctx):
    prog = ctx.prog
    fn = prog.fn("<zkstd::common::Naf as std::convert::From<i8>>::from")
    for d in (0, 1, -1):
        I = Interp(prog, LimbDomain(), Models())
        r = I.analyse(fn, [d])
        ctx.used(I)
        if r is None:
            return "digit %d panics" % d
        if naf_value(prog, I, r) != d:
            return "digit %d becomes %s" % (d, naf_value(prog, I, r))
    return None


class Window(Exception):
    pass


def window_pairs(D, x, y):
    """over-approximated set of joint values of two digit polynomials: quotients and words with small defining
    expressions are computed from their definitions two levels deep, everything below ranges over its interval"""
    order = []
    seen = {}

    def visit(a, depth):
        if a in seen and seen[a] >= depth:
            return
        seen[a] = depth
        r = D.rel_of.get(a)
        if r is not None and depth > 0:
            s = D.rels[r[0]][0]
            if all(D.atoms[b][2] - D.atoms[b][1] <= 3 for b in s.atoms()):
                for b in s.atoms():
                    visit(b, depth - 1)
    for p in (x, y):
        for a in p.atoms():
            visit(a, 2)
    free, defd = [], []
    for a in sorted(seen):
        r = D.rel_of.get(a)
        if r is not None and all(b in seen for b in D.rels[r[0]][0].atoms()) and \
                all(D.atoms[b][2] - D.atoms[b][1] <= 3 for b in D.rels[r[0]][0].atoms()):
            defd.append(a)
        else:
            free.append(a)
    if len(free) > 10:
        raise Unsupported("digit window too wide")
    out = set()

    def ev(p, env):
        t = 0
        for m, c in p.t.items():
            for b in m:
                c = c * env[b]
            t += c
        return t
    for vals in itertools.product(*[range(D.atoms[a][1], D.atoms[a][2] + 1) for a in free]):
        env = dict(zip(free, vals))
        ok = True
        todo = list(defd)
        for a in sorted(todo):
            s, k, w, f, _ = D.rels[D.rel_of[a][0]]
            v = ev(s, env)
            q = v >> k
            env[a] = q if D.rel_of[a][1] == "f" else v - (q << k)
        if ok:
            out.add((ev(x, env), ev(y, env)))
    return out


def nafs(ctx):
    prog = ctx.prog
    D = LimbDomain()
    bad = []

    def skip_while(I, c, a):
        """the list is kept whole: dropped leading digits must be zero"""
        f = a[1]
        tid = prog.type_by_str["zkstd::common::Naf"]
        T = prog.types[tid]
        for k, v in enumerate(T["vs"]):
            r = I.simp(I.call_value(I.ref(f) if type(f) is Agg else f, [I.ref(Agg(tid, k, ()))]))
            if type(r) is not int:
                raise Unsupported("digit predicate")
            if r and v[0] != "Zero":
                bad.append("leading %s digits are dropped" % v[0])
        return a[0]
    over = {"std::iter::Iterator::skip_while": skip_while}
    pats = [(re.compile(r"<zkstd::common::Naf as std::convert::From<i8>>::from"), lambda I, c, a: a[0]),
            (re.compile(r"<i8 as std::convert::Into<zkstd::common::Naf>>::into"), lambda I, c, a: a[0])]
    I = Interp(prog, D, Models(overrides=over, patterns=pats))
    A, la = num4(D)
    r = I.analyse(prog.fn("verif_roots::limbs::l4_nafs"), [la])
    ctx.used(I)
    if bad:
        return bad[0]
    if I.panics or r is None:
        return panics(I, r)
    xs = [D.poly(x) for x in I.elems(r)]
    ds = xs[::-1]                       # least significant first
    e = equals(D, wsum(D, [IE(x) for x in ds]), A)
    if e:
        return e
    for i, x in enumerate(ds):
        y = ds[i + 1] if i + 1 < len(ds) else Poly.const(0)
        for u, v in window_pairs(D, x, y):
            if u not in (-1, 0, 1):
                return "digit %d can be %d" % (i, u)
            if u and v:
                return "digits %d and %d can both be non-zero" % (i, i + 1)
    return None


def canonical_words(D, v, x, p):
    """the words v hold the canonical value x of a field element"""
    v = D.I.simp(v)
    if type(v) is Arr and any(type(D.I.simp(y)) is Ite for y in v.e):
        raise Unsupported("gated words")
    q, ok = D.asnum(v, p)
    if q == x and ok:
        return None
    return "the words hold %s, not the canonical value %s" % (q.show(D.names, 4), x.show(D.names, 4))


def reduced(ctx, fname):
    """the words of the result hold the canonical value"""
    prog = ctx.prog
    D, I = session(prog)
    fn = prog.fn(fname)
    ft = base_ty(prog, fn.locals[1])
    p = prime_of(prog, ft)
    v, cs = symbolic(D, prog, ft, "x")
    r = I.analyse(fn, [wrap_arg(I, prog, fn.locals[1], v)])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    return canonical_words(D, I.simp(r).f[0], cs[0], p)


def entry(ctx, fname, op):
    """the field method hands the canonical value to the word-level routine and returns its result"""
    prog = ctx.prog
    got = []
    tok = Opaque("digits", ())

    def cap(I, c, a):
        got.append(a[0])
        return tok
    D, I = session(prog, overrides={"zkstd::arithmetic::bits_256::" + op: cap})
    fn = prog.fn(fname)
    ft = base_ty(prog, fn.locals[1])
    p = prime_of(prog, ft)
    v, cs = symbolic(D, prog, ft, "x")
    r = I.analyse(fn, [wrap_arg(I, prog, fn.locals[1], v)])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    if len(got) != 1 or r is not tok:
        raise Unsupported("not a call of bits_256::" + op)
    return canonical_words(D, got[0], cs[0], p)


def divides(D, q, k):
    """is the polynomial a multiple of 2^k for all values"""
    for x in D.rels:
        x[4] = True
    D.ucache.clear()
    d = D.unfold(q)
    return all(c.denominator == 1 and c.numerator % (1 << k) == 0 for c in d.t.values())


def word_arg(D, prog, f):
    ws = [IE(D.number("w%d" % i, 0, (1 << 64) - 1)) for i in range(4)]
    return D.value(ws), Agg(base_ty(prog, f.locals[1]), 0, (Arr(tuple(ws)),))


def shift(ctx, name):
    """division by 2^n leaves the integer quotient of the words"""
    prog = ctx.prog
    f = prog.fn(name)
    for n in (range(0, 259) if ctx.thorough() else (0, 1, 2, 63, 64, 65, 127, 128, 191, 192, 193, 255, 256, 300)):
        D = LimbDomain()
        I = Interp(prog, D, Models())
        A, v = word_arg(D, prog, f)
        x = I.ref(v)
        r = I.analyse(f, [x, n])
        ctx.used(I)
        if I.panics or r is None:
            return "n = %d: %s" % (n, panics(I, r))
        r = I.simp(I.load(x))
        rem = A - D.value(I.elems(I.simp(r.f[0]))).scale(1 << n)
        q = rem
        for s, k, w, fl, _ in list(D.rels):
            # a word is its high part times 2^k plus its low part
            if w is not None and fl is not None and len(s.t) == 1:
                (m, c), = s.t.items()
                if c == 1 and len(m) == 1 and m[0] in q.atoms() and fl in q.atoms():
                    q = q.subst({m[0]: Poly({(fl,): 1 << k, (w,): 1})})
        lo, hi = D.rng(q)
        if 0 <= lo and hi < 1 << n:
            continue
        for vals, v in D.counterexamples([]):
            e = rem.evaluate(v)
            if not 0 <= e < 1 << n:
                return "n = %d: not the quotient for the words %s" % (n, ", ".join("%#x" % vals[a] for a in sorted(vals)))
        raise Unsupported("n = %d: remainder not bounded" % n)
    return None


def lowbits(ctx, name, signed):
    """the value of the k lowest bits, in 0..2^k or in -2^(k-1)..2^(k-1)"""
    prog = ctx.prog
    f = prog.fn(name)
    par = f.n == 1
    for k in ((1,) if par else range(1, 8)):
        D = LimbDomain()
        I = Interp(prog, D, Models())
        A, v = word_arg(D, prog, f)
        r = I.analyse(f, [I.ref(v)] + ([] if par else [k]))
        ctx.used(I)
        if I.panics or r is None:
            return "k = %d: %s" % (k, panics(I, r))
        tot = Poly.const(0)
        for facts, leaf in leaves(I, r):
            if any(c[0] != "b" for c in facts):
                raise Unsupported("branch condition")
            t = D.poly(leaf)
            for c, v in facts.items():
                t = t * (c[1] if v else Poly.const(1) - c[1])
            tot = tot + t
        if par:
            tot = Poly.const(1) - tot
        mn, mx = (-(1 << (k - 1)), (1 << (k - 1)) - 1) if signed else (0, (1 << k) - 1)

        def chk(q):
            lo, hi = D.bounds(q)
            return None if mn <= lo and hi <= mx else "result between %s and %s" % (lo, hi)
        d = D.cases(tot, chk)
        if d is None and divides(D, tot - A, k):
            continue
        for vals, v in D.counterexamples([]):
            e, n = tot.evaluate(v), A.evaluate(v)
            if not mn <= e <= mx or (e - n) % (1 << k):
                return "k = %d: result %d for the words %s" % (k, e, ", ".join("%#x" % vals[a] for a in sorted(vals)))
        raise Unsupported("k = %d: not proved" % k)
    return None


def base4(ctx, name):
    """the base-4 digit list, most significant first, spells the canonical value"""
    from a07 import bsession, element
    prog = ctx.prog
    f = prog.fn(name)
    bad = []

    def skip_while(I, c, a):
        g = a[1]
        for d in range(4):
            x = I.simp(I.call_value(I.ref(g) if type(g) is Agg else g, [I.ref(d)]))
            if type(x) is not int:
                raise Unsupported("digit predicate")
            if x and d:
                bad.append("leading digits %d are dropped" % d)
        return a[0]
    D, I = bsession(prog)
    I.models = Models(overrides={"std::iter::Iterator::skip_while": skip_while}, patterns=I.models.pats)
    t = base_ty(prog, f.locals[1])
    p = prime_of(prog, t)
    V, x = element(D, prog, t, p)
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], x)])
    ctx.used(I)
    if bad:
        return bad[0]
    if I.panics or r is None:
        return panics(I, r)
    xs = I.elems(I.simp(r))
    for i, y in enumerate(xs):
        lo, hi = D.rng(D.poly(y))
        if lo < 0 or hi > 3:
            return "digit %d ranges over [%d, %d]" % (i, lo, hi)
    t = Poly.const(0)
    for i, y in enumerate(reversed(xs)):
        t = t + D.poly(y).scale(4 ** i)
    return equals(D, t, V)


def run(ctx):
    prog = ctx.prog
    ctx.ob("bits_256::to_bits", "weighted-digit-sum", lambda: bits(ctx))
    ctx.ob("Naf::from(i8)", "digit-values", lambda: naf_from(ctx))
    ctx.ob("bits_256::to_nafs", "weighted-digit-sum-and-nonadjacency", lambda: nafs(ctx))
    for f in BASE:
        for op in ("to_bits", "to_nafs"):
            for nm in sorted(prog.by_name):
                if re.fullmatch(r"<%s as zkstd::(traits|common)::\w+>::%s" % (re.escape(f), op), nm):
                    ctx.ob(nm, "passes-canonical-value", lambda nm=nm, op=op: entry(ctx, nm, op))
        W = "<%s as zkstd::common::FftField>::" % f
        for op, job in (("divn", shift), ("is_even", lambda c, n: lowbits(c, n, False)), ("mod_2_pow_k", lambda c, n: lowbits(c, n, False)),
                        ("mods_2_pow_k", lambda c, n: lowbits(c, n, True))):
            if prog.has(W + op):
                ctx.ob(W + op, "words", lambda: job(ctx, W + op))
        if prog.has(W + "reduce"):
            ctx.ob(W + "reduce", "canonical-words", lambda: reduced(ctx, W + "reduce"))
        if prog.has(f + "::to_costomized_repr"):
            ctx.ob(f + "::to_costomized_repr", "weighted-digit-sum", lambda: base4(ctx, f + "::to_costomized_repr"))
