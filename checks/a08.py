"""Conversions: the machine words (or bytes, or random draws) of the argument stay uninterpreted tokens; the field element produced
is a polynomial over the integers they spell, compared with the residue the conversion is defined to return."""
import re
from fields import *
from values import *
from prog import Unsupported

FLOOR = 20


class ConvDomain(FieldDomain):
    """little-endian reads of token bytes stay recognisable"""

    def from_bytes(self, bs, t):
        if any(type(b) is Opaque for b in bs):
            return Opaque("le", tuple(bs))
        return None


def vsession(prog, **kw):
    D = ConvDomain()
    I = Interp(prog, D, Models(overrides=kw.get("overrides"), patterns=D.limb_models() + subtle_models()))
    return D, I


def wordsval(D, p, ws):
    """residue of the integer spelled by four words"""
    return D.asnum(Arr(tuple(ws)), p)[0]


def expect(ctx, fname, args, want, ret=None):
    prog = ctx.prog
    D, I = vsession(prog)
    f = prog.fn(fname)
    vs, w = args(D, I, f)
    r = I.analyse(f, vs)
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    p = prime_of(prog, f.locals[0])
    for facts, leaf in leaves(I, r):
        got = D.val(leaf, p)
        e = want(D, p, w)
        if got != e:
            return "value is %s, expected %s%s" % (got.show(D.names, 5), e.show(D.names, 5), show_facts(D, facts))
    return None


def toks(n, nm="w"):
    return tuple(Opaque(nm, (i,)) for i in range(n))


def u512(D, p, ws):
    return wordsval(D, p, ws[:4]) + wordsval(D, p, ws[4:]).scale(1 << 256)


def bytes_to_words(bs):
    return tuple(Opaque("le", tuple(bs[8 * i:8 * i + 8])) for i in range(len(bs) // 8))


def from_u64(ctx, f):
    return expect(ctx, f, lambda D, I, fn: ([Opaque("w", (0,))], None),
                  lambda D, p, w: wordsval(D, p, (Opaque("w", (0,)), 0, 0, 0)))


def to_mont(ctx, f):
    return expect(ctx, f, lambda D, I, fn: ([Arr(toks(4))], None), lambda D, p, w: wordsval(D, p, toks(4)))


def wide(ctx, f):
    bs = toks(64, "b")
    return expect(ctx, f, lambda D, I, fn: ([I.ref(Arr(bs))], None), lambda D, p, w: u512(D, p, bytes_to_words(bs)))


def cross(ctx, f, src):
    p0 = BASE[src]

    def args(D, I, fn):
        v, cs = symbolic(D, ctx.prog, base_ty(ctx.prog, fn.locals[1]), "x")
        return [wrap_arg(I, ctx.prog, fn.locals[1], v)], cs[0]
    return expect(ctx, f, args, lambda D, p, x: D.asnum(D.num(p0, x), p)[0])


def bitop(ctx, f, op):
    """x op y on the canonical words"""
    prog = ctx.prog
    D, I = vsession(prog)
    fn = prog.fn(f)
    t = base_ty(prog, fn.locals[1])
    p = prime_of(prog, t)
    (x, cx), (y, cy) = symbolic(D, prog, t, "x"), symbolic(D, prog, t, "y")
    r = I.analyse(fn, [wrap_arg(I, prog, fn.locals[1], x), wrap_arg(I, prog, fn.locals[2], y)])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    X, Y = D.elems(D.num(p, cx[0])), D.elems(D.num(p, cy[0]))
    got = D.val(r, p)
    for a, b in ((X, Y), (Y, X)):
        if got == wordsval(D, p, [Opaque(op, (u, v)) for u, v in zip(a, b)]):
            return None
    return "value is %s, not the word-wise %s of the canonical values" % (got.show(D.names, 5), op)


def fold(ctx, f, op, ref):
    prog = ctx.prog
    lens = range(0, 25) if ctx.thorough() else range(0, 6)
    for n in lens:
        D, I = vsession(prog)
        fn = prog.fn(f)
        p = prime_of(prog, fn.locals[0])
        xs = [symbolic(D, prog, fn.locals[0], "x%d" % i) for i in range(n)]
        v = I.new_vec([x[0] for x in xs])
        if ref:
            c = I.alloc(Arr(tuple(x[0] for x in xs)))
            v = Ptr(c, (), 0, n)
        r = I.analyse(fn, [v])
        ctx.used(I)
        if I.panics or r is None:
            return "length %d: %s" % (n, panics(I, r))
        e = Poly.const(0 if op == "sum" else 1, p)
        for x in xs:
            e = e + x[1][0] if op == "sum" else e * x[1][0]
        got = D.val(r, p)
        if got != e:
            return "length %d: value is %s" % (n, got.show(D.names, 5))
    return None


def rand(ctx, f):
    """every coefficient is a 512-bit integer of eight separate draws"""
    prog = ctx.prog
    D, I = vsession(prog)
    fn = prog.fn(f)
    r = I.analyse(fn, [I.ref(Agg(None, 0, (0,)))])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    p = FR if prog.types[fn.locals[0]]["s"] == "bn_254::Fr" else FQ
    seen = set()
    for x in coeffs(D, prog, r, p):
        # (a + b 2^256) with a, b spelled by fresh words
        if len(x.t) != 2:
            return "coefficient %s is not a 512-bit draw" % x.show(D.names, 5)
        parts = {c: m for m, c in x.t.items()}
        if set(parts) != {1, (1 << 256) % p} or any(len(m) != 1 for m in parts.values()):
            return "coefficient %s is not a 512-bit draw" % x.show(D.names, 5)
        for m in parts.values():
            k = D.info[m[0]]
            if k[0] != "words" or len(k[1]) != 4:
                return "coefficient is not spelled by words"
            for w in k[1]:
                if not (type(w) is tuple and w[0] == "O" and w[1] == "rng" and w[3] == 64):
                    return "a word of the draw is %r, not a 64-bit draw from the generator" % (w,)
                if w in seen:
                    return "one draw is used twice"
                seen.add(w)
    return None


def run(ctx):
    prog = ctx.prog
    names = sorted(prog.by_name)
    for ty in BASE:
        e = re.escape(ty)
        for f in names:
            if f == "<%s as std::convert::From<u64>>::from" % ty:
                ctx.ob(f, "value-preserving", lambda: from_u64(ctx, f))
            elif f == ty + "::to_mont_form":
                ctx.ob(f, "value-preserving", lambda: to_mont(ctx, f))
            elif re.fullmatch(r"<%s as [\w:]+>::(from_bytes_wide|from_hash)" % e, f):
                ctx.ob(f, "wide-reduction", lambda: wide(ctx, f))
            else:
                m = re.fullmatch(r"<%s as std::convert::From<(bn_254::F[rq])>>::from" % e, f)
                if m:
                    ctx.ob(f, "value-preserving", lambda: cross(ctx, f, m.group(1)))
                m = re.fullmatch(r"<&?(?:'\w+ )?%s as std::ops::(BitAnd|BitXor)[^:]*>::\w+" % e, f)
                if m:
                    ctx.ob(f, "canonical-words", lambda: bitop(ctx, f, m.group(1)))
    for m in ("fr", "fq"):
        for op in ("sum", "product"):
            for ref in ("ref", "val"):
                f = "verif_roots::conv::%s::%s_%s" % (m, op, ref)
                ctx.ob("%s of %s (%s)" % (op, m, ref), "repeated-operation", lambda: fold(ctx, f, op, ref == "ref"))
        for r in ("random", "ff_random"):
            f = "verif_roots::conv::%s::%s" % (m, r)
            ctx.ob("%s of %s" % (r, m), "fresh-512-bit-draw", lambda: rand(ctx, f))
    for x in ("fq2", "fq6", "fq12"):
        f = "verif_roots::conv::%s_random" % x
        ctx.ob("random of %s" % x, "fresh-512-bit-draw", lambda: rand(ctx, f))
