"""Byte encodings over symbolic bytes and words: decoding is decided for every 32-byte string at once (interval analysis of the
comparison with the modulus on each side of the branch), encoding by recombining the bytes into the canonical value."""
import re
from fields import *
from limb import LimbDomain, IE
from values import *
from prog import Unsupported

FLOOR = 10
R256 = 1 << 256


class MontForm:
    """the Montgomery form of the integer (limbs of a field element)"""

    def __init__(self, p, val):
        self.p = p
        self.val = val

    def __eq__(self, o):
        return type(o) is MontForm and self.p == o.p and self.val == o.val

    def __hash__(self):
        return hash(self.val)


class ByteDomain(LimbDomain):
    def elems(self, v):
        if type(v) is MontForm:
            return tuple(Opaque("mf", (v, i)) for i in range(4))
        return None

    def child(self, v, i):
        if type(v) is MontForm:
            return Opaque("mf", (v, i))
        return LimbDomain.child(self, v, i)


def bsession(prog, V=None):
    """V: canonical value of the symbolic field element (its limbs are opaque)"""
    D = ByteDomain()

    def pr(I, v):
        v = I.simp(v)
        return sum(x << (64 * i) for i, x in enumerate(I.elems(v)))

    def inv_ok(p, inv):
        return type(inv) is int and (p * inv) % (1 << 64) == M64

    def mul(I, c, a):
        p = pr(I, a[2])
        if p not in (FR, FQ) or not inv_ok(p, a[3]):
            raise Unsupported("multiplication modulo something else")
        x, y = I.elems(a[0]), I.elems(a[1])
        if all(type(t) is int for t in x) and not all(type(t) is int for t in y):
            x, y = y, x
        if all(type(t) is int for t in x + y):
            return NotImplemented
        if any(type(t) is not int for t in y):
            raise Unsupported("product of two symbolic elements")
        k = sum(t << (64 * i) for i, t in enumerate(y))
        if any(type(t) not in (int, IE) for t in x):
            raise Unsupported("product of something else")
        if k * pow(R256, -2, p) % p != 1:
            return Arr(tuple(Opaque("other", (hk(y), i)) for i in range(4)))
        return MontForm(p, D.value(x))

    def mont(I, c, a):
        p = pr(I, a[1])
        if p not in (FR, FQ) or not inv_ok(p, a[2]):
            raise Unsupported("reduction modulo something else")
        x = I.elems(a[0])
        if not all(t == 0 for t in x[4:]):
            raise Unsupported("wide reduction")
        x = x[:4]
        if all(type(t) is Opaque and t.op == "mf" and t.args[1] == i and t.args[0] == x[0].args[0] for i, t in enumerate(x)):
            return Arr(me(x[0].args[0]))
        raise Unsupported("reduction of something else")
    cache = {}

    def me(m):
        if m not in cache:
            cache[m] = D.limbs_of(m.val, 4)
        return cache[m]
    S = r"(^|::)bits_256::(\w+::)*"
    I = Interp(prog, D, Models(patterns=[(re.compile(S + "mul$"), mul), (re.compile(S + "mont$"), mont)] + subtle_models()))
    return D, I


def decode(ctx, fname, opt):
    prog = ctx.prog
    f = prog.fn(fname)
    D, I = bsession(prog)
    bs = [IE(D.number("b%d" % i, 0, 255)) for i in range(32)]
    V = D.value(bs, 8)
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], Arr(tuple(bs)))])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    rt = prog.types[f.locals[0]]
    p = FR if "Fr" in fname else FQ
    conds, outs = {}, []
    for facts, leaf in leaves(I, r):
        if opt == "option":
            acc = leaf.v == 1
            val = leaf.f[0] if acc else None
        else:
            ch = leaf.f[1]
            while type(ch) is Agg:
                ch = ch.f[0]
            if type(ch) is not int:
                raise Unsupported("choice " + repr(ch))
            acc, val = bool(ch), leaf.f[0]
        if acc:
            m = val.f[0] if type(val) is Agg else val
            m = I.simp(m)
            if type(m) is Arr and all(type(x) is Opaque and x.op == "mf" and x.args[1] == i for i, x in enumerate(m.e)):
                m = m.e[0].args[0]
            if type(m) is not MontForm:
                return "the accepted element is not the encoded integer in Montgomery form: %r" % (m,)
            if m.p != p:
                return "wrong modulus"
            if not D.unfold(m.val - V).is_zero():
                return "the accepted element has value %s" % D.unfold(m.val - V).show(D.names, 5)
        outs.append((facts, acc))
        for c in facts:
            conds[c] = 1
    # one 0/1 polynomial: accepted
    if any(c[0] != "b" for c in conds):
        raise Unsupported("branch condition")
    acc = Poly.const(0)
    for facts, a in outs:
        if a:
            t = Poly.const(1)
            for c, v in facts.items():
                t = t * (c[1] if v else Poly.const(1) - c[1])
            acc = acc + t

    def chk(q):
        if not q.is_const():
            raise Unsupported("acceptance " + q.show(D.names))
        lo, hi = D.bounds(V)
        if q.cval() and hi >= p:
            return "accepts integers up to %s" % ("the modulus%+d" % (hi - p) if hi - p < 1 << 60 else hex(int(hi)))
        if not q.cval() and lo < p:
            return "rejects integers from %s" % ("the modulus%+d" % (lo - p) if p - lo < 1 << 60 else hex(int(lo)))
        return None
    return D.cases(acc, chk)


def element(D, prog, t, p):
    V = D.number("v", 0, p - 1)
    return V, Agg(t, 0, (MontForm(p, V),))


def payload(I, r):
    """the only component of a wrapper that carries data"""
    r = I.simp(r)
    while type(r) is Agg:
        fs = [x for x in (I.simp(y) for y in r.f) if not (type(x) is Agg and not x.f)]
        if len(fs) != 1:
            raise Unsupported("result shape")
        r = fs[0]
    return r


def encode(ctx, fname, what):
    prog = ctx.prog
    f = prog.fn(fname)
    D, I = bsession(prog)
    t = base_ty(prog, f.locals[1])
    p = prime_of(prog, t)
    V, x = element(D, prog, t, p)
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], x)])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    r = payload(I, r)
    if what == "parity":
        return parity(D, r, V)
    xs = I.elems(r)
    w = 8 if what == "bytes" else 64
    if len(xs) != 256 // w:
        return "%d units of %d bits" % (len(xs), w)
    for i, y in enumerate(xs):
        lo, hi = D.rng(D.poly(y))
        if lo < 0 or hi >> w:
            return "unit %d out of range" % i
    d = D.unfold(D.value(xs, w) - V)
    if not d.is_zero():
        return "the encoding does not spell the value: difference %s" % d.show(D.names, 4)
    return None


def parity(D, r, V):
    """v - r must be even, r in {0,1}"""
    q = D.poly(r)
    lo, hi = D.rng(q)
    if lo < 0 or hi > 1:
        return "result outside 0..1"
    # r is the lowest bit: v - r = 2k with k an integer quotient
    for x in D.rels:
        x[4] = True
    D.ucache.clear()
    d = D.unfold(V - q)
    for m, c in d.t.items():
        if c.denominator != 1 or c.numerator % 2:
            return "result is not the lowest bit of the value"
    return None


def charbits(ctx, fname):
    prog = ctx.prog
    f = prog.fn(fname)
    D, I = bsession(prog)
    r = I.analyse(f, [])
    ctx.used(I)
    r = payload(I, r)
    k = sum(x << (64 * i) for i, x in enumerate(I.elems(r)))
    p = FR if "Fr" in fname else FQ
    return None if k == p else "characteristic bits are %s" % hex(k)


def run(ctx):
    prog = ctx.prog
    for ty in BASE:
        e = re.escape(ty)
        for f in sorted(prog.by_name):
            if re.fullmatch(r"<%s as [\w:]*SigUtils<32>>::from_bytes" % e, f):
                ctx.ob(f, "accepts-iff-below-modulus", lambda: decode(ctx, f, "option"))
            elif re.search(r"<impl [\w:]*PrimeField for %s>::from_repr$" % e, f):
                ctx.ob(f, "accepts-iff-below-modulus", lambda: decode(ctx, f, "ct"))
            elif re.fullmatch(r"<%s as [\w:]*(SigUtils<32>>::to_bytes|PrimeField>::to_raw_bytes)" % e, f) or \
                    re.search(r"<impl [\w:]*PrimeField for %s>::to_repr$" % e, f):
                ctx.ob(f, "bytes-spell-canonical-value", lambda: encode(ctx, f, "bytes"))
            elif re.search(r"<impl [\w:]*PrimeFieldBits for %s>::to_le_bits$" % e, f):
                ctx.ob(f, "words-spell-canonical-value", lambda: encode(ctx, f, "words"))
            elif re.search(r"<impl [\w:]*PrimeFieldBits for %s>::char_le_bits$" % e, f):
                ctx.ob(f, "characteristic", lambda: charbits(ctx, f))
            elif f == ty + "::is_odd" or re.search(r"<impl [\w:]*PrimeField for %s>::is_odd$" % e, f):
                ctx.ob(f, "parity", lambda: encode(ctx, f, "parity"))
