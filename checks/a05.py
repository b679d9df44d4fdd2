"""Exponentiation: the accumulator is abstracted by a power of the base whose exponent is an integer polynomial over the bits of the
symbolic exponent (joins multiply by the branch condition); at the end it must unfold to the exponent.  Inversion, division and square
roots are decided on gated polynomial values; completeness of the base-field root by exponent arithmetic on y^2."""
import re
from fields import *
from limb import LimbDomain, IE
from values import *
from prog import Unsupported

FLOOR = 20
R256 = 1 << 256


class Pw:
    """base^E"""
    __slots__ = ("E",)

    def __init__(self, E):
        self.E = E

    def __eq__(self, o):
        return type(o) is Pw and self.E == o.E

    def __hash__(self):
        return hash(self.E)

    def __repr__(self):
        return "base^(%s)" % self.E.show()


class PwLimb:
    """limb i of a power"""
    __slots__ = ("w", "i")

    def __init__(self, w, i):
        self.w = w
        self.i = i

    def __eq__(self, o):
        return type(o) is PwLimb and self.w == o.w and self.i == o.i

    def __hash__(self):
        return hash((self.w, self.i))


class ExpDomain(LimbDomain):
    def join(self, c, a, b):
        if type(a) is Pw and type(b) is Pw and c[0] == "b" and not any(x in self.eqs for x in c[1].atoms()):
            return Pw(b.E + (a.E - b.E) * c[1])
        if type(a) in (int, IE) and type(b) in (int, IE):
            if c[0] == "b" and not any(x in self.eqs for x in c[1].atoms()):
                return LimbDomain.join(self, c, a, b)
        return None

    def elems(self, v):
        if type(v) is Pw:
            return tuple(PwLimb(v, i) for i in range(4))
        return None

    def child(self, v, i):
        if type(v) is Pw:
            return PwLimb(v, i)
        return LimbDomain.child(self, v, i)

    def eq_facts(self, facts):
        for c, v in facts.items():
            if c[0] != "b":
                continue
            q = c[1]
            if len(q.t) == 1:
                (m, k), = q.t.items()
                if len(m) == 1 and k == 1 and m[0] in self.eqs:
                    yield self.eqs[m[0]], v

    def exp_is(self, E, want, facts):
        """E == want under the equalities of the path"""
        d = self.unfold(E - want)
        if d.is_zero():
            return True
        for e, v in self.eq_facts(facts):
            if v:
                e = self.unfold(e)
                for k in (d, -d):
                    if rel_multiple(k, e):
                        return True
        return False


def rel_multiple(d, e):
    m = max(e.t)
    if m not in d.t:
        return False
    return (d - e.scale(d.t[m] / e.t[m])).is_zero()


def limb_pow(ctx, inverting):
    """bits_256::pow for symbolic base and exponent words"""
    prog = ctx.prog
    p = FR
    inv = (-pow(p, -1, 1 << 64)) % (1 << 64)
    D = ExpDomain()
    A = D.number("a", 0, p - 1)
    la = D.limbs_of(A, 4)
    B = D.number("b", 0, R256 - 1)
    lb = D.limbs_of(B, 4)
    one = words(R256 % p, 4)

    def pw(I, v):
        v = I.simp(v)
        if type(v) is Pw:
            return v
        es = tuple(I.simp(x) for x in I.elems(v))
        if es == la:
            return Pw(Poly.const(1))
        if es == one:
            return Pw(Poly.const(0))
        if all(type(x) is PwLimb and x.i == i and x.w == es[0].w for i, x in enumerate(es)):
            return es[0].w
        raise Unsupported("operand of a modular product is not a power of the base")

    def chk(I, pp, iv):
        if tuple(I.elems(pp)) != words(p, 4) or iv != inv:
            raise Unsupported("modulus changed")

    def mul(I, c, a):
        chk(I, a[2], a[3])
        return I.lift(lambda x, y: Pw(pw(I, x).E + pw(I, y).E), a[0], a[1])

    def square(I, c, a):
        chk(I, a[1], a[2])
        return I.lift(lambda x: Pw(pw(I, x).E.scale(2)), a[0])
    S = r"(^|::)bits_256::(\w+::)*"
    I = Interp(prog, D, Models(patterns=[(re.compile(S + "mul$"), mul), (re.compile(S + "square$"), square)]))
    r = I.analyse(prog.fn("verif_roots::limbs::" + ("l4_invert" if inverting else "l4_pow")),
                  [Arr(la), Arr(lb), Arr(one), Arr(words(p, 4)), inv])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)

    def isz(facts, N):
        """known truth of N == 0 on the path"""
        for e, v in D.eq_facts(facts):
            k = D.unfold(e)
            if rel_multiple(D.unfold(N), k) and k.t.get((), 0) == 0:
                return v
        return None
    for facts, leaf in leaves(I, r):
        az, bz = isz(facts, A), isz(facts, B)
        if inverting:
            if leaf.v == 0:
                if az is not True:
                    return "None although the argument may be non-zero"
                continue
            if az is not False:
                return "Some although the argument may be zero"
            leaf = leaf.f[0]
        if type(leaf) is Arr and all(x == 0 for x in leaf.e):
            if az is True and bz is False:
                continue
            return "zero is returned when base zero is %s, exponent zero is %s" % (az, bz)
        w = pw(I, leaf)
        if not D.exp_is(w.E, B, facts):
            d = D.unfold(w.E - B)
            return "returns base^(e + d) with d = %s%s" % (d.show(D.names, 4), "" if bz is None else " when exponent zero is %s" % bz)
    return None


FIELD_OPS = {"mul": 2, "square": 1}


def elem_patterns(ty, pw, mk, D):
    """summaries of the field's own operators on powers"""
    e = re.escape(ty)

    def two(I, c, a):
        x, y = strip(I, a[0]), strip(I, a[1])
        return I.lift(lambda u, v: Pw(pw(I, u).E + pw(I, v).E), x, y)

    def strip(I, v):
        v = I.simp(v)
        while type(v) is Ptr:
            v = I.load(v)
        return v

    def assign(I, c, a):
        r = two(I, c, a)
        I.store(a[0], r)
        return UNIT

    def sq(I, c, a):
        return I.lift(lambda u: Pw(pw(I, u).E.scale(2)), strip(I, a[0]))

    def sqa(I, c, a):
        I.store(a[0], sq(I, c, a))
        return UNIT
    pre = r"^<(&('\w+ )?)?%s as " % e
    return [(re.compile(pre + r"std::ops::Mul(<.*>)?>::mul$"), two),
            (re.compile(pre + r"std::ops::MulAssign(<.*>)?>::mul_assign$"), assign),
            (re.compile(r"^%s::mul_ext_field$" % e), two),
            (re.compile(pre + r"[\w:]+>::square$"), sq),
            (re.compile(r"^%s::square_ext_field$" % e), sq),
            (re.compile(pre + r"[\w:]+>::square_assign$"), sqa),
            (re.compile(pre + r"[\w:]+>::one$"), lambda I, c, a: Pw(Poly.const(0))),
            (re.compile(r"^%s::one$" % e), lambda I, c, a: Pw(Poly.const(0)))]


def unit_value(D0, prog, ty, v):
    """the constant element of a folded constant, as integers"""
    D, I = session(prog)
    I.st = D0.I.st
    cs = coeffs(D, prog, v, BASE.get(ty, FQ))
    return [c.cval() for c in cs]


def field_pow(ctx, fname, ty, base):
    """loops over exponent bits at field level; base: 'self' or the constant 2"""
    prog = ctx.prog
    D = ExpDomain()

    def pw(I, v):
        v = I.simp(v)
        if type(v) is Pw:
            return v
        k = unit_value(D, prog, ty, v)
        if all(x == 0 for x in k[1:]):
            if k[0] == 1:
                return Pw(Poly.const(0))
            if base == "two" and k[0] == 2:
                return Pw(Poly.const(1))
        raise Unsupported("operand is not a power of the base")

    def from_u64(I, c, a):
        v = I.simp(a[0])
        if base == "two" and v == 2:
            return Pw(Poly.const(1))
        if v == 1:
            return Pw(Poly.const(0))
        raise Unsupported("conversion of %r" % (v,))
    pats = elem_patterns(ty, pw, None, D)
    pats.append((re.compile(r"^<%s as std::convert::From<u64>>::from$" % re.escape(ty)), from_u64))
    I = Interp(prog, D, Models(patterns=pats))
    f = prog.fn(fname)
    if base == "self":
        B = D.number("e", 0, R256 - 1)
        args = [I.ref(Pw(Poly.const(1))), I.ref(Arr(D.limbs_of(B, 4)))]
        T = prog.types[f.locals[1]]
        if T["k"] != "ref":
            args[0] = Pw(Poly.const(1))
    else:
        B = D.number("e", 0, M64)
        args = [D.limbs_of(B, 1)[0]]
    r = I.analyse(f, args)
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    for facts, leaf in leaves(I, r):
        w = pw(I, leaf)
        if not D.exp_is(w.E, B, facts):
            return "returns base^(e + d) with d = %s" % D.unfold(w.E - B).show(D.names, 4)
    return None


def fft_pow(ctx, fname, ty):
    """u64 exponent handed to the word-level routine"""
    prog = ctx.prog
    p = BASE[ty]
    D, I = session(prog)
    f = prog.fn(fname)
    v, cs = symbolic(D, prog, base_ty(prog, f.locals[1]), "x")
    e = Opaque("e", ())
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], v), e])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    want = D.keyed(p, "pow", cs[0], (hk(e), 0, 0, 0))
    for facts, leaf in leaves(I, r):
        got = D.val(leaf, p)
        if got != want:
            return "value is %s, not x^e" % got.show(D.names, 4)
    return None


def invert(ctx, fname, ty, ct=False):
    prog = ctx.prog
    p = BASE[ty]
    pats = subtle_models()

    # the word-level routine with the exponent of Fermat's little theorem
    def winv(I, c, a):
        q = sum(x << (64 * i) for i, x in enumerate(I.elems(a[3])))
        e = [I.simp(x) for x in I.elems(a[1])]
        if q != p or any(type(x) is not int for x in e):
            raise Unsupported("inversion with symbolic parameters")
        k = sum(x << (64 * i) for i, x in enumerate(e))
        if (p * a[4]) % (1 << 64) != M64 or sum(x << (64 * i) for i, x in enumerate(I.elems(a[2]))) != R256 % p:
            return NotImplemented
        u, okc = D.asnum(a[0], p)
        u = u.scale(pow(D.R(p), -1, p))
        c = D.zcond(u)
        r = some(D.num(p, D.pow_poly(u, k).scale(D.R(p))))
        if type(c) is int:
            return NONE if c else r
        return Ite(c, NONE, r)
    pats.append((re.compile(r"(^|::)bits_256::(\w+::)*invert$"), winv))
    D, I = session(prog, patterns=pats)
    f = prog.fn(fname)
    v, cs = symbolic(D, prog, base_ty(prog, f.locals[1]), "x")
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], v)])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    return option_result(D, I, prog, r, ct, p, cs[0], lambda val, facts:
                         D.zero(val * cs[0] - Poly.const(1, p), facts), "is not the inverse")


def option_result(D, I, prog, r, ct, p, x, good, msg, none_iff_zero=True):
    zc = D.zcond(x)
    seen = set()
    for facts, leaf in leaves(I, r):
        if ct:
            ch = leaf.f[1]
            while type(ch) is Agg:
                ch = ch.f[0]
            if type(ch) is not int:
                raise Unsupported("choice")
            is_some, val = bool(ch), leaf.f[0]
        else:
            is_some = leaf.v == 1
            val = leaf.f[0] if is_some else None
        if is_some:
            if none_iff_zero and not any_zero_excluded(D, x, facts):
                return "returns a value although the argument may be zero"
            if not good(D.val(val, p), facts):
                return "the returned value %s%s" % (msg, show_facts(D, facts))
            seen.add(1)
        else:
            if none_iff_zero and not D.zero(x, facts):
                return "returns none although the argument may be non-zero%s" % show_facts(D, facts)
            seen.add(0)
    if none_iff_zero and seen != {0, 1}:
        return "never returns %s" % ("a value" if 1 not in seen else "none")
    return None


def any_zero_excluded(D, x, facts):
    """x == 0 contradicts the facts"""
    f = dict(facts)
    c = D.zcond(x)
    if type(c) is int:
        return not c
    if f.get(c) is False:
        return True
    f[c] = True
    return D.zero(Poly.const(1, x.p), f)


def division(ctx, fname, ty):
    """a / b = a * invert(b)"""
    prog = ctx.prog
    p = BASE.get(ty, FQ)
    D, I0 = session(prog)
    seen = []

    def inv(I, c, a):
        v = I.simp(a[0])
        if type(v) is Ptr:
            v = I.load(v)
        t = coeffs(D, prog, v, p)
        val, u = symbolic(D, prog, prog.ty(ty), "u%d_" % len(seen))
        cond = ("tz", tuple(t))
        seen.append((t, u, cond))
        return Ite(cond, NONE, some(val))
    D, I = session(prog, overrides={"<%s as zkstd::common::Group>::invert" % ty: inv})
    f = prog.fn(fname)
    ta = prog.ty(ty)
    (x, a), (y, b) = symbolic(D, prog, ta, "a"), symbolic(D, prog, ta, "b")
    assign = fname.endswith("_assign")
    if assign:
        c = I.alloc(x)
        vs = [Ptr(c), wrap_arg(I, prog, f.locals[2], y)]
    else:
        vs = [wrap_arg(I, prog, f.locals[1], x), wrap_arg(I, prog, f.locals[2], y)]
    r = I.analyse(f, vs)
    ctx.used(I)
    if r is None:
        return "always panics"
    if assign:
        r = I.load(vs[0])
    if len(seen) != 1 or any((s - t).t for s, t in zip(seen[0][0], b)):
        raise Unsupported("division not through the inverse of the divisor")
    t, u, cond = seen[0]
    for q in I.panics:
        if not q.facts.get(cond):
            return "may panic for a non-zero divisor: %s" % q
    for facts, leaf in leaves(I, r):
        if facts.get(cond):
            continue
        d = differ(D, coeffs(D, prog, leaf, p), tmul(a, u), facts)
        if d:
            return d
    return None


class HavocDomain(FieldDomain):
    """joins forget: sound for the soundness of square roots"""

    def __init__(self):
        FieldDomain.__init__(self)
        self.nh = 0

    def join(self, c, a, b):
        self.nh += 1
        for x in (a, b):
            if type(x) is Num or type(x) is Arr:
                q = next((z.p for z in (a, b) if type(z) is Num), None)
                if q:
                    return self.num(q, self.fresh("h", q))
        if type(a) in (int, Opaque) and type(b) in (int, Opaque):
            return Opaque("h", (self.nh,))
        return None


from field import Num


def sqrt_sound(ctx, fname, ty):
    prog = ctx.prog
    p = BASE.get(ty, FQ)

    def powv(I, c, a):
        n = D.nh = D.nh + 1
        val, _ = symbolic(D, prog, prog.ty(ty), "pow%d_" % n)
        return val
    D = HavocDomain()
    I = Interp(prog, D, Models(overrides={ty + "::pow_vartime": powv}, patterns=D.limb_models() + subtle_models()))
    f = prog.fn(fname)
    v, cs = symbolic(D, prog, base_ty(prog, f.locals[1]), "x")
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], v)])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    some_seen = False
    for facts, leaf in leaves(I, r):
        if leaf.v == 0:
            continue
        some_seen = True
        got = coeffs(D, prog, leaf.f[0], p)
        d = differ(D, tmul(got, got), cs, facts)
        if d:
            return "the returned value is not shown to square to the argument: " + d
    if not some_seen:
        return "never returns a root"
    return None


def ff_sqrt(ctx, fname, ty):
    """the ff entry point answers what the inherent square root answers"""
    prog = ctx.prog
    p = BASE[ty]
    D, I = session(prog)
    n = []
    cond = ("root",)

    def root(I, c, a):
        v = I.load(a[0]) if type(I.simp(a[0])) is Ptr else a[0]
        if n or coeffs(D, prog, v, p)[0] != cs[0]:
            raise Unsupported("square root of something else")
        n.append(1)
        return Ite(cond, some(u), NONE)
    D, I = session(prog, overrides={ty + "::sqrt": root}, patterns=subtle_models())
    u, us = symbolic(D, prog, prog.ty(ty), "u")
    f = prog.fn(fname)
    v, cs = symbolic(D, prog, base_ty(prog, f.locals[1]), "x")
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], v)])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    if not n:
        raise Unsupported("does not use the inherent square root")
    for facts, leaf in leaves(I, r):
        ch = leaf.f[1]
        while type(ch) is Agg:
            ch = ch.f[0]
        if type(ch) is not int:
            raise Unsupported("choice")
        if bool(ch) != facts.get(cond):
            return "is_some = %s when the root %s" % (bool(ch), "exists" if facts.get(cond) else "does not exist")
        if ch:
            d = differ(D, coeffs(D, prog, leaf.f[0], p), us, facts)
            if d:
                return "returns another value than the root: " + d
    return None


class UPoly:
    """polynomial function of one variable on GF(p): exponents 0..p-1, x^p = x"""
    __slots__ = ("t", "p")

    def __init__(self, t, p):
        self.t = t
        self.p = p

    @staticmethod
    def red(e, p):
        return e if e < p else (e - 1) % (p - 1) + 1

    def __add__(self, o):
        t = dict(self.t)
        for k, c in o.t.items():
            t[k] = (t.get(k, 0) + c) % self.p
            if not t[k]:
                del t[k]
        return UPoly(t, self.p)

    def __neg__(self):
        return UPoly({k: -c % self.p for k, c in self.t.items()}, self.p)

    def __sub__(self, o):
        return self + (-o)

    def __mul__(self, o):
        if len(self.t) * len(o.t) > 4096:
            raise Unsupported("polynomial too long")
        t = {}
        for a, c in self.t.items():
            for b, d in o.t.items():
                e = UPoly.red(a + b, self.p)
                t[e] = (t.get(e, 0) + c * d) % self.p
                if not t[e]:
                    del t[e]
        return UPoly(t, self.p)

    def scale(self, k):
        k %= self.p
        return UPoly({e: c * k % self.p for e, c in self.t.items()} if k else {}, self.p)

    def is_zero(self):
        return not self.t

    def is_const(self):
        return all(e == 0 for e in self.t)

    def cval(self):
        return self.t.get(0, 0)

    def __eq__(self, o):
        return type(o) is UPoly and self.t == o.t

    def __hash__(self):
        return hash(frozenset(self.t.items()))

    def show(self, names=None, n=4):
        return " + ".join("%d*y^%s" % (c, e) for e, c in list(self.t.items())[:n]) or "0"


class UniDomain(FieldDomain):
    def asnum(self, v, p):
        r = FieldDomain.asnum(self, v, p)
        if isinstance(r[0], Poly):
            if not r[0].is_const():
                raise Unsupported("not a polynomial of the variable")
            c = r[0].cval()
            return UPoly({0: c} if c else {}, p), r[1]
        return r

    def zcond(self, d):
        if d.is_const():
            return int(d.is_zero())
        # not identically zero: unknown on some argument
        c = d.t[max(d.t)]
        return ("u", d.scale(pow(c, -1, d.p)))


def sqrt_complete(ctx, fname, ty):
    """the root of y^2 exists for every y"""
    prog = ctx.prog
    p = BASE[ty]
    D = UniDomain()
    I = Interp(prog, D, Models(patterns=D.limb_models()))
    f = prog.fn(fname)
    x = Agg(prog.ty(ty), 0, (Num(p, UPoly({2: D.R(p)}, p), 4),))
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], x)])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    for facts, leaf in leaves(I, r):
        if leaf.v == 0:
            return "no root is returned for squares y^2 with %s" % "; ".join(
                "%s %s 0" % (c[1].show(), "==" if v else "!=") for c, v in facts.items() if c[0] == "u")
    return None


def run(ctx):
    prog = ctx.prog
    ctx.ob("bits_256::pow", "exponent-polynomial", lambda: limb_pow(ctx, False))
    ctx.ob("bits_256::invert", "exponent-polynomial", lambda: limb_pow(ctx, True))
    alltys = list(BASE) + list(TOWER)
    for ty in alltys:
        for f in sorted(prog.by_name):
            e = re.escape(ty)
            if f == ty + "::pow_vartime":
                ctx.ob(f, "exponent-polynomial", lambda: field_pow(ctx, f, ty, "self"))
            elif ty in BASE and f == "<%s as zkstd::common::PrimeField>::pow_of_2" % ty:
                ctx.ob(f, "exponent-polynomial", lambda: field_pow(ctx, f, ty, "two"))
            elif f == "<%s as zkstd::common::FftField>::pow" % ty:
                ctx.ob(f, "exponent-passed", lambda: fft_pow(ctx, f, ty))
            elif ty in BASE and f == "<%s as zkstd::common::Group>::invert" % ty:
                ctx.ob(f, "inverse", lambda: invert(ctx, f, ty))
            elif ty in BASE and re.search(r"<impl ff::Field for %s>::invert$" % e, f):
                ctx.ob(f, "inverse", lambda: invert(ctx, f, ty, True))
            elif re.fullmatch(r"<(&('\w+ )?)?%s as std::ops::Div(Assign)?(<.*>)?>::div(_assign)?" % e, f):
                ctx.ob(f, "product-with-inverse", lambda: division(ctx, f, ty))
            elif f == ty + "::sqrt":
                ctx.ob(f, "root-squares-to-argument", lambda: sqrt_sound(ctx, f, ty))
                if ty == "bn_254::Fq":
                    ctx.ob(f + " of squares", "root-exists", lambda: sqrt_complete(ctx, f, ty))
            elif re.search(r"<impl ff::Field for %s>::sqrt$" % e, f):
                ctx.ob(f, "root-passed-on", lambda: ff_sqrt(ctx, f, ty))
