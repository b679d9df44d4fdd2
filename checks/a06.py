"""Comparison code over trichotomous tokens: every comparison of corresponding words (or sub-field coefficients) may come out
less, equal or greater; the gated result is evaluated for every combination of outcomes and must be a total order that agrees
with equality, in every form.  Zero tests are evaluated for every combination of zero words, the lexicographic test for all values
by interval analysis."""
import itertools
import re
from fields import *
from limb import LimbDomain, IE
from values import *
from prog import Unsupported

FLOOR = 40


class Tok:
    """word or coefficient i of operand side"""
    __slots__ = ("side", "i")

    def __init__(self, side, i):
        self.side = side
        self.i = i

    def __eq__(self, o):
        return type(o) is Tok and self.side == o.side and self.i == o.i

    def __hash__(self):
        return hash((self.side, self.i))

    def __repr__(self):
        return "%s[%d]" % (self.side, self.i)


class OrdDomain(FieldDomain):
    def __init__(self):
        FieldDomain.__init__(self)
        self.conds = set()

    def rel(self, a, b, op):
        """gated truth value of (a op b)"""
        if type(a) is Tok and type(b) is Tok:
            if a.side == b.side:
                if a.i == b.i:
                    return int(op in ("Eq", "Le", "Ge"))
                return self.g(("self", a, b, op))
            if a.i != b.i:
                return self.g(("cross", a, b, op))
            if a.side != "a":
                a, b = b, a
                op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
            lt, eq = ("lt", a.i), ("eq", a.i)
            if op in ("Eq", "Ne"):
                return self.g(eq, op == "Ne")
            if op in ("Lt", "Ge"):
                return self.g(lt, op == "Ge")
            # greater: neither
            r = Ite(lt, 0, Ite(eq, 0, 1))
            return self.not_(r) if op == "Le" else r
        if type(b) is Tok:
            a, b = b, a
            op = {"Lt": "Gt", "Gt": "Lt", "Le": "Ge", "Ge": "Le"}.get(op, op)
        if b == 0:
            z = ("zero", a)
            if op in ("Eq", "Le"):
                return self.g(z)
            if op in ("Ne", "Gt"):
                return self.g(z, True)
            return int(op == "Ge")
        raise Unsupported("comparison with %r" % (b,))

    def cmp3(self, x, y, t):
        if type(x) is not Tok or type(y) is not Tok:
            return None
        return self.I.lift(lambda l, e: Agg(None, 0 if l else (1 if e else 2), ()),
                           self.rel(x, y, "Lt"), self.rel(x, y, "Eq"))

    def g(self, c, neg=False):
        self.conds.add(c)
        return Ite(c, 0, 1) if neg else Ite(c, 1, 0)

    def binop(self, op, a, b, tid):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge") and (type(a) is Tok or type(b) is Tok):
            return self.rel(a, b, op)
        if op == "Cmp":
            return Ite(("lt", a.i), Agg(None, 0, ()), Ite(("eq", a.i), Agg(None, 1, ()), Agg(None, 2, ())))
        if op in ("Eq", "Ne") and type(a) is OrTok and b == 0:
            r = 1
            for t in a.ts:
                r = self.I.lift(lambda x, y: x & y, r, self.rel(t, 0, "Eq"))
            return self.not_(r) if op == "Ne" else r
        if op == "BitOr" and type(a) in (Tok, OrTok, int) and type(b) in (Tok, OrTok, int):
            ts = ()
            for v in (a, b):
                if type(v) is int and v:
                    raise Unsupported("or with a constant")
                ts += v.ts if type(v) is OrTok else ((v,) if type(v) is Tok else ())
            return OrTok(ts)
        return FieldDomain.binop(self, op, a, b, tid)

    def feasible(self, facts, c, val):
        if c[0] == "lt" and val:
            return facts.get(("eq", c[1])) is not True
        if c[0] == "eq" and val:
            return facts.get(("lt", c[1])) is not True
        return True

    def as_gate(self, v, term=None):
        return FieldDomain.as_gate(self, v, term)


class OrTok:
    def __init__(self, ts):
        self.ts = ts

    def __eq__(self, o):
        return type(o) is OrTok and self.ts == o.ts

    def __hash__(self):
        return hash(self.ts)


def evalv(v, env):
    """value of a gated result under an assignment of the conditions"""
    while type(v) is Ite:
        if v.c not in env:
            raise Dependent(v.c)
        v = v.a if env[v.c] else v.b
    return v


class Dependent(Exception):
    pass


def explain(c):
    if c[0] in ("self", "cross"):
        return "the result depends on comparing %r with %r" % (c[1], c[2])
    return "the result depends on %r" % (c,)


SUB = {"bn_254::Fq2": ("bn_254::Fq", 2), "bn_254::Fq6": ("bn_254::Fq2", 3), "bn_254::Fq12": ("bn_254::Fq6", 2)}


def width(ty):
    return SUB[ty][1] if ty in SUB else 4


def operand(prog, ty, side):
    tid = prog.type_by_str[ty]
    return Agg(tid, 0, (Arr(tuple(Tok(side, i) for i in range(width(ty)))),))


def child_models(ty):
    """comparisons of the sub-field, decided by their own obligations"""
    if ty not in SUB:
        return []
    ch = re.escape(SUB[ty][0])

    def cmp_op(op):
        def f(I, c, a):
            x, y = I.load(a[0]), I.load(a[1])
            if type(x) is not Tok and type(y) is not Tok:
                return NotImplemented
            return I.dom.rel(tok(I, x), tok(I, y), op)
        return f

    def tok(I, x):
        if type(x) is Tok:
            return x
        raise Unsupported("comparison with a constant coefficient")

    def cmp(I, c, a):
        x, y = tok(I, I.load(a[0])), tok(I, I.load(a[1]))
        lt, eq = I.dom.rel(x, y, "Lt"), I.dom.rel(x, y, "Eq")
        return I.lift(lambda l, e: Agg(None, 0 if l else (1 if e else 2), ()), lt, eq)

    def isz(I, c, a):
        x = a[0] if type(a[0]) is Tok else I.load(a[0])
        return I.dom.rel(x, 0, "Eq")
    pats = [(re.compile(r"^<%s as std::cmp::Partial(Ord|Eq)>::%s$" % (ch, n)), cmp_op(o))
            for n, o in (("lt", "Lt"), ("le", "Le"), ("gt", "Gt"), ("ge", "Ge"), ("eq", "Eq"), ("ne", "Ne"))]
    pats.append((re.compile(r"^<%s as std::cmp::Ord>::cmp$" % ch), cmp))
    pats.append((re.compile(r"^<%s as std::cmp::PartialOrd>::partial_cmp$" % ch), lambda I, c, a: some(cmp(I, c, a))))
    pats.append((re.compile(r"^<%s as [\w:]+>::is_zero$" % ch), isz))
    pats.append((re.compile(r"^%s::lexicographically_largest$" % ch),
                 lambda I, c, a: I.dom.g(("lex", I.load(a[0])))))
    return pats


def osession(prog, ty):
    D = OrdDomain()
    return D, Interp(prog, D, Models(patterns=child_models(ty) + subtle_models()))


def outcomes(n):
    for r in itertools.product("<=>", repeat=n):
        env = {}
        for i, x in enumerate(r):
            env[("lt", i)] = x == "<"
            env[("eq", i)] = x == "="
        yield r, env


def table(ctx, fname, ty, args, envs):
    """result of fname for every outcome of the elementary comparisons"""
    prog = ctx.prog
    D, I = osession(prog, ty)
    f = prog.fn(fname)
    vs = [wrap_arg(I, prog, f.locals[1 + i], operand(prog, ty, s)) for i, s in enumerate(args)]
    r = I.analyse(f, vs)
    ctx.used(I)
    if I.panics or r is None:
        return None, panics(I, r)
    t = {}
    for k, env in envs:
        try:
            v = evalv(r, env)
            if type(v) is Agg and len(v.f) == 1:
                v = Agg(v.tid, v.v, (evalv(v.f[0], env),))
        except Dependent as e:
            return None, explain(e.args[0])
        t[k] = v
    return t, None


def ordval(v):
    if type(v) is Agg and v.v == 1 and len(v.f) == 1:
        v = v.f[0]
    if type(v) is Agg and not v.f:
        return (-1, 0, 1)[v.v]
    raise Unsupported("ordering expected, got %r" % (v,))


def boolval(v):
    if type(v) is Agg and len(v.f) == 1:
        v = v.f[0]
    if type(v) is int:
        return v
    raise Unsupported("boolean expected, got %r" % (v,))


def show(r):
    return "words compare (least significant first) " + " ".join(r)


def total_order(ctx, fname, ty, memo):
    t, e = table(ctx, fname, ty, "ab", outcomes(width(ty)))
    if e:
        return e
    t = {k: ordval(v) for k, v in t.items()}
    memo[ty] = t
    n = width(ty)
    for r, v in t.items():
        if (v == 0) != all(x == "=" for x in r):
            return "%s when the %s" % ("equal" if v == 0 else "not equal", show(r))
        fl = tuple({"<": ">", ">": "<", "=": "="}[x] for x in r)
        if t[fl] != -v:
            return "not antisymmetric when the %s" % show(r)
    less = [r for r, v in t.items() if v < 0]
    comp = {("<", "<"): "<", ("<", "="): "<", ("=", "<"): "<", ("=", "="): "=", (">", ">"): ">", (">", "="): ">",
            ("=", ">"): ">", ("<", ">"): "<=>", (">", "<"): "<=>"}
    for r in less:
        for s in less:
            for c in itertools.product(*[comp[(x, y)] for x, y in zip(r, s)]):
                if t[c] >= 0:
                    return "not transitive: x<y (%s), y<z (%s) but not x<z (%s)" % (" ".join(r), " ".join(s), " ".join(c))
    return None


def form(ctx, fname, ty, op, memo):
    if op in ("eq", "ne"):
        base = {r: (0 if all(x == "=" for x in r) else 1) for r, _ in outcomes(width(ty))}
    else:
        base = memo.get(ty)
        if base is None:
            raise Unsupported("no order to compare with")
    t, e = table(ctx, fname, ty, "ab", outcomes(width(ty)))
    if e:
        return e
    for r, v in t.items():
        b = base[r]
        if op == "partial_cmp":
            if ordval(v) != b or v.v != 1:
                return "differs from cmp when the %s" % show(r)
            continue
        want = {"lt": b < 0, "le": b <= 0, "gt": b > 0, "ge": b >= 0, "eq": b == 0, "ne": b != 0}[op]
        if boolval(v) != int(want):
            return "%s is %s when the %s" % (op, bool(boolval(v)), show(r))
    return None


def zero_test(ctx, fname, ty):
    n = width(ty)

    def envs():
        for z in itertools.product((False, True), repeat=n):
            env = {("zero", Tok("a", i)): z[i] for i in range(n)}
            yield z, env
    t, e = table(ctx, fname, ty, "a", envs())
    if e:
        return e
    for z, v in t.items():
        if boolval(v) != int(all(z)):
            return "is %s when the words are %s" % (bool(boolval(v)), " ".join("0" if x else "*" for x in z))
    return None


def lex(ctx, fname, p):
    """base field: true exactly above (p-1)/2"""
    prog = ctx.prog
    D = LimbDomain()
    V = D.number("v", 0, p - 1)
    ws = Arr(D.limbs_of(V, 4))
    me = Arr(tuple(Opaque("mont", (i,)) for i in range(4)))

    def mont(I, c, a):
        x = I.elems(a[0])
        if all(type(y) is Opaque and y.args == (i,) for i, y in enumerate(x[:4])) and all(y == 0 for y in x[4:]):
            return ws
        raise Unsupported("reduction of something else")
    I = Interp(prog, D, Models(patterns=[(re.compile(r"(^|::)bits_256::(\w+::)*mont$"), mont)]))
    f = prog.fn(fname)
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], Agg(base_ty(prog, f.locals[1]), 0, (me,)))])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    h = (p - 1) // 2

    def chk(q):
        if not q.is_const():
            raise Unsupported("result " + q.show(D.names))
        lo, hi = D.bounds(V)
        if q.cval() and lo <= h:
            return "true for values from %s(q-1)/2%+d" % ("", lo - h) if abs(lo - h) < 1 << 64 else "true for values from %d" % lo
        if not q.cval() and hi > h:
            return "false for values up to (q-1)/2%+d" % (hi - h)
        return None
    return D.cases(D.poly(r), chk)


def lex2(ctx, fname, ty):
    """degree two: by the imaginary part, ties (zero) by the real part"""
    prog = ctx.prog
    D, I = osession(prog, ty)
    f = prog.fn(fname)
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], operand(prog, ty, "a"))])
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r)
    for l0, z0, l1, z1 in itertools.product((False, True), repeat=4):
        if l0 and z0 or l1 and z1:
            continue
        env = {("lex", Tok("a", 0)): l0, ("lex", Tok("a", 1)): l1, ("zero", Tok("a", 0)): z0, ("zero", Tok("a", 1)): z1}
        try:
            v = boolval(evalv(r, env))
        except Dependent as e:
            return explain(e.args[0])
        if v != int(l1 or (z1 and l0)):
            return "is %s when real part largest=%s, imaginary part largest=%s zero=%s" % (bool(v), l0, l1, z1)
    return None


FORMS = {"PartialOrd": ("lt", "le", "gt", "ge", "partial_cmp"), "PartialEq": ("eq", "ne")}


def run(ctx):
    prog = ctx.prog
    memo = {}
    for ty in ("bn_254::Fr", "bn_254::Fq", "bn_254::Fq2", "bn_254::Fq6", "bn_254::Fq12"):
        nm = "<%s as std::cmp::Ord>::cmp" % ty
        ctx.ob(nm, "total-order", lambda: total_order(ctx, nm, ty, memo))
        for tr, ops in FORMS.items():
            for op in ops:
                f = "<%s as std::cmp::%s>::%s" % (ty, tr, op)
                if f in prog.by_name:
                    ctx.ob(f, "agrees-with-order", lambda: form(ctx, f, ty, op, memo))
        for f in sorted(prog.by_name):
            if re.fullmatch(r"<%s as [\w:]+>::is_zero" % re.escape(ty), f) or f == ty + "::is_zero":
                ctx.ob(f, "zero-test", lambda: zero_test(ctx, f, ty))
            elif re.search(r"<impl [\w:]*ConstantTimeEq for %s>::ct_eq$" % re.escape(ty), f) or \
                    re.fullmatch(r"<%s as [\w:]*ConstantTimeEq>::ct_eq" % re.escape(ty), f):
                ctx.ob(f, "agrees-with-equality", lambda: form(ctx, f, ty, "eq", memo))
    f = "bn_254::Fq::lexicographically_largest"
    ctx.ob(f, "half-range", lambda: lex(ctx, f, FQ))
    g = "bn_254::Fq2::lexicographically_largest"
    if g in prog.by_name:
        ctx.ob(g, "lexicographic", lambda: lex2(ctx, g, "bn_254::Fq2"))
