"""The final exponentiation: values of the degree-12 field are powers f^E (E an integer modulo q^12 - 1); products, inverses, conjugation and
Frobenius maps act on E (A03, A04, A06 decide those bodies).  Routines that work on the components of their argument are decided separately, as
polynomial maps modulo the relations of the cyclotomic subgroup, and act as the power they were found to be, on arguments in that subgroup.
The operators of the target group are decided the same way, with exponents modulo r."""
from fields import *

FLOOR = 12
NN = FQ ** 12 - 1
CYC = FQ ** 4 - FQ ** 2 + 1      # order of the cyclotomic subgroup
F12 = "bn_254::Fq12"
GT = "bn_254::Gt"
RX = re.compile(r"^<&?(?:'\w+ )?bn_254::Fq12 as ([\w:]+?)(?:<.*>)?>::(\w+)(?:::<.*>)?$|^bn_254::Fq12::(\w+)$")


class Pow:
    """product of named elements of the degree-12 field raised to integers"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = {k: v for k, v in e.items() if v}

    def __eq__(self, o):
        return type(o) is Pow and self.e == o.e

    def __hash__(self):
        return hash(frozenset(self.e.items()))

    def __repr__(self):
        return " * ".join("%s^%s" % (k, v if v < 1 << 40 else hex(v)) for k, v in sorted(self.e.items())) or "1"


class PowDomain(FieldDomain):
    N = NN

    def red(self, e):
        return Pow({k: v % self.N for k, v in e.items()})

    def mul(self, a, b):
        e = dict(a.e)
        for k, v in b.e.items():
            e[k] = e.get(k, 0) + v
        return self.red(e)

    def pow(self, a, n):
        return self.red({k: v * n for k, v in a.e.items()})

    def eq(self, a, b):
        if type(a) is Pow and type(b) is Pow:
            return self.powz(self.mul(a, self.pow(b, -1)))
        return FieldDomain.eq(self, a, b)

    def powz(self, d):
        if not d.e:
            return 1
        m = min(d, self.pow(d, -1), key=lambda x: sorted(x.e.items()))
        return Ite(("pw", tuple(sorted(m.e.items()))), 1, 0)

    def join(self, c, a, b):
        return None if type(a) is Pow or type(b) is Pow else FieldDomain.join(self, c, a, b)

    def pval(self, v):
        I = self.I
        v = I.simp(v)
        while type(v) is Ptr:
            v = I.simp(I.load(v))
        if type(v) is Agg and I.p.types[v.tid]["s"] == GT:
            return self.pval(v.f[0])
        if type(v) is Agg and I.p.types[v.tid]["s"] == F12:
            cs = coeffs(self, I.p, v, FQ)
            if all(x.is_const() for x in cs):
                k = [x.cval() for x in cs]
                if k == [1] + [0] * 11:
                    return Pow({})
                if any(k):
                    return Pow({"constant%d" % self.name(tuple(k)): 1})
                raise Zero()
        if type(v) is not Pow:
            raise Unsupported("element of the target group expected, got %s" % type(v).__name__)
        return v

    named = None

    def name(self, k):
        if self.named is None:
            self.named = []
        if k not in self.named:
            self.named.append(k)
        return self.named.index(k)


class Zero(Exception):
    pass


def component_fn(prog, f):
    """the body projects into the components of a degree-12 element"""
    F = {prog.ty(F12), prog.ty("bn_254::Fq6")}

    def places(x):
        if type(x) is list:
            if len(x) > 1 and type(x[0]) is int and all(type(y) is list and y for y in x[1:]):
                yield x
            for y in x:
                yield from places(y)
    for stmts, term in f.bbs or ():
        for p in places([stmts, term]):
            if p[0] < len(f.locals) and base_ty(prog, f.locals[p[0]]) in F and any(q[0] == "f" for q in p[1:]):
                return True
    return False


def relations(a):
    """components of a * a^(q^4) - a^(q^2) and a * a^(q^6) - 1, which vanish on the cyclotomic subgroup"""
    one = [Poly.const(1, FQ)] + [Poly.const(0, FQ)] * 11
    return tsub(tmul(a, frob(a, 4)), frob(a, 2)) + tsub(tmul(a, frob(a, 6)), one)


def frob(a, k):
    import a04
    return a04.frobenius(a, k)


def in_span(d, rels):
    """every polynomial of d is a linear combination over Fq of the relations"""
    piv = []
    for r in rels:
        v = dict(r.t)
        for m, row in piv:
            if m in v:
                k = v[m]
                for n, c in row.items():
                    x = (v.get(n, 0) - k * c) % FQ
                    if x:
                        v[n] = x
                    else:
                        v.pop(n, None)
        if v:
            m = max(v)
            i = pow(v[m], -1, FQ)
            piv.append((m, {n: c * i % FQ for n, c in v.items()}))
    for i, p in enumerate(d):
        v = dict(p.t)
        for m, row in piv:
            if m in v:
                k = v[m]
                for n, c in row.items():
                    x = (v.get(n, 0) - k * c) % FQ
                    if x:
                        v[n] = x
                    else:
                        v.pop(n, None)
        if v:
            return False
    return True


_EL = []


def cyclotomic_element():
    """coefficients of one fixed element of the cyclotomic subgroup outside every smaller one that matters here"""
    if not _EL:
        e = [3, 1, 4, 1, 5, 9, 2, 6, 5, 3, 5, 8]
        _EL.append(tpow_const(e, (FQ ** 6 - 1) * (FQ ** 2 + 1)))
    return _EL[0]


def classify(ctx, f):
    """n such that the one-argument routine f raises elements of the cyclotomic subgroup to the n-th power; a reason when it is none of the
    powers tried"""
    prog = ctx.prog
    D, I = session(prog)
    v, a = symbolic(D, prog, prog.ty(F12), "a")
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], v)])
    ctx.used(I)
    if I.panics or r is None:
        raise Unsupported("%s may panic" % f.name)
    ls = leaves(I, r)
    if len(ls) != 1:
        raise Unsupported("%s branches on the components" % f.name)
    got = coeffs(D, prog, ls[0][1], FQ)
    if max(max((len(m) for m in p.t), default=0) for p in got) > 2:
        raise Unsupported("%s is not quadratic in the components" % f.name)
    rel = relations(a)
    one = [Poly.const(1, FQ)] + [Poly.const(0, FQ)] * 11
    cands = [(2, tmul(a, a)), (1, a)] + [(FQ ** k, frob(a, k)) for k in range(1, 12)] + [(0, one)]
    for n, want in cands:
        if in_span(tsub(got, want), rel):
            return n, None
    ce = cyclotomic_element()
    ids = [list(p.t)[0][0] for p in a]
    at = dict(zip(ids, ce))

    def ev(p):
        s = 0
        for m, c in p.t.items():
            for q in m:
                c = c * at[q] % FQ
            s += c
        return s % FQ
    g = [ev(p) for p in got]
    for n, want in cands:
        if g == [ev(p) for p in want]:
            raise Unsupported("%s is not decided by linear combinations of the relations" % f.name)
    return None, "%s is neither the square nor another simple power on the cyclotomic subgroup (coefficient 0 of a fixed element is %s.., " \
        "of its square %s..)" % (f.name, hex(g[0])[:14], hex(ev(cands[0][1][0]))[:14])


USED = {}


class Final:
    def __init__(self, ctx, N=NN):
        self.ctx, self.prog = ctx, ctx.prog
        self.D = PowDomain()
        self.D.N = N
        prog = ctx.prog
        self.comp = {}
        for f in prog.fns.values():
            if f.crate == "bn_254" and f.bbs and f.n == 1 and not RX.match(f.name) and base_ty(prog, f.locals[1]) == prog.ty(F12) \
                    and f.locals[0] == prog.ty(F12) and component_fn(prog, f):
                self.comp[f.name] = f
        pats = [(RX, self.op)]
        if self.comp:
            pats.append((re.compile("^(%s)$" % "|".join(map(re.escape, self.comp))), self.component))
        self.I = Interp(prog, self.D, Models(patterns=pats + self.D.limb_models()))

    def op(self, I, c, a):
        D = self.D
        g = RX.match(c.fn.name)
        op = g.group(2) or g.group(3)
        tr = (g.group(1) or "").split("::")[-1]

        def lift(fn, *xs):
            def leaf(v):
                v = I.simp(v)
                while type(v) is Ptr:
                    v = I.simp(I.load(v))
                return v
            return I.lift(lambda *ys: fn(*[D.pval(y) for y in ys]), *[leaf(x) for x in xs])
        if op in ("mul", "mul_ext_field"):
            return lift(D.mul, a[0], a[1])
        if op == "mul_assign":
            I.store(a[0], lift(D.mul, a[0], a[1]))
            return UNIT
        if op == "div":
            return lift(lambda x, y: D.mul(x, D.pow(y, -1)), a[0], a[1])
        if op in ("square", "square_ext_field"):
            return lift(lambda x: D.pow(x, 2), a[0])
        if op == "square_assign":
            I.store(a[0], lift(lambda x: D.pow(x, 2), a[0]))
            return UNIT
        if op in ("invert", "get_invert"):
            return I.lift(some, lift(lambda x: D.pow(x, -1), a[0]))
        if op == "conjugate":
            return lift(lambda x: D.pow(x, FQ ** 6), a[0])
        if op == "frobenius_map":
            return lift(lambda x: D.pow(x, FQ), a[0])
        if op == "frobenius_maps":
            k = I.simp(a[1])
            if type(k) is not int:
                raise Unsupported("symbolic Frobenius power")
            return lift(lambda x: D.pow(x, FQ ** k), a[0])
        if op == "clone":
            return lift(lambda x: x, a[0])
        if op == "one" and not a:
            return Pow({})
        if op in ("eq", "ne") and tr == "PartialEq":
            r = lift(D.mul, a[0], lift(lambda x: D.pow(x, -1), a[1]))
            r = I.lift(D.powz, r)
            return r if op == "eq" else I.lift(lambda x: 1 - x, r)
        if op == "random":
            return Pow({"random": 1})
        if op in ("is_zero",):
            return 0
        if op in ("final_exp", "untwist"):
            return NotImplemented
        if op in ("add", "sub", "neg", "double", "add_assign", "sub_assign", "double_assign"):
            raise Unsupported("a sum of powers (%s)" % c.fn.name)
        return NotImplemented

    def component(self, I, c, a):
        n = c.fn.name
        if n not in USED:
            USED[n] = classify(self.ctx, self.comp[n])
        k, why = USED[n]
        if k is None:
            raise Bad(why)

        def f(v):
            x = self.D.pval(v)
            if any(e * CYC % NN for e in x.e.values()) and self.D.N == NN:
                raise Bad("%s is applied to an element that need not lie in the cyclotomic subgroup" % n)
            return self.D.pow(x, k)
        return I.lift(f, I.simp(a[0]))


class Bad(Exception):
    pass


def final(ctx):
    S = Final(ctx)
    f = ctx.prog.fn("bn_254::Fq12::final_exp")
    try:
        r = S.I.analyse(f, [wrap_arg(S.I, ctx.prog, f.locals[1], Pow({"f": 1}))])
        ctx.used(S.I)
        if S.I.panics:
            return "may panic for a non-zero element: %s" % S.I.panics[0]
        if r is None:
            return "always panics"
        for facts, leaf in leaves(S.I, r):
            e = S.D.pval(leaf)
            if set(e.e) - {"f"}:
                raise Unsupported("result is %r" % e)
            E = e.e.get("f", 0)
            if E * FR % NN:
                return "the result is f^E with E*r not divisible by q^12 - 1, so it need not have order r (E = %s..)" % hex(E)[:20]
            if E * FR // NN % FR == 0:
                return "the result is always one"
    except Bad as x:
        return str(x)
    return None


def gt(ctx, name, args, want, assign=False):
    """operators of the target group: exponents modulo r (conjugation inverts there, since r divides q^6 + 1)"""
    prog = ctx.prog
    f = prog.fn(name)
    S = Final(ctx, FR)
    g = prog.ty(GT)
    vals = [Agg(g, 0, (Pow({x: 1}),)) for x in args]
    vals = [wrap_arg(S.I, prog, f.locals[1 + i], v) for i, v in enumerate(vals)]
    try:
        r = S.I.analyse(f, vals)
    except Zero:
        return "the result is the zero of the field, which is not in the group"
    except Bad as x:
        return str(x)
    ctx.used(S.I)
    if S.I.panics:
        return "may panic: %s" % S.I.panics[0]
    if r is None:
        return "always panics"
    if assign:
        r = vals[0]
    try:
        if type(want) is str:
            return boolean(S, r, want)
        for facts, leaf in leaves(S.I, r):
            e = S.D.pval(leaf)
            if e != S.D.red(want):
                return "the result is %r, expected %r" % (e, S.D.red(want))
    except Zero:
        return "the result is the zero of the field, which is not in the group"
    return None


def boolean(S, r, want):
    c = S.D.powz(Pow({"a": 1, "b": FR - 1})).c
    for facts, leaf in leaves(S.I, r):
        if set(facts) - {c}:
            raise Unsupported("comparison depends on %r" % (set(facts) - {c},))
        if c not in facts:
            return "the comparison is always %s" % leaf
        if bool(leaf) != (facts[c] == (want == "eq")):
            return "the comparison is %s although the elements are %s" % (bool(leaf), "equal" if facts[c] else "different")
    return None


def rand(ctx, name):
    """the result is a drawn element raised to a multiple of (q^12-1)/r"""
    S = Final(ctx)
    f = ctx.prog.fn(name)
    try:
        r = S.I.analyse(f, [S.I.ref(Opaque("rng", ()))])
    except Bad as x:
        return str(x)
    ctx.used(S.I)
    if S.I.panics:
        return "may panic: %s" % S.I.panics[0]
    for facts, leaf in leaves(S.I, r):
        e = S.D.pval(leaf)
        if set(e.e) != {"random"}:
            raise Unsupported("random element is %r" % e)
        if e.e["random"] * FR % NN:
            return "random elements need not have order r"
    return None


def constants(ctx, what):
    prog = ctx.prog
    D, I = session(prog)
    r = I.analyse(prog.fn("verif_roots::k::gt_" + what), [])
    ctx.used(I)
    k = [x.cval() for x in coeffs(D, prog, I.simp(r).f[0], FQ)]
    one = [1] + [0] * 11
    if what == "identity":
        return None if k == one else "the identity is not one"
    if k == one or tpow_const(k, FR) != one:
        return "the generator does not have order r"
    return None


OPS = {"Add": {"a": 1, "b": 1}, "Mul": {"a": 1, "b": 1}, "Sub": {"a": 1, "b": -1}, "Neg": {"a": -1}}
GRX = re.compile(r"^<&?(?:'\w+ )?bn_254::Gt as (?:std::ops::|std::cmp::|std::clone::|zkstd::common::)(\w+)(?:<.*>)?>::(\w+)(::<.*>)?$")


def run(ctx):
    prog = ctx.prog
    ctx.ob("bn_254::Fq12::final_exp", "exponent", lambda: final(ctx))
    for n, f in sorted(Final(ctx).comp.items()):
        if n in USED:
            ctx.ob(n, "component routine used by the final exponentiation is a power on the cyclotomic subgroup", lambda: USED[n][1])
    for w in ("identity", "generator"):
        ctx.ob("Gt", w, lambda: constants(ctx, w))
    for f in sorted(prog.fns.values(), key=lambda f: f.name):
        g = GRX.match(f.name)
        if not g or not f.bbs:
            continue
        tr, op = g.group(1), g.group(2)
        base = tr.replace("Assign", "")
        if base in OPS:
            ctx.ob(f.name, "group operation", lambda: gt(ctx, f.name, sorted(OPS[base]), OPS[base], tr.endswith("Assign")))
        elif tr == "PartialEq" and op in ("eq", "ne"):
            ctx.ob(f.name, "comparison", lambda: gt(ctx, f.name, ["a", "b"], op))
        elif tr == "Clone" and op == "clone":
            ctx.ob(f.name, "copy", lambda: gt(ctx, f.name, ["a"], {"a": 1}))
        elif op == "zero":
            ctx.ob(f.name, "identity", lambda: gt(ctx, f.name, [], {}))
        elif op == "random":
            ctx.ob(f.name, "random element", lambda: rand(ctx, f.name))
    if prog.has("bn_254::Gt::double"):
        ctx.ob("bn_254::Gt::double", "group operation", lambda: gt(ctx, "bn_254::Gt::double", ["a"], {"a": 2}))
