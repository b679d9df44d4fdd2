"""Circuit gadgets: each is run over symbolic wire values; its assignment is compared with the native function (R03) and the
recorded constraints, with every wire the gadget added free, must force the output to that function (R04)."""
import itertools
import re
from circ import *
from r01 import Sys, scalar
from solve import forced, Sys2
import curves

GAD = "zkstd::circuit::prelude::"
CURVE_OF = {FQ: curves.CURVES[0], FR: curves.CURVES[2]}


class GadgetDomain(SplitDomain):
    """bits of a decomposition are opaque values"""

    def cast(self, v, st, dt):
        if type(v) is Opaque and v.op == "bit":
            return v
        return SplitDomain.cast(self, v, st, dt)


class Gadget:
    """one analysed call"""

    def __init__(self, ctx, driver, facts, nx=2, nw=6, bits=None, patterns=(), values=None, domain=GadgetDomain):
        prog = ctx.prog
        self.prog, self.driver = prog, driver
        self.F = F = Fld(prog, scalar(prog, driver))
        self.S = Sys(prog, driver, F)
        self.p = F.p
        self.ctx = ctx
        self.bits = bits
        self.D = D = domain()
        more = D.ext_models() if hasattr(D, "ext_models") else []
        self.I = I = Interp(prog, D, Models(patterns=list(patterns) + self.patterns() + more + D.limb_models()))
        I.st.facts.update(facts)
        self.x = [Poly.const(1, self.p)] + [D.var("x%d" % i, self.p) for i in range(1, nx + 1)]
        self.w = [D.var("w%d" % i, self.p) for i in range(nw)]
        if values:
            for k, v in values.items():
                (self.x if k[0] == "i" else self.w)[k[1]] = v if type(v) is Poly else Poly.const(v, self.p)
        self.nx, self.nw = nx + 1, nw
        old = [[[(("w", 0), Poly.const(1, self.p))]]] * 3
        self.cs = I.ref(self.S.make(D, 0, [], [], [], self.x, self.w))
        self.fresh = {}

    def patterns(self):
        return [(re.compile(r"::to_bits$"), self.to_bits), (re.compile(r"From<u64>>::from$"), self.from_u64)]

    def to_bits(self, I, c, a):
        v = I.simp(a[0])
        if not c.fn.name.startswith("<" + self.F.ty + " as "):
            return NotImplemented
        d = self.D.val(v, self.p)
        if d.is_const():
            n = d.cval()
            return VecV([(n >> (255 - i)) & 1 for i in range(256)], -1)
        if self.bits is None:
            raise Unsupported("bits of a symbolic value")
        return VecV(self.bits(self, d), -1)

    def from_u64(self, I, c, a):
        v = I.simp(a[0])
        if type(v) is Ite:
            raise Split(v.c)
        if type(v) is Opaque and v.op == "bit" and c.fn.name.startswith("<" + self.F.ty + " "):
            return self.F.el(self.D, v.args[0])
        return NotImplemented

    # ---- values
    def row(self, terms):
        return self.F.row(self.D, [(w, c if type(c) is Poly else Poly.const(c, self.p)) for w, c in terms])

    def fa(self, terms):
        return Agg(self.prog.ty(GAD + "FieldAssignment<%s>" % self.F.ty), 0, (self.row(terms),))

    def ba(self, w):
        return Agg(self.prog.ty(GAD + "BinaryAssignment"), 0, (wire(self.prog, w),))

    def pa(self, xs, ys, zs):
        return Agg(self.prog.ty(GAD + "PointAssignment<%s>" % self.F.ty), 0, (self.fa(xs), self.fa(ys), self.fa(zs)))

    def const(self, c):
        return self.F.el(self.D, c)

    def slice(self, xs):
        a = self.I.ref(Arr(tuple(xs)))
        return Ptr(a.cell, a.path, 0, len(xs))

    def terms(self, v):
        """row of a field or boolean assignment"""
        v = self.I.simp(v)
        while type(v) is Ptr:
            v = self.I.simp(self.I.load(v))
        s = self.prog.types[v.tid]["s"] if v.tid is not None else ""
        if "BinaryAssignment" in s:
            return [(unwire(self.I, v.f[0]), Poly.const(1, self.p))]
        return self.F.unrow(self.D, v.f[0])

    def coords(self, v):
        v = self.I.simp(v)
        return [self.terms(x) for x in v.f]

    # ---- run
    def call(self, fn, args):
        f = self.prog.fn(fn)
        r = self.I.analyse(f, args)
        self.ctx.used(self.I)
        if self.I.panics:
            for p in self.I.panics:
                if not self.D.zero(Poly.const(1, self.p), p.facts):
                    return None, "may panic: %s" % (p,)
        if r is None:
            return None, "always panics"
        return r, None

    def state(self):
        return self.S.read(self.D, self.I.load(self.cs))


def shape(s):
    """constraints without values, to compare between assignments"""
    return tuple(tuple(tuple(sorted((w, c.show()) for w, c in r)) for r in s[n]) for n in "abc"), len(s["x"]), len(s["w"])


def rows_of(g, v):
    """the linear combinations a gadget returned: their wires and coefficients"""
    v = g.I.simp(v)
    if type(v) is not Agg or v.tid is None:
        return None
    t = g.prog.types[v.tid]["s"]
    if "Assignment" not in t:
        return None
    if "PointAssignment" in t:
        return tuple(rows_of(g, c) for c in v.f)
    return tuple((w, c.show()) for w, c in sorted(g.terms(v)))


class Spec:
    """what a gadget must do.
    args(g) -> argument list (after cs handling); nbits: number of boolean inputs (wires w4, w5, x2)
    complete(g, ev, r) -> [(assume, goals)]: under assume the assignment satisfies the constraints and goals vanish
    sound(g, ev, r)    -> [(assume, goals)]: under assume the constraints force goals to vanish
    assume: list of ("eq" | "ne", poly)"""

    def __init__(self, args, complete, sound=None, bitw=(), patterns=(), bits=None, values=None, binary_out=False):
        self.args, self.complete, self.bitw = args, complete, bitw
        self.sound = sound or complete
        self.values = values or {}


def lin2(terms, x, w, p):
    return lin(terms, x, w, p)


def facts_of(D, assume, facts):
    """facts extended with the assumptions; None when contradictory"""
    f = dict(facts)
    for k, d in assume:
        if d.is_zero():
            if k == "ne":
                return None
            continue
        if d.is_const():
            if k == "eq":
                return None
            continue
        z = D.zcond(d)
        if type(z) is int:
            if bool(z) != (k == "eq"):
                return None
            continue
        if f.get(z, k == "eq") != (k == "eq"):
            return None
        f[z] = k == "eq"
    if D.zero(Poly.const(1, 2 if False else list(assume)[0][1].p), f) if assume else False:
        return None
    return f


def decide(ctx, driver, fn, spec, mode):
    """mode 'assign' (R03) or 'force' (R04)"""
    shapes = {}
    for bv in itertools.product((0, 1), repeat=len(spec.bitw)):
        vals = dict(zip(spec.bitw, bv))
        vals.update(spec.values)

        def run(facts):
            g = Gadget(ctx, driver, facts, values=vals)
            r, bad = g.call(fn, spec.args(g))
            if bad:
                return bad if mode == "assign" else None
            s = g.state()
            p = g.p
            nc = len(s["a"])
            if s["m"] != nc or len(s["b"]) != nc or len(s["c"]) != nc:
                return "the constraint counter is %s after %d constraints" % (s["m"], nc)
            if differ(g.D, s["x"][:g.nx], g.x) or differ(g.D, s["w"][:g.nw], g.w):
                return "changes values already assigned"
            params = [("eq" if v else "ne", c[2]) for c, v in g.I.st.facts.items() if c[0] == "z" and all(
                not re.match(r"[xw]\d", g.D.names[a]) for a in c[2].atoms())]
            key = tuple(sorted((a, d.show()) for a, d in params))
            if shapes.setdefault(key, shape(s)) != shape(s):
                return "the recorded constraints depend on the assigned values"
            rows = rows_of(g, r)
            if shapes.setdefault((key, "result"), rows) != rows:
                return "the returned linear combination depends on the assigned values"
            if mode == "assign":
                ev = lambda t: lin(t, s["x"], s["w"], p)
                for assume, goals in spec.complete(g, ev, r):
                    f = facts_of(g.D, assume, g.I.st.facts)
                    if f is None:
                        continue
                    for label, d in goals:
                        if not g.D.zero(d, f):
                            return "%s is not the native value: off by %s%s" % (label, d.show(g.D.names, 6), show_facts(g.D, f))
                    for i in range(nc):
                        d = ev(s["a"][i]) * ev(s["b"][i]) - ev(s["c"][i])
                        if not g.D.zero(d, f):
                            return "its own assignment violates constraint %d: %s%s" % (i, d.show(g.D.names, 6), show_facts(g.D, f))
                return None
            # all wires free
            x = [Poly.const(1, p)] + [g.D.var("X%d" % i, p) for i in range(1, len(s["x"]))]
            w = [g.D.var("W%d" % i, p) for i in range(len(s["w"]))]
            for k, v in spec.values.items():
                (x if k[0] == "i" else w)[k[1]] = v if type(v) is Poly else Poly.const(v, p)
            ev = lambda t: lin(t, x, w, p)
            eqs = [(ev(a), ev(b), ev(c)) for a, b, c in zip(s["a"], s["b"], s["c"])]
            new = set()
            for q in w[g.nw:]:
                new |= q.atoms()
            for assume, goals in spec.sound(g, ev, r):
                assume = assume + params
                one, z = Poly.const(1, p), Poly.const(0, p)
                d = forced(eqs + [(q, one, z) for k, q in assume if k == "eq"], [q for k, q in assume if k == "ne"], goals, g.D.names, new)
                if d:
                    return d
            return None
        r = explore(run)
        if r:
            return r
        if mode == "force" and spec.bitw:
            pass
    return None


# ------------------------------------------------------------------ specifications
def W(i):
    return ("w", i)


def X(i):
    return ("i", i)


ONE = ("i", 0)
IN = [  # operand rows
    ([(W(0), 1)], [(W(1), 1)]),
    ([(W(0), 2), (X(1), 1)], [(W(1), 1), (ONE, 5)]),
    ([(W(0), 1)], [(W(0), 1)]),
    ([(ONE, 7)], [(W(1), 3)]),
    ([(X(1), 1)], [(ONE, 7)]),
    ([(ONE, 0)], [(W(1), 1)]),
    ([(ONE, 3)], [(ONE, 4)]),
]
BITS = (W(4), W(5), X(2))


def field_specs(prefix, F):
    """function name -> list of Spec"""
    p = F.p
    k = lambda n: Poly.const(n, p)
    S = {}

    def two(name, out):
        S[name] = [Spec(lambda g, a=a, b=b: [g.cs, g.I.ref(g.fa(a)), g.I.ref(g.fa(b))],
                        lambda g, ev, r, a=a, b=b: [([], [("output", ev(g.terms(r)) - out(ev(a), ev(b)))])]) for a, b in IN]
    two("mul", lambda x, y: x * y)
    two("add", lambda x, y: x + y)
    S["square"] = [Spec(lambda g, a=a: [g.cs, g.I.ref(g.fa(a))],
                        lambda g, ev, r, a=a: [([], [("output", ev(g.terms(r)) - ev(a) * ev(a))])]) for a, _ in IN]
    for name, sgn in (("is_eq", 1), ("is_neq", 0)):
        S[name] = [Spec(lambda g, a=a, b=b: [g.cs, g.I.ref(g.fa(a)), g.I.ref(g.fa(b))],
                        lambda g, ev, r, a=a, b=b, sgn=sgn: [
                            ([("eq", ev(a) - ev(b))], [("output for equal inputs", ev(g.terms(r)) - k(sgn))]),
                            ([("ne", ev(a) - ev(b))], [("output for different inputs", ev(g.terms(r)) - k(1 - sgn))])])
                   for a, b in IN[:2] + IN[4:5]]
    S["enforce_eq"] = [Spec(lambda g, a=a, b=b: [g.cs, g.I.ref(g.fa(a)), g.I.ref(g.fa(b))],
                            lambda g, ev, r, a=a, b=b: [([("eq", ev(a) - ev(b))], [])],
                            lambda g, ev, r, a=a, b=b: [([], [("difference", ev(a) - ev(b))])]) for a, b in IN[:5]]
    S["enforce_eq_constant"] = [Spec(lambda g, a=a, c=c: [g.cs, g.I.ref(g.fa(a)), g.I.ref(g.const(c(g)))],
                                     lambda g, ev, r, a=a, c=c: [([("eq", ev(a) - c(g))], [])],
                                     lambda g, ev, r, a=a, c=c: [([], [("difference", ev(a) - c(g))])])
                                for a, _ in IN[:2] for c in (lambda g: Poly.const(0, p), lambda g: Poly.const(9, p))]
    cond = lambda a, b, w: Spec(
        lambda g: [g.cs, g.I.ref(g.fa(a)), g.I.ref(g.fa(b)), g.I.ref(g.ba(w))],
        lambda g, ev, r: [([("eq", ev([(w, k(1))]))], []), ([("eq", ev([(w, k(1))]) - k(1)), ("eq", ev(a) - ev(b))], [])],
        lambda g, ev, r: [([("eq", ev([(w, k(1))]) - k(1))], [("difference", ev(a) - ev(b))])], bitw=(w,))
    S["conditional_enforce_equal"] = [cond(a, b, w) for (a, b), w in zip(IN[:5], itertools.cycle(BITS))]
    S["conditional_select"] = [Spec(
        lambda g, a=a, b=b, w=w: [g.cs, g.I.ref(g.fa(a)), g.I.ref(g.fa(b)), g.I.ref(g.ba(w))],
        lambda g, ev, r, a=a, b=b, w=w: [([("eq", ev([(w, k(1))]))], [("output for condition 0", ev(g.terms(r)) - ev(b))]),
                                         ([("eq", ev([(w, k(1))]) - k(1))], [("output for condition 1", ev(g.terms(r)) - ev(a))])],
        bitw=(w,)) for (a, b), w in zip(IN, itertools.cycle(BITS))]
    S["inputize"] = [Spec(lambda g, a=a: [g.cs, g.fa(a)],
                          lambda g, ev, r, a=a: [([], [("public wire", ev(g.terms(r)) - ev(a)), ("last public input", last_x(g, ev) - ev(a))])])
                     for a, _ in IN[:4]]
    S["instance"] = [Spec(lambda g: [g.cs, g.const(g.D.var("v", p))],
                          lambda g, ev, r: [([], [("wire", ev(g.terms(r)) - g.D.var("v", p)), ("new public input", last_x(g, ev) - g.D.var("v", p))])],
                          lambda g, ev, r: [([], [("wire against the public input", ev(g.terms(r)) - last_x(g, ev))])])]
    S["witness"] = [Spec(lambda g: [g.cs, g.const(g.D.var("v", p))],
                         lambda g, ev, r: [([], [("wire", ev(g.terms(r)) - g.D.var("v", p))])], lambda g, ev, r: [])]
    S["constant"] = [Spec(lambda g, c=c: [g.I.ref(g.const(c(g)))],
                          lambda g, ev, r, c=c: [([], [("value", ev(g.terms(r)) - c(g))])])
                     for c in (lambda g: k(0), lambda g: k(1), lambda g: g.D.var("v", p))]
    S["value"] = [Spec(lambda g, a=a: [g.I.ref(g.fa(a)), g.cs],
                       lambda g, ev, r, a=a: [([], [("value", g.F.val(g.D, r) - ev(a))])], lambda g, ev, r: []) for a, _ in IN]
    out = {}
    for n, sp in S.items():
        out[r"%sFieldAssignment::<%s>::%s(::<%%s>)?" % (GAD, F.ty, n)] = sp
    T = GAD + "FieldAssignment<%s>" % F.ty
    for tr, fnn, f in (("Add", "add", lambda x, y: x + y), ("Sub", "sub", lambda x, y: x - y)):
        out["<&%s as std::ops::%s>::%s" % (T, tr, fnn)] = [Spec(
            lambda g, a=a, b=b: [g.I.ref(g.fa(a)), g.I.ref(g.fa(b))],
            lambda g, ev, r, a=a, b=b, f=f: [([], [("value", ev(g.terms(r)) - f(ev(a), ev(b)))])]) for a, b in IN]
    out[r"<&%s as std::ops::Neg>::neg" % T] = [Spec(lambda g, a=a: [g.I.ref(g.fa(a))],
                                                   lambda g, ev, r, a=a: [([], [("value", ev(g.terms(r)) + ev(a))])]) for a, _ in IN]
    out[r"<%s as std::convert::From<&%sBinaryAssignment>>::from" % (T, GAD)] = [
        Spec(lambda g, w=w: [g.I.ref(g.ba(w))], lambda g, ev, r, w=w: [([], [("value", ev(g.terms(r)) - ev([(w, k(1))]))])]) for w in BITS]
    return out


def last_x(g, ev):
    n = len(g.state()["x"]) - 1
    return ev([(("i", n), Poly.const(1, g.p))])


def binary_specs(F):
    p = F.p
    k = lambda n: Poly.const(n, p)
    wv = lambda ev, w: ev([(w, k(1))])
    S = {}
    S["not"] = [Spec(lambda g, w=w: [g.cs, g.I.ref(g.ba(w))],
                     lambda g, ev, r, w=w: [([("eq", wv(ev, w) - k(b))], [("output for %d" % b, ev(g.terms(r)) - k(1 - b))]) for b in (0, 1)],
                     bitw=(w,)) for w in BITS]
    S["and"] = [Spec(lambda g, u=u, w=w: [g.cs, g.I.ref(g.ba(u)), g.I.ref(g.ba(w))],
                     lambda g, ev, r, u=u, w=w: [([("eq", wv(ev, u) - k(a)), ("eq", wv(ev, w) - k(b))],
                                                  [("output for %d, %d" % (a, b), ev(g.terms(r)) - k(a & b))]) for a in (0, 1) for b in (0, 1)],
                     bitw=(u, w) if u != w else (u,)) for u, w in ((W(4), W(5)), (W(4), X(2)), (W(4), W(4)))]
    bit = lambda ev, g, r: ev(g.terms(r))
    for n, last in (("instance", 1), ("witness", 0)):
        S[n] = [Spec(lambda g, b=b: [g.cs, b],
                     lambda g, ev, r, b=b, last=last: [([], [("wire", bit(ev, g, r) - k(b))] + ([("public input", last_x(g, ev) - k(b))] if last else []))],
                     (lambda g, ev, r: [([], [("wire against the public input", bit(ev, g, r) - last_x(g, ev))])]) if last else
                     (lambda g, ev, r: [([], [("b*(b-1) of the witness bit", bit(ev, g, r) * bit(ev, g, r) - bit(ev, g, r))])]))
                for b in (0, 1)]
    S["conditional_enforce_equal"] = [Spec(
        lambda g: [g.cs, g.I.ref(g.ba(W(4))), g.I.ref(g.ba(W(5))), g.I.ref(g.ba(X(2)))],
        lambda g, ev, r: [([("eq", wv(ev, X(2)))], []), ([("eq", wv(ev, X(2)) - k(1)), ("eq", wv(ev, W(4)) - wv(ev, W(5)))], [])],
        lambda g, ev, r: [([("eq", wv(ev, X(2)) - k(1))], [("difference", wv(ev, W(4)) - wv(ev, W(5)))])], bitw=BITS)]
    return {r"%sBinaryAssignment::%s(::<%%s>)?" % (GAD, n): s for n, s in S.items()}


PT = ([(W(0), 1)], [(W(1), 1)], [(W(2), 1)])
PT2 = ([(W(3), 1), (ONE, 2)], [(X(1), 3)], [(ONE, 1)])


def point_specs(F):
    p = F.p
    k = lambda n: Poly.const(n, p)
    S = {}
    ident = (0, 1, 0)

    def pt(g, P):
        return g.I.ref(g.pa(*P))

    def outs(g, ev, r, want, what=""):
        return [("%s coordinate%s" % (n, what), ev(t) - q) for n, t, q in zip("xyz", g.coords(r), want)]
    val = lambda ev, P: [ev(t) for t in P]
    one = lambda ev, w: ev([(w, k(1))])
    S["identity"] = [Spec(lambda g: [], lambda g, ev, r: [([], outs(g, ev, r, [k(c) for c in ident]))])]
    S["select_identity"] = [Spec(
        lambda g, P=P, w=w: [pt(g, P), g.cs, g.I.ref(g.ba(w))],
        lambda g, ev, r, P=P, w=w: [([("eq", one(ev, w))], outs(g, ev, r, [k(c) for c in ident], " for bit 0")),
                                    ([("eq", one(ev, w) - k(1))], outs(g, ev, r, val(ev, P), " for bit 1"))], bitw=(w,))
        for P, w in ((PT, W(4)), (PT2, X(2)))]
    S["conditional_select"] = [Spec(
        lambda g, w=w: [g.cs, pt(g, PT), pt(g, PT2), g.I.ref(g.ba(w))],
        lambda g, ev, r, w=w: [([("eq", one(ev, w))], outs(g, ev, r, val(ev, PT2), " for condition 0")),
                               ([("eq", one(ev, w) - k(1))], outs(g, ev, r, val(ev, PT), " for condition 1"))], bitw=(w,)) for w in BITS]

    def descale(g, ev, r, P):
        X_, Y, Z = val(ev, P)
        x, y, z = [ev(t) for t in g.coords(r)]
        return [([("eq", Z)], outs(g, ev, r, [k(c) for c in ident], " of the identity")),
                ([("ne", Z)], [("x coordinate", x * Z - X_), ("y coordinate", y * Z - Y), ("z coordinate", z - k(1))])]
    S["descale"] = [Spec(lambda g: [pt(g, PT), g.cs], lambda g, ev, r: descale(g, ev, r, PT))]
    S["witness"] = [Spec(lambda g, b=b: [g.cs, g.const(g.D.var("px", p)), g.const(g.D.var("py", p)), b],
                         lambda g, ev, r, b=b: [([], outs(g, ev, r, [g.D.var("px", p), g.D.var("py", p), k(1 - b)]))], lambda g, ev, r: [])
                    for b in (0, 1)]
    for n, i in (("get_x", 0), ("get_y", 1), ("get_z", 2)):
        S[n] = [Spec(lambda g, P=P: [pt(g, P)],
                     lambda g, ev, r, P=P, i=i: [([], [("coordinate", ev(g.terms(r)) - ev(P[i]))])]) for P in (PT, PT2)]

    def curve(law):
        def args(g):
            return [pt(g, PT), pt(g, PTQ), g.cs] if law == "add" else [pt(g, PT), g.cs]

        def goals(g, ev, r):
            b3 = 3 * (3 if p == FQ else -17)
            X1, Y1, Z1 = val(ev, PT)
            if law == "add":
                X2, Y2, Z2 = val(ev, PTQ)
            m = lambda q, c: q.scale(c % p)
            if law == "add":
                A, B, C = X1 * Y2 + X2 * Y1, Y1 * Y2 - m(Z1 * Z2, b3), Y1 * Y2 + m(Z1 * Z2, b3)
                E, G = Y1 * Z2 + Y2 * Z1, X1 * Z2 + X2 * Z1
                want = [A * B - m(E * G, b3), C * B + m(X1 * X2 * G, 3 * b3), E * C + m(X1 * X2 * A, 3)]
            else:
                a, b = Y1 * Y1 - m(Z1 * Z1, 3 * b3), Y1 * Y1 + m(Z1 * Z1, b3)
                want = [m(X1 * Y1 * a, 2), a * b + m(Y1 * Y1 * Z1 * Z1, 8 * b3), m(Y1 * Y1 * Y1 * Z1, 8)]
            return [([], outs(g, ev, r, want))]
        return [Spec(args, goals)]
    S["add"] = curve("add")
    S["double"] = curve("double")
    return {r"%sPointAssignment::<%s>::%s(::<%%s>)?" % (GAD, F.ty, n): s for n, s in S.items()}


def bits_specs(F, thorough):
    p = F.p
    k = lambda n: Poly.const(n, p)
    S = {}
    wv = lambda ev, w: ev([(w, k(1))])

    def weighted(ev, ws):
        s = k(0)
        for w in ws:
            s = s.scale(2) + wv(ev, w)
        return s

    def slc(g, ws):
        return g.slice([g.ba(w) for w in ws])
    S["enforce_eq_bits"] = [Spec(
        lambda g, a=a, ws=ws: [g.cs, g.I.ref(g.fa(a)), slc(g, ws)],
        lambda g, ev, r, a=a, ws=ws: [([("eq", ev(a) - weighted(ev, ws))], [])],
        lambda g, ev, r, a=a, ws=ws: [([], [("difference from the weighted bit sum", ev(a) - weighted(ev, ws))])])
        for a in ([(W(0), 1)], [(W(0), 2), (X(1), 1)]) for ws in ([], [W(4)], [W(4), X(2)], [W(1), W(4), X(2), W(5)])]
    top = 5 if thorough else 3

    def rng(n, bound, arg):
        ws = [W(1 + i) for i in range(n)]
        asg = lambda ev, a: [("eq", wv(ev, w) - k((a >> (n - 1 - i)) & 1)) for i, w in enumerate(ws)]
        return Spec(lambda g: [g.cs, slc(g, ws), arg(g)],
                    lambda g, ev, r: [(asg(ev, a), []) for a in range(1 << n) if a <= bound],
                    lambda g, ev, r: [(asg(ev, a), [("acceptance of %d-bit %d against bound %d" % (n, a, bound), k(1))])
                                      for a in range(1 << n) if a > bound], bitw=tuple(ws))
    S["range_check"] = [rng(n, c, lambda g, c=c: g.const(k(c))) for n in range(top + 1) for c in list(range(1 << n)) + [(2 << n) - 1, 2 << n]]
    S["range_check_bits"] = [rng(n, (1 << b) - 1, lambda g, b=b: b) for n in range(top + 1) for b in range(0, top + 2)]
    return {r"%sFieldAssignment::<%s>::%s(::<%%s>)?" % (GAD, F.ty, n): s for n, s in S.items()}


def long_range(g, s, bits, n, bound, mode, extra=()):
    """n-bit range check of the recorded constraints: `bits` are the bit wires, most significant first.
    Every string is bound itself or differs first at one position, so the first differing position is enumerated."""
    p = g.p
    cb = [(bound >> (n - 1 - i)) & 1 for i in range(n)]
    if mode == "assign":
        ev = lambda t: lin(t, s["x"], s["w"], p)
        atom = {}
        for i, w in enumerate(bits):
            (a,) = ev([(w, 1)]).atoms()
            atom[a] = i
        res = []
        for i in range(len(s["a"])):
            d = ev(s["a"][i]) * ev(s["b"][i]) - ev(s["c"][i])
            t = {}
            for m, c in d.t.items():
                f = frozenset(m)
                t[f] = (t.get(f, 0) + c) % p
            t = {tuple(sorted(atom[a] for a in m)): c for m, c in t.items() if c}
            if t:
                res.append((i, t))
        for pos in [n] + [i for i in range(n) if cb[i]]:
            fix = cb[:pos] + ([0] if pos < n else [])
            L = len(fix)
            for i, t in res:
                acc = {}
                for m, c in t.items():
                    keep = []
                    for a in m:
                        if a < L:
                            if not fix[a]:
                                break
                        else:
                            keep.append(a)
                    else:
                        keep = tuple(keep)
                        acc[keep] = (acc.get(keep, 0) + c) % p
                if any(acc.values()):
                    return "its own assignment violates constraint %d when the value %s" % (
                        i, "is the bound" if pos == n else "first falls below the bound at bit %d" % (n - 1 - pos))
        return None
    x, w, ev, eqs = free_wires(g, s)
    var = [ev([(b, 1)]) for b in bits]
    one, z = Poly.const(1, p), Poly.const(0, p)
    base = Sys2(eqs, [], g.D.names, extra)
    if not base.step():
        return "the constraints are unsatisfiable"
    for i, v in enumerate(var):
        v = base.ap(v)
        if v.is_const() and v.cval() in (0, 1):
            continue
        if not any(quot(v * v - v, A * B - C) for A, B, C in base.eqs):
            raise Unsupported("bit %d is not visibly boolean" % i)
    for pos in range(n):
        if cb[pos]:
            continue
        t = base.copy()
        t.eqs = [(v - Poly.const(c, p), one, z) for v, c in zip(var, cb[:pos] + [1])] + t.eqs
        if t.step():
            goal = Poly.const(1, p)
            if unbound(t, var[pos + 1:], goal):
                return "a value that first exceeds the bound at bit %d is accepted" % (n - 1 - pos)
            raise Unsupported("cannot decide whether a value above the bound is accepted")
    return None


def quot(d, z):
    from solve import quotient
    return not z.is_zero() and quotient(d, z) is not None


def free_wires(g, s):
    p = g.p
    x = [Poly.const(1, p)] + [g.D.var("X%d" % i, p) for i in range(1, len(s["x"]))]
    w = [g.D.var("W%d" % i, p) for i in range(len(s["w"]))]
    ev = lambda t: lin(t, x, w, p)
    return x, w, ev, [(ev(a), ev(b), ev(c)) for a, b, c in zip(s["a"], s["b"], s["c"])]


def to_bits(ctx, driver, fn, n, mode):
    """bits of the canonical representation, most significant first, the lowest n of them"""
    prog = ctx.prog
    p = Fld(prog, scalar(prog, driver)).p
    holder = {}

    def bits(g, d):
        if not g.D.zero(d - holder["x"]):
            raise Unsupported("bits of another value: %s" % d.show(g.D.names, 3))
        return [Opaque("bit", (b,)) for b in holder["b"]]

    def run(facts):
        g = Gadget(ctx, driver, facts, bits=bits, nw=2)
        b = [g.D.var("b%d" % (255 - i), p) for i in range(256)]
        v = Poly.const(0, p)
        for q in b:
            v = v.scale(2) + q
        holder.update(x=v, b=b)
        g.w[0] = v
        g.cs = g.I.ref(g.S.make(g.D, 0, [], [], [], g.x, g.w))
        r, bad = g.call(fn, [g.cs, g.I.ref(g.fa([(W(0), 1)])), n])
        if bad:
            return bad if mode == "assign" else None
        s = g.state()
        out = [g.terms(t) for t in items(g.I, r)]
        if len(out) != n:
            return "%d bits returned for %d" % (len(out), n)
        ev = lambda t: lin(t, s["x"], s["w"], p)
        where = {}
        for i, q in enumerate(s["w"]):
            where.setdefault(q, ("w", i))
        wires = [where.get(q) for q in b]
        if None in wires:
            raise Unsupported("not every bit has a wire")
        if mode == "assign":
            for i in range(n):
                if not g.D.zero(ev(out[i]) - b[256 - n + i]):
                    return "bit %d of the result has another value" % (n - 1 - i)
        else:
            x, w, fe, eqs = free_wires(g, s)
            for i in range(n):
                if fe(out[i]) != fe([(wires[256 - n + i], 1)]):
                    raise Unsupported("output bit is not the wire of the bit")
            t = Sys2(eqs, [], g.D.names, set().union(*[q.atoms() for q in w[2:]]))
            if not t.step():
                return "the constraints are unsatisfiable"
            goal = fe([(W(0), 1)])
            acc = Poly.const(0, p)
            for q in wires:
                acc = acc.scale(2) + fe([(q, 1)])
            if not t.implied(goal - acc):
                if unbound(t, [fe([(q, 1)]) for q in wires], goal - acc):
                    return "the bits are not bound to the decomposed value"
                raise Unsupported("cannot decide whether the bits are bound to the value")
        key = (fn, mode, shape(s), tuple(wires))
        if key not in DONE:  # the recorded constraints usually do not depend on n
            DONE[key] = long_range(g, s, wires, 256, p - 1, mode)
        return DONE[key]
    return explore(run)


DONE = {}


def unbound(t, bits, goal):
    """is there a solution, with some small number as the bits, that makes goal nonzero?"""
    one = Poly.const(1, goal.p)
    for n in (0, 1, 5):
        s = t.copy()
        add = []
        for i, b in enumerate(bits):
            add.append((s.ap(b) - Poly.const((n >> (len(bits) - 1 - i)) & 1, goal.p), one, Poly.const(0, goal.p)))
        s.eqs = add + s.eqs
        if s.step() and not s.ap(goal).is_zero() and s.model(goal, 3):
            return True
    return False


def long_check(ctx, driver, fn, n, bound, mode):
    def run(facts):
        g = Gadget(ctx, driver, facts, nw=n + 1)
        ws = [W(1 + i) for i in range(n)]
        r, bad = g.call(fn, [g.cs, g.slice([g.ba(w) for w in ws]), g.const(Poly.const(bound, g.p))])
        if bad:
            return bad if mode == "assign" else None
        s = g.state()
        if mode == "force":
            # the bits are boolean by assumption
            one = Poly.const(1, g.p)
            for w in ws:
                for nm in "abc":
                    s[nm].append([(w, one)])
        return long_range(g, s, ws, n, bound, mode)
    return explore(run)


def scalar_mul(ctx, driver, fn, nb, mode):
    """the multiple selected by the bits, with point addition and doubling as group operations"""
    prog = ctx.prog
    F = Fld(prog, scalar(prog, driver))
    p = F.p
    ident = (Poly.const(0, p), Poly.const(1, p), Poly.const(0, p))
    shapes = {}
    for bv in itertools.product((0, 1), repeat=nb):
        def run(facts):
            reg = {}
            ops = []
            box = {}

            def val(v):
                g = box["g"]
                s = g.state()
                return tuple(lin(t, s["x"], s["w"], p) for t in g.coords(deref(g.I, v)))

            def mult(v):
                q = val(v)
                if q == ident:
                    return 0
                if q not in reg:
                    raise Unsupported("not a known multiple of the point")
                return reg[q]

            def new(k, args):
                g = box["g"]
                I = g.I
                cs = I.simp(I.load(g.cs))
                i = g.S.names.index("w")
                vecs = I.simp(cs.f[i])
                old = list(items(I, vecs))
                n = len(old)
                syms = [g.D.var("%s%d_%d" % (c, k, n), p) for c in "xyz"] if k else ident
                f = list(cs.f)
                f[i] = Agg(vecs.tid, vecs.v, (VecV(old + [F.el(g.D, q) for q in syms], -1),))
                I.store(g.cs, Agg(cs.tid, cs.v, tuple(f)))
                if k:
                    reg[tuple(syms)] = k
                ops.append(([g.coords(deref(g.I, v)) for v in args], n))
                return g.pa([(W(n), 1)], [(W(n + 1), 1)], [(W(n + 2), 1)])

            def add(I, c, a):
                return new(mult(a[0]) + mult(a[1]), a[:2])

            def dbl(I, c, a):
                return new(2 * mult(a[0]), (a[0], a[0]))

            def tob(I, c, a):
                return VecV([box["g"].ba(W(3 + i)) for i in range(nb)], -1)
            T = re.escape(GAD + "PointAssignment::<%s>::" % F.ty)
            g = Gadget(ctx, driver, facts, nw=3 + nb, values={W(3 + i): b for i, b in enumerate(bv)}, patterns=[
                (re.compile(T + r"add\b"), add), (re.compile(T + r"double\b"), dbl),
                (re.compile(re.escape(GAD + "FieldAssignment::<%s>::" % F.ty) + r"to_bits\b"), tob)])
            box["g"] = g
            reg[tuple(g.w[:3])] = 1
            r, bad = g.call(fn, [g.I.ref(g.pa(*PT)), g.cs, g.I.ref(g.fa([(X(1), 1)]))])
            if bad:
                return bad if mode == "assign" else None
            want = 0
            for b in bv:
                want = 2 * want + b
            s = g.state()
            if shapes.setdefault("s", shape(s)) != shape(s):
                return "the recorded constraints depend on the assigned values"
            if mode == "assign":
                got = mult(r)
                if got != want:
                    return "bits %s select the multiple %d" % (bv, got)
                ev = lambda t: lin(t, s["x"], s["w"], p)
                for i in range(len(s["a"])):
                    d = ev(s["a"][i]) * ev(s["b"][i]) - ev(s["c"][i])
                    if not g.D.zero(d):
                        return "its own assignment violates constraint %d: %s" % (i, d.show(g.D.names, 6))
                return None
            x, w, fe, eqs = free_wires(g, s)
            one, z = Poly.const(1, p), Poly.const(0, p)
            t = Sys2([(fe([(W(3 + i), 1)]) - Poly.const(b, p), one, z) for i, b in enumerate(bv)] + eqs, [], g.D.names,
                     set().union(*[q.atoms() for q in w[3 + nb:]]))
            known = {tuple(fe([(W(i), 1)]) for i in range(3)): 1, ident: 0}

            def forced_mult(rows, what):
                q = tuple(t.ap(fe(r)) for r in rows)
                for kn, k in known.items():
                    if all(t.implied(a - b) for a, b in zip(q, kn)):
                        return k, None
                fixed = set().union(*[a.atoms() for kn in known for a in kn])
                if all(any(t.model(a - b, 3) for a, b in zip(q, kn)) for kn in known) and set().union(*[a.atoms() for a in q]) - fixed:
                    return None, "%s is not forced to a multiple of the point for bits %s" % (what, bv)
                raise Unsupported("cannot decide which multiple %s is" % what)
            for n, (args, wn) in enumerate(ops):
                if not t.step():
                    return "the constraints are unsatisfiable"
                k = 0
                for rows in args:
                    i, bad = forced_mult(rows, "an operand of point operation %d" % n)
                    if bad:
                        return bad
                    k += i
                out = [fe([(W(wn + i), 1)]) for i in range(3)]
                if k:
                    known[tuple(out)] = k
                else:
                    t.eqs = t.eqs + [(o - c, one, z) for o, c in zip(out, ident)]
            if not t.step():
                return "the constraints are unsatisfiable"
            k, bad = forced_mult(g.coords(r), "the result")
            if bad:
                return bad
            if k != want:
                return "bits %s force the multiple %d" % (bv, k)
        r = explore(run)
        if r:
            return r
    return None


def deref(I, v):
    v = I.simp(v)
    while type(v) is Ptr:
        v = I.simp(I.load(v))
    return v


def public_point_specs(F, C):
    """point gadgets that take a native point: (pattern, specs)"""
    p = F.p
    k = lambda n: Poly.const(n, p)

    def native(g, kind, inf=0):
        P = curves.Pts(g.D, g.prog, C)
        x, y, z = (g.D.var("n" + c, p) for c in "xyz")
        return P.affine(x, y, inf) if kind == "a" else P.proj(x, y, z)

    def inst(g, ev, r, inf):
        x, y = g.D.var("nx", p), g.D.var("ny", p)
        return [([], [("%s coordinate" % n, ev(t) - q) for n, t, q in zip("xyz", g.coords(r), (x, y, k(1 - inf)))])]

    def inst_s(g, ev, r):
        n = len(g.state()["x"])
        return [([], [("%s coordinate against the public input" % c, ev(t) - ev([(X(n - 3 + i), k(1))])) for i, (c, t) in enumerate(zip("xyz", g.coords(r)))])]
    A = re.escape(C.aff)
    S = {"instance": [Spec(lambda g, i=i: [g.cs, native(g, "a", i)], lambda g, ev, r, i=i: inst(g, ev, r, i), inst_s) for i in (0, 1)]}

    def eqn(g, ev, r):
        v = [ev(t) for t in PT]
        n = [g.D.var("n" + c, p) for c in "xyz"]
        return [v[0] * n[2] - n[0] * v[2], v[1] * n[2] - n[1] * v[2]]
    S["assert_equal_public_point"] = [Spec(
        lambda g: [g.I.ref(g.pa(*PT)), g.cs, native(g, "p")],
        lambda g, ev, r: [([("eq", d) for d in eqn(g, ev, r)], [])],
        lambda g, ev, r: [([], [("%s cross product" % c, d) for c, d in zip("xy", eqn(g, ev, r))])])]
    return {r"%sPointAssignment::<%s>::%s::<" % (GAD, F.ty, n): s for n, s in S.items()}


PTQ = ([(W(3), 1)], [(W(4), 1)], [(W(5), 1)])
DRIVERS = ("zknova::Bn254Driver", "zknova::GrumpkinDriver")


def run_mode(ctx, mode):
    prog = ctx.prog
    for driver in DRIVERS:
        F = Fld(prog, scalar(prog, driver))
        table = {}
        table.update(field_specs("", F))
        table.update(binary_specs(F))
        table.update(point_specs(F))
        table.update(bits_specs(F, ctx.thorough()))
        rx = [(re.compile("^" + re.escape(k.replace("(::<%s>)?", "\0")).replace("\0", "(?:::<%s>)?" % re.escape(driver)) + "$"), v) for k, v in table.items()]
        for f in sorted(prog.by_name):
            if "Assignment" not in f:
                continue
            m = re.match(re.escape(GAD + "FieldAssignment::<%s>::" % F.ty) + r"(to_bits|range_check)::<%s>$" % re.escape(driver), f)
            rule = {"assign": "native-value", "force": "forced-output"}[mode]
            if m and m.group(1) == "to_bits":
                for n in ((0, 1, 4, 128, 250, 253, 254, 256) if ctx.thorough() else (4, 250, 256)):
                    ctx.ob(f, rule + "[%d bits]" % n, lambda: to_bits(ctx, driver, f, n, mode))
                continue
            if m:
                import random
                rnd = random.Random(ctx.seed if hasattr(ctx, "seed") else 1)
                for n in (64, 254):
                    for c in [rnd.randrange(1 << (n - 2)) for _ in range(6 if ctx.thorough() else 1)] + [(1 << (n - 1)) - 1 if n < 254 else F.p - 2]:
                        ctx.ob(f, rule + "[%d bits, bound %#x]" % (n, c), lambda: long_check(ctx, driver, f, n, c, mode))
            if re.match(re.escape(GAD + "PointAssignment::<%s>::scalar_point::<" % F.ty), f):
                for n in range(1, 6 if ctx.thorough() else 4):
                    ctx.ob(f, ("multiple[%d bits]" if mode == "assign" else "forced-multiple[%d bits]") % n, lambda: scalar_mul(ctx, driver, f, n, mode))
                continue
            done = False
            for pre, specs in public_point_specs(F, CURVE_OF[F.p]).items():
                if f.startswith(pre):
                    done = True

                    def thunk():
                        for sp in specs:
                            d = decide(ctx, driver, f, sp, mode)
                            if d:
                                return d
                    ctx.ob(f, rule, thunk)
            if done:
                continue
            for r, specs in rx:
                if not r.match(f) or ("BinaryAssignment::" in f and driver not in f):
                    continue

                def thunk():
                    for sp in specs:
                        if mode == "force" and "::instance" in f and False:
                            continue
                        d = decide(ctx, driver, f, sp, mode)
                        if d:
                            return d
                ctx.ob(f, {"assign": "native-value", "force": "forced-output"}[mode], thunk)
                break
