"""The augmented circuit: it is built over symbolic inputs with the hash, the folding circuit and the conversions to limbs as uninterpreted
wires; its constraints, with every wire free, must link hashes, selection and public outputs the way one step of the computation requires."""
from n02 import *
from solve import forced

LEVEL = "other"
FLOOR = 6
NIFS_RX = re.compile(r"^zknova::circuit::nifs::NifsCircuit::<zknova::(\w+)>::verify::<zknova::(\w+)>$")
DESC_RX = re.compile(r"^zkstd::circuit::prelude::PointAssignment::<(bn_254::F[rq])>::descale::<zknova::(\w+)>$")
BNF_RX = re.compile(r"^zknova::gadget::big_nat::BigNatAssignment::<(bn_254::F[rq])>::witness_from_field_assignment::<zknova::(\w+)>$")
U64_RX = re.compile(r"^<bn_254::F[rq] as std::convert::From<u64>>::from$")
REL = "zknova::gadget::relaxed_instance::RelaxedR1csInstanceAssignment<%s>"
SIN = "zknova::gadget::instance::R1csInstanceAssignment<%s>"


class Circ:
    """one constructed circuit; d is the driver of the folded instances, the circuit runs over d.base"""

    def __init__(self, ctx, d, facts):
        self.hashes, self.folds, self.points, self.nats = [], [], [], []
        s = self.s = session(ctx, d, facts, patterns=self.patterns())
        self.ctx, self.prog, self.d, self.D = ctx, ctx.prog, d, s.D
        finite(s)
        self.cd = "zknova::" + OTHER[d.name]
        self.S, self.cs = circuit_system(s, d, [])
        self.n = 0

    def patterns(self):
        return [(CSQ_RX, self.squeeze), (BNW_RX, self.params), (NIFS_RX, self.fold), (DESC_RX, self.descale), (BNF_RX, self.fieldnat), (U64_RX, self.u64)]

    # ------------------------------------------------------------- summaries
    def u64(self, I, c, a):
        v = I.simp(a[0])
        return self.s.B.el(self.D, self.D.var("step", self.d.q)) if type(v) is Opaque and v.op == "step" else NotImplemented

    def params(self, I, c, a):
        return self.s.mk(self.prog.types[c.fn.locals[0]]["s"], min_bits=0, max_word=Opaque("max_word", ()), limb_width=I.simp(a[0]),
                         n_limbs=I.simp(a[1]))

    def allocs(self, nm, n):
        """new witness wires with unknown values"""
        D, S = self.D, self.S
        st = S.read(D, self.s.I.load(self.cs))
        k = len(st["w"])
        new = [D.var("%s%d" % (nm, self.n + 1 + i), self.d.q) for i in range(n)]
        self.n += n
        self.s.I.store(self.cs, S.make(D, st["m"], st["a"], st["b"], st["c"], st["x"], st["w"] + new))
        return [[(("w", k + i), Poly.const(1, self.d.q))] for i in range(n)]

    def alloc(self, nm):
        return self.allocs(nm, 1)[0]

    def fa(self, terms):
        return fa(self.s, self.s.B, terms)

    def row(self, v):
        return self.s.B.unrow(self.D, self.s.fix(self.s.fix(v).f[0]))

    def point(self, v):
        return [self.row(x) for x in self.s.fix(v).f]

    def limbs(self, v):
        return [self.row(x) for x in items(self.s.I, self.s.get(v, "limbs"))]

    def pa(self, rows):
        return Agg(self.prog.ty("zkstd::circuit::prelude::PointAssignment<%s>" % self.d.base), 0, tuple(self.fa(r) for r in rows))

    def bn(self, rows, w=64):
        t = "zknova::gadget::big_nat::BigNatAssignment<%s>" % self.d.base
        p = self.s.mk("zknova::gadget::big_nat::BigNatParams", min_bits=0, max_word=Opaque("max_word", ()), limb_width=w, n_limbs=len(rows))
        return self.s.mk(t, limbs=vec(self.fa(r) for r in rows), params=p)

    def same_cs(self, p):
        if type(p) is not Ptr or p.cell != self.cs.cell:
            raise Unsupported("another constraint system")

    def squeeze(self, I, c, a):
        self.same_cs(a[1])
        n = I.simp(a[2])
        if type(n) is not int:
            raise Unsupported("number of challenge bits")
        rows = [self.row(x) for x in items(I, self.s.get(self.s.fix(a[0]), "state"))]
        out = self.alloc("h")
        self.hashes.append((n, rows, out))
        return self.fa(out)

    def descale(self, I, c, a):
        self.same_cs(a[1])
        src = self.point(a[0])
        out = [self.alloc("p") for _ in range(3)]
        self.points.append((src, out))
        return self.pa(out)

    def fieldnat(self, I, c, a):
        self.same_cs(a[0])
        w, n = I.simp(a[2]), I.simp(a[3])
        src = self.row(a[1])
        out = [self.alloc("l") for _ in range(n)]
        self.nats.append((src, out))
        return self.bn(out, w)

    def relaxed(self, v):
        s = self.s
        return {"W": self.point(s.get(v, "commit_w")), "E": self.point(s.get(v, "commit_e")), "u": self.row(s.get(v, "u")),
                "x0": self.limbs(s.get(v, "x0")), "x1": self.limbs(s.get(v, "x1"))}

    def single(self, v):
        s = self.s
        return {"W": self.point(s.get(v, "commit_w")), "x0": self.row(s.get(v, "x0")), "x1": self.row(s.get(v, "x1"))}

    def fold(self, I, c, a):
        self.same_cs(a[0])
        rec = {"r": self.row(a[1]), "U": self.relaxed(a[2]), "u": self.single(a[3]), "T": self.point(a[4])}
        new = lambda n: [self.alloc("f") for _ in range(n)]
        out = {"W": new(3), "E": new(3), "u": self.alloc("f"), "x0": new(4), "x1": new(4)}
        rec["out"] = out
        self.folds.append(rec)
        return self.s.mk(REL % self.d.full, commit_w=self.pa(out["W"]), commit_e=self.pa(out["E"]), u=self.fa(out["u"]), x0=self.bn(out["x0"]),
                         x1=self.bn(out["x1"]))

    # -------------------------------------------------------------- circuit
    def build(self, primary, first, nz=1):
        s, d = self.s, self.d
        fn = next((f for f in self.prog.by_name if re.match(r"^zknova::circuit::augmented::AugmentedFCircuit::<%s, .*>::generate::<%s>$"
                                                            % (re.escape(d.full), re.escape(self.cd)), f)), None)
        if fn is None:
            raise Unsupported("no augmented circuit")
        t = self.prog.types[base_ty(self.prog, self.prog.fn(fn).locals[1])]["s"]
        some = lambda v: Agg(None, 1, (v,))
        none = Agg(None, 0, ())
        z0, zi = [[self.D.var("%s%d" % (nm, i), d.q) for i in range(nz)] for nm in "zt"]
        if first:
            v = dict(i=0, z_i=none, u_single=none, u_range=none, commit_t=none)
        else:
            v = dict(i=3, z_i=some(s.B.dense(self.D, zi)), u_single=some(s.r1cs(self.D.gen(d.C, "V"), s.vars("y", 2))),
                     u_range=some(inst1(s, 2)[0]), commit_t=some(self.D.gen(d.C, "T")))
        circ = s.mk(t, is_primary=int(primary), z_0=s.B.dense(self.D, z0), f=UNIT, **v)
        out = s.must(fn, circ, self.cs)
        self.out = [self.row(x) for x in items(s.I, out)]
        self.st = self.S.read(self.D, s.I.load(self.cs))
        p = d.q
        self.x = [Poly.const(1, p)] + [self.D.var("X%d" % i, p) for i in range(1, len(self.st["x"]))]
        self.w = [self.D.var("W%d" % i, p) for i in range(len(self.st["w"]))]
        self.eqs = [(self.ev(a), self.ev(b), self.ev(c)) for a, b, c in zip(self.st["a"], self.st["b"], self.st["c"])]

    def ev(self, row):
        return lin(row, self.x, self.w, self.d.q)

    def force(self, goals, eq=(), ne=()):
        one, z = Poly.const(1, self.d.q), Poly.const(0, self.d.q)
        return forced(self.eqs + [(q, one, z) for q in eq], list(ne), goals, self.D.names)

    def shape(self):
        key = lambda r: tuple(sorted((w, c.show()) for w, c in r))
        return tuple(tuple(key(r) for r in self.st[n]) for n in "abc") + (len(self.st["x"]), len(self.st["w"]))


def roles(s, seq, z0, zi, u, x):
    """what every absorbed value is"""
    r = []
    last = None
    for q in seq:
        if q.is_const():
            r.append((last, 2))
            continue
        at = list(q.atoms())
        if len(at) != 1:
            raise Unsupported("absorbed combination")
        if s.D.names[at[0]] == "step":
            r.append(("i",))
            continue
        if q in z0 or q in zi:
            r.append(("z0", z0.index(q)) if q in z0 else ("zi", zi.index(q)))
            continue
        k = s.D.info[at[0]]
        if k[0] in ("get_x", "get_y"):
            nm = [g for g in ("W", "E", "T", "V") if s.D.gen(s.d.C, g).key() == k[1]]
            if not nm:
                raise Unsupported("absorbed point")
            last = nm[0]
            r.append((last, 0 if k[0] == "get_x" else 1))
        elif k[0] == "as" and k[1] == pkey(u):
            r.append(("u",))
        elif k[0] == "limb" and k[3] in [pkey(y) for y in x]:
            r.append(("x%d" % [pkey(y) for y in x].index(k[3]), k[2]))
        else:
            raise Unsupported("absorbed value %s" % s.D.names[at[0]])
    return r


def layout(ctx, d, nz, what):
    """positions of the native transcript (the circuit's transcript agrees with it: N02)"""
    s = session(ctx, d, {}, patterns=[(U64_RX, lambda I, c, a: s.B.el(s.D, s.D.var("step", d.q)) if type(I.simp(a[0])) is Opaque else NotImplemented)])
    finite(s)
    if what == "hash":
        inst, pts, u, x = inst1(s, 2)
        z0, zi = [s.D.var("z%d" % i, d.q) for i in range(nz)], [s.D.var("t%d" % i, d.q) for i in range(nz)]
        n, seq = native_hash(s, inst, Opaque("step", ()), z0, zi)
        return n, roles(s, seq, z0, zi, u, x)
    n, seq, pts, u, x = transcript(s, "verify", 2)
    return n, roles(s, seq, [], [], u, x)


def poly_of(c, rows, lay):
    if len(rows) != len(lay):
        raise Unsupported("%d values absorbed, %d expected" % (len(rows), len(lay)))
    return {k: c.ev(r) for k, r in zip(lay, rows)}


def descaled(c, role, given, pt, what, loc):
    """goals: the absorbed coordinates of point `role` are the descaled coordinates of a point equal to pt"""
    got = [given[(role, k)] for k in range(3)]
    for src, out in c.points:
        if [c.ev(o) for o in out] == got:
            return [("%s (coordinate %d)" % (what, k), c.ev(a) - c.ev(b)) for k, (a, b) in enumerate(zip(src, pt))]
    raise Unsupported("%s: absorbed coordinates are not those of a normalised point" % what)


def instance_goals(c, given, inst, what):
    """goals: the absorbed instance is inst (rows)"""
    g = descaled(c, "W", given, inst["W"], what + ": the witness commitment", None) + \
        descaled(c, "E", given, inst["E"], what + ": the error commitment", None)
    g.append((what + ": u", given[("u",)] - c.ev(inst["u"])))
    for nm in ("x0", "x1"):
        n = len([k for k in given if k[0] == nm])
        if n != len(inst[nm]):
            raise Unsupported("number of limbs")
        g += [("%s: limb %d of %s" % (what, k, nm), given[(nm, k)] - c.ev(r)) for k, r in enumerate(inst[nm])]
    return g


def build(ctx, d, primary, first, facts):
    c = Circ(ctx, d, facts)
    c.build(primary, first)
    return c


def linked(ctx, d, primary, part):
    def run(facts):
        c = build(ctx, d, primary, False, facts)
        p = d.q
        one = Poly.const(1, p)
        nh, lh = layout(ctx, d, 1, "hash")
        nc, lc = layout(ctx, d, 1, "challenge")
        hs = [h for h in c.hashes if h[0] == nh and len(h[1]) == len(lh)]
        ch = [h for h in c.hashes if h not in hs]
        if len(c.folds) != 1 or len(c.hashes) > 3 or not c.hashes:
            raise Unsupported("%d hashes, %d foldings" % (len(c.hashes), len(c.folds)))
        if len(hs) == 2 and not ch:
            return "the circuit squeezes no folding challenge" if part == "challenge" else None
        if len(hs) != 2 or len(ch) != 1:
            return "the circuit's transcripts (%s) are not two hashes of an instance (%d values, %d bits) and a challenge" % (
                ", ".join("%d values, %d bits" % (len(h[1]), h[0]) for h in c.hashes), len(lh), nh)
        fold = c.folds[0]
        if len(c.x) != 3:
            return "the circuit has %d public outputs, expected 2" % (len(c.x) - 1)
        new = [h for h in hs if c.force([("", c.x[2] - c.ev(h[2]))]) is None]
        if part == "outputs":
            if not new:
                return "the second public output is not forced to be the hash of the next instance"
            return c.force([("the first public output", c.x[1] - c.ev(fold["u"]["x1"]))])
        if len(new) != 1:
            raise Unsupported("no hash of the next instance")
        h2 = new[0]
        h1 = next(h for h in hs if h is not h2)
        g1, g2 = poly_of(c, h1[1], lh), poly_of(c, h2[1], lh)
        i = g1[("i",)]
        if part == "previous-hash":
            return c.force([("the first public input of the folded instance", c.ev(fold["u"]["x0"]) - c.ev(h1[2]))], ne=[i]) or \
                c.force(instance_goals(c, g1, fold["U"], "the instance of the checked hash"))
        if part == "step":
            return c.force([("the step number of the next hash", g2[("i",)] - i - one), ("the start state of the next hash", g2[("z0", 0)] - g1[("z0", 0)]),
                            ("the next state", g2[("zi", 0)] - g1[("zi", 0)] * g1[("zi", 0)] - Poly.const(5, p)),
                            ("the returned state", c.ev(c.out[0]) - g2[("zi", 0)])])
        if part == "first-state":
            return c.force([("the state of step 0", g1[("zi", 0)] - g1[("z0", 0)])], eq=[i])
        if part == "challenge":
            n, rows, out = ch[0]
            if n != nc:
                return "the folding challenge has %d bits, natively %d" % (n, nc)
            if len(rows) != len(lc):
                return "%d values are absorbed for the folding challenge, natively %d" % (len(rows), len(lc))
            gc = poly_of(c, rows, lc)
            goals = [("the folding challenge", c.ev(fold["r"]) - c.ev(out))]
            goals += [("the challenge's cross term (coordinate %d)" % k, gc[("T", k)] - c.ev(fold["T"][k])) for k in range(3)]
            return c.force(goals + instance_goals(c, gc, fold["U"], "the instance of the challenge"))
        if part == "folded":
            return c.force(instance_goals(c, g2, fold["out"], "the next instance after step 0"), ne=[i])
        if part == "base":
            zero = []
            u = fold["u"]
            nat = {}
            for nm in ("x0", "x1"):
                o = [out for src, out in c.nats if not (c.ev(src) - c.ev(u[nm])).t]
                if not o and len(c.nats) >= 2:
                    o = [out for src, out in c.nats if c.force([("", c.ev(src) - c.ev(u[nm]))], eq=[i]) is None]
                    if not o:
                        return "the next instance of step 0: no limbs of the folded-in instance's %s" % nm
                if not o:
                    raise Unsupported("no limbs of the folded instance")
                nat[nm] = o[0]
            cst = lambda k: [(("i", 0), Poly.const(k, p))] if k else []
            want = {"W": u["W"], "E": [cst(0), cst(1), cst(0)], "u": cst(1), "x0": nat["x0"], "x1": nat["x1"]}
            return c.force(instance_goals(c, g2, want, "the next instance of step 0"), eq=[i])
        return None
    return guard(run)


def uniform(ctx, d, primary):
    """the constraints are those of the parameters whatever the inputs are"""
    def run(facts):
        a, b = build(ctx, d, primary, True, facts), build(ctx, d, primary, False, facts)
        if a.shape() != b.shape():
            return "the circuit of step 0 (and of the public parameters) differs from the circuit of later steps"
        return None
    return guard(run)


def run(ctx):
    for d, primary in ((DRIVERS["GrumpkinDriver"], True), (DRIVERS["Bn254Driver"], False)):
        fn = "zknova::circuit::augmented::AugmentedFCircuit::<%s>::generate" % d.full
        ctx.ob(fn, "same-shape", uniform(ctx, d, primary))
        for part in ("outputs", "previous-hash", "step", "first-state", "challenge", "folded") + (() if primary else ("base",)):
            ctx.ob(fn, part, linked(ctx, d, primary, part))
