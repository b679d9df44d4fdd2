"""Shared helpers of the Nova checks: instances, witnesses, shapes and keys with symbolic contents."""
from groups import *
from circ import Split, explore, vec, items, Fld, lin, rowmap, wire, unwire

RND_RX = re.compile(r"^<(bn_254::F[rq]) as zkstd::common::Group>::random::<.*>$")
CLR_RX = re.compile(r"^<zknova::hash::Mimc<\d+, (bn_254::F[rq])> as std::default::Default>::default$")
SQZ_RX = re.compile(r"^zknova::hash::MimcRO::<\d+, zknova::(\w+)>::squeeze$")
SAB_RX = re.compile(r"^zknova::driver::(scalar_as_base|base_as_scalar)::<zknova::(\w+)>$")
NAT_RX = re.compile(r"^zknova::gadget::big_nat::f_to_nat::<(bn_254::F[rq])>$")
LIMB_RX = re.compile(r"^zknova::gadget::big_nat::nat_to_limbs::<(bn_254::F[rq])>$")
XY_RX = re.compile(r"^<(%s) as zkstd::common::\w+>::(get_x|get_y)$" % PT)

GK = {"G1": "bn_254::G1Affine", "Grumpkin": "grumpkin::Affine"}


class Driver:
    def __init__(self, name, scalar, base, curve):
        self.name, self.scalar, self.base = name, scalar, base
        self.p, self.q = BASE[scalar], BASE[base]
        self.C = next(c for c in GCURVES if c.name == curve)
        self.full = "zknova::" + name


DRIVERS = {"Bn254Driver": Driver("Bn254Driver", "bn_254::Fr", "bn_254::Fq", "G1"),
           "GrumpkinDriver": Driver("GrumpkinDriver", "bn_254::Fq", "bn_254::Fr", "Grumpkin")}


class Bad(Exception):
    pass


class NovaDomain(GroupDomain):
    def gen(self, C, name):
        return GVal(C.name, {name: Poly.const(1, C.order)})

    def iszero(self, v):
        if not v.t:
            return 1
        k = min(v.key(), self.neg(v).key(), key=lambda k: sorted((g, sorted(p.t.items())) for g, p in k[1]))
        return Ite(("gz", v.C, k), 1, 0)

    def decide(self, g):
        raise Split(g.c)

    def feasible(self, facts, c, val):
        r = GroupDomain.feasible(self, facts, c, val)
        if r and not val and GroupDomain.feasible(self, facts, c, True):
            raise Split(c)
        return r


def pkey(p):
    return (p.p, frozenset(p.t.items()))


class Nova:
    """one analysis session over one driver"""

    def __init__(self, ctx, d, facts=None, patterns=(), mul=True, overrides=None):
        self.ctx, self.prog, self.d = ctx, ctx.prog, d
        self.F = Fld(ctx.prog, d.scalar)
        self.B = Fld(ctx.prog, d.base)
        D = self.D = NovaDomain(d.p, mul)
        self.rands = []
        self.absorbed = []
        pats = list(patterns) + [(RND_RX, self.random), (CLR_RX, self.mimc_new), (SQZ_RX, self.squeeze), (SAB_RX, self.as_base),
                                 (NAT_RX, self.nat), (LIMB_RX, self.limbs), (XY_RX, self.coord)]
        self.I = Interp(ctx.prog, D, Models(overrides=overrides, patterns=pats + D.gmodels() + D.ext_models() + D.limb_models()))
        self.I.st.facts.update(facts or {})

    # ------------------------------------------------------------- summaries
    def fix(self, v):
        v = self.I.simp(v)
        while type(v) is Ptr:
            v = self.I.simp(self.I.load(v))
        return v

    def random(self, I, c, a):
        ty = RND_RX.match(c.fn.name).group(1)
        n = "rand%d" % len(self.rands)
        self.rands.append(n)
        return self.D.elem(self.prog.ty(ty), BASE[ty], self.D.var(n, BASE[ty]))

    def mimc_new(self, I, c, a):
        ty = CLR_RX.match(c.fn.name).group(1)
        t = self.prog.base(c.fn.locals[0]) if hasattr(self.prog, "base") else c.fn.locals[0]
        T = self.prog.types[t]
        if [f[0] for f in T["vs"][0][1]] != ["constants"]:
            raise Unsupported("layout of the hash function")
        n = self.prog.types[T["vs"][0][1][0][1]]["n"]
        return Agg(t, 0, (Arr(tuple(self.D.elem(self.prog.ty(ty), BASE[ty], self.D.var("k%d" % i, BASE[ty])) for i in range(n))),))

    def squeeze(self, I, c, a):
        d = DRIVERS[SQZ_RX.match(c.fn.name).group(1)]
        ro = self.fix(a[0])
        st = tuple(self.D.val(self.fix(x), d.q) for x in items(I, self.get(ro, "state")))
        if "key" in self.fields(ro) and not self.D.val(self.fix(self.get(ro, "key")), d.q).is_zero():
            raise Unsupported("initial state of the transcript")
        n = I.simp(a[1])
        if type(n) is not int:
            raise Unsupported("number of challenge bits")
        self.absorbed.append((n, st))
        return self.F_of(d.scalar).el(self.D, self.atomvar(("ro", n, tuple(pkey(x) for x in st)), d.p, "r%d" % n))

    def as_base(self, I, c, a):
        m = SAB_RX.match(c.fn.name)
        d = DRIVERS[m.group(2)]
        src, dst = (d.p, d.base) if m.group(1) == "scalar_as_base" else (d.q, d.scalar)

        return I.lift(lambda x: self.D.elem(self.prog.ty(dst), BASE[dst], self.moved(self.D.val(x, src), BASE[dst])), a[0])

    def moved(self, v, q):
        """the residue modulo q of the canonical representative of v"""
        if v.is_const():
            return Poly.const(v.cval(), q)
        return self.atomvar(("as", pkey(v)), q, "int(%s)" % v.show(self.D.names, 3))

    def nat(self, I, c, a):
        p = BASE[NAT_RX.match(c.fn.name).group(1)]
        return I.lift(lambda x: Opaque("nat", (pkey(self.D.val(x, p)), self.D.val(x, p))), self.fix(a[0]))

    def limbs(self, I, c, a):
        ty = LIMB_RX.match(c.fn.name).group(1)
        p = BASE[ty]
        x, w, n = self.fix(a[0]), I.simp(a[1]), I.simp(a[2])
        if type(x) is not Opaque or x.op != "nat" or type(w) is not int or type(n) is not int:
            raise Unsupported("limbs of an unknown number")
        v = x.args[1]
        if v.is_const():
            k = v.cval()
            ls = [Poly.const((k >> (w * i)) & ((1 << w) - 1), p) for i in range(n)]
        else:
            ls = [self.atomvar(("limb", w, i, x.args[0]), p, "limb%d(%s)" % (i, v.show(self.D.names, 3))) for i in range(n)]
        return VecV([self.D.elem(self.prog.ty(ty), p, l) for l in ls], -1)

    def coord(self, I, c, a):
        m = XY_RX.match(c.fn.name)
        C = curve_of(m.group(1))
        ty = next(d.base for d in DRIVERS.values() if d.C is C)
        p = BASE[ty]

        def f(x):
            g = self.D.pt(x)
            if not g.t:
                raise Unsupported("coordinates of the identity")
            return self.D.elem(self.prog.ty(ty), p, self.atomvar((m.group(2), g.key()), p, "%s(%r)" % (m.group(2)[-1], g)))
        return I.lift(f, self.fix(a[0]))

    def atomvar(self, key, p, name):
        return Poly.var(self.D.atom(key, name), p)

    def F_of(self, ty):
        return self.F if ty == self.d.scalar else self.B

    # ---------------------------------------------------------------- values
    def fields(self, v):
        return [f[0] for f in self.prog.types[v.tid]["vs"][0][1]]

    def get(self, v, name):
        v = self.fix(v)
        if type(v) is not Agg or v.tid is None or name not in self.fields(v):
            raise Unsupported("no field %s" % name)
        return self.I.simp(v.f[self.fields(v).index(name)])

    def mk(self, ty, **f):
        t = self.prog.ty(ty)
        names = [x[0] for x in self.prog.types[t]["vs"][0][1]]
        if set(names) - set(f):
            raise Unsupported("%s has other fields: %s" % (ty, names))
        return Agg(t, 0, tuple(f[n] for n in names))

    def ty(self, short):
        m = {"R1csInstance": "instance", "RelaxedR1csInstance": "instance", "R1csWitness": "witness", "RelaxedR1csWitness": "witness"}
        return ("zknova::relaxed_r1cs::%s::%s<%s>" % (m[short], short, self.d.full) if short in m else
                "zknova::PedersenCommitment<%s>" % self.d.C.aff if short == "Pedersen" else "zknova::%s<%s>" % (short, self.d.full))

    def vars(self, nm, n):
        return [self.D.var("%s%d" % (nm, i), self.d.p) for i in range(n)]

    def key(self, n, nm="g"):
        return self.mk(self.ty("Pedersen"), g=vec(self.D.gen(self.d.C, "%s%d" % (nm, i)) for i in range(n)))

    def commit(self, cs, nm="g"):
        return GVal(self.d.C.name, {"%s%d" % (nm, i): c for i, c in enumerate(cs)})

    def on(self, d):
        """the same session seen from the other curve"""
        o = object.__new__(Nova)
        o.__dict__.update(self.__dict__)
        o.d, o.F, o.B = d, self.F_of(d.scalar), self.F_of(d.base)
        return o

    def r1cs(self, commit_w, x):
        return self.mk(self.ty("R1csInstance"), commit_w=commit_w, x=self.dense(x))

    def relaxed(self, commit_w, commit_e, u, x):
        return self.mk(self.ty("RelaxedR1csInstance"), commit_w=commit_w, commit_e=commit_e, u=self.el(u), x=self.dense(x))

    def wit(self, w):
        return self.mk(self.ty("R1csWitness"), w=self.dense(w))

    def rwit(self, w, e):
        return self.mk(self.ty("RelaxedR1csWitness"), w=self.dense(w), e=self.dense(e))

    def shape(self, m, l, w, rows, dims=None):
        """rows: three lists of rows [(wire, poly)]"""
        F = self.F
        mt = self.prog.ty("zkstd::matrix::SparseMatrix<%s>" % F.ty)
        mat = lambda rs: Agg(mt, 0, (vec(F.row(self.D, r) for r in rs),))
        return self.mk(self.ty("R1csShape"), m=m, instance_length=l, witness_length=w, a=mat(rows[0]), b=mat(rows[1]), c=mat(rows[2]))

    def sym_rows(self, pats, tag=""):
        return [[[(w, self.D.var("%s%s%d_%d" % (nm, tag, i, j), self.d.p)) for j, w in enumerate(r)] for i, r in enumerate(p)]
                for nm, p in zip("abc", pats)]

    def poly(self, v):
        return self.F.val(self.D, v)

    def polys(self, v):
        return self.F.undense(self.D, self.fix(v))

    def point(self, v):
        return self.D.pt(self.fix(v))

    def same(self, a, b):
        """equal field values (or lists of them) under the conditions of the case"""
        if type(a) is list:
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        return a == b or self.D.zero(a - b, self.I.st.facts)

    def same_point(self, a, b):
        """equal points under the conditions of the case"""
        if a == b:
            return True
        f = self.I.st.facts
        d = {g: c for g, c in self.D.sub(a, b).t.items() if not self.D.zero(c, f)}
        if a.C != b.C or not d:
            return a.C == b.C
        for c, v in f.items():
            if v and c[0] == "gz" and c[1] == a.C:      # a multiple of a point that is the identity
                k = dict(c[2][1])
                if set(d) <= set(k):
                    g = next(iter(d))
                    if all(self.D.zero(d.get(h, k[h].scale(0)) * k[g] - d[g] * k[h], f) for h in k):
                        return True
        return False

    def dense(self, ps):
        return self.F.dense(self.D, ps)

    def el(self, p):
        return self.F.el(self.D, p)

    def run(self, fn, *args):
        f = self.prog.fn(fn)
        r = self.I.analyse(f, [x if type(x) is Ptr else wrap_arg(self.I, self.prog, f.locals[1 + i], x) for i, x in enumerate(args)])
        self.ctx.used(self.I)
        return r

    def must(self, fn, *args):
        r = self.run(fn, *args)
        if self.I.panics or r is None:
            raise Bad("%s may panic: %s" % (fn, self.I.panics[:1]))
        return self.fix(r)


def residual(rows, u, x, w, e, p):
    """(A z)(B z) - u (C z) - e for z = (u, x, w)"""
    xs = [u] + list(x)
    z = Poly.const(0, p)
    return [lin(a, xs, w, p) * lin(b, xs, w, p) - u * lin(c, xs, w, p) - (e[i] if i < len(e) else z)
            for i, (a, b, c) in enumerate(zip(*rows))]


def holds_iff(s, r, conds, what):
    """r is true exactly when every condition (polynomial or linear form is zero) holds"""
    D, I = s.D, s.I

    def cond(k):
        c = D.iszero(k) if type(k) is GVal else D.zcond(k)
        return c.c if type(c) is Ite else c

    if type(r) not in (int, Ite):
        r = D.as_gate(r)
    yes = False
    for fs, leaf in leaves(I, r, I.st.facts):
        if type(leaf) is not int:
            raise Unsupported("result of the test")
        if leaf:
            yes = True
            for nm, k in conds:
                c = cond(k)
                if c == 0 and type(c) is int:
                    return "%s accepts although %s does not hold" % (what, nm)
                ok = c == 1 and type(c) is int or fs.get(c) is True or type(k) is Poly and D.zero(k, fs)
                if not ok:
                    return "%s accepts although %s may not hold" % (what, nm)
        else:
            g = dict(fs)
            for nm, k in conds:
                c = cond(k)
                if type(c) is int:
                    if c:
                        continue
                    break
                if g.get(c) is False or not GroupDomain.feasible(D, g, c, True):
                    break
                g[c] = True
            else:
                if not D.zero(Poly.const(1, s.d.p), g):
                    return "%s rejects although every condition may hold%s" % (what, show_facts(D, fs))
    return None


PATS = [
    ([[("i", 0), ("i", 1), ("w", 0), ("w", 1)]], [[("i", 0), ("i", 1), ("w", 0), ("w", 1)]], [[("i", 0), ("i", 1), ("w", 0), ("w", 1)]]),
    ([[("w", 0)], [("i", 1), ("w", 1)]], [[("w", 1)], [("i", 0)]], [[("i", 1)], [("w", 0), ("i", 0)]]),
    ([[], [("w", 1)], [("i", 0)]], [[("w", 0)], [], [("i", 1), ("i", 0)]], [[("w", 0)], [("i", 0)], []]),
]


def guard(f):
    def g():
        try:
            return explore(f, 5000)
        except Bad as e:
            return str(e)
    return g
