"""The incrementally verifiable computation keeps its books: the prover's steps are run over symbolic states with the folding prover and the
augmented circuits as recording summaries; every step must fold the last instance into the running one, hand each circuit exactly the values of
that folding, and return a proof made of the resulting state."""
from nova import *
from r01 import Sys

LEVEL = "other"
FLOOR = 8
P1, P2 = DRIVERS["Bn254Driver"], DRIVERS["GrumpkinDriver"]
GEN_RX = re.compile(r"^zknova::circuit::augmented::AugmentedFCircuit::<zknova::(\w+), .*>::generate::<zknova::(\w+)>$")
FOLD_RX = re.compile(r"^zknova::Prover::<zknova::(\w+)>::prove$")
KEY_RX = re.compile(r"^zknova::PedersenCommitment::<(bn_254::G1Affine|grumpkin::Affine)>::new::<.*>$")
IVC = r"^zknova::Ivc::<.*>::%s$"


class Books:
    """a session that records what the circuits and the folding prover are given"""

    def __init__(self, ctx, facts, sizes=None, nz=1):
        self.log = []
        self.sizes = sizes or {"Bn254Driver": (2, 1), "GrumpkinDriver": (2, 1)}
        self.nz = nz
        self.s = {"GrumpkinDriver": Nova(ctx, P2, facts, patterns=[(GEN_RX, self.generate), (FOLD_RX, self.fold), (KEY_RX, self.newkey)])}
        self.s["Bn254Driver"] = self.s["GrumpkinDriver"].on(P1)
        self.s1, self.s2 = self.s["Bn254Driver"], self.s["GrumpkinDriver"]
        self.prog, self.I, self.D = ctx.prog, self.s2.I, self.s2.D

    def other(self, s):
        return self.s2 if s is self.s1 else self.s1

    # -------------------------------------------------------------- summaries
    def generate(self, I, c, a):
        of, on = GEN_RX.match(c.fn.name).groups()
        sc, so = self.s[on], self.s[of]
        n = len(self.log)
        circ = sc.fix(a[0])
        rec = {"kind": "circuit", "on": on,
               "is_primary": I.simp(sc.get(circ, "is_primary")), "i": I.simp(sc.get(circ, "i")), "z_0": sc.polys(sc.get(circ, "z_0")),
               "z_i": self.opt(sc, circ, "z_i", lambda v: sc.polys(v)), "u_single": self.opt(sc, circ, "u_single", lambda v: self.single(so, v)),
               "u_range": self.opt(sc, circ, "u_range", lambda v: self.running(so, v)),
               "commit_t": self.opt(sc, circ, "commit_t", lambda v: so.point(v))}
        if type(rec["i"]) is not int or type(rec["is_primary"]) is not int:
            raise Unsupported("step number of the circuit")
        S = Sys(self.prog, sc.d.full, sc.F)
        cs = a[1]
        cur = S.read(self.D, I.load(cs))
        if cur["m"] or cur["w"] or len(cur["x"]) != 1:
            raise Unsupported("circuit added to a system that is not fresh")
        m, w = self.sizes[on]
        x, wv = sc.vars("x%d_" % n, 2), sc.vars("w%d_" % n, w)
        out = sc.vars("z%d_" % n, self.nz)
        rec.update(x=x, w=wv, out=out)
        rows = [[(("w", 0), Poly.const(k + 1, sc.d.p))] for k in range(m)]
        rec["rows"] = rows
        I.store(cs, S.make(self.D, m, rows, rows, rows, [Poly.const(1, sc.d.p)] + x, wv))
        self.log.append(rec)
        fa = self.prog.ty("zkstd::circuit::prelude::FieldAssignment<%s>" % sc.F.ty)
        return vec(Agg(fa, 0, (sc.F.row(self.D, [(("i", 0), o)]),)) for o in out)

    def fold(self, I, c, a):
        on = FOLD_RX.match(c.fn.name).group(1)
        s = self.s[on]
        n = len(self.log)
        rec = {"kind": "fold", "on": on, "prover": self.prover(s, a[0]), "u": self.running(s, a[1]), "w": self.rw(s, a[2]), "u2": self.single(s, a[3]),
               "w2": self.sw(s, a[4])}
        u = {"commit_w": self.D.gen(s.d.C, "FW%d" % n), "commit_e": self.D.gen(s.d.C, "FE%d" % n), "u": self.D.var("fu%d" % n, s.d.p), "x": s.vars("fx%d_" % n, 2)}
        w, e, t = s.vars("fw%d_" % n, 1), s.vars("fe%d_" % n, 2), self.D.gen(s.d.C, "T%d" % n)
        rec.update(out=u, outw=(w, e), t=t)
        self.log.append(rec)
        C = s.d.C
        tv = t
        return Agg(None, 0, (s.relaxed(u["commit_w"], u["commit_e"], u["u"], u["x"]), s.rwit(w, e), tv))

    def newkey(self, I, c, a):
        s = self.s1 if "G1" in KEY_RX.match(c.fn.name).group(1) else self.s2
        k = I.simp(a[0])
        if type(k) is not int or k > 16:
            raise Unsupported("size of the commitment key")
        self.log.append({"kind": "key", "on": s.d.name, "n": 1 << k})
        return s.key(1 << k, "new%s" % s.d.name[0])

    # ---------------------------------------------------------------- readers
    def opt(self, s, v, name, f):
        o = self.I.settle(s.get(v, name), "optional %s" % name)
        if type(o) is not Agg:
            raise Unsupported("optional %s" % name)
        return f(o.f[0]) if o.v == 1 else None

    def single(self, s, v):
        return {"commit_w": s.point(s.get(v, "commit_w")), "x": s.polys(s.get(v, "x"))}

    def running(self, s, v):
        return {"commit_w": s.point(s.get(v, "commit_w")), "commit_e": s.point(s.get(v, "commit_e")), "u": s.poly(s.get(v, "u")),
                "x": s.polys(s.get(v, "x"))}

    def sw(self, s, v):
        return s.polys(s.get(v, "w"))

    def rw(self, s, v):
        return (s.polys(s.get(v, "w")), s.polys(s.get(v, "e")))

    def keyof(self, s, v):
        return [s.point(x) for x in items(self.I, s.get(v, "g"))]

    def shapeof(self, s, v):
        v = s.fix(v)
        return tuple(self.I.simp(s.get(v, n)) for n in ("m", "instance_length", "witness_length")) + tuple(
            tuple(tuple((w, pkey(c)) for w, c in s.F.unrow(self.D, y)) for y in items(self.I, s.get(v, n))) for n in "abc")

    def prover(self, s, v):
        v = s.fix(v)
        return (self.keyof(s, s.get(v, "ck")), self.shapeof(s, s.get(v, "shape")))

    # ----------------------------------------------------------------- values
    def params(self, ty):
        rows1, rows2 = self.s1.sym_rows(([[("w", 0)]] * 2,) * 3, "p"), self.s2.sym_rows(([[("w", 0)]] * 2,) * 3, "s")
        return self.s2.mk(ty, r1cs_shape_primary=self.s1.shape(2, 2, 1, rows1), r1cs_shape_secondary=self.s2.shape(2, 2, 1, rows2),
                          ck_primary=self.s1.key(2, "gp"), ck_secondary=self.s2.key(2, "gs"), marker=UNIT)

    def ivc(self, v):
        """the state of the prover"""
        s1, s2 = self.s1, self.s2
        g = lambda n: s2.get(v, n)
        return {"step number": self.I.simp(g("i")), "start of the primary computation": s1.polys(g("z0_primary")),
                "start of the secondary computation": s2.polys(g("z0_secondary")), "state of the primary computation": s1.polys(g("zi_primary")),
                "state of the secondary computation": s2.polys(g("zi_secondary")), "primary prover": self.prover(s1, g("prover_primary")),
                "secondary prover": self.prover(s2, g("prover_secondary")), "last secondary instance": self.single(s2, g("u_single_secondary")),
                "last secondary witness": self.sw(s2, g("w_single_secondary")), "running primary instance": self.running(s1, g("u_range_primary")),
                "running primary witness": self.rw(s1, g("w_range_primary")), "running secondary instance": self.running(s2, g("u_range_secondary")),
                "running secondary witness": self.rw(s2, g("w_range_secondary"))}

    def proof(self, v):
        s1, s2 = self.s1, self.s2
        g = lambda n: s2.get(v, n)
        ins = [[s2.fix(y) for y in s2.fix(x).f] for x in s2.fix(g("instances")).f]
        return {"step number": self.I.simp(g("i")), "start of the primary computation": s1.polys(g("z0_primary")),
                "start of the secondary computation": s2.polys(g("z0_secondary")), "state of the primary computation": s1.polys(g("zi_primary")),
                "state of the secondary computation": s2.polys(g("zi_secondary")), "last secondary instance": self.single(s2, ins[0][0]),
                "last secondary witness": self.sw(s2, ins[0][1]), "running primary instance": self.running(s1, ins[1][0]),
                "running primary witness": self.rw(s1, ins[1][1]), "running secondary instance": self.running(s2, ins[2][0]),
                "running secondary witness": self.rw(s2, ins[2][1])}


def find(ctx, rx):
    f = next((f for f in ctx.prog.by_name if re.match(rx, f)), None)
    if f is None:
        raise Unsupported("no %s" % rx)
    return f


def differ(got, want, what):
    for k in want:
        if k not in got:
            raise Unsupported("no %s" % k)
        if got[k] != want[k]:
            return "%s: the %s is %s" % (what, k, "not the expected one" if type(got[k]) is not int else "%d, expected %s" % (got[k], want[k]))
    return None


def of_kind(b, kind, on):
    l = [r for r in b.log if r["kind"] == kind and r["on"] == on]
    if len(l) != 1:
        raise Unsupported("%d %s calls on %s" % (len(l), kind, on))
    return l[0]


def committed(s, w, x, nm):
    return {"commit_w": s.commit(w, nm), "x": x}


def step(ctx, i, nz):
    def run(facts):
        b = Books(ctx, facts, nz=nz)
        s1, s2, D = b.s1, b.s2, b.D
        fn = find(ctx, IVC % "prove_step")
        f = ctx.prog.fn(fn)
        ity = base_ty(ctx.prog, f.locals[1])
        pp = b.params(ctx.prog.types[base_ty(ctx.prog, f.locals[2])]["s"])
        z = [s.vars(nm, nz) for s, nm in ((s1, "z0p"), (s2, "z0s"), (s1, "zip"), (s2, "zis"))]
        pt = {k: D.gen(P2.C if k[0] in "sq" else P1.C, k) for k in ("sW", "pW", "pE", "qW", "qE")}
        x, w = s2.vars("sx", 2), s2.vars("sw", 1)
        x1, w1, e1, u1 = s1.vars("px", 2), s1.vars("pw", 1), s1.vars("pe", 2), D.var("pu", P1.p)
        x2, w2, e2, u2 = s2.vars("qx", 2), s2.vars("qw", 1), s2.vars("qe", 2), D.var("qu", P2.p)
        rows = s1.sym_rows(([[("w", 0)]] * 2,) * 3, "a"), s2.sym_rows(([[("w", 0)]] * 2,) * 3, "b")
        pv = [s.mk(s.ty("Prover"), ck=s.key(2, nm), shape=s.shape(2, 2, 1, r)) for s, nm, r in ((s1, "hp", rows[0]), (s2, "hs", rows[1]))]
        st = s2.mk(ctx.prog.types[ity]["s"], i=i, z0_primary=s1.dense(z[0]), z0_secondary=s2.dense(z[1]), zi_primary=s1.dense(z[2]),
                   zi_secondary=s2.dense(z[3]), prover_primary=pv[0], prover_secondary=pv[1], u_single_secondary=s2.r1cs(pt["sW"], x),
                   w_single_secondary=s2.wit(w), u_range_primary=s1.relaxed(pt["pW"], pt["pE"], u1, x1), w_range_primary=s1.rwit(w1, e1),
                   u_range_secondary=s2.relaxed(pt["qW"], pt["qE"], u2, x2), w_range_secondary=s2.rwit(w2, e2), f=UNIT)
        before = b.ivc(st)
        ref = b.I.ref(st)
        pf = s2.must(fn, ref, pp)
        after, proof = b.ivc(b.I.load(ref)), b.proof(pf)
        want = dict(before)
        want["step number"] = i + 1
        if i == 0:
            if b.log:
                raise Unsupported("the first proof folds or generates circuits")
        else:
            F2, F1 = of_kind(b, "fold", "GrumpkinDriver"), of_kind(b, "fold", "Bn254Driver")
            G1, G2 = of_kind(b, "circuit", "Bn254Driver"), of_kind(b, "circuit", "GrumpkinDriver")
            new1, new2 = committed(s1, G1["w"], G1["x"], "gp"), committed(s2, G2["w"], G2["x"], "gs")
            checks = [
                ("folding of the secondary instances", F2, {"prover": before["secondary prover"], "u": before["running secondary instance"],
                                                            "w": before["running secondary witness"], "u2": before["last secondary instance"],
                                                            "w2": before["last secondary witness"]}),
                ("primary circuit", G1, {"is_primary": 1, "i": i, "z_0": z[0], "z_i": z[2], "u_single": before["last secondary instance"],
                                         "u_range": before["running secondary instance"], "commit_t": F2["t"]}),
                ("folding of the primary instances", F1, {"prover": before["primary prover"], "u": before["running primary instance"],
                                                          "w": before["running primary witness"], "u2": new1, "w2": G1["w"]}),
                ("secondary circuit", G2, {"is_primary": 0, "i": i, "z_0": z[1], "z_i": z[3], "u_single": new1,
                                           "u_range": before["running primary instance"], "commit_t": F1["t"]})]
            for what, got, exp in checks:
                bad = differ(got, exp, what)
                if bad:
                    return bad
            want.update({"running secondary instance": F2["out"], "running secondary witness": F2["outw"], "running primary instance": F1["out"],
                         "running primary witness": F1["outw"], "last secondary instance": new2, "last secondary witness": G2["w"],
                         "state of the primary computation": G1["out"], "state of the secondary computation": G2["out"]})
        return differ(after, want, "state after step %d" % (i + 1)) or differ(proof, {k: v for k, v in want.items() if "prover" not in k},
                                                                              "proof of step %d" % (i + 1))
    return guard(run)


def init(ctx, nz):
    def run(facts):
        b = Books(ctx, facts, nz=nz)
        s1, s2, D = b.s1, b.s2, b.D
        fn = find(ctx, IVC % "init")
        f = ctx.prog.fn(fn)
        pp = b.params(ctx.prog.types[base_ty(ctx.prog, f.locals[1])]["s"])
        z = s1.vars("z0p", nz), s2.vars("z0s", nz)
        got = b.ivc(s2.must(fn, pp, s1.dense(z[0]), s2.dense(z[1])))
        G1, G2 = of_kind(b, "circuit", "Bn254Driver"), of_kind(b, "circuit", "GrumpkinDriver")
        new1, new2 = committed(s1, G1["w"], G1["x"], "gp"), committed(s2, G2["w"], G2["x"], "gs")
        bad = differ(G1, {"is_primary": 1, "i": 0, "z_0": z[0], "u_single": None, "u_range": None, "commit_t": None}, "primary circuit") or \
            differ(G2, {"is_primary": 0, "i": 0, "z_0": z[1], "u_single": new1, "u_range": None, "commit_t": None}, "secondary circuit")
        for G, zz, nm in ((G1, z[0], "primary"), (G2, z[1], "secondary")):
            if not bad and G["z_i"] not in (None, zz):
                bad = "%s circuit: the current state of step 0 is not the start" % nm
        zero1, one1, zero2, one2 = Poly.const(0, P1.p), Poly.const(1, P1.p), Poly.const(0, P2.p), Poly.const(1, P2.p)
        nul = lambda s: s.D.gzero(s.d.C) if hasattr(s.D, "gzero") else GVal(s.d.C.name, {})
        sh1, sh2 = b.shapeof(s1, s2.get(pp, "r1cs_shape_primary")), b.shapeof(s2, s2.get(pp, "r1cs_shape_secondary"))
        want = {"step number": 0, "start of the primary computation": z[0], "start of the secondary computation": z[1],
                "state of the primary computation": G1["out"], "state of the secondary computation": G2["out"],
                "primary prover": (b.keyof(s1, s2.get(pp, "ck_primary")), sh1), "secondary prover": (b.keyof(s2, s2.get(pp, "ck_secondary")), sh2),
                "last secondary instance": new2, "last secondary witness": G2["w"],
                "running primary instance": dict(new1, commit_e=nul(s1), u=one1), "running primary witness": (G1["w"], [zero1, zero1])}
        bad = bad or differ(got, want, "initial state")
        if bad:
            return bad
        # the secondary side starts from a pair that satisfies any relaxed constraint system: everything zero
        u, (w, e) = got["running secondary instance"], got["running secondary witness"]
        if u["commit_w"].t or u["commit_e"].t or any(not q.is_zero() for q in w + e) or len(w) != 1 or len(e) != 2 or len(u["x"]) != 2 or \
                not u["u"].is_zero() or any(not q.is_zero() for q in u["x"]):
            return "initial state: the running secondary pair is not the zero pair of the shape"
        return None
    return guard(run)


def setup(ctx, sizes):
    def run(facts):
        b = Books(ctx, facts, sizes=dict(zip(("Bn254Driver", "GrumpkinDriver"), sizes)))
        s1, s2 = b.s1, b.s2
        fn = find(ctx, r"^zknova::PublicParams::<.*>::setup::<.*>$")
        f = ctx.prog.fn(fn)
        r = s2.must(fn, b.I.ref(Opaque("rng", ())))
        for s, nm, prim in ((s1, "primary", 1), (s2, "secondary", 0)):
            G, K = of_kind(b, "circuit", s.d.name), of_kind(b, "key", s.d.name)
            zero = Poly.const(0, s.d.p)
            bad = differ(G, {"is_primary": prim, "i": 0}, "%s circuit of the setup" % nm)
            if bad:
                return bad
            m, w = b.sizes[s.d.name]
            sh = b.shapeof(s, s2.get(r, "r1cs_shape_%s" % nm))
            rows = tuple(tuple((w_, pkey(c)) for w_, c in y) for y in G["rows"])
            if sh != (m, 2, w, rows, rows, rows):
                return "the %s shape is not that of the %s circuit" % (nm, nm)
            k = b.keyof(s, s2.get(r, "ck_%s" % nm))
            if len(k) < max(m, w):
                return "the %s commitment key has %d generators for %d witnesses and %d constraints" % (nm, len(k), w, m)
        return None
    return guard(run)


def run(ctx):
    for i in (0, 1, 2, 7, 255, 256, 65536, (1 << 32) - 1, (1 << 63) + 5) + (tuple(range(3, 40)) if ctx.thorough() else ()):
        for nz in (1,) if i > 1 else (1, 2, 3):
            ctx.ob("zknova::Ivc::prove_step", "step[%d -> %d, %d state]" % (i, i + 1, nz), step(ctx, i, nz))
    for nz in (1, 2, 3):
        ctx.ob("zknova::Ivc::init", "initial-state[%d state]" % nz, init(ctx, nz))
    for sizes in ((2, 1), (2, 1)), ((1, 3), (3, 1)), ((5, 9), (9, 5)), ((8, 4), (4, 8)), ((3, 17), (17, 3)):
        ctx.ob("zknova::PublicParams::setup", "parameters%s" % (sizes,), setup(ctx, sizes))
