"""Acceptance tests of Nova: satisfaction of (relaxed) instances and verification of a recursive proof are run over symbolic instances,
witnesses, shapes and keys; every path must accept exactly when all conditions hold."""
from nova import *

LEVEL = "other"
FLOOR = 30
P1, P2 = DRIVERS["Bn254Driver"], DRIVERS["GrumpkinDriver"]


def sat(ctx, d, pats, relaxed, dims=(0, 0, 0)):
    """dims: by how much x, w and e are longer than the shape says"""
    def run(facts):
        s = Nova(ctx, d, facts)
        rows = s.sym_rows(pats)
        m = len(rows[0])
        l, w = 1, 2
        x_, w_, e_ = s.vars("x", max(0, l + dims[0])), s.vars("w", max(0, w + dims[1])), s.vars("e", max(0, m + dims[2]))
        sh = s.shape(m, l, w, rows)
        zero, one = Poly.const(0, d.p), Poly.const(1, d.p)
        cw, ce = s.D.gen(d.C, "W"), s.D.gen(d.C, "E")
        if relaxed:
            u = s.D.var("u", d.p)
            fn = "zknova::R1csShape::<%s>::is_sat_relaxed" % d.full
            r = s.run(fn, sh, s.relaxed(cw, ce, u, x_), s.rwit(w_, e_))
            e = e_
        else:
            u, e = one, [zero] * m
            fn = "zknova::R1csShape::<%s>::is_sat" % d.full
            r = s.run(fn, sh, s.key(4), s.r1cs(cw, x_), s.wit(w_))
        if s.I.panics or r is None:
            return "may panic: %s" % (s.I.panics[:1],)
        if any(dims):
            for fs, leaf in leaves(s.I, s.I.simp(r), s.I.st.facts):
                if leaf != 0:
                    return "accepts %d public inputs, %d witness values%s for a shape of %d, %d, %d constraints" % (
                        len(x_), len(w_), ", %d error values" % len(e_) if relaxed else "", l, w, m)
            return None
        conds = [("constraint %d" % i, k) for i, k in enumerate(residual(rows, u, x_, w_, e, d.p))]
        if not relaxed:
            conds.append(("the opening of the witness commitment", s.D.sub(cw, s.commit(w_))))
        return holds_iff(s, r, conds, "the satisfaction test")
    return guard(run)


SMALL = ([[("w", 0)]], [[("i", 1), ("i", 0)]], [[("i", 2)]])
LENS0 = {"single": (2, 1), "range1": (2, 1, 1), "range2": (2, 1, 1)}


def proof(ctx, change=None, zs=(1, 1, 1, 1)):
    """change: (which, vector, delta)"""
    def run(facts):
        s2 = Nova(ctx, P2, facts)
        s1 = s2.on(P1)
        prog, D = ctx.prog, s2.D
        fn = next((f for f in prog.by_name if re.match(r"^zknova::RecursiveProof::<.*>::verify$", f)), None)
        if fn is None:
            raise Unsupported("no verify")
        n = {k: list(v) for k, v in LENS0.items()}
        if change:
            n[change[0]][change[1]] += change[2]
        V = lambda s, nm, k: s.vars(nm, k)
        rows1, rows2 = s1.sym_rows(SMALL, "p"), s2.sym_rows(SMALL, "s")
        x, w = V(s2, "sx", n["single"][0]), V(s2, "sw", n["single"][1])
        x1, w1, e1 = V(s1, "px", n["range1"][0]), V(s1, "pw", n["range1"][1]), V(s1, "pe", n["range1"][2])
        x2, w2, e2 = V(s2, "qx", n["range2"][0]), V(s2, "qw", n["range2"][1]), V(s2, "qe", n["range2"][2])
        u1, u2 = D.var("pu", P1.p), D.var("qu", P2.p)
        pt = {k: D.gen(P2.C if k[0] in "sq" else P1.C, k) for k in ("sW", "pW", "pE", "qW", "qE")}
        single = s2.r1cs(pt["sW"], x)
        range1, range2 = s1.relaxed(pt["pW"], pt["pE"], u1, x1), s2.relaxed(pt["qW"], pt["qE"], u2, x2)
        i = Opaque("step", ())
        zz = [V(s, nm, k) for s, nm, k in ((s1, "z0p", zs[0]), (s2, "z0s", zs[1]), (s1, "zip", zs[2]), (s2, "zis", zs[3]))]
        dz = [s.dense(z) for s, z in zip((s1, s2, s1, s2), zz)]
        pair = lambda a, b: Agg(None, 0, (a, b))
        fnd = prog.fn(fn)
        pf = s2.mk(prog.types[base_ty(prog, fnd.locals[1])]["s"], i=i, z0_primary=dz[0], z0_secondary=dz[1], zi_primary=dz[2],
                   zi_secondary=dz[3], marker=UNIT,
                   instances=Agg(None, 0, (pair(single, s2.wit(w)), pair(range1, s1.rwit(w1, e1)), pair(range2, s2.rwit(w2, e2)))))
        pp = s2.mk(prog.types[base_ty(prog, fnd.locals[2])]["s"], r1cs_shape_primary=s1.shape(1, 2, 1, rows1),
                   r1cs_shape_secondary=s2.shape(1, 2, 1, rows2), ck_primary=s1.key(3, "gp"), ck_secondary=s2.key(3, "gs"), marker=UNIT)
        r = s2.run(fn, pf, pp)
        if s2.I.panics or r is None:
            return "may panic: %s" % (s2.I.panics[:1],)
        if change:
            for fs, leaf in leaves(s2.I, s2.I.simp(r), s2.I.st.facts):
                if leaf != 0:
                    return "accepts an instance or witness of the wrong length (%s, vector %d %+d)" % change
            return None
        h = lambda s, o, inst, a, b: s.poly(s.must("zknova::relaxed_r1cs::instance::RelaxedR1csInstance::<%s>::hash::<%s>" % (s.d.full, o.full),
                                                   inst, i, a, b))
        h1, h2 = h(s2, P1, range2, dz[0], dz[2]), h(s1, P2, range1, dz[1], dz[3])
        conv = s2.moved(x[1], P1.p)
        zero, one = Poly.const(0, P2.p), Poly.const(1, P2.p)
        conds = [("the hash of the secondary running instance", h1 - x[0]), ("the hash of the primary running instance", h2 - conv)]
        conds += [("the last secondary instance", k) for k in residual(rows2, one, x, w, [zero], P2.p)]
        conds += [("the primary running instance", k) for k in residual(rows1, u1, x1, w1, e1, P1.p)]
        conds += [("the secondary running instance", k) for k in residual(rows2, u2, x2, w2, e2, P2.p)]
        conds += [("the opening of the last witness commitment", D.sub(pt["sW"], s2.commit(w, "gs"))),
                  ("the opening of the primary witness commitment", D.sub(pt["pW"], s1.commit(w1, "gp"))),
                  ("the opening of the primary error commitment", D.sub(pt["pE"], s1.commit(e1, "gp"))),
                  ("the opening of the secondary witness commitment", D.sub(pt["qW"], s2.commit(w2, "gs"))),
                  ("the opening of the secondary error commitment", D.sub(pt["qE"], s2.commit(e2, "gs")))]
        return holds_iff(s2, r, conds, "verification")
    return guard(run)


def run(ctx):
    for d, kinds in ((P1, (True,)), (P2, (True, False))):
        for relaxed in kinds:
            fn = "zknova::R1csShape::<%s>::%s" % (d.full, "is_sat_relaxed" if relaxed else "is_sat")
            for i, pats in enumerate(PATS):
                ctx.ob(fn, "iff-constraints[%d]" % i, sat(ctx, d, pats, relaxed))
            for dims in ((1, 0, 0), (-1, 0, 0), (0, 1, 0), (0, -1, 0), (0, -2, 0)) + (((0, 0, 1), (0, 0, -1), (0, 0, -2)) if relaxed else ()):
                ctx.ob(fn, "wrong-length%s" % (dims,), sat(ctx, d, PATS[1], relaxed, dims))
    fn = "zknova::RecursiveProof::verify"
    for zs in [(1, 1, 1, 1), (2, 1, 2, 1)] + ([(3, 3, 3, 3), (0, 0, 0, 0), (1, 2, 1, 2)] if ctx.thorough() else []):
        ctx.ob(fn, "accepts-iff-all-conditions%s" % (zs,), proof(ctx, zs=zs))
    for which, n in LENS0.items():
        for k in range(len(n)):
            for dl in (1, -1):
                ctx.ob(fn, "wrong-length[%s,%d,%+d]" % (which, k, dl), proof(ctx, (which, k, dl)))
