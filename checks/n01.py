"""Nova folding over symbolic shapes, instances and witnesses: the folded pair satisfies the relaxed relation and its commitments open whenever
the folded pairs do; prover and verifier produce the same instance; conversions keep the relation."""
from nova import *
from r01 import Sys

LEVEL = "other"
FLOOR = 16


def pairs(s, m, l, w):
    """a relaxed pair and a plain pair whose commitments open"""
    x1, w1, e1, u = s.vars("x", l), s.vars("w", w), s.vars("e", m), s.D.var("u", s.d.p)
    x2, w2 = s.vars("y", l), s.vars("v", w)
    A = s.relaxed(s.commit(w1), s.commit(e1), u, x1), s.rwit(w1, e1)
    B = s.r1cs(s.commit(w2), x2), s.wit(w2)
    return (u, x1, w1, e1), (x2, w2), A, B


def inst(s, v):
    return {"commit_w": s.point(s.get(v, "commit_w")), "commit_e": s.point(s.get(v, "commit_e")), "u": s.poly(s.get(v, "u")),
            "x": s.polys(s.get(v, "x"))}


def relaxed_ok(s, rows, m, i, w, e, given, what):
    """the pair satisfies the relation whenever every residual of `given` is zero"""
    if len(w) != given[0] or len(e) != m or len(i["x"]) != given[1]:
        return "%s has %d public inputs, %d witness values, %d error values" % (what, len(i["x"]), len(w), len(e))
    if not s.same_point(i["commit_w"], s.commit(w)):
        return "%s: the witness commitment %r does not open to the witness" % (what, i["commit_w"])
    if not s.same_point(i["commit_e"], s.commit(e)):
        return "%s: the error commitment %r does not open to the error vector" % (what, i["commit_e"])
    r = residual(rows, i["u"], i["x"], w, e, s.d.p)
    for k in range(m):
        want = given[2][k]
        if not s.same(r[k], want):
            d = r[k] - want
            return "%s: constraint %d is off by %s" % (what, k, d.show(s.D.names, 6))
    return None


def folding(ctx, d, pats):
    def run(facts):
        s = Nova(ctx, d, facts)
        rows = s.sym_rows(pats)
        m, l, w = len(rows[0]), 1, 2
        (u, x1, w1, e1), (x2, w2), A, B = pairs(s, m, l, w)
        pr = s.mk(s.ty("Prover"), ck=s.key(max(m, w) + 1), shape=s.shape(m, l, w, rows))
        r = s.must("zknova::Prover::<%s>::prove" % d.full, pr, A[0], A[1], B[0], B[1])
        i3, w3, t = [s.fix(x) for x in r.f]
        n = len(s.absorbed)
        if n != 1:
            return "the prover derives %d challenges" % n
        i = inst(s, i3)
        wv, ev = s.polys(s.get(w3, "w")), s.polys(s.get(w3, "e"))
        zero, one = Poly.const(0, d.p), Poly.const(1, d.p)
        ra = residual(rows, u, x1, w1, e1, d.p)
        rb = residual(rows, one, x2, w2, [zero] * m, d.p)
        # the challenge of the transcript
        c = i["u"] - u
        at = [a for a in c.atoms() if s.D.info[a][0] == "ro"]
        if len(at) != 1 or c != Poly.var(at[0], d.p):
            return "u of the folded instance is %s" % i["u"].show(s.D.names, 5)
        bad = relaxed_ok(s, rows, m, i, wv, ev, (w, l, [a + c * c * b for a, b in zip(ra, rb)]), "the folded pair")
        if bad:
            return bad
        for nm, got, want in (("public input", i["x"], [a + c * b for a, b in zip(x1, x2)]), ("witness", wv, [a + c * b for a, b in zip(w1, w2)])):
            if not s.same(got, want):
                return "folded %s is not the linear combination of the folded vectors" % nm
        v = inst(s, s.must("zknova::Verifier::<%s>::verify" % d.full, s.D.pt(s.fix(t)), A[0], B[0]))
        for k in v:
            if not (s.same_point if k.startswith("commit") else s.same)(v[k], i[k]):
                return "prover and verifier disagree on %s of the folded instance" % k
        return None
    return guard(run)


def cross(ctx, d, pats):
    def run(facts):
        s = Nova(ctx, d, facts)
        rows = s.sym_rows(pats)
        m, l, w = len(rows[0]), 1, 2
        (u, x1, w1, e1), (x2, w2), A, B = pairs(s, m, l, w)
        pr = s.mk(s.ty("Prover"), ck=s.key(max(m, w) + 1), shape=s.shape(m, l, w, rows))
        t = s.polys(s.must("zknova::Prover::<%s>::compute_cross_term" % d.full, pr, A[0], A[1], B[0], B[1]))
        p = d.p
        xs1, xs2 = [u] + x1, [Poly.const(1, p)] + x2
        want = [lin(a, xs1, w1, p) * lin(b, xs2, w2, p) + lin(a, xs2, w2, p) * lin(b, xs1, w1, p) - u * lin(c, xs2, w2, p) - lin(c, xs1, w1, p)
                for a, b, c in zip(*rows)]
        if not s.same(t, want):
            return "the cross term is not Az1*Bz2 + Az2*Bz1 - u1*Cz2 - u2*Cz1"
        return None
    return guard(run)


def convert(ctx, d):
    def run(facts):
        s = Nova(ctx, d, facts)
        rows = s.sym_rows(PATS[1])
        m, l, w = 2, 1, 2
        (u, x1, w1, e1), (x2, w2), A, B = pairs(s, m, l, w)
        sh, ck = s.shape(m, l, w, rows), s.key(4)
        i = inst(s, s.must("zknova::relaxed_r1cs::instance::RelaxedR1csInstance::<%s>::from_r1cs_instance" % d.full, ck, sh, B[0]))
        rw = s.must("zknova::relaxed_r1cs::witness::RelaxedR1csWitness::<%s>::from_r1cs_witness" % d.full, sh, B[1])
        wv, ev = s.polys(s.get(rw, "w")), s.polys(s.get(rw, "e"))
        zero, one = Poly.const(0, d.p), Poly.const(1, d.p)
        return relaxed_ok(s, rows, m, i, wv, ev, (w, l, residual(rows, one, x2, w2, [zero] * m, d.p)), "the relaxed pair")
    return guard(run)


def dummy(ctx, d):
    def run(facts):
        s = Nova(ctx, d, facts)
        rows = s.sym_rows(PATS[1])
        m, l, w = 2, 1, 2
        i = inst(s, s.must("zknova::relaxed_r1cs::instance::RelaxedR1csInstance::<%s>::dummy" % d.full, l))
        rw = s.must("zknova::relaxed_r1cs::witness::RelaxedR1csWitness::<%s>::dummy" % d.full, w, m)
        wv, ev = s.polys(s.get(rw, "w")), s.polys(s.get(rw, "e"))
        return relaxed_ok(s, rows, m, i, wv, ev, (w, l, [Poly.const(0, d.p)] * m), "the default pair")
    return guard(run)


def from_cs(ctx, d, split):
    """shape and pair of a constraint system keep its constraints and assignment"""
    def run(facts):
        s = Nova(ctx, d, facts)
        rows = s.sym_rows(PATS[1])
        m, l, w = 2, 1, 2
        S = Sys(ctx.prog, d.full, s.F)
        x, wv = [Poly.const(1, d.p)] + s.vars("x", l), s.vars("w", w)
        cs = S.make(s.D, m, rows[0], rows[1], rows[2], x, wv)
        sh = s.must("<zknova::R1csShape<%s> as std::convert::From<zkstd::r1cs::R1cs<%s>>>::from" % (d.full, d.full), cs)
        dims = tuple(s.I.simp(s.get(sh, n)) for n in ("m", "instance_length", "witness_length"))
        if dims != (m, l, w):
            return "the shape of %d constraints, %d public inputs, %d witnesses is %s" % (m, l, w, dims)
        for n, r in zip("abc", rows):
            got = [s.F.unrow(s.D, y) for y in items(s.I, s.get(sh, n))]
            if len(got) != m or any(rowmap(g, d.p) != rowmap(q, d.p) for g, q in zip(got, r)):
                return "matrix %s of the shape differs from the constraints" % n
        if split:
            r = s.must("zknova::relaxed_r1cs::r1cs_instance_and_witness::<%s>" % d.full, cs, sh, s.key(4))
            i, wt = [s.fix(y) for y in r.f]
            if not s.same(s.polys(s.get(i, "x")), x[1:]) or not s.same(s.polys(s.get(wt, "w")), wv):
                return "instance or witness differ from the assignment"
            if not s.same_point(s.point(s.get(i, "commit_w")), s.commit(wv)):
                return "the witness commitment does not open to the witness"
        return None
    return guard(run)


BIG_PATS = ([[("w", 0), ("i", 1)], [("w", 1)], [("i", 0), ("w", 0), ("w", 1)], [("i", 1)]],
            [[("w", 1), ("i", 0)], [("w", 1)], [("i", 1)], []],
            [[("w", 0), ("w", 1), ("i", 0), ("i", 1)], [("i", 1)], [("w", 1)], [("i", 0)]])


def run(ctx):
    for d in DRIVERS.values():
        for k, pats in enumerate(PATS + ([BIG_PATS] if ctx.thorough() else [])):
            ctx.ob("zknova::Prover::<%s>::compute_cross_term" % d.full, "cross-term[%d]" % k, cross(ctx, d, pats))
            ctx.ob("zknova::Prover::<%s>::prove" % d.full, "folds[%d]" % k, folding(ctx, d, pats))
        if d.name == "Bn254Driver":
            ctx.ob("zknova::RelaxedR1csInstance::<%s>::from_r1cs_instance" % d.full, "same-relation", convert(ctx, d))
        else:
            ctx.ob("zknova::RelaxedR1csInstance::<%s>::dummy" % d.full, "satisfying", dummy(ctx, d))
        ctx.ob("zknova::R1csShape::<%s>::from" % d.full, "same-constraints", from_cs(ctx, d, False))
        ctx.ob("zknova::relaxed_r1cs::r1cs_instance_and_witness::<%s>" % d.full, "same-assignment", from_cs(ctx, d, True))
