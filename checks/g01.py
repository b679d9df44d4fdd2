"""Groth16 verification: proof, key and inputs are symbolic; the pairing is a bilinear form; the verdict of every path is compared with the
equation e(A,B) = e(alpha,beta) + e(ic_0 + sum x_i ic_(i+1), gamma) + e(C, delta)."""
from pairing import *

LEVEL = "other"
FLOOR = 8
VK = "zkgroth16::verifier::VerifyingKey"
PVK = "zkgroth16::verifier::PreparedVerifyingKey"


def outcome(s, r):
    """(accepted, facts) of every leaf"""
    I = s.I
    for fs, v in leaves(I, r, I.st.facts):
        if type(v) is not Agg or v.tid is None or not I.p.types[v.tid]["s"].startswith("std::result::Result<"):
            raise Unsupported("result of the verification")
        yield I.p.types[v.tid]["vs"][v.v][0] == "Ok", fs


def reasons(s, r):
    """the numbers carried by every refusal, by field name"""
    I = s.I
    for fs, v in leaves(I, r, I.st.facts):
        if type(v) is not Agg or v.v != 1 or not v.f:
            continue
        for gs, e in leaves(I, v.f[0], fs):
            if type(e) is Agg and e.tid is not None:
                names = [f[0] for f in I.p.types[e.tid]["vs"][e.v][1]]
                yield {nm: I.simp(y) for nm, y in zip(names, e.f) if type(I.simp(y)) is int}


def pkey(s, n, tag=""):
    al = PVal(True, {("alpha", "beta"): Poly.const(1, FR)})
    return s.mk(PVK, alpha_g1_beta_g2=al, neg_gamma_g2=Opaque("g2p", (s.D.neg(s.g2("gamma")),)), neg_delta_g2=Opaque("g2p", (s.D.neg(s.g2("delta")),)),
                ic=vec(s.g1("ic%d" % i) for i in range(n)))


def proof(s):
    return s.mk("zkgroth16::Proof", a=s.g1("A"), b=s.g2("B"), c=s.g1("C"))


def call(s, name, n, k):
    xs = s.slice([s.el(s.var("x%d" % i)) for i in range(k)])
    if name == "zkgroth16::Proof::verify":
        return s.run(name, proof(s), pkey(s, n), xs)
    return s.run(name, s.mk("zkgroth16::Verifier", vk=pkey(s, n)), proof(s), xs)


def equation(s, n):
    one = Poly.const(1, FR)
    t = {("A", "B"): one, ("alpha", "beta"): -one, ("C", "delta"): -one, ("ic0", "gamma"): -one}
    for i in range(n - 1):
        t["ic%d" % (i + 1), "gamma"] = -s.var("x%d" % i)
    return PVal(True, t)


def holds(s, E, fs):
    """does the path's condition decide E = 0?  True, False or None"""
    E = reduce_by(E, fs)
    same = lambda v: all(s.D.zero(c, fs) for c in v.t.values())
    if same(E):
        return True
    r = None
    for c, v in fs.items():
        if c[0] == "gt":
            K = reduce_by(PVal(True, dict(c[1][1])), fs)
            if same(s.D.padd(E, K)) or same(s.D.padd(E, s.D.pneg(K))):
                if v:
                    return True
                r = False
    return r


def accepts(ctx, name, n):
    def run(facts):
        s = Pairing(ctx, facts)
        r = call(s, name, n, n - 1)
        if s.I.panics or r is None:
            return "may panic: %s" % (s.I.panics[:1],)
        for ok, fs in outcome(s, r):
            want = holds(s, equation(s, n), fs)
            if ok and want is not True:
                k = [c for c, v in fs.items() if c[0] == "gt" and v]
                return "accepts although the pairing equation may not hold%s" % (
                    ": it tests %s = 0 instead" % PVal(True, dict(k[0][1][1])) if k else "")
            if not ok and want is not False:
                return "rejects although the pairing equation may hold"
        return None
    return explore(run)


def lengths(ctx, name, n, k):
    def run(facts):
        s = Pairing(ctx, facts)
        r = call(s, name, n, k)
        if r is None:
            return None                        # every path panics: nothing is accepted
        for ok, fs in outcome(s, r):
            if ok:
                return "accepts %d public inputs for a key made for %d" % (k, n - 1)
        for v in reasons(s, r):
            for name_, want in (("expected", n - 1), ("provided", k)):
                if n and name_ in v and v[name_] != want:
                    return "reports %s = %s for %d public inputs and a key made for %d" % (name_, v[name_], k, n - 1)
        return None
    return explore(run)


def prepare(ctx, n):
    def run(facts):
        s = Pairing(ctx, facts)
        vk = s.mk(VK, alpha_g1=s.g1("alpha"), beta_g1=s.g1("beta1"), beta_g2=s.g2("beta"), gamma_g2=s.g2("gamma"), delta_g1=s.g1("delta1"),
                  delta_g2=s.g2("delta"), ic=vec(s.g1("ic%d" % i) for i in range(n)))
        r = s.run("zkgroth16::verifier::VerifyingKey::prepare", vk)
        if s.I.panics or r is None:
            return "may panic: %s" % (s.I.panics[:1],)
        al = s.D.pval(s.get(r, "alpha_g1_beta_g2"))
        if not al.gt or al.t != {("alpha", "beta"): Poly.const(1, FR)}:
            return "the prepared e(alpha, beta) is %r" % al
        for f in ("gamma", "delta"):
            g = s.D.g2p(s.get(r, "neg_%s_g2" % f))
            if g != s.D.neg(s.g2(f)):
                return "the prepared -%s is %r" % (f, g)
        ic = [s.D.pt(x) for x in items(s.I, s.get(r, "ic"))]
        if ic != [s.g1("ic%d" % i) for i in range(n)]:
            return "the prepared input points are %r" % ic
        return None
    return explore(run)


def run(ctx):
    big = ctx.thorough()
    for name in ("zkgroth16::Proof::verify", "zkgroth16::Verifier::verify"):
        for n in [1, 2, 3, 5] + ([4, 9, 17, 33] if big else []):
            ctx.ob(name, "equation[%d inputs]" % (n - 1), lambda: accepts(ctx, name, n))
        for n in range(1, 6 if big else 4):
            for k in range(0, 7 if big else 5):
                if k != n - 1:
                    ctx.ob(name, "length[%d for %d]" % (k, n - 1), lambda: lengths(ctx, name, n, k))
        for k in range(3):
            ctx.ob(name, "length[%d for an empty key]" % k, lambda: lengths(ctx, name, 0, k))
    for n in (0, 1, 3):
        ctx.ob("zkgroth16::verifier::VerifyingKey::prepare", "key[%d]" % n, lambda: prepare(ctx, n))
