"""Groth16 setup and prover: the generated parameters are those of the quadratic arithmetic program of the circuit, and the proof computed from
them satisfies the verification equation, both as identities of polynomials in the coefficients, assignment, secrets and blinding factors."""
from groth import *

LEVEL = "other"
FLOOR = 8


def complete(ctx, sh):
    l, nw, pats = sh

    def run(facts):
        s = Groth(ctx, l, nw, pats, facts)
        s.setup()
        s.prove()
        D = s.D
        A, B, C = (s.dlog(s.get(s.proof, f)) for f in "abc")
        al = D.pval(s.get(s.pvk, "alpha_g1_beta_g2"))
        ab = al.t.get(("G", "G"), Poly.const(0, FR))
        ng, nd = (s.dlog(D.g2p(s.get(s.pvk, "neg_%s_g2" % f))) for f in ("gamma", "delta"))
        ic = s.dlogs(s.pvk, "ic")
        xs = s.circ.x[1:]
        if len(ic) != len(xs) + 1:
            return "the key expects %d public inputs for %d" % (len(ic) - 1, len(xs))
        acc = ic[0]
        for k, x in zip(ic[1:], xs):
            acc = acc + k * x
        if not s.same(A * B + acc * ng + C * nd, ab):
            return "the proof of a satisfied system of %d constraints does not satisfy the verification equation" % s.circ.m
        return None
    return guard(run)


def lagrange(n, w, tau):
    """values at tau of the polynomials that are one at one power of w and zero at the others"""
    pw = [Poly.const(1, FR)]
    for _ in range(n - 1):
        pw.append(pw[-1] * tau)
    ninv = pow(n, -1, FR)
    out = []
    for j in range(n):
        s = Poly.const(0, FR)
        for k in range(n):
            s = s + pw[k].scale(pow(w, -j * k % n, FR) * ninv % FR)
        out.append(s)
    return pw, out


def crs(ctx, sh):
    l, nw, pats = sh

    def run(facts):
        s = Groth(ctx, l, nw, pats, facts)
        s.setup()
        z = Poly.const(0, FR)
        K = {f: s.dlog(s.get(s.vk, f)) for f in ("alpha_g1", "beta_g1", "beta_g2", "gamma_g2", "delta_g1", "delta_g2")}
        for f in ("beta", "delta"):
            if not s.same(K[f + "_g1"], K[f + "_g2"]):
                return "%s differs between the two groups" % f
        al, be, ga, de = (K[f] for f in ("alpha_g1", "beta_g1", "gamma_g2", "delta_g1"))
        P = {f: s.dlogs(s.par, f) for f in ("h", "l", "a", "b_g1", "b_g2")}
        P["ic"] = s.dlogs(s.vk, "ic")
        for f, n in (("l", nw), ("a", l + nw), ("b_g1", l + nw), ("b_g2", l + nw), ("ic", l)):
            if len(P[f]) != n:
                return "%d elements of %s for %d variables" % (len(P[f]), f, n)
        n = 2
        while n < s.circ.m:
            n *= 2
        if len(P["h"]) < n - 1:
            return "%d elements of h for a domain of %d" % (len(P["h"]), n)
        wires = [("i", k) for k in range(l)] + [("w", k) for k in range(nw)]
        g = pow(7, (FR - 1) // n, FR)
        if pow(g, n // 2, FR) != FR - 1:
            g = pow(5, (FR - 1) // n, FR)
        assert pow(g, n // 2, FR) == FR - 1
        best, reason = -1, "no secret point tau"
        for d in sorted(s.draws):
            t = s.var(d)
            if any(t == k for k in K.values()):
                continue
            for e in range(1, n, 2):
                pw, L = lagrange(n, pow(g, e, FR), t)
                r = check(s, P, K, wires, pw, L, t, n)
                if r is None:
                    return None
                if r[0] > best:
                    best, reason = r
        return reason
    return guard(run)


def check(s, P, K, wires, pw, L, t, n):
    z = Poly.const(0, FR)
    al, be, ga, de = (K[f] for f in ("alpha_g1", "beta_g1", "gamma_g2", "delta_g1"))
    van = pw[-1] * t - Poly.const(1, FR)
    for i, h in enumerate(P["h"][:n - 1]):
        if not s.same(h * de, pw[i] * van):
            return 0, "h[%d] is not tau^%d (tau^%d - 1) / delta" % (i, i, n)
    col = {}
    for nm in "abc":
        for i, r in enumerate(s.circ.rows[nm]):
            for w, c in r:
                col[nm, w] = col.get((nm, w), z) + c * L[i]
    for k, w in enumerate(wires):
        u, v, c = (col.get((nm, w), z) for nm in "abc")
        who = "variable %d" % k
        if not s.same(P["a"][k], u):
            return 1 + k, "a[%d] is not the value of its polynomial at tau" % k
        for f in ("b_g1", "b_g2"):
            if not s.same(P[f][k], v):
                return 1 + k, "%s[%d] is not the value of its polynomial at tau" % (f, k)
        e = be * u + al * v + c
        if w[0] == "i" and not s.same(P["ic"][w[1]] * ga, e):
            return 1 + k, "ic[%d] is not (beta u + alpha v + w) / gamma" % w[1]
        if w[0] == "w" and not s.same(P["l"][w[1]] * de, e):
            return 1 + k, "l[%d] is not (beta u + alpha v + w) / delta" % w[1]
    return None


def run(ctx):
    for nm, sh in shapes(ctx).items():
        ctx.ob(SETUP, "parameters[%s]" % nm, crs(ctx, sh))
        ctx.ob(PROVE, "complete[%s]" % nm, complete(ctx, sh))
