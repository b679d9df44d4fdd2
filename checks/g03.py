"""Groth16 secrets: which draws of the caller's generator the parameters and the proof depend on, and how."""
from groth import *

LEVEL = "other"
FLOOR = 6


def affine(s, p, draws):
    """coefficients of the draws in a polynomial that is linear in them: {draw: cofactor}, None when it is not linear"""
    out = {}
    for m, k in p.t.items():
        ds = [a for a in m if s.D.names[a] in draws]
        if len(ds) > 1:
            return None
        if ds:
            r = list(m)
            r.remove(ds[0])
            out.setdefault(s.D.names[ds[0]], {})[tuple(r)] = k
    return {d: Poly(t, FR) for d, t in out.items()}


def rank(rows):
    rows = [dict(r) for r in rows]
    n = 0
    while rows:
        r = rows.pop()
        r = {k: v for k, v in r.items() if v % FR}
        if not r:
            continue
        n += 1
        k = min(r)
        inv = pow(r[k], -1, FR)
        rows = [{j: (q.get(j, 0) - q.get(k, 0) * inv * r.get(j, 0)) % FR for j in set(q) | set(r)} for q in rows]
    return n


def foreign(s):
    if s.foreign:
        return "a secret is drawn from something else than the caller's generator"
    if any(n > 1 for n in s.draws.values()):
        return "two secrets are drawn from the same generator state"
    return None


def secrets(ctx, sh):
    l, nw, pats = sh

    def run(facts):
        s = Groth(ctx, l, nw, pats, facts)
        s.setup()
        e = foreign(s)
        if e:
            return e
        draws = set(s.draws)
        rows = {}
        for f, nm in (("alpha_g1", "alpha"), ("beta_g1", "beta"), ("gamma_g2", "gamma"), ("delta_g1", "delta")):
            p = s.dlog(s.get(s.vk, f))
            c = affine(s, p, draws)
            if c is None:
                raise Unsupported("%s is not a draw" % nm)
            if not c or any(not k.is_const() for k in c.values()):
                return "%s is not drawn at random (it is %s)" % (nm, p.show(s.D.names, 3))
            rows[nm] = {d: k.cval() for d, k in c.items()}
        if rank(rows.values()) < 4:
            for a in rows:
                for b in rows:
                    if a < b and rank([rows[a], rows[b]]) < 2:
                        return "%s and %s are not drawn separately" % (a, b)
            return "alpha, beta, gamma and delta are not independent"
        de = s.dlog(s.get(s.vk, "delta_g1"))
        van = s.dlogs(s.par, "h")
        if van:
            used = {s.D.names[a] for m in van[0].t for a in m} & draws
            own = {d for r in rows.values() for d in r}
            if not used - own:
                return "the evaluation point is not drawn separately from the other secrets"
        return None
    return guard(run)


def blinding(ctx, sh):
    l, nw, pats = sh

    def run(facts):
        s = Groth(ctx, l, nw, pats, facts)
        s.setup()
        before = set(s.draws)
        s.prove()
        e = foreign(s)
        if e:
            return e
        draws = set(s.draws) - before
        de = s.dlog(s.get(s.vk, "delta_g1"))
        rows = {}
        for f in "ab":
            p = s.dlog(s.get(s.proof, f))
            c = affine(s, p, draws)
            if c is None:
                raise Unsupported("element %s of the proof is not linear in the random draws" % f)
            r = {}
            for d, k in c.items():
                q = quotient(k, de)
                if q is None:
                    raise Unsupported("element %s of the proof is blinded by another point than delta" % f)
                r[d] = q
            if not any(v % FR for v in r.values()):
                return "element %s of the proof is not blinded by a random draw of its own creation" % f.upper()
            rows[f] = r
        if rank(rows.values()) < 2:
            return "elements A and B of the proof are blinded by the same random draw"
        return None
    return guard(run)


def quotient(k, de):
    """k / de when it is a constant"""
    m = max(de.t)
    if m not in k.t:
        return None
    c = k.t[m] * pow(de.t[m], -1, FR) % FR
    return c if k == de.scale(c) else None


def scalars(s, v, path="", seen=None):
    """field elements inside a value"""
    I, D = s.I, s.D
    v = I.simp(v)
    while type(v) is Ptr:
        v = I.simp(I.load(v))
    if type(v) in (GVal, PVal, int) or v is UNIT:
        return
    if type(v) is Opaque and v.op in ("g2p", "caller"):
        return
    if type(v) is Ite:
        for x in (v.a, v.b):
            yield from scalars(s, x, path)
        return
    if type(v) in (Arr, VecV):
        for i, x in enumerate(items(I, v)):
            yield from scalars(s, x, "%s[%d]" % (path, i))
        return
    if type(v) is Agg:
        T = s.prog.types[v.tid] if v.tid is not None else None
        if T is not None and T["s"] in ("bn_254::Fr", "bn_254::Fq"):
            yield path, D.val(v, BASE[T["s"]])
            return
        try:
            D.pt(v)
            return
        except Unsupported:
            pass
        names = [f[0] for f in T["vs"][v.v][1]] if T is not None and T.get("vs") else range(len(v.f))
        for n, x in zip(names, v.f):
            yield from scalars(s, x, "%s.%s" % (path, n))
        return
    try:
        p = D.val(v, FR)
    except Unsupported:
        raise Unsupported("content %s of the result" % path)
    yield path, p


def published(ctx, sh):
    l, nw, pats = sh

    def run(facts):
        s = Groth(ctx, l, nw, pats, facts)
        s.setup()
        s.prove()
        hidden = set(s.draws) | {n for p in s.circ.w for m in p.t for a in m for n in [s.D.names[a]]}
        for what, v in (("prover parameters", s.prover), ("verification key", s.verifier), ("proof", s.proof)):
            for path, p in scalars(s, v):
                bad = [s.D.names[a] for m in p.t for a in m if s.D.names[a] in hidden or s.D.info[a][0] == "inv"]
                if bad:
                    return "the %s contain a field element that depends on a secret at %s" % (what, path or "top level")
        return None
    return guard(run)


def run(ctx):
    for nm, sh in shapes(ctx).items():
        if len(sh[2]) > 12:
            continue
        ctx.ob(SETUP, "secrets[%s]" % nm, secrets(ctx, sh))
        ctx.ob(PROVE, "blinding[%s]" % nm, blinding(ctx, sh))
        ctx.ob(PROVE, "published[%s]" % nm, published(ctx, sh))
