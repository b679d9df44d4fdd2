"""Multi-scalar multiplication: bases are named group elements and the bits of each scalar are unknown; the result must be the sum of the
weighted windows of every scalar times its base, with the windows tiling the scalar."""
from groups import *
from circ import explore, Split, items, vec

LEVEL = "other"
FLOOR = 8
RAW_RX = re.compile(r"^<bn_254::Fr as zkstd::\S+>::(to_raw_bytes|to_bytes)$|^bn_254::Fr::(to_raw_bytes|to_bytes)$")


class MsmDomain(GroupDomain):
    """bit ranges of scalars: Opaque("bits", (scalar, lo, hi)) is floor(scalar / 2^lo) mod 2^(hi-lo)"""

    wide = False

    def iszero(self, v):
        """multiples of a base by unknown digits vanish on no whole case: only named bases and their differences are told apart"""
        if not v.t:
            return 1
        k = min(v.key(), self.neg(v).key(), key=lambda k: sorted((g, sorted(p.t.items())) for g, p in k[1]))
        return Ite(("gz", v.C, k), 1, 0)

    def decide(self, g):
        raise Split(g.c)

    def feasible(self, facts, c, val):
        r = GroupDomain.feasible(self, facts, c, val)
        if r and c[0] in ("gz", "z") and c not in facts and not val and GroupDomain.feasible(self, facts, c, True):
            raise Split(c)
        return r

    def narrow(self, v, w):
        j, lo, hi = v.args
        hi = min(hi, lo + w)
        if hi - lo > 10 or self.wide:
            return Opaque("bits", (j, lo, hi))
        r = 0
        for k in range((1 << (hi - lo)) - 1, 0, -1):
            r = Ite(("dg", (j, lo, hi), k), k, r)
        return r

    def binop(self, op, a, b, tid):
        if type(a) is Opaque and a.op == "bits" and type(b) is int:
            j, lo, hi = a.args
            if op == "Shr":
                return Opaque("bits", (j, lo + b, hi)) if lo + b < hi else 0
            if op in ("Rem", "BitAnd"):
                m = b if op == "Rem" else b + 1
                if m > 0 and m & (m - 1) == 0:
                    return self.narrow(a, m.bit_length() - 1)
            raise Unsupported("%s on the bits of a scalar" % op)
        if type(b) is Opaque and b.op == "bits":
            return self.binop(op, b, a, tid) if op == "BitAnd" and type(a) is int else GroupDomain.binop(self, op, a, b, tid)
        return GroupDomain.binop(self, op, a, b, tid)

    def cast(self, v, st, dt):
        if type(v) is Opaque and v.op == "bits":
            return v
        return GroupDomain.cast(self, v, st, dt)

    def from_bytes(self, bs, t):
        if any(type(b) is Opaque for b in bs):
            n = len(bs)
            while n and bs[n - 1] == 0 and type(bs[n - 1]) is int:
                n -= 1
            j, lo, hi = bs[0].args if type(bs[0]) is Opaque else (None, 0, 0)
            for b in bs[1:n]:
                if type(b) is not Opaque or b.op != "bits" or b.args[0] != j or b.args[1] != hi:
                    raise Unsupported("bytes of a scalar out of order")
                hi = b.args[2]
            return Opaque("bits", (j, lo, hi))
        return GroupDomain.from_bytes(self, bs, t)


def session(prog, facts=()):
    D = MsmDomain(BIG, False)

    def raw(I, c, a):
        v = I.simp(a[0])
        while type(v) is Ptr:
            v = I.simp(I.load(v))
        d = D.val(v, FR)
        if d.is_const():
            n = d.cval()
            bs = [(n >> (8 * i)) & 255 for i in range(32)]
        else:
            nm = [D.names[x] for x in d.atoms()]
            if len(d.t) != 1 or len(nm) != 1 or next(iter(d.t.values())) != 1:
                raise Unsupported("bytes of a computed scalar")
            bs = [Opaque("bits", (nm[0], 8 * i, 8 * i + 8)) for i in range(32)]
        return Arr(tuple(bs)) if "to_bytes" in c.fn.name else VecV(bs, -1)
    I = Interp(prog, D, Models(patterns=[(RAW_RX, raw)] + D.gmodels() + D.ext_models() + D.limb_models()))
    I.max_forks = 20000000
    I.st.facts.update(facts)
    return D, I


def tiles(ranges):
    """weights of the windows cover bits 0..254 of the scalar exactly once"""
    at = 0
    for lo, hi in sorted(ranges):
        if lo != at:
            return "bits %d..%d of the scalar are %s" % (min(lo, at), max(lo, at), "skipped" if lo > at else "used twice")
        at = hi
    if at < 254:
        return "the scalar bits from %d on are ignored" % at
    return None


def msm(ctx, name, C, nb, ns):
    return explore(lambda facts: case(ctx, name, C, nb, ns, facts), 40)


def known(D, facts, n):
    """what the conditions of a case say: values of scalars, bases equal to a combination of the others, conditions on partial sums"""
    val, eqs, vague = {}, [], False
    for c, v in facts.items():
        if c[0] == "z":
            names = {D.names[a]: a for a in c[2].atoms()}
            if c[1] == FR and len(names) == 1 and set(names) <= {"s%d" % i for i in range(n)} and all(len(m) <= 1 for m in c[2].t):
                (nm, a), = names.items()
                if v:
                    val[nm] = -c[2].t.get((), 0) * pow(c[2].t[(a,)], -1, FR) % FR
            else:
                vague = vague or v
        elif c[0] == "gz":
            t = dict(c[2][1])
            if all(q.is_const() for q in t.values()):
                if v:
                    eqs.append({g: q.t[()] for g, q in t.items()})
            else:
                vague = vague or v
    return val, eqs, vague


def digits(D, p, val):
    """polynomial in the digits, with the digits of the known scalars put in"""
    r = {}
    for m, x in p.t.items():
        keep = []
        for a in m:
            k = D.info[a]
            if k[0] == "ind" and k[2][0] in val:
                j, lo, hi = k[2]
                if (val[j] >> lo) % (1 << (hi - lo)) != k[3]:
                    break
            else:
                keep.append(a)
        else:
            r[tuple(keep)] = (r.get(tuple(keep), 0) + x) % BIG
    return Poly({m: x for m, x in r.items() if x}, BIG)


def signed(x):
    return x - BIG if x > BIG // 2 else x


def case(ctx, name, C, nb, ns, facts):
    prog = ctx.prog
    D, I = session(prog, facts)
    bases = [D.gen(C, "P%d" % i) for i in range(nb)]
    sc = [D.elem(prog.ty(C.scalar), FR, D.var("s%d" % i, FR)) for i in range(ns)]

    def slc(xs):
        a = I.ref(Arr(tuple(xs)))
        return Ptr(a.cell, a.path, 0, len(xs))
    r = I.analyse(prog.fn(name), [slc(bases), slc(sc)])
    ctx.used(I)
    if I.panics or r is None:
        return "may panic: %s" % (I.panics[:1],)
    got = D.pt(r)
    n = min(nb, ns)
    val, eqs, vague = known(D, facts, n)
    if vague:
        raise Unsupported("a case in which a partial sum vanishes")
    when = " when %s" % ", ".join(["s%s = %d" % (j[1:], v) for j, v in sorted(val.items())] + [
        " + ".join("%d*P%s" % (signed(x), g[1:]) for g, x in sorted(e.items())) + " is the identity" for e in eqs]) if val or eqs else ""
    # bases that the conditions make a combination of the others
    subst = {}
    for e in eqs:
        e = dict(e)
        for g in list(e):
            if g in subst:
                x = e.pop(g)
                for h, y in subst[g].items():
                    e[h] = (e.get(h, 0) + x * y) % BIG
        e = {g: x for g, x in e.items() if x}
        g = next((g for g, x in sorted(e.items(), reverse=True) if signed(x) in (1, -1)), None)
        if g is None:
            if not e:
                continue
            raise Unsupported("relation between the bases")
        x = signed(e.pop(g))
        subst[g] = {h: -x * y % BIG for h, y in e.items()}
        for k in subst:
            if g in subst[k]:
                z = subst[k].pop(g)
                for h, y in subst[g].items():
                    subst[k][h] = (subst[k].get(h, 0) + z * y) % BIG

    def reduce(t):
        r = {}
        for g, q in t.items():
            q = digits(D, q, val)
            for h, x in subst.get(g, {g: 1}).items():
                r[h] = r.get(h, Poly.const(0, BIG)) + q.scale(x)
        return GVal(C.name, r)
    wins = {}
    for c in got.t.values():
        for m in c.t:
            for a in m:
                k = D.info[a]
                if k[0] == "ind":
                    wins.setdefault(k[2][0], set()).add(k[2][1:])
    t = {}
    for i in range(n):
        s = "s%d" % i
        if s in val:
            t["P%d" % i] = Poly.const(val[s], BIG)
            continue
        if subst.get("P%d" % i) == {}:
            continue
        rs = wins.get(s, set())
        bad = tiles(rs)
        if bad:
            return "pair %d of %d: %s%s" % (i, n, bad, when)
        e = Poly.const(0, BIG)
        for lo, hi in rs:
            for v in range(1, 1 << (hi - lo)):
                e = e + Poly.var(D.ind(("dg", (s, lo, hi), v)), BIG).scale(v << lo)
        t["P%d" % i] = e
    want, got = reduce(t), reduce(got.t)
    if got != want:
        for g in sorted(set(got.t) | set(want.t)):
            z = Poly.const(0, BIG)
            d = got.t.get(g, z) - want.t.get(g, z)
            if not d.is_zero():
                m = next(iter(d.t))
                return "the multiple of base %s is not its scalar (off by %d when %s)%s" % (g[1:], d.t[m], " and ".join(D.names[a] for a in m) or "always", when)
    return None


def windows(ctx, f, c):
    """the digit of every window of width c is exactly that window of the scalar"""
    prog = ctx.prog
    for seg in range(256 // c + 1):
        D, I = session(prog)
        D.wide = True
        bs = Arr(tuple(Opaque("bits", ("s", 8 * i, 8 * i + 8)) for i in range(32)))
        r = I.analyse(f, [seg, c, bs])
        ctx.used(I)
        if I.panics or r is None:
            return "window %d of width %d may panic: %s" % (seg, c, I.panics[:1])
        lo, hi = seg * c, min(256, seg * c + c)
        r = I.simp(r)
        if lo >= 256:
            if r != 0:
                return "window %d of width %d lies beyond the scalar and is not zero" % (seg, c)
        elif type(r) is Opaque and r.op == "bits":
            if r.args != ("s", lo, hi):
                return "window %d of width %d is bits %d..%d of the scalar, expected %d..%d" % (seg, c, r.args[1], r.args[2], lo, hi)
        elif type(r) is int:
            return "window %d of width %d is always %d" % (seg, c, r)
        else:
            raise Unsupported("digit %s" % short(r))
    return None


SHAPES = [(0, 0), (1, 1), (2, 2), (3, 3), (3, 2), (4, 3), (5, 2), (2, 3), (32, 1)]
MORE = [(32, 2), (31, 3), (6, 5), (64, 1), (128, 1), (256, 1)]


def run(ctx):
    for C in GCURVES[:2]:
        name = "zkgroth16::msm::msm_curve_addition::<%s>" % C.aff
        for nb, ns in SHAPES + (MORE if ctx.thorough() else []):
            ctx.ob(name, "sum[%d bases, %d scalars]" % (nb, ns), lambda: msm(ctx, name, C, nb, ns))
    f = prog_fn(ctx.prog, "zkgroth16::msm::get_at", 3)
    for c in range(1, 25) if f else ():
        ctx.ob(f.name, "window[width %d]" % c, lambda: windows(ctx, f, c))


def prog_fn(prog, name, n):
    """a function the crate may have (a rewrite may have inlined it: the sums above still cover the windows of small problems)"""
    f = prog.by_name.get(name)
    f = f[0] if type(f) is list else f
    return f if f is not None and f.n == n else None
