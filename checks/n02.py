"""Transcripts: what prover, verifier and circuit absorb, and that the in-circuit hash is the native hash."""
import hashlib
from nova import *
from r01 import Sys

LEVEL = "other"
FLOOR = 30
TB_RX = re.compile(r"^<(bn_254::F[rq]) as zkstd::common::PrimeField>::to_bits$")
HASH_RX = re.compile(r"^zknova::hash::Mimc::<\d+, (bn_254::F[rq])>::hash$")
CHASH_RX = re.compile(r"^zknova::gadget::mimc::MimcAssignment::<\d+, (bn_254::F[rq])>::hash::<zknova::(\w+)>$")
CTB_RX = re.compile(r"^zkstd::circuit::prelude::FieldAssignment::<(bn_254::F[rq])>::to_bits::<zknova::(\w+)>$")
CSQ_RX = re.compile(r"^zknova::circuit::transcript::MimcROCircuit::<\d+, zknova::(\w+)>::squeeze::<zknova::(\w+)>$")
BNW_RX = re.compile(r"^zknova::gadget::big_nat::BigNatParams::new$")
FA = "zkstd::circuit::prelude::FieldAssignment<%s>"
OTHER = {"Bn254Driver": "GrumpkinDriver", "GrumpkinDriver": "Bn254Driver"}
SECURITY = 128


class BitDomain(FieldDomain):
    """bits of a decomposition are two-valued unknowns; field elements selected by a bit are joined into polynomials; operands of
    a product are named when they are sums, so that iterated powers stay small"""

    def __init__(self):
        FieldDomain.__init__(self)
        self.defs = {}
        self.naming = False

    def decide(self, g):
        if not self.feasible({}, g.c, True) and type(g.b) is int:
            return g.b
        raise Split(g.c)

    def feasible(self, facts, c, val):
        if c[0] == "z" and any(re.match(r"k\d+$", self.names[a]) for a in c[2].atoms()):
            return not val          # round constants are in general position
        return FieldDomain.feasible(self, facts, c, val)

    def bit(self, p, key, i):
        a = self.atom(("bit", key, i), "bit%d" % i)
        return Ite(("bit", a), 1, 0)

    def join_first(self, c, a, b):
        if c[0] == "bit" and type(a) is Agg and type(b) is Agg and a.tid is not None:
            T = self.I.p.types[a.tid]["s"]
            if T in BASE:
                p = BASE[T]
                x, y = self.val(a, p), self.val(b, p)
                return self.elem(a.tid, p, y + Poly.var(c[1], p) * (x - y))
        return None

    def times(self, u, v):
        if not self.naming or u.is_const() or v.is_const():
            return u * v
        return self.named(u) * self.named(v)

    def named(self, u):
        if len(u.t) == 1:
            return u
        lc = u.t[max(u.t)]
        m = monic(u)
        a = self.atom(("sum", m.p, frozenset(m.t.items())), "s%d" % len(self.defs))
        self.defs[a] = m
        return Poly.var(a, u.p).scale(lc)

    # identity of two expressions, by evaluation of the named sums at pseudo-random points
    def differs(self, d, seed=0):
        memo = {}

        def at(a, p):
            k = (a, p)
            if k not in memo:
                memo[k] = ev(self.defs[a]) if a in self.defs else int.from_bytes(
                    hashlib.sha512(("%s:%s:%d" % (self.names[a], a, seed)).encode()).digest(), "big") % p
            return memo[k]

        def ev(q):
            r = 0
            for m, c in q.t.items():
                for a in m:
                    c = c * at(a, q.p) % q.p
                r = (r + c) % q.p
            return r
        order = sorted(self.defs)
        for a in order:
            at(a, self.defs[a].p)
        return not d.is_zero() and ev(d) != 0

    def support(self, ps):
        seen, todo = set(), set()
        for q in ps:
            todo |= q.atoms()
        while todo:
            a = todo.pop()
            if a in seen:
                continue
            seen.add(a)
            if a in self.defs:
                todo |= self.defs[a].atoms()
            for x in self.info[a][1:]:
                if type(x) is Poly:
                    todo |= x.atoms()
                elif type(x) is tuple:
                    for y in x:
                        if type(y) is Poly:
                            todo |= y.atoms()
        return {self.names[a] for a in seen}


class Bits:
    """a session about hashing; d is the driver of the instance, the circuit runs over d.base"""

    def __init__(self, ctx, d, patterns=()):
        self.ctx, self.prog, self.d = ctx, ctx.prog, d
        self.D = BitDomain()
        self.F = {t: Fld(ctx.prog, t) for t in BASE}
        pats = list(patterns) + [(TB_RX, self.to_bits), (CLR_RX, lambda I, c, a: Nova.mimc_new(self, I, c, a))]
        self.I = Interp(ctx.prog, self.D, Models(patterns=pats + self.D.ext() + self.D.limb_models()))
        self.I.max_forks = 1000000

    def to_bits(self, I, c, a):
        ty = TB_RX.match(c.fn.name).group(1)
        v = self.D.val(self.fix(a[0]), BASE[ty])
        if v.is_const():
            n = v.cval()
            return VecV([(n >> (255 - i)) & 1 for i in range(256)], -1)
        return VecV([self.D.bit(v.p, v, 255 - i) for i in range(256)], -1)

    def fix(self, v):
        v = self.I.simp(v)
        while type(v) is Ptr:
            v = self.I.simp(self.I.load(v))
        return v

    def run(self, fn, *args):
        f = self.prog.fn(fn)
        r = self.I.analyse(f, [x if type(x) is Ptr else wrap_arg(self.I, self.prog, f.locals[1 + i], x) for i, x in enumerate(args)])
        self.ctx.used(self.I)
        if self.I.panics or r is None:
            raise Bad("%s may panic: %s" % (fn, self.I.panics[:1]))
        return r

    def mk(self, ty, **f):
        return Nova.mk(self, ty, **f)


BitDomain.ext = lambda self: []


def circuit_system(s, d, ws, nx=1):
    """a constraint system over d.base holding the given witness values"""
    cd = "zknova::" + OTHER[d.name]
    F = s.F[d.base] if type(s.F) is dict else s.B
    S = Sys(s.prog, cd, F)
    one = Poly.const(1, d.q)
    return S, s.I.ref(S.make(s.D, 0, [], [], [], [one], ws))


def fa(s, F, terms):
    return Agg(s.prog.ty(FA % F.ty), 0, (F.row(s.D, terms),))


def determined(D, st, known, rows):
    """every wire of rows is a function of the known wires, by the constraints in order"""
    known = set(known)
    cons = list(zip(st["a"], st["b"], st["c"]))
    more = True
    while more:
        more = False
        for a, b, c in cons:
            un = {w for w, k in c if w not in known}
            if len(un) == 1 and all(w in known for w, k in a + b) and sum(1 for w, k in c if w in un) == 1:
                known |= un
                more = True
    return all(w in known for r in rows for w, k in r)


BLAKE_RX = re.compile(r"^blake2b_simd::(Params|State|Hash)::(new|hash_length|personal|key|salt|to_state|update|finalize|as_array|as_bytes)$")
WIDE_RX = re.compile(r"^<(bn_254::F[rq]) as zkstd::common::PrimeField>::from_bytes_wide$")


def blake(length=64):
    """Blake2b as an uninterpreted function of its parameters and of the bytes it absorbed"""
    def model(I, c, a):
        kind, op = BLAKE_RX.match(c.fn.name).groups()

        def here():
            v = I.simp(a[0])
            while type(v) is Ptr:
                v = I.simp(I.load(v))
            if type(v) is not Opaque:
                raise Unsupported("state of the byte hash")
            return v

        def words(v):
            v = I.simp(v)
            return (v,) if type(v) is int else tuple(items(I, v))
        if op == "new":
            return Opaque("params" if kind == "Params" else "state", ((),))
        v = here()
        if op in ("hash_length", "personal", "key", "salt"):
            I.store(a[0], Opaque("params", (v.args[0] + ((op, words(a[1])),),)))
            return a[0]
        if op == "to_state":
            return Opaque("state", (v.args[0],))
        if op == "update":
            I.store(a[0], Opaque("state", v.args + words(a[1])))
            return a[0]
        if op == "finalize":
            return Opaque("digest", v.args)
        n = next((w[0] for k, w in reversed(v.args[0]) if k == "hash_length"), length)
        if op == "as_array" and n != length:
            raise Unsupported("digest of %d bytes read as %d" % (n, length))
        return I.ref(Arr(tuple(Opaque("byte", (v, i)) for i in range(n))))
    return model


def constants(ctx, d):
    """the round constants of the permutation are digests of distinct inputs, reduced to the field"""
    def run(facts):
        wide = []

        def fold(I, c, a):
            bs = tuple(items(I, a[0]))
            wide.append(bs)
            return Opaque("element", (bs,))
        D, I = csession(ctx.prog, facts, patterns=[(BLAKE_RX, blake()), (WIDE_RX, fold)])
        name = next((f for f in ctx.prog.by_name if CLR_RX.match(f) and CLR_RX.match(f).group(1) == d.base), None)
        if not name:
            raise Unsupported("the constants are made elsewhere")
        r = I.analyse(ctx.prog.fn(name), [])
        ctx.used(I)
        if I.panics or r is None:
            return "may panic: %s" % (I.panics[:1],)
        ks = items(I, r)
        seen = {}
        for i, k in enumerate(ks):
            if type(k) is not Opaque or k.op != "element":
                if type(k) in (Agg, Arr):
                    return "round constant %d is fixed, not a digest" % i
                raise Unsupported("round constant %d" % i)
            bs = k.args[0]
            ds = {b.args[0] for b in bs if type(b) is Opaque and b.op == "byte"}
            if len(ds) != 1 or len(bs) != 64 or [b.args[1] for b in bs] != list(range(64)):
                raise Unsupported("bytes of round constant %d" % i)
            g = next(iter(ds))
            if g in seen:
                return "round constants %d and %d are the same digest" % (seen[g], i)
            seen[g] = i
        return None
    return guard(run)


def permutation(ctx, d):
    """the in-circuit Mimc permutation over d.base"""
    def run(facts):
        s = Bits(ctx, d)
        F = s.F[d.base]
        s.D.naming = True
        xl, xr = s.D.var("xl", d.q), s.D.var("xr", d.q)
        nat = "zknova::hash::Mimc::<46, %s>" % d.base
        name = next((f for f in ctx.prog.by_name if HASH_RX.match(f) and HASH_RX.match(f).group(1) == d.base), None)
        cname = next((f for f in ctx.prog.by_name if CHASH_RX.match(f) and CHASH_RX.match(f).group(1) == d.base), None)
        if not name or not cname:
            raise Unsupported("the permutation has another name")
        fn, cfn = ctx.prog.fn(name), ctx.prog.fn(cname)
        T = ctx.prog.types[base_ty(ctx.prog, fn.locals[1])]
        n = ctx.prog.types[T["vs"][0][1][0][1]]["n"]
        ks = Arr(tuple(F.el(s.D, s.D.var("k%d" % i, d.q)) for i in range(n)))
        want = F.val(s.D, s.run(name, s.mk(T["s"], constants=ks), F.el(s.D, xl), F.el(s.D, xr)))
        sup = s.D.support([want])
        for x in ["xl", "xr"] + ["k%d" % i for i in range(n)]:
            if x not in sup:
                return "the native permutation ignores %s" % x
        CT = ctx.prog.types[base_ty(ctx.prog, cfn.locals[1])]
        S, cs = circuit_system(s, d, [xl, xr])
        one = Poly.const(1, d.q)
        s2 = s
        hz = s2.mk(CT["s"], constants=ks)
        r = s2.run(cname, hz, cs, fa(s, F, [(("w", 0), one)]), fa(s, F, [(("w", 1), one)]))
        st = S.read(s.D, s.I.load(cs))
        row = F.unrow(s.D, s.fix(r).f[0])
        ev = lambda t: lin(t, st["x"], st["w"], d.q)
        got = ev(row)
        if s.D.differs(got - want):
            return "the in-circuit permutation computes another value than the native one"
        for i, (a, b, c) in enumerate(zip(st["a"], st["b"], st["c"])):
            if s.D.differs(s.D.times(ev(a), ev(b)) - ev(c)):
                return "its own assignment violates constraint %d" % i
        if not determined(s.D, st, [("i", 0), ("w", 0), ("w", 1)], [row]):
            raise Unsupported("the output is not a chain of products")
        return None
    return guard(run)


def bit_value(D, v, what):
    """a sum of weighted bits -> {(key, index): weight}"""
    r = {}
    for m, c in v.t.items():
        if len(m) != 1 or D.info[m[0]][0] != "bit":
            raise Unsupported("%s is not a weighted sum of bits" % what)
        r[(D.info[m[0]][1], D.info[m[0]][2])] = c
    return r


def squeezing(ctx, d, k, nbits):
    """native and in-circuit squeeze of k absorbed values"""
    def run(facts):
        s = Bits(ctx, d, patterns=[(HASH_RX, lambda I, c, a: nhash(I, c, a)), (CHASH_RX, lambda I, c, a: chash(I, c, a)),
                                   (CTB_RX, lambda I, c, a: ctb(I, c, a))])
        D = s.D
        F = s.F[d.base]
        one = Poly.const(1, d.q)
        bound = []

        def H(xl, xr):
            a = D.atom(("mimc", (xl, xr)), "H(%s,%s)" % (xl.show(D.names, 2), xr.show(D.names, 2)))
            return Poly.var(a, d.q)

        def nhash(I, c, a):
            return F.el(D, H(F.val(D, s.fix(a[1])), F.val(D, s.fix(a[2]))))

        def push(vals):
            v = s.I.simp(s.I.load(cs))
            i = S.names.index("w")
            old = items(s.I, v.f[i])
            f = list(v.f)
            w = s.I.simp(v.f[i])
            f[i] = Agg(w.tid, w.v, (VecV(list(old) + [F.el(D, x) for x in vals], -1),))
            s.I.store(cs, Agg(v.tid, v.v, tuple(f)))
            return [("w", len(old) + j) for j in range(len(vals))]

        def value(v):
            st = S.read(D, s.I.load(cs))
            return lin(F.unrow(D, s.fix(v).f[0]), st["x"], st["w"], d.q)

        def chash(I, c, a):
            if CHASH_RX.match(c.fn.name).group(1) != d.base:
                raise Unsupported("hash over the other field")
            w = push([H(value(a[2]), value(a[3]))])
            bound.extend(w)
            return fa(s, F, [(w[0], one)])

        def ctb(I, c, a):
            n = I.simp(a[2])
            if type(n) is not int or not 0 <= n <= 256:
                raise Unsupported("number of bits")
            v = value(a[1])
            ws = push([Poly.var(D.atom(("bit", v, 255 - i), "bit%d" % (255 - i)), d.q) for i in range(256)])
            bound.extend(ws)
            bt = s.prog.ty("zkstd::circuit::prelude::BinaryAssignment")
            return VecV([Agg(bt, 0, (wire(s.prog, w),)) for w in ws[256 - n:]], -1)
        sc = [D.var("m%d" % i, d.q) for i in range(k)]
        fn = ctx.prog.fn("zknova::hash::MimcRO::<46, %s>::squeeze" % d.full)
        T = ctx.prog.types[base_ty(ctx.prog, fn.locals[1])]["s"]
        ro = s.run("<%s as std::default::Default>::default" % T)
        app = fn.name.rsplit("::", 1)[0] + "::append"
        cell = s.I.ref(ro)
        for x in sc:
            s.run(app, cell, F.el(D, x))
        got = s.run(fn.name, cell, nbits)
        nat = s.F[d.scalar].val(D, got)
        if k == 0:
            nb = {}
            if not nat.is_const():
                raise Unsupported("empty transcript")
        else:
            nb = bit_value(D, nat, "the native challenge")
            keys = {kk for kk, i in nb}
            if len(keys) != 1:
                raise Unsupported("the challenge mixes bits of different values")
            sup = D.support(list(keys))
            for i in range(k):
                if "m%d" % i not in sup:
                    return "the native challenge ignores absorbed value %d of %d" % (i, k)
            if len(nb) < min(nbits, SECURITY):
                return "a challenge of %d bits carries %d bits of the hash" % (nbits, len(nb))
            if sorted(c for c in nb.values()) != [1 << i for i in range(len(nb))]:
                return "the native challenge does not weigh its bits by distinct powers of two"
        # in circuit
        cname = next((f for f in ctx.prog.by_name if CSQ_RX.match(f) and CSQ_RX.match(f).group(1) == d.name), None)
        if cname is None:
            raise Unsupported("the in-circuit squeeze has another name")
        S, cs = circuit_system(s, d, sc)
        CT = ctx.prog.types[base_ty(ctx.prog, ctx.prog.fn(cname).locals[1])]["s"]
        cro = s.run("<%s as std::default::Default>::default" % CT)
        cc = s.I.ref(cro)
        capp = cname.rsplit("::squeeze", 1)[0] + "::append"
        for i in range(k):
            s.run(capp, cc, fa(s, F, [(("w", i), one)]))
        r = s.run(cname, cc, cs, nbits)
        st = S.read(D, s.I.load(cs))
        row = F.unrow(D, s.fix(r).f[0])
        ev = lambda t: lin(t, st["x"], st["w"], d.q)
        cir = ev(row)
        if k == 0:
            return None if cir.is_const() and cir.cval() == nat.cval() else "an empty transcript gives another challenge in circuit"
        cb = bit_value(D, cir, "the in-circuit challenge")
        if cb != nb:
            bad = [i for (kk, i) in set(cb) ^ set(nb)] or [i for (kk, i), c in cb.items() if nb[kk, i] != c]
            return "native and in-circuit challenge differ (bit %s)" % (sorted(bad)[:3],)
        for i, (a, b, c) in enumerate(zip(st["a"], st["b"], st["c"])):
            dd = ev(a) * ev(b) - ev(c)
            if not dd.is_zero():
                return "its own assignment violates constraint %d" % i
        if not determined(D, st, [("i", 0)] + [("w", i) for i in range(k)] + bound, [row]):
            return "the constraints do not determine the in-circuit challenge"
        return None
    return guard(run)


def reinterpret(ctx, d, which):
    """scalar_as_base keeps the integer value"""
    def run(facts):
        fn = "zknova::driver::%s::<%s>" % (which, d.full)
        if fn not in ctx.prog.by_name:
            return None
        s = Bits(ctx, d)
        src, dst = (d.scalar, d.base) if which == "scalar_as_base" else (d.base, d.scalar)
        x = s.D.var("x", BASE[src])
        v = s.F[dst].val(s.D, s.run(fn, s.F[src].el(s.D, x)))
        b = bit_value(s.D, v, "the result")
        for i in range(256):
            if i >= 254:
                b.pop((x, i), None)     # always zero
            elif b.pop((x, i), None) != (1 << i) % BASE[dst]:
                return "bit %d of the value has the wrong weight" % i
        return "other bits take part" if b else None
    return guard(run)


# ------------------------------------------------------------------ what is absorbed
def inst1(s, nx, inf=()):
    d = s.d
    pts = {k: GVal(d.C.name, {}) if k in inf else s.D.gen(d.C, k) for k in ("W", "E")}
    u = s.D.var("u", d.p)
    x = s.vars("x", nx)
    return s.relaxed(pts["W"], pts["E"], u, x), pts, u, x


def finite(s):
    """named points are not the identity"""
    for g in ("W", "E", "T"):
        c = s.D.iszero(s.D.gen(s.d.C, g))
        if type(c) is Ite:
            s.I.st.facts[c.c] = False


def covers(s, st, pts, u, x, what):
    """the absorbed values determine the points and scalars"""
    D, d = s.D, s.d
    atoms = set()
    for q in st:
        atoms |= q.atoms()
    infos = {D.info[a] for a in atoms}
    for nm, g in pts.items():
        if not g.t:
            continue
        for co in ("get_x", "get_y"):
            if (co, g.key()) not in infos:
                return "%s do not cover %s of %s" % (what, co[-1], nm)
    for nm, v in [("u", u)] + [("x[%d]" % i, q) for i, q in enumerate(x)]:
        if ("as", pkey(v)) in infos:
            continue
        limbs = {(i[1], i[2]) for i in infos if i[0] == "limb" and i[3] == pkey(v)}
        ws = {w for w, i in limbs}
        if not any(all((w, i) in limbs for i in range((254 + w - 1) // w)) for w in ws):
            return "%s do not cover %s" % (what, nm)
    for i, q in enumerate(st):
        if len(q.t) > 1:
            raise Unsupported("an absorbed value is a combination")
    return None


def session(ctx, d, facts, **kw):
    return TNova(ctx, d, facts, **kw)


class TNova(Nova):
    """limbs keep their value between the fields; the identity has its affine coordinates"""

    def moved(self, v, q):
        if len(v.t) == 1:
            (m, c), = v.t.items()
            if c == 1 and len(m) == 1 and self.D.info[m[0]][0] == "limb" and self.D.info[m[0]][1] < 250:
                return Poly.var(m[0], q)
        return Nova.moved(self, v, q)

    def coord(self, I, c, a):
        m = XY_RX.match(c.fn.name)
        C = curve_of(m.group(1))
        ty = next(d.base for d in DRIVERS.values() if d.C is C)
        x = self.fix(a[0])
        if type(x) is not Ite:
            g = self.D.pt(x)
            if not g.t:
                return self.F_of(ty).el(self.D, Poly.const(int(m.group(2) == "get_y"), BASE[ty]))
        return Nova.coord(self, I, c, a)


def challenge(ctx, d, what, nx, inf=()):
    """prover or verifier: the transcript of one folding"""
    def run(facts):
        s = session(ctx, d, facts)
        finite(s)
        st = transcript(s, what, nx, inf)
        if type(st) is str:
            return st
        n, seq, pts, u, x = st
        if n < SECURITY:
            return "the challenge has %d bits" % n
        return covers(s, seq, pts, u, x, "the absorbed values")
    return guard(run)


def transcript(s, what, nx, inf=(), second="V"):
    d = s.d
    i1, pts, u, x = inst1(s, nx, inf)
    i2 = s.r1cs(s.D.gen(d.C, second), s.vars("y", nx))
    if what == "prove":
        rows = s.sym_rows(([[("w", 0)]], [[("i", 1)]], [[("w", 0)]]))
        w1, w2 = s.rwit(s.vars("w", 1), s.vars("e", 1)), s.wit(s.vars("v", 1))
        pr = s.mk(s.ty("Prover"), ck=s.key(2), shape=s.shape(1, nx, 1, rows))
        r = s.must("zknova::Prover::<%s>::prove" % d.full, pr, i1, w1, i2, w2)
        t = s.point(s.fix(r).f[2])
    else:
        t = s.D.gen(d.C, "T") if "T" not in inf else GVal(d.C.name, {})
        r = s.must("zknova::Verifier::<%s>::verify" % d.full, t, i1, i2)
    if len(s.absorbed) != 1:
        return "%d challenges are derived" % len(s.absorbed)
    n, seq = s.absorbed[0]
    pts = dict(pts, T=t)
    return n, seq, pts, u, x


def second_instance(ctx, d, what):
    """the challenge must also depend on the instance that is folded in"""
    def run(facts):
        s = session(ctx, d, facts)
        finite(s)
        st = transcript(s, what, 2)
        if type(st) is str:
            return st
        seq = st[1]
        infos = {s.D.info[a] for q in seq for a in q.atoms()}
        if ("get_x", s.D.gen(d.C, "V").key()) not in infos:
            return "the challenge does not depend on the witness commitment of the folded-in instance"
        return None
    return guard(run)


def same_challenge(ctx, d, nx):
    def run(facts):
        s = session(ctx, d, facts)
        finite(s)
        i1, pts, u, x = inst1(s, nx)
        a = transcript(s, "prove", nx)
        if type(a) is str:
            return a
        s.absorbed.clear()
        i2 = s.r1cs(s.D.gen(d.C, "V"), s.vars("y", nx))
        s.must("zknova::Verifier::<%s>::verify" % d.full, a[2]["T"], i1, i2)
        if len(s.absorbed) != 1:
            return "the verifier derives %d challenges" % len(s.absorbed)
        n, seq = s.absorbed[0]
        if n != a[0]:
            return "prover and verifier take %d and %d bits" % (a[0], n)
        if seq != a[1]:
            k = next((i for i, (p, q) in enumerate(zip(seq, a[1])) if p != q), min(len(seq), len(a[1])))
            return "prover and verifier differ in absorbed value %d (%d and %d values)" % (k, len(a[1]), len(seq))
        return None
    return guard(run)


def native_hash(s, inst, i, z0, zi):
    d = s.d
    s.absorbed.clear()
    s.must("zknova::relaxed_r1cs::instance::RelaxedR1csInstance::<%s>::hash::<zknova::%s>" % (d.full, OTHER[d.name]), inst, i,
           s.B.dense(s.D, z0), s.B.dense(s.D, zi))
    if len(s.absorbed) != 1:
        raise Bad("%d hashes are taken" % len(s.absorbed))
    return s.absorbed[0]


def hash_covers(ctx, d, nz, nx, inf=()):
    def run(facts):
        s = session(ctx, d, facts, patterns=[(re.compile(r"^<bn_254::F[rq] as std::convert::From<u64>>::from$"), lambda I, c, a: step(I, c, a))])
        finite(s)

        def step(I, c, a):
            v = I.simp(a[0])
            return s.B.el(s.D, s.D.var("step", d.q)) if type(v) is Opaque and v.op == "step" else NotImplemented
        inst, pts, u, x = inst1(s, nx, inf)
        z0, zi = [s.D.var("z%d" % i, d.q) for i in range(nz)], [s.D.var("t%d" % i, d.q) for i in range(nz)]
        n, seq = native_hash(s, inst, Opaque("step", ()), z0, zi)
        if n < 240:
            return "the hash has %d bits" % n
        have = {s.D.names[a] for q in seq for a in q.atoms()}
        for v in ["step"] + [s.D.names[a] for q in z0 + zi for a in q.atoms()]:
            if v not in have:
                return "the instance hash ignores %s" % {"s": "the step count", "z": "the start state", "t": "the current state"}[v[0]]
        return covers(s, seq, pts, u, x, "the hashed values")
    return guard(run)


def in_circuit(ctx, d, what, nz=1, inf=()):
    """state of the in-circuit transcript, evaluated on the assignment, against the native one"""
    def run(facts):
        rec = []
        s = session(ctx, d, facts, patterns=[(CSQ_RX, lambda I, c, a: csq(I, c, a)), (BNW_RX, lambda I, c, a: params(I, c, a)),
                                             (re.compile(r"^<bn_254::F[rq] as std::convert::From<u64>>::from$"), lambda I, c, a: step(I, c, a))])
        finite(s)
        D = s.D

        def step(I, c, a):
            v = I.simp(a[0])
            return s.B.el(s.D, s.D.var("step", d.q)) if type(v) is Opaque and v.op == "step" else NotImplemented

        def params(I, c, a):
            t = s.prog.types[c.fn.locals[0]]["s"]
            return s.mk(t, min_bits=0, max_word=Opaque("max_word", ()), limb_width=I.simp(a[0]), n_limbs=I.simp(a[1]))

        def csq(I, c, a):
            ro = s.fix(a[0])
            st = S.read(D, I.load(cs))
            vals = []
            for x in items(I, s.get(ro, "state")):
                rows = s.B.unrow(D, s.fix(x).f[0])
                vals.append((lin(rows, st["x"], st["w"], d.q), rows))
            n = I.simp(a[2])
            if type(n) is not int:
                raise Unsupported("number of challenge bits")
            rec.append((n, vals))
            return fa(s, s.B, [(("i", 0), Poly.const(1, d.q))])
        cd = "zknova::" + OTHER[d.name]
        zs = [D.var("step", d.q)] + [D.var("z%d" % i, d.q) for i in range(nz)] + [D.var("t%d" % i, d.q) for i in range(nz)]
        S, cs = circuit_system(s, d, zs)
        inst, pts, u, x = inst1(s, 2, inf)
        base = "zknova::gadget::relaxed_instance::RelaxedR1csInstanceAssignment::<%s>::" % d.full
        ra = s.must(base + "witness::<%s>" % cd, cs, inst)
        one = Poly.const(1, d.q)
        if what == "hash":
            w = [fa(s, s.B, [(("w", i), one)]) for i in range(1 + 2 * nz)]
            s.must(base + "hash::<%s>" % cd, ra, cs, w[0], vec(w[1:1 + nz]), vec(w[1 + nz:]))
            n, seq = native_hash(s, inst, Opaque("step", ()), zs[1:1 + nz], zs[1 + nz:])
        else:
            t = GVal(d.C.name, {}) if "T" in inf else D.gen(d.C, "T")
            gx = lambda nm: s.coord_of(t, nm)
            pt = s.must("zkstd::circuit::prelude::PointAssignment::<%s>::witness::<%s>" % (d.base, cd), cs, gx("get_x"), gx("get_y"), int("T" in inf))
            fn = next((f for f in ctx.prog.by_name if re.match(r"^zknova::circuit::augmented::AugmentedFCircuit::<%s, .*>::get_challenge::<%s>$"
                                                               % (re.escape(d.full), re.escape(cd)), f)), None)
            if fn is None:
                raise Unsupported("no in-circuit challenge")
            s.must(fn, cs, ra, pt)
            r = transcript(s, "verify", 2, inf)
            if type(r) is str:
                return r
            n, seq = r[:2]
        if len(rec) != 1:
            return "%d in-circuit hashes" % len(rec)
        m, vals = rec[0]
        if m != n:
            return "%d bits natively, %d bits in circuit" % (n, m)
        if len(vals) != len(seq):
            return "%d values are absorbed natively, %d in circuit" % (len(seq), len(vals))
        for i, ((v, rows), q) in enumerate(zip(vals, seq)):
            if not D.zero(v - q, s.I.st.facts):
                return "absorbed value %d is %s natively and %s in circuit" % (i, q.show(D.names, 3), v.show(D.names, 3))
        return None
    return guard(run)


def coord_of(s, g, nm):
    ty = s.d.base
    p = BASE[ty]
    if not g.t:
        return s.B.el(s.D, Poly.const(int(nm == "get_y"), p))
    return s.B.el(s.D, s.atomvar((nm, g.key()), p, "%s(%r)" % (nm[-1], g)))


Nova.coord_of = coord_of
INFS = [(), ("W",), ("E",), ("W", "E")]


def run(ctx):
    for d in DRIVERS.values():
        full = d.full
        ctx.ob("zknova::gadget::mimc::MimcAssignment<%s>::hash" % d.base, "native-permutation", permutation(ctx, d))
        ctx.ob("zknova::hash::Mimc<%s>::default" % d.base, "distinct-round-constants", constants(ctx, d))
        for n in (128, 252) if not ctx.thorough() else (1, 64, 128, 250, 252, 253):
            for k in (1, 3) if not ctx.thorough() else (0, 1, 2, 3, 17):
                ctx.ob("zknova::circuit::transcript::MimcROCircuit<%s>::squeeze" % full, "native-squeeze[%d values, %d bits]" % (k, n),
                       squeezing(ctx, d, k, n))
        for w in ("scalar_as_base", "base_as_scalar"):
            ctx.ob("zknova::driver::%s<%s>" % (w, full), "keeps-integer", reinterpret(ctx, d, w))
        for nm, w in (("zknova::Prover::<%s>::prove" % full, "prove"), ("zknova::Verifier::<%s>::verify" % full, "verify")):
            for nx in (1, 2, 3) if w == "verify" else (1, 2):
                ctx.ob(nm, "challenge-covers-instance[%d inputs]" % nx, challenge(ctx, d, w, nx))
            ctx.ob(nm, "challenge-covers-folded-in-instance", second_instance(ctx, d, w))
        for nx in (1, 2):
            ctx.ob("zknova::Prover::<%s>::prove" % full, "same-transcript-as-verifier[%d inputs]" % nx, same_challenge(ctx, d, nx))
        for nz, nx in ((1, 2), (2, 1)) + (((0, 2), (3, 3)) if ctx.thorough() else ()):
            ctx.ob("zknova::RelaxedR1csInstance::<%s>::hash" % full, "covers[%d state, %d inputs]" % (nz, nx), hash_covers(ctx, d, nz, nx))
        for inf in INFS:
            for nz in (1, 2):
                ctx.ob("zknova::RelaxedR1csInstanceAssignment::<%s>::hash" % full, "native-values[%d state,%s]" % (nz, "".join(inf)),
                       in_circuit(ctx, d, "hash", nz, inf))
        for inf in INFS + [("T",), ("W", "E", "T")]:
            ctx.ob("zknova::AugmentedFCircuit::<%s>::get_challenge" % full, "native-values[%s]" % "".join(inf), in_circuit(ctx, d, "challenge", 1, inf))
