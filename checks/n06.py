"""Pedersen commitments: the key is made of separately drawn points, a commitment is the sum of every element times its own generator."""
from nova import *
from r01 import Sys

LEVEL = "other"
FLOOR = 10
GEN_RX = re.compile(r"^zknova::circuit::augmented::AugmentedFCircuit::<.*>::generate::<zknova::(\w+)>$")
SIZES = [0, 1, 2, 3]


def fresh_key(ctx, d, n):
    def run(facts):
        s = Nova(ctx, d, facts)
        rng = Opaque("rng", ())
        k = s.must("zknova::PedersenCommitment::<%s>::new::<verif_roots::TestRng>" % d.C.aff, n, s.I.ref(rng))
        gs = [s.point(x) for x in items(s.I, s.get(k, "g"))]
        if len(gs) < 1 << n:
            return "a key for 2^%d elements has %d generators" % (n, len(gs))
        atoms = []
        for g in gs:
            at = set()
            for c in g.t.values():
                at |= set(s.D.names[a] for a in c.atoms())
            atoms.append(at)
        for i, at in enumerate(atoms):
            own = {a for a in at if a.startswith("rand")} - set().union(*([x for j, x in enumerate(atoms) if j != i] or [set()]))
            if not own:
                return "generator %d of %d is not drawn independently of the others" % (i, len(gs))
            if gs[i].t and all(c.is_zero() for c in gs[i].t.values()):
                return "generator %d is the identity" % i
        return None
    return guard(run)


def commits(ctx, d, nk, nv):
    def run(facts):
        s = Nova(ctx, d, facts)
        v = s.vars("v", nv)
        r = s.run("zknova::PedersenCommitment::<%s>::commit" % d.C.aff, s.key(nk), s.dense(v))
        if r is None and s.I.panics and nv > nk:
            return None
        if s.I.panics or r is None:
            return "may panic: %s" % (s.I.panics[:1],)
        got, want = s.point(r), s.commit(v)
        if nv > nk:
            for i in range(nk, nv):
                if not any(a in c.atoms() for c in got.t.values() for a in v[i].atoms()):
                    return "element %d of %d is ignored (the key has %d generators)" % (i, nv, nk)
            raise Unsupported("commitment to a vector longer than the key")
        if not s.same_point(got, want):
            return "%d elements, %d generators: commitment is %r" % (nv, nk, got)
        return None
    return guard(run)


def witness(ctx, d):
    def run(facts):
        s = Nova(ctx, d, facts)
        v = s.vars("v", 3)
        r = s.must("zknova::relaxed_r1cs::witness::R1csWitness::<%s>::commit" % d.full, s.mk(s.ty("R1csWitness"), w=s.dense(v)), s.key(4))
        got = s.point(r)
        return None if s.same_point(got, s.commit(v)) else "commitment of a witness is %r" % got
    return guard(run)


def sized(ctx, dims):
    """setup with stubbed circuits of the given (constraints, witnesses)"""
    def run(facts):
        prog = ctx.prog
        todo = [DRIVERS["Bn254Driver"], DRIVERS["GrumpkinDriver"]]
        fn = next((f for f in prog.by_name if re.match(r"^zknova::PublicParams::<.*>::setup::<verif_roots::TestRng>$", f)), None)
        if fn is None:
            raise Unsupported("no setup")
        s = Nova(ctx, todo[0], facts, patterns=[(GEN_RX, lambda I, c, a: stub(I, c, a))])

        def stub(I, c, a):
            d = DRIVERS[GEN_RX.match(c.fn.name).group(1)]
            m, w = dims[d.name]
            F = s.F_of(d.scalar)
            S = Sys(prog, d.full, F)
            one = Poly.const(1, d.p)
            rows = [[(("w", 0), one)] for _ in range(m)]
            I.store(a[1], S.make(s.D, m, rows, rows, rows, [one], [Poly.const(0, d.p)] * w))
            return VecV([], -1)
        r = s.must(fn, s.I.ref(Opaque("rng", ())))
        for f, d in (("ck_primary", todo[0]), ("ck_secondary", todo[1])):
            m, w = dims[d.name]
            n = len(items(s.I, s.get(s.get(r, f), "g")))
            if n < max(m, w):
                return "%s has %d generators for %d constraints and %d witness values" % (f, n, m, w)
        return None
    return guard(run)


def run(ctx):
    for a, b in [((5, 2), (2, 1)), ((1, 6), (3, 2)), ((3, 2), (1, 7)), ((4, 9), (2, 5))]:
        ctx.ob("zknova::PublicParams::setup", "key-covers-shape[%s,%s]" % (a, b), sized(ctx, {"Bn254Driver": a, "GrumpkinDriver": b}))
    for d in DRIVERS.values():
        name = "zknova::PedersenCommitment::<%s>" % d.C.aff
        for n in (0, 1, 2, 3, 4) if ctx.thorough() else (0, 1, 2):
            ctx.ob(name + "::new", "independent-generators[2^%d]" % n, fresh_key(ctx, d, n))
        for nk, nv in [(0, 0), (1, 1), (2, 1), (2, 2), (5, 3), (5, 5), (2, 3), (1, 4)] + ([(17, 17), (17, 16), (33, 33), (9, 12)] if ctx.thorough() else []):
            ctx.ob(name + "::commit", "sum[%d generators, %d elements]" % (nk, nv), commits(ctx, d, nk, nv))
        ctx.ob("zknova::R1csWitness::<%s>::commit" % d.full, "commits-witness", witness(ctx, d))
