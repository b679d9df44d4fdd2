"""Shared helpers of the Groth16 checks: parameter generation and proof creation over constraint systems of bounded shape with symbolic
coefficients, assignments, secrets and blinding factors; group elements by their discrete logarithms."""
import random
from pairing import *
from r01 import Sys

RND_RX = re.compile(r"^<bn_254::Fr as zkstd::common::Group>::random::<.*>$")
MSM_RX = re.compile(r"^zkgroth16::msm::msm_curve_addition::<bn_254::(G[12])Affine>$")
STRIP_RX = re.compile(r"^zkgroth16::poly::Coefficients::<bn_254::Fr>::format_degree$")
SYN = "<verif_roots::DemoCircuit as zkgroth16::Circuit>::synthesize"
SETUP = "zkgroth16::ZkSnark::setup::<verif_roots::DemoCircuit, verif_roots::TestRng>"
PROVE = "zkgroth16::Prover::create_proof::<verif_roots::DemoCircuit, verif_roots::TestRng>"
GROTH_DRV = "zkgroth16::Bn254Driver"


class Bad(Exception):
    pass


class GrothDomain(PairDomain):
    def __init__(self):
        PairDomain.__init__(self)
        self.draws = set()

    def feasible(self, facts, c, val):
        """coincidences among the random draws alone are left out (a proper algebraic subset: a negligible share of the draws)"""
        if val and c[0] == "z" and c[2].t and all(self.drawn(a) for m in c[2].t for a in m):
            return False
        return GroupDomain.feasible(self, facts, c, val)

    def drawn(self, a):
        k = self.info[a]
        return a in self.draws or k[0] == "inv" and all(self.drawn(b) for m in k[1].t for b in m)

    def join_first(self, c, a, b):
        """a when c holds, b otherwise: one value when they agree under c (or under its negation)"""
        if type(a) is GVal or type(b) is GVal:
            try:
                x, y = self.pt(a), self.pt(b)
            except Unsupported:
                return None
            if c[0] == "z" and x.C == y.C:
                d = self.sub(x, y)
                if all(self.zero(k, {c: True}) for k in d.t.values()):
                    return y
        return None


class Circ:
    """constraint system of bounded shape: rows [(wire, coefficient)] of a, b, c and the assignment; the last wire of every c row has coefficient
    one and its value is chosen to satisfy the row"""

    def __init__(self, s, l, nw, pats, tag=""):
        self.l, self.nw, self.m = l, nw, len(pats)
        D = s.D
        self.rows = {"a": [], "b": [], "c": []}
        for i, (pa, pb, pc) in enumerate(pats):
            for nm, p in (("a", pa), ("b", pb), ("c", pc)):
                self.rows[nm].append([(w, D.var("%s%d_%d" % (nm, i, j), FR) if nm != "c" or j < len(p) - 1 else Poly.const(1, FR))
                                      for j, w in enumerate(p)])
        self.x = [Poly.const(1, FR)] + [D.var("x%d" % i, FR) for i in range(1, l)]
        self.w = [D.var("w%d" % i, FR) for i in range(nw)]
        self.solved = set()
        for i in range(self.m):
            a, b, c = (self.rows[n][i] for n in "abc")
            if not c:
                continue
            v = lin_(a, self) * lin_(b, self) - lin_(c[:-1], self)
            k, j = c[-1][0]
            assert not any((k, j) == w for n in "abc" for r in self.rows[n][:i] for w, _ in r)
            assert not any((k, j) == w for n in "abc" for w, _ in self.rows[n][i][:len(c) - 1 if n == "c" else None])
            (self.x if k == "i" else self.w)[j] = v

    def system(self, s, values=True):
        S = Sys(s.prog, GROTH_DRV, s.F)
        x, w = self.x, self.w
        if not values:
            x = [Poly.const(1, FR)] + [s.D.var("sx%d" % i, FR) for i in range(1, self.l)]
            w = [s.D.var("sw%d" % i, FR) for i in range(self.nw)]
        return S.make(s.D, self.m, self.rows["a"], self.rows["b"], self.rows["c"], x, w)


def lin_(terms, c):
    s = Poly.const(0, FR)
    for (k, j), v in terms:
        s = s + v * (c.x if k == "i" else c.w)[j]
    return s


class Groth(Pairing):
    def __init__(self, ctx, l, nw, pats, facts=None):
        self.draws = {}
        self.foreign = []
        pats_ = [(RND_RX, self.random), (MSM_RX, self.msm), (STRIP_RX, self.strip), (re.compile("^" + re.escape(SYN) + "$"), self.synth)]
        Pairing.__init__(self, ctx, facts, patterns=pats_, domain=GrothDomain)
        self.circ = Circ(self, l, nw, pats)
        self.values = False
        self.synths = 0

    def random(self, I, c, a):
        p = I.simp(a[0])
        v, last = p, None
        while type(v) is Ptr:
            last, v = v, I.simp(I.load(v))
        if type(v) is not Opaque or v.op != "caller":
            self.foreign.append(c.fn.name)
            return self.el(self.D.var("foreign%d" % len(self.foreign), FR))
        n = "%s%d" % v.args
        self.draws[n] = self.draws.get(n, 0) + 1
        if last is not None:
            I.store(last, Opaque("caller", (v.args[0], v.args[1] + 1)))
        v = self.var(n)
        self.D.draws.update(a for m in v.t for a in m)
        I.st.facts[self.D.zcond(v)] = False
        return self.el(v)

    def msm(self, I, c, a):
        C = next(C for C in GCURVES if C.name == MSM_RX.match(c.fn.name).group(1))
        r = GVal(C.name, {})
        for g, k in zip(items(I, a[0]), items(I, a[1])):
            r = self.D.add(r, self.D.scale(self.D.pt(g), self.D.val(k, FR)))
        return r

    def strip(self, I, c, a):
        """trailing zeros are dropped; coefficients that are not identically zero are taken to be non-zero (the transforms and the
        multi-scalar multiplication do not distinguish a missing coefficient from a zero: G04, G05)"""
        v = I.simp(a[0])
        xs = items(I, v)
        while xs and self.D.val(xs[-1], FR).is_zero():
            xs = xs[:-1]
        return Agg(v.tid, 0, (vec(xs),))

    def synth(self, I, c, a):
        self.synths += 1
        I.store(a[1], self.circ.system(self, self.values))
        t = c.fn.locals[0]
        vs = [v[0] for v in self.prog.types[t]["vs"]]
        return Agg(t, vs.index("Ok"), (UNIT,))

    def rng(self, tag):
        return Opaque("caller", (tag, 0))

    def ok(self, r, what):
        """value and conditions of the success outcome"""
        I, D = self.I, self.D
        if I.panics or r is None:
            raise Bad("%s may panic: %s" % (what, I.panics[:1]))
        out = []
        for fs, v in leaves(I, r, I.st.facts):
            if type(v) is not Agg or v.tid is None or not I.p.types[v.tid]["s"].startswith("std::result::Result<"):
                raise Unsupported("result of %s" % what)
            if I.p.types[v.tid]["vs"][v.v][0] == "Ok":
                out.append((fs, v.f[0]))
            else:
                raise Bad("%s fails%s" % (what, show_facts(D, fs) or " always"))
        return out

    def way(self, o):
        """one of the successful outcomes (guard goes through all of them), the one without coincidences first"""
        o = sorted(o, key=lambda fv: sum(fv[0].values()))
        ch, counts = Groth.choice
        k = ch[len(counts)] if len(counts) < len(ch) else 0
        counts.append(len(o))
        return o[k]

    choice = ([], [])

    def setup(self):
        self.values = False
        f = self.prog.fn(SETUP)
        r = self.I.analyse(f, [self.rng("t")])
        self.ctx.used(self.I)
        fs, v = self.way(self.ok(r, "setup"))
        self.I.st.facts.update(fs)
        v = self.fix(v)
        pr, ve = self.fix(v.f[0]), self.fix(v.f[1])
        self.par = self.fix(self.get(pr, "params"))
        self.vk = self.fix(self.get(self.par, "vk"))
        self.pvk = self.fix(self.get(ve, "vk"))
        self.prover, self.verifier = pr, ve
        return v

    def prove(self):
        self.values = True
        self.rngs = self.I.ref(self.rng("b"))
        f = self.prog.fn(PROVE)
        t = f.locals[3]
        circ = Opaque("circuit", ())
        r = self.I.analyse(f, [self.I.ref(self.prover), self.rngs, circ])
        self.ctx.used(self.I)
        fs, v = self.way(self.ok(r, "create_proof"))
        self.I.st.facts.update(fs)
        self.proof = self.fix(v)
        return self.proof

    def dlog(self, v):
        """discrete logarithm of a point of the parameters or the proof"""
        g = self.D.pt(self.fix(v))
        if set(g.t) - {"G"}:
            raise Unsupported("point over %s" % sorted(g.t))
        return g.t.get("G", Poly.const(0, FR))

    def dlogs(self, v, name):
        return [self.dlog(x) for x in items(self.I, self.get(v, name))]

    def same(self, a, b):
        return self.D.zero(a - b, self.I.st.facts)


I0, I1, I2, I3 = (("i", k) for k in range(4))
W0, W1, W2, W3, W4, W5 = (("w", k) for k in range(6))
# (instance length, witness length, rows): one row of a, b, c per constraint; the last wire of c is determined by the row
SHAPES = {
    "no constraint": (2, 1, []),
    "1 constraint": (2, 2, [([I1, W0], [W0, I0], [I1, W1])]),
    "2 constraints": (2, 3, [([W0, I1], [W0], [W1]), ([W1, I0], [I1], [W0, W2])]),
    "2 constraints, outputs": (3, 1, [([W0], [W0, I0], [I1]), ([I1], [W0], [I0, I2])]),
    "3 constraints": (2, 4, [([W0], [I1], [W1]), ([W1], [W0], [W2]), ([W2, I1], [I0], [W3])]),
    "no public input": (1, 3, [([W0], [W0], [W1]), ([W1], [I0, W0], [W2])]),
    "no witness": (3, 0, [([I1], [I1], [I0, I2])]),
    "unused wires": (3, 3, [([W0], [W0], [W1])]),
    "4 constraints": (3, 4, [([W0], [I1], [W1]), ([W1], [W0], [W2]), ([W2], [I0], [W3]), ([W3], [W0, I1], [I1, I2])]),
    "5 constraints": (3, 4, [([W0], [I1], [W1]), ([W1], [W0], [W2]), ([I0], [I1], [W3]), ([W3], [W0, I1], [I2]), ([], [W1], [])]),
    "7 constraints": (3, 6, [([W0], [I1], [W1]), ([W1], [I0], [W2]), ([I0], [I1], [W3]), ([W3], [W0], [I2]), ([I0], [W0], [W4]),
                             ([I2], [I0], [W5]), ([], [W1], [])]),
}
MORE = {
    "8 constraints": (2, 6, [([W0], [I1], [W1]), ([W1], [I0], [W2]), ([W0], [I1], [W3]), ([W3], [I0], [W4]), ([I0], [W1], [W5]), ([], [W1], []),
                             ([W4], [], []), ([], [], [])]),
    "9 constraints": (2, 6, [([W0], [I1], [W1]), ([W1], [I0], [W2]), ([W0], [I1], [W3]), ([W3], [I0], [W4]), ([I0], [W1], [W5]), ([], [W1], []),
                             ([W4], [], []), ([], [], []), ([], [], [])]),
    "wide rows": (4, 4, [([I0, I1, I2, I3, W0, W1], [I0, I1, W0, W1, W2], [I0, I1, I2, W0, W1, W3])]),
}


def generated(m, seed):
    """m constraints over earlier wires, each determining a new one"""
    rnd = random.Random(seed)
    l = rnd.randrange(2, 4)
    known = [("i", k) for k in range(l)] + [W0]
    nw, rows = 1, []
    for i in range(m):
        pick = lambda k: rnd.sample(known, min(k, len(known)))
        if rnd.random() < 0.15:
            out = ("i", l)
            l += 1
        else:
            out = ("w", nw)
            nw += 1
        rows.append((pick(rnd.randrange(3)), pick(rnd.randrange(1, 3)), pick(rnd.randrange(2)) + [out]))
        if i < 4:
            known.append(out)
    return l, nw, rows


def shapes(ctx):
    r = dict(SHAPES)
    for m in (6, 8, 11, 16, 17) + ((31, 32, 33, 50) if ctx.thorough() else ()):
        for seed in range(3 if ctx.thorough() else 1):
            r["%d constraints, generated %d" % (m, seed)] = generated(m, seed)
    if ctx.thorough():
        r.update(MORE)
    return r


def guard(run):
    def ways(facts):
        work = [[]]
        while work:
            ch = work.pop()
            Groth.choice = ch, []
            r = run(facts)
            counts = Groth.choice[1]
            if r is not None:
                if any(ch):
                    raise Unsupported("when polynomials vanish at the secret point: %s" % r)
                return r
            work += [ch + [0] * (i - len(ch)) + [k] for i in range(len(ch), len(counts)) for k in range(1, counts[i])]
        return None

    def g():
        try:
            return explore(ways)
        except Bad as e:
            return str(e)
    return g
