"""Number-theoretic transforms: run over symbolic coefficient vectors for every small domain and compared with evaluation at the powers of
a primitive root of unity (and of its coset)."""
from circ import *

LEVEL = "other"
FLOOR = 20
FFT = "zkgroth16::fft::Fft::<bn_254::Fr>::"
CO = "zkgroth16::poly::Coefficients<bn_254::Fr>"
PV = "zkgroth16::poly::PointsValue<bn_254::Fr>"


class T:
    """an analysed transform"""

    def __init__(self, ctx, facts, k):
        self.ctx, self.prog = ctx, ctx.prog
        self.F = Fld(ctx.prog, "bn_254::Fr")
        self.p = self.F.p
        self.D, self.I = csession(ctx.prog, facts, domain=EagerDomain)
        self.k, self.n = k, 1 << k
        self.fft = self.I.ref(self.run("new", k))

    def large(self, k):
        """the domain of 2^k points, known only by its size (its tables are left out)"""
        n = 1 << k
        v = self.I.simp(self.I.load(self.fft))
        fs = []
        for i, x in enumerate(v.f):
            x = self.I.simp(x)
            if type(x) is int:
                if x != self.n:
                    raise Unsupported("a domain has a scalar besides its size")
                x = n
            else:
                x = Opaque("table of a large domain", (i,))
            fs.append(x)
        self.k, self.n = k, n
        self.fft = self.I.ref(Agg(v.tid, v.v, tuple(fs)))
        return self

    def run(self, name, *args):
        f = self.prog.fn(name if "::" in name else FFT + name)
        r = self.I.analyse(f, list(args))
        self.ctx.used(self.I)
        if self.I.panics or r is None:
            raise Bad("%s may panic: %s" % (f.name, self.I.panics[:1]))
        return r

    def poly(self, kind, cs):
        return Agg(self.prog.ty(kind), 0, (vec(self.F.el(self.D, c) for c in cs),))

    def out(self, v):
        v = self.I.simp(v)
        return [self.F.val(self.D, x) for x in items(self.I, v.f[0])]

    def vars(self, n):
        return [self.D.var("v%d" % i, self.p) for i in range(n)]

    def k_(self, c):
        return Poly.const(c, self.p)

    def probe(self, name, cs, i):
        """a value of the transform of constants"""
        r = self.out(self.run(name, self.fft, self.poly(CO, [self.k_(c) for c in cs])))[i]
        if not r.is_const():
            raise Unsupported("constant transform is not constant")
        return r.cval()

    def root(self):
        w = self.probe("dft", [0, 1], 1)
        if pow(w, self.n, self.p) != 1 or pow(w, self.n // 2, self.p) != self.p - 1:
            raise Bad("the domain of size %d is generated by an element of another order" % self.n)
        return w

    def shift(self):
        g = self.probe("coset_dft", [0, 1], 0)
        if pow(g, self.n, self.p) == 1:
            raise Bad("the coset of size %d meets the domain" % self.n)
        return g

    def same(self, got, want, pad=False):
        """got equals want (trailing zeros may be dropped when pad)"""
        if pad:
            got = got + [self.k_(0)] * (len(want) - len(got))
        if len(got) != len(want):
            return "%d values for a domain of %d" % (len(got), self.n)
        for i, (a, b) in enumerate(zip(got, want)):
            if not self.D.zero(a - b, self.I.st.facts):
                return "domain size %d, value %d: got %s, expected %s" % (self.n, i, a.show(self.D.names, 4), b.show(self.D.names, 4))
        return None


class Bad(Exception):
    pass


def guard(f, generic=False):
    """generic: only the case where no tested value vanishes"""
    def g():
        try:
            facts = {}
            while generic:
                try:
                    return f(dict(facts))
                except Split as s:
                    facts[s.c] = False
            return explore(f)
        except Bad as e:
            return str(e)
    return g


def evals(t, cs, w, g=1):
    r = []
    for i in range(t.n):
        at = g * pow(w, i, t.p) % t.p
        r.append(lincomb(t.p, cs, 1, at))
    return r


def lincomb(p, xs, c, q):
    """sum of xs[j] * c * q^j"""
    d = {}
    for x in xs:
        for m, v in x.t.items():
            d[m] = (d.get(m, 0) + v * c) % p
        c = c * q % p
    return Poly({m: v for m, v in d.items() if v}, p)


def interpolant(t, v, w, g):
    """the only polynomial of degree below n with these values on the coset"""
    r = []
    for j in range(t.n):
        r.append(lincomb(t.p, v, pow(t.n * pow(g, j, t.p), -1, t.p), pow(w, -j, t.p)))
    return r


def run(ctx):
    top = 8 if ctx.thorough() else 6
    for k in range(1, top + 1):
        n = 1 << k
        lens = sorted(set([0, 1, n // 2, n - 1, n])) if n > 4 else range(n + 1)
        for name in ("dft", "coset_dft"):
            def run_(facts, name=name):
                for m in lens:
                    t = T(ctx, facts, k)
                    w, g = t.root(), t.shift() if name == "coset_dft" else 1
                    v = t.vars(m)
                    d = t.same(t.out(t.run(name, t.fft, t.poly(CO, v))), evals(t, v, w, g))
                    if d:
                        return "%d coefficients: %s" % (m, d)
            ctx.ob(FFT + name, "evaluates[n=%d]" % n, guard(run_))
        for name in ("idft", "coset_idft"):
            def run_(facts, name=name):
                t = T(ctx, facts, k)
                w, g = t.root(), t.shift() if name == "coset_idft" else 1
                v = t.vars(n)
                cs = t.out(t.run(name, t.fft, t.poly(PV, v)))
                if len(cs) > n:
                    return "%d coefficients for a domain of %d" % (len(cs), n)
                return t.same(cs, interpolant(t, v, w, g), pad=True)
            ctx.ob(FFT + name, "interpolates[n=%d%s]" % (n, ", no zero coefficient" * (n >= 32)), guard(run_, n >= 32))

        def z(facts):
            t = T(ctx, facts, k)
            tau = t.D.var("tau", t.p)
            got = t.F.val(t.D, t.run("z", t.fft, t.I.ref(t.F.el(t.D, tau))))
            want = t.k_(1)
            for _ in range(n):
                want = want * tau
            return None if t.D.zero(got - want + t.k_(1), t.I.st.facts) else "vanishing polynomial of size %d: %s" % (n, got.show(t.D.names, 4))
        if k <= 6:
            ctx.ob(FFT + "z", "x^n-1[n=%d]" % n, guard(z))

        def zc(facts):
            t = T(ctx, facts, k)
            got = t.F.val(t.D, t.run("z_on_coset", t.fft))
            return None if got == t.k_(pow(t.shift(), n, t.p) - 1) else "vanishing polynomial on the coset of size %d: %s" % (n, got.show())
        ctx.ob(FFT + "z_on_coset", "x^n-1[n=%d]" % n, guard(zc))

        def dz(facts):
            t = T(ctx, facts, k)
            v = t.vars(n)
            inv = pow(pow(t.shift(), n, t.p) - 1, -1, t.p)
            return t.same(t.out(t.run("divide_by_z_on_coset", t.fft, t.poly(PV, v))), [x.scale(inv) for x in v])
        ctx.ob(FFT + "divide_by_z_on_coset", "quotient[n=%d]" % n, guard(dz))
    for k in range(7, 29):
        def big(facts):
            for tau in (0, 1, 5, -1, 0x1234567890abcdef << 150 | 0xfedcba0987654321):
                t = T(ctx, facts, 2).large(k)
                got = t.F.val(t.D, t.run("z", t.fft, t.I.ref(t.F.el(t.D, t.k_(tau % t.p)))))
                if got != t.k_(pow(tau % t.p, t.n, t.p) - 1):
                    return "vanishing polynomial of size %d at %d: %s" % (t.n, tau, got.show(t.D.names, 4))
            return None

        def bigc(facts):
            t = T(ctx, facts, 2)
            g = t.shift()
            t.large(k)
            got = t.F.val(t.D, t.run("z_on_coset", t.fft))
            return None if got == t.k_(pow(g, t.n, t.p) - 1) else "vanishing polynomial on the coset of size %d: %s" % (t.n, got.show())

        def bigd(facts):
            t = T(ctx, facts, 2)
            g = t.shift()
            t.large(k)
            v = t.vars(3)
            inv = pow(pow(g, t.n, t.p) - 1, -1, t.p)
            got = t.out(t.run("divide_by_z_on_coset", t.fft, t.poly(PV, v)))
            return t.same(got, [x.scale(inv) for x in v])
        ctx.ob(FFT + "z", "x^n-1[n=%d]" % (1 << k), guard(big))
        if k <= top:
            continue
        ctx.ob(FFT + "z_on_coset", "x^n-1[n=%d]" % (1 << k), guard(bigc))
        ctx.ob(FFT + "divide_by_z_on_coset", "quotient[n=%d]" % (1 << k), guard(bigd))
    for op, fn in (("Mul", "mul"), ("Sub", "sub")):
        name = "<&%s as std::ops::%s>::%s" % (PV, op, fn)

        def pw(facts):
            for na in range(5):
                for nb in range(5):
                    t = T(ctx, facts, 1)
                    a, b = [t.D.var("a%d" % i, t.p) for i in range(na)], [t.D.var("b%d" % i, t.p) for i in range(nb)]
                    r = t.out(t.run(name, t.I.ref(t.poly(PV, a)), t.I.ref(t.poly(PV, b))))
                    t.n = max(na, nb)
                    pa, pb = a + [t.k_(0)] * (t.n - na), b + [t.k_(0)] * (t.n - nb)
                    d = t.same(r, [x * y if op == "Mul" else x - y for x, y in zip(pa, pb)])
                    if d:
                        return d
        ctx.ob(name, "pointwise", guard(pw))
