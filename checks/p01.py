"""The Miller loop.  Tangent and chord steps: symbolic Jacobian points, compared as rational functions on the twist with the doubling and addition
law and with the line through the points.  Precomputation and loop: the running point is a multiple of Q, every line is a divisor (modulo
vertical lines, which the final exponentiation removes), values of the degree-12 field are powers of such functions at the points of G1; the
divisor of the result must be that of the optimal ate pairing for every pair that does not contain the identity."""
from curves import *
from p02 import RX as F12_RX, F12

FLOOR = 16
U6 = 4965661367192848881
S = 6 * U6 + 2
PT2, AF2, AF1, CO, PRE = "bn_254::G2Projective", "bn_254::G2Affine", "bn_254::G1Affine", "bn_254::PairingCoeff", "bn_254::G2PairingAffine"
XI = [9, 1]


def fq2_pow(a, e):
    r = [Poly.const(1, FQ), Poly.const(0, FQ)]
    x = [Poly.const(c, FQ) for c in a]
    while e:
        if e & 1:
            r = tmul(r, x)
        x = tmul(x, x)
        e >>= 1
    return [c.cval() for c in r]


def fq2_inv(a):
    n = pow(a[0] * a[0] + a[1] * a[1], -1, FQ)
    return [a[0] * n % FQ, -a[1] * n % FQ]


def k2(D, c):
    return D.red(Poly.const(c[0], FQ) + Poly.var(D.u(), FQ).scale(c[1]))


def steps(prog):
    """(function, is addition) of every routine that moves the running point and returns line coefficients"""
    for f in prog.fns.values():
        if f.bbs and f.crate == "bn_254" and f.locals[0] == prog.ty(CO) and f.n in (1, 2) and base_ty(prog, f.locals[1]) == prog.ty(PT2) \
                and prog.types[f.locals[1]]["k"] == "ref" and (f.n == 1 or base_ty(prog, f.locals[2]) == prog.ty(AF2)):
            yield f, f.n == 2


def untwists(prog):
    """routines that multiply a line, evaluated at a point of G1, into an element of the degree-12 field"""
    for f in prog.fns.values():
        if f.bbs and f.crate == "bn_254" and f.locals[0] == prog.ty(F12) and f.n == 3:
            ts = [base_ty(prog, t) for t in f.locals[1:4]]
            if sorted(ts) == sorted([prog.ty(F12), prog.ty(CO), prog.ty(AF1)]):
                yield f, [ts.index(prog.ty(x)) for x in (F12, CO, AF1)]


class Sym:
    """symbolic Fq2 coordinates"""

    def __init__(self, ctx, patterns=(), flat=True):
        self.ctx, self.prog = ctx, ctx.prog
        self.D, self.I = csession(ctx.prog, patterns=patterns)
        self.D.u()
        self.n = 0
        D = self.D
        self.b = k2(D, [3 * c % FQ for c in fq2_inv(XI)])

    def var(self, nm):
        """(value, polynomial)"""
        D = self.D
        a, b = D.var(nm + "0", FQ), D.var(nm + "1", FQ)
        T = self.prog.ty("bn_254::Fq2")
        return make(D, self.prog, T, [a, b]), a + b * Poly.var(D.u(), FQ)

    def atom(self, nm):
        self.n += 1
        p = self.D.var("%s%d" % (nm, self.n), FQ)
        return Ext(p), p

    def agg(self, ty, fs):
        return Agg(self.prog.ty(ty), 0, tuple(fs))

    def polys(self, v):
        v = self.I.simp(v)
        while type(v) is Ptr:
            v = self.I.simp(self.I.load(v))
        if type(v) is not Agg:
            raise Unsupported("symbolic case distinction on a point")
        return [self.D.poly2(x) for x in v.f[:3]]


def step(ctx, f, adding):
    """coordinates as single atoms of the ring (its operations are summarised)"""
    S_ = Sym(ctx)
    D, I = S_.D, S_.I
    (vX, X), (vY, Y), (vZ, Z) = S_.atom("X"), S_.atom("Y"), S_.atom("Z")
    T = I.ref(S_.agg(PT2, (vX, vY, vZ)))
    args = [T]
    rules = [((Y_(Y),) * 2, X * X * X + S_.b * pw(Z, 6))]
    if adding:
        (va, a), (vb, b) = S_.atom("x"), S_.atom("y")
        args.append(wrap_arg(I, ctx.prog, f.locals[2], S_.agg(AF2, (va, vb, 0))))
        rules.append(((Y_(b),) * 2, a * a * a + S_.b))
    r = I.analyse(f, args)
    ctx.used(I)
    if I.panics:
        return "may panic: %s" % I.panics[0]
    if r is None:
        return "always panics"
    X3, Y3, Z3 = S_.polys(T)
    c0, c1, c2 = S_.polys(r)

    def zero(p):
        return D.red(rewrite_(D.red(p), rules)).is_zero()
    if adding:
        H = a * Z * Z - X
        N = b * Z * Z * Z - Y
        eqs = [("x coordinate of the sum", X3 * Z * Z * H * H, Z3 * Z3 * (N * N - X * H * H - a * Z * Z * H * H)),
               ("y coordinate of the sum", Y3 * Z * H, Z3 * N * (a * Z3 * Z3 - X3) - b * pw(Z3, 3) * Z * H),
               ("coefficient of x", c1 * Z * H, -(N * c0)),
               ("constant coefficient", c2 * Z * H, c0 * (N * a - b * Z * H))]
        fac = [Z, H]
    else:
        eqs = [("x coordinate of the double", X3 * Y * Y * Z * Z, Z3 * Z3 * (pw(X, 4).scale(9) - (X * Y * Y).scale(8)).scale(pow(4, -1, FQ))),
               ("y coordinate of the double", (Y * pw(Z, 3) * Y3).scale(2), (X * X * Z3 * (X * Z3 * Z3 - X3 * Z * Z)).scale(3) - (Y * Y * pw(Z3, 3)).scale(2)),
               ("coefficient of x", (c1 * Y * Z).scale(2), -(X * X * c0).scale(3)),
               ("constant coefficient", (c2 * Y * pw(Z, 3)).scale(2), c0 * (pw(X, 3).scale(3) - (Y * Y).scale(2)))]
        fac = [Y, Z]
    for nm, p in (("the z coordinate", Z3), ("the coefficient of y", c0)):
        if zero(p):
            return "%s is always zero" % nm
    for nm, l, r in eqs:
        if not zero(l - r):
            return "the %s is not that of the %s through the running point" % (nm, "chord" if adding else "tangent")
    for nm, p in (("the z coordinate", Z3), ("the coefficient of y", c0)):
        if not product_of(D, p, fac):
            raise Unsupported("%s is not a product of factors known to be non-zero" % nm)
    return None


def Y_(p):
    (m, c), = p.t.items()
    return m[0]


def pw(p, n):
    r = Poly.const(1, p.p)
    for _ in range(n):
        r = r * p
    return r


def product_of(D, p, fac):
    """p is a constant times a product of powers of the factors"""
    p = D.red(p)
    for i in range(5):
        for j in range(5):
            q = D.red(pw(fac[0], i) * pw(fac[1], j))
            m = max(q.t)
            if len(q.t) == len(p.t) and m in p.t and (p - q.scale(p.t[m] * pow(q.t[m], -1, FQ))).is_zero():
                return True
    return False


def untwist(ctx, f, order):
    """acc * (c0 y + c1 x w + c2 v w), all components symbolic"""
    prog = ctx.prog
    D, I = session(prog)
    acc, a = symbolic(D, prog, prog.ty(F12), "f")
    T2 = prog.ty("bn_254::Fq2")
    cs, cp = zip(*[symbolic(D, prog, T2, n) for n in ("l", "m", "n")])
    T1 = prog.ty("bn_254::Fq")
    (x, px), (y, py) = symbolic(D, prog, T1, "x"), symbolic(D, prog, T1, "y")
    vals = {order[0]: acc, order[1]: Agg(prog.ty(CO), 0, tuple(cs)), order[2]: Agg(prog.ty(AF1), 0, (x, y, 0))}
    args = [wrap_arg(I, prog, f.locals[1 + i], vals[i]) for i in range(3)]
    r = I.analyse(f, args)
    ctx.used(I)
    if I.panics or r is None:
        return "may panic"
    z = Poly.const(0, FQ)
    line = [z] * 12
    line[0], line[1] = cp[0][0] * py[0], cp[0][1] * py[0]
    line[6], line[7] = cp[1][0] * px[0], cp[1][1] * px[0]
    line[8], line[9] = cp[2][0], cp[2][1]
    want = tmul(a, line)
    for facts, leaf in leaves(I, r):
        d = differ(D, coeffs(D, prog, leaf, FQ), want, facts)
        if d:
            return "not the product with the line at the point: " + d
    return None


# ------------------------------------------------------------------ loop
class Mill:
    """product of line functions at points: {(pair point, Q, multiple): exponent}, multiples up to sign (vertical lines are ignored)"""
    __slots__ = ("d",)

    def __init__(self, d):
        self.d = {k: v for k, v in d.items() if v}

    def __eq__(self, o):
        return type(o) is Mill and self.d == o.d

    def __hash__(self):
        return hash(frozenset(self.d.items()))

    def __repr__(self):
        return "Mill(%d)" % len(self.d)


def div_add(d, k, m, n):
    m %= FR
    if not m:
        return
    if m > FR - m:
        m, n = FR - m, -n
    d[k + (m,)] = d.get(k + (m,), 0) + n


class Bad(Exception):
    pass


class Loop(Sym):
    def __init__(self, ctx):
        prog = ctx.prog
        pats = [(F12_RX, self.f12)]
        self.steps = {f.name: a for f, a in steps(prog)}
        self.unt = {f.name: o for f, o in untwists(prog)}
        for names, h in ((self.steps, self.step), (self.unt, self.untwist)):
            if not names:
                raise Unsupported("line routines not found")
            pats.append((re.compile("^(%s)$" % "|".join(map(re.escape, names))), h))
        pats.append((re.compile(r"^bn_254::Fq12::final_exp$"), self.fexp))
        pats = pats[1:] + pats[:1]
        Sym.__init__(self, ctx, pats)
        D = self.D
        self.D.join_ = D.join
        D.join = lambda c, a, b: None if type(a) is Mill or type(b) is Mill else CurveDomain.join(D, c, a, b)
        self.q, self.p, self.lines, self.run = [], [], {}, {}
        self.maps = []
        for k in range(12):
            g2, g3 = fq2_pow(XI, (FQ ** k - 1) // 3 % (FQ * FQ - 1)), fq2_pow(XI, (FQ ** k - 1) // 2 % (FQ * FQ - 1))
            self.maps.append((k2(D, g2), k2(D, g3)))

    def g2(self, inf):
        i = len(self.q)
        (vx, x0), (vy, y0) = self.var("qx%d_" % i), self.var("qy%d_" % i)
        U = Poly.var(self.D.u(), FQ)
        (x, y) = (x0, y0)
        tab = {}
        u = self.D.u()
        conj = lambda p: p.subst({u: -U})
        for k in range(12):
            xx, yy = (conj(x), conj(y)) if k % 2 else (x, y)
            xx, yy = self.D.red(xx * self.maps[k][0]), self.D.red(yy * self.maps[k][1])
            tab.setdefault((xx, yy), pow(FQ, k, FR))
            tab.setdefault((xx, -yy), -pow(FQ, k, FR) % FR)
        self.q.append(tab)
        return self.agg(AF2, (vx, vy, int(inf)))

    def g1(self, inf):
        i = len(self.p)
        T = self.prog.ty("bn_254::Fq")
        (vx, x), (vy, y) = symbolic(self.D, self.prog, T, "px%d" % i), symbolic(self.D, self.prog, T, "py%d" % i)
        self.p.append((x[0], y[0]))
        return self.agg(AF1, (vx, vy, int(inf)))

    def affine(self, v):
        x, y = self.polys(self.agg(AF2, (self.fix(v).f[:2])))[:2]
        x, y = self.D.red(x), self.D.red(y)
        for i, tab in enumerate(self.q):
            if (x, y) in tab:
                return i, tab[(x, y)]
        raise Bad("a line is drawn through a point that is neither Q nor its image under a power of the Frobenius endomorphism, up to sign")

    def running(self, v):
        X, Y, Z = [self.D.red(p) for p in self.polys(v)]
        if Z.is_const() and not Z.is_zero() and Z.cval() == 1:
            return self.affine(self.agg(AF2, (Ext(X), Ext(Y))))
        if (X, Y, Z) in self.run:
            return self.run[(X, Y, Z)]
        if (X, -Y, Z) in self.run:
            i, m = self.run[(X, -Y, Z)]
            return i, -m % FR
        raise Unsupported("running point not recognised")

    def fix(self, v):
        I = self.I
        v = I.simp(v)
        while type(v) is Ptr:
            v = I.simp(I.load(v))
        return v

    def step(self, I, c, a):
        i, m = self.running(a[0])
        d = {}
        if self.steps[c.fn.name]:
            j, n = self.affine(a[1])
            if i != j:
                raise Bad("lines mix different points")
            if m in (n, -n % FR):
                raise Bad("a chord through equal or opposite points")
        else:
            n = m
        if not m:
            raise Bad("a step from the identity")
        for x in (m, n, -(m + n)):
            div_add(d, (i,), x, 1)
        s = (m + n) % FR
        new = [self.atom("T") for _ in range(3)]
        self.run[tuple(p for v, p in new)] = (i, s)
        I.store(a[0], self.agg(PT2, [v for v, p in new]))
        ln = [self.atom("L") for _ in range(3)]
        self.lines[tuple(p for v, p in ln)] = d
        return self.agg(CO, [v for v, p in ln])

    def mill(self, v):
        v = self.fix(v)
        if type(v) is Agg and self.prog.types[v.tid]["s"] == F12:
            k = [x.cval() if x.is_const() else None for x in coeffs(self.D, self.prog, v, FQ)]
            if None not in k[:6] and not any(k[6:]) and any(k[:6]):
                return Mill({})
        if type(v) is not Mill:
            raise Unsupported("accumulated value expected, got %s" % type(v).__name__)
        return v

    def untwist(self, I, c, a):
        o = self.unt[c.fn.name]
        acc = self.mill(a[o[0]])
        key = tuple(self.D.red(p) for p in self.polys(a[o[1]]))
        if key not in self.lines:
            raise Unsupported("line coefficients not recognised")
        P = self.fix(a[o[2]])
        x, y = self.D.val(P.f[0], FQ), self.D.val(P.f[1], FQ)
        if (x, y) not in self.p:
            raise Unsupported("evaluation point not recognised")
        d = dict(acc.d)
        for (i, m), n in self.lines[key].items():
            div_add(d, (self.p.index((x, y)), i), m, n)
        return Mill(d)

    def fexp(self, I, c, a):
        return self.agg("bn_254::Gt", (self.mill(a[0]),))

    def f12(self, I, c, a):
        g = F12_RX.match(c.fn.name)
        op = g.group(2) or g.group(3)

        def comb(x, y, s):
            d = dict(x.d)
            for k, v in y.d.items():
                d[k] = d.get(k, 0) + s * v
            return Mill(d)
        if op == "one" and not a:
            return Mill({})
        if op in ("mul", "mul_assign", "mul_ext_field"):
            r = comb(self.mill(a[0]), self.mill(a[1]), 1)
        elif op in ("square", "square_assign", "square_ext_field"):
            x = self.mill(a[0])
            r = comb(x, x, 1)
        elif op in ("conjugate",):
            r = comb(Mill({}), self.mill(a[0]), -1)
        elif op in ("invert", "get_invert"):
            return some(comb(Mill({}), self.mill(a[0]), -1))
        elif op == "clone":
            return self.mill(a[0])
        else:
            return NotImplemented
        if op.endswith("_assign"):
            I.store(a[0], r)
            return UNIT
        return r


def expected(pairs):
    d = {}
    for k in pairs:
        for m, n in ((S, None), (1, S), (FQ, 1), (FQ * FQ, -1), (FQ ** 3, 1)):
            if n is not None:
                div_add(d, k, m, n)
    return {k: v for k, v in d.items() if v}


def single(ctx, name):
    """preparation of one point, with every flag"""
    prog = ctx.prog
    for inf in (0, 1):
        L = Loop(ctx)
        try:
            r = prepare(L, ctx, name, L.g2(inf))
        except Bad as x:
            return str(x)
        ctx.used(L.I)
        if L.I.panics:
            return "may panic: %s" % L.I.panics[0]
        r = L.I.simp(r)
        if r is None:
            return "always panics"
        if type(r) is not Agg or len(r.f) != 2:
            raise Unsupported("prepared point is %r" % type(r).__name__)
        flag = L.I.simp(r.f[1])
        if type(flag) is not int:
            raise Unsupported("identity flag is symbolic")
        if flag != inf:
            return "the prepared point of %s is%s marked as the identity" % ("the identity" if inf else "a finite point", "" if flag else " not")
    return None


def prepare(L, ctx, name, q):
    f = ctx.prog.fn(name)
    return L.I.analyse(f, [wrap_arg(L.I, ctx.prog, f.locals[1], q)])


FROM = "<%s as std::convert::From<%s>>::from" % (PRE, AF2)


def loop(ctx, name, flags):
    """multi-pairing over pairs with the given (G1, G2) identity flags"""
    prog = ctx.prog
    L = Loop(ctx)
    pair = prog.ty("(%s, %s)" % (AF1, PRE))
    try:
        vals = []
        for a, b in flags:
            p, q = L.g1(a), L.g2(b)
            vals.append(Agg(pair, 0, (p, prepare(L, ctx, FROM, q))))
        f = prog.fn(name)
        r = L.I.analyse(f, [slice_(L, f, vals)])
    except Bad as x:
        return str(x)
    ctx.used(L.I)
    if L.I.panics:
        return "may panic: %s" % L.I.panics[0]
    if r is None:
        return "always panics"
    want = expected([(i, i) for i, (a, b) in enumerate(flags) if not a and not b])
    return compare(L, L.I.simp(r), want, flags)


def compare(L, r, want, flags):
    got = L.mill(r).d
    if got == want:
        return None
    for i, (a, b) in enumerate(flags):
        g = {k: v for k, v in got.items() if k[0] == i}
        w = {k: v for k, v in want.items() if k[0] == i}
        if g != w:
            k = sorted(set(x for x in list(g) + list(w) if g.get(x) != w.get(x)))[0]
            return "with %d pairs (identity flags %s) pair %d contributes the divisor %d[%d]Q%s instead of that of the optimal ate function" % (
                len(flags), flags, i, g.get(k, 0), k[2], k[1])
    return "pairs are mixed"


def slice_(L, f, vals):
    a = L.I.ref(Arr(tuple(vals)))
    return Ptr(a.cell, a.path, 0, len(vals))


def pairing(ctx):
    """the pairing of two points is the final exponentiation of their Miller value"""
    prog = ctx.prog
    for fl in ((0, 0), (0, 1), (1, 0), (1, 1)):
        L = Loop(ctx)
        f = prog.fn("bn_254::AteParing::pairing")
        try:
            r = L.I.analyse(f, [wrap_arg(L.I, prog, f.locals[1], L.g1(fl[0])), wrap_arg(L.I, prog, f.locals[2], L.g2(fl[1]))])
        except Bad as x:
            return str(x)
        ctx.used(L.I)
        if L.I.panics:
            return "may panic: %s" % L.I.panics[0]
        if r is None:
            return "always panics"
        r = L.I.simp(r)
        if type(r) is not Agg or prog.types[r.tid]["s"] != "bn_254::Gt":
            raise Unsupported("result of the pairing")
        d = compare(L, r.f[0], expected([(0, 0)] if fl == (0, 0) else []), [fl])
        if d:
            return d
    return None


def run(ctx):
    prog = ctx.prog
    for f, adding in sorted(steps(prog), key=lambda x: x[0].name):
        ctx.ob(f.name, "%s step and line" % ("chord" if adding else "tangent"), lambda: step(ctx, f, adding))
    for f, o in sorted(untwists(prog), key=lambda x: x[0].name):
        ctx.ob(f.name, "product with the line", lambda: untwist(ctx, f, o))
    ctx.ob(FROM, "prepared points", lambda: single(ctx, FROM))
    M = "bn_254::AteParing::multi_miller_loop"
    B = [(a, b) for a in (0, 1) for b in (0, 1)]
    sets = [[]] + [[x] for x in B] + [[x, y] for x in B for y in B]
    sets += [[x, y, z] for x in B for y in B for z in B] if ctx.thorough() else [[x, (0, 0), y] for x in B for y in B]
    sets += [[(0, 0)] * n for n in (4, 5, 8) + ((16, 32) if ctx.thorough() else ())]
    for fl in sets:
        ctx.ob(M, "pairs with identity flags %s" % (fl,), lambda: loop(ctx, M, fl))
    ctx.ob("bn_254::AteParing::pairing", "pairing", lambda: pairing(ctx))
