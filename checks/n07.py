"""The folding circuit.  The circuit that folds two instances is built with curve operations, conversions to limbs and reductions as recording
summaries, and must combine the components the way the native folding does; the arithmetic on limbs is built for real, its constraints modulo the
native field are lifted to equations between integers by interval bounds, and those must imply the integer identity of the operation."""
from n05 import *

LEVEL = "other"
FLOOR = 8
BIG = "num_bigint::bigint::BigInt"
BIG_OP = re.compile(r"^num_bigint::bigint::\w+::<impl std::ops::(Add|Sub|Mul|Div|Rem|Shl|Shr|BitAnd|BitOr|BitXor)(Assign)?(?:<.*>)? for &?%s>::\w+$" % BIG)
BIG_FROM = re.compile(r"^num_bigint::bigint::convert::<impl std::convert::From<[ui]\w+> for %s>::from$" % BIG)
BIG_FN = re.compile(r"^(?:num_bigint::bigint::BigInt::(bits|set_bit)|num_bigint::bigint::convert::<impl num_traits::(?:Num|cast::ToPrimitive) for %s>::"
                    r"(from_str_radix|to_f64)|<%s as std::clone::Clone>::(clone)|<%s as std::cmp::(?:Ord|PartialOrd|PartialEq)>::(cmp|partial_cmp|eq|lt))$"
                    % (BIG, BIG, BIG))
BIG_MAX = re.compile(r"^std::cmp::(max|min)::<&?%s>$" % BIG)
FA_RX = r"^zkstd::circuit::prelude::FieldAssignment::<(bn_254::F[rq])>::%s(?:::<.*>)?$"
VAL_RX, TOB_RX, RCB_RX, RC_RX = [re.compile(FA_RX % n) for n in ("value", "to_bits", "range_check_bits", "range_check")]
EVAL_RX = re.compile(r"^zkstd::matrix::SparseRow::<(bn_254::F[rq])>::evaluate$")
BNV_RX = re.compile(r"^zknova::gadget::big_nat::BigNatAssignment::<(bn_254::F[rq])>::value::<.*>$")
NTF_RX = re.compile(r"^zknova::gadget::big_nat::nat_to_f::<(bn_254::F[rq])>$")
OP_RX = re.compile(r"^zknova::gadget::big_nat::BigNatAssignment::<(bn_254::F[rq])>::(mult_mod|red_mod)::<zknova::(\w+)>$")
SP_RX = re.compile(r"^zkstd::circuit::prelude::PointAssignment::<(bn_254::F[rq])>::(scalar_point|add)::<zknova::(\w+)>$")
HINT = Opaque("hint", ())


def ival(lo, hi):
    """a number between the bounds"""
    return Opaque("hint", (lo, hi))


def big(k):
    return Opaque("big", (k,))


class Nat(Circ):
    """a constructed piece of the folding circuit.  Numbers that depend on the witness are hints without a known value."""

    def __init__(self, ctx, d, facts, abstract=()):
        self.abstract = abstract
        self.ranges = []     # (bits, bound): the bits, first the highest, are boolean and their value is at most bound
        self.bits = {}       # first wire of a decomposition -> (row, wires)
        self.ops = []
        self.mults = []
        self.limit = {}      # wire -> largest value
        self.overflow, self.words = [], []
        Circ.__init__(self, ctx, d, facts)

    def patterns(self):
        m = [(BIG_OP, self.bigop), (BIG_FROM, lambda I, c, a: big(I.simp(a[0])) if type(I.simp(a[0])) is int else NotImplemented),
             (BIG_FN, self.bigfn), (BIG_MAX, self.bigmax), (VAL_RX, self.value), (EVAL_RX, self.value), (BNV_RX, self.bigvalue), (NTF_RX, self.ntf),
             (NAT_RX, lambda I, c, a: HINT), (LIMB_RX, self.tolimbs), (TOB_RX, self.tobits), (RCB_RX, self.rangebits), (RC_RX, self.range)]
        if "op" in self.abstract:
            m.append((OP_RX, self.op))
        if "nat" in self.abstract:
            m.append((BNF_RX, self.fieldnat))
        m.append((SP_RX, self.curve))
        return m

    # ------------------------------------------------------------------- numbers
    def num(self, v):
        v = self.s.fix(v)
        if type(v) is int:
            return v
        if type(v) is Opaque and v.op == "big":
            return v.args[0]
        if type(v) is Opaque and v.op in ("hint", "nat"):
            return None
        raise Unsupported("big number expected")

    def between(self, v):
        v = self.s.fix(v)
        n = self.num(v)
        return (n, n) if n is not None else v.args if v.op == "hint" and v.args else None

    def bigvalue(self, I, c, a):
        """the number a BigNat stands for"""
        w = I.simp(self.s.get(self.s.get(a[0], "params"), "limb_width"))
        ls = [self.ofrow(r) for r in self.limbs(a[0])]
        if type(w) is not int:
            raise Unsupported("width of the limbs")
        lo, hi = sum(l << (w * i) for i, (l, _) in enumerate(ls)), sum(h << (w * i) for i, (_, h) in enumerate(ls))
        return big(lo) if lo == hi else ival(lo, hi)

    def ofrow(self, row):
        """bounds of a limb"""
        lo = hi = 0
        for w, k in row:
            k = k.cval()
            l, h = (1, 1) if w == ("i", 0) else (0, self.limit.get(w, self.d.q - 1))
            lo, hi = lo + k * l, hi + k * h
        return (lo, hi) if hi < self.d.q else (0, self.d.q - 1)

    def bigop(self, I, c, a):
        op, asg = BIG_OP.match(c.fn.name).groups()
        x, y = self.num(a[0]), self.num(a[1])
        if x is None or y is None:
            r = HINT
            l, h = self.between(a[0]), self.between(a[1])
            if l and h and l[0] >= 0 and h[0] >= 0:
                if op in ("Add", "Mul"):
                    f = (lambda u, v: u + v) if op == "Add" else (lambda u, v: u * v)
                    r = ival(f(l[0], h[0]), f(l[1], h[1]))
                elif op == "Div" and h[0]:
                    r = ival(l[0] // h[1], l[1] // h[0])
                elif op == "Rem" and h[0]:
                    r = ival(0, min(l[1], h[1] - 1))
        else:
            tq = lambda: (abs(x) // abs(y)) * (1 if (x < 0) == (y < 0) else -1)
            if op in ("Div", "Rem") and not y:
                raise Unsupported("division by zero")
            r = big({"Add": lambda: x + y, "Sub": lambda: x - y, "Mul": lambda: x * y, "Div": tq, "Rem": lambda: x - y * tq(), "Shl": lambda: x << y,
                     "Shr": lambda: x >> y, "BitAnd": lambda: x & y, "BitOr": lambda: x | y, "BitXor": lambda: x ^ y}[op]())
        if asg:
            I.store(a[0], r)
            return UNIT
        return r

    def bigfn(self, I, c, a):
        f = next(g for g in BIG_FN.match(c.fn.name).groups() if g)
        if f == "from_str_radix":
            t = self.s.fix(a[0])
            t = t.s if type(t) is StrV else bytes(int(x) for x in items(I, t)).decode()
            return Agg(None, 0, (big(int(t, I.simp(a[1]))),))
        x = self.num(a[0])
        if f == "clone":
            return HINT if x is None else big(x)
        if f == "set_bit":
            k, b = I.simp(a[1]), I.simp(a[2])
            if x is not None and type(k) is int and type(b) is int:
                I.store(a[0], big(x | 1 << k if b else x & ~(1 << k)))
            else:
                I.store(a[0], HINT)
            return UNIT
        if x is None:
            raise Unsupported("the circuit depends on a witness value")
        if f == "bits":
            return abs(x).bit_length()
        if f == "to_f64":
            return Agg(None, 1, (float(x),))
        y = self.num(a[1])
        if y is None:
            raise Unsupported("the circuit depends on a witness value")
        if f == "eq":
            return int(x == y)
        if f == "lt":
            return int(x < y)
        raise Unsupported("comparison of big numbers")

    def bigmax(self, I, c, a):
        x, y = self.num(a[0]), self.num(a[1])
        if x is None or y is None:
            raise Unsupported("the circuit depends on a witness value")
        return a[1] if (y >= x) == (BIG_MAX.match(c.fn.name).group(1) == "max") else a[0]

    def hint(self, ty):
        self.n += 1
        return self.D.elem(self.prog.ty(ty), BASE[ty], self.D.var("v%d" % self.n, BASE[ty]))

    def value(self, I, c, a):
        ty = (VAL_RX.match(c.fn.name) or EVAL_RX.match(c.fn.name)).group(1)
        return self.hint(ty)

    def ntf(self, I, c, a):
        ty = NTF_RX.match(c.fn.name).group(1)
        x = self.num(a[0])
        if x is None:
            return self.hint(ty)
        if not 0 <= x < 1 << 511:
            raise Unsupported("conversion of %d" % x)
        return self.D.elem(self.prog.ty(ty), BASE[ty], Poly.const(x, BASE[ty]))

    def tolimbs(self, I, c, a):
        ty = LIMB_RX.match(c.fn.name).group(1)
        if self.num(a[0]) is not None:
            return NotImplemented
        w, n = I.simp(a[1]), I.simp(a[2])
        b = self.between(a[0])
        if b and b[1].bit_length() > w * n:
            self.overflow.append((b[1].bit_length(), w * n))
        return VecV([self.hint(ty) for _ in range(n)], -1)

    def tobits(self, I, c, a):
        self.same_cs(a[0])
        n = I.simp(a[2])
        if type(n) is not int or not 0 < n <= 256:
            raise Unsupported("number of bits")
        row = self.row(a[1])
        ws = [r[0][0] for r in self.allocs("b", 256)]
        self.bits[ws[0]] = (row, ws)
        t = self.prog.ty("zkstd::circuit::prelude::BinaryAssignment")
        return vec(Agg(t, 0, (wire(self.prog, w),)) for w in ws[256 - n:])

    def bitwires(self, v):
        out = []
        v = self.s.I.deref(v) if type(v) is Ptr else v
        for x in items(self.s.I, v):
            x = self.s.fix(x)
            out.append(unwire(self.s.I, self.s.I.simp(x.f[0])))
        return out

    def rangebits(self, I, c, a):
        self.same_cs(a[0])
        n = I.simp(a[2])
        if type(n) is not int:
            raise Unsupported("number of bits")
        self.ranges.append((self.bitwires(a[1]), ((pow(2, n, self.d.q) - 1) % self.d.q)))
        return UNIT

    def range(self, I, c, a):
        self.same_cs(a[0])
        k = self.s.B.val(self.D, a[2])
        if not k.is_const():
            raise Unsupported("bound of a range check")
        self.ranges.append((self.bitwires(a[1]), k.cval()))
        return UNIT

    # ---------------------------------------------------------------- operations
    def op(self, I, c, a):
        kind = OP_RX.match(c.fn.name).group(2)
        k = 1 if kind == "red_mod" else 2
        self.same_cs(a[1])
        args = [self.limbs(a[0])] + ([self.limbs(a[2])] if k == 2 else [])
        for x, l in zip([a[0]] + ([a[2]] if k == 2 else []), args):
            word = self.num(self.s.get(self.s.get(x, "params"), "max_word"))
            for r in l:
                n = sum((k.cval() if w != ("i", 0) else 1) for w, k in r)
                if n * ((1 << 64) - 1) > word:
                    self.words.append("an operand of %s is a sum of %d limbs of 64 bits but its words are declared to be at most %s" % (kind, n, hex(word)))
                elif word > (1 << 65) - 2 or word > (1 << 64) - 1 and kind == "mult_mod":
                    raise Unsupported("size of the words of an operand")
        out = [self.alloc("o") for _ in range(4)]
        self.ops.append((kind, args, self.limbs(a[-1]), out))
        return self.bn4(out)

    def fieldnat(self, I, c, a):
        Circ.fieldnat(self, I, c, a)
        return self.bn4(self.nats[-1][1])

    def bn4(self, rows, word=(1 << 64) - 1, w=64):
        p = self.s.mk("zknova::gadget::big_nat::BigNatParams", min_bits=0, max_word=big(word), limb_width=w, n_limbs=len(rows))
        return self.s.mk("zknova::gadget::big_nat::BigNatAssignment<%s>" % self.d.base, limbs=vec(self.fa(r) for r in rows), params=p)

    def curve(self, I, c, a):
        kind = SP_RX.match(c.fn.name).group(2)
        if kind == "scalar_point":
            self.same_cs(a[1])
            ins = [self.point(a[0]), self.row(a[2])]
        else:
            self.same_cs(a[2])
            ins = [self.point(a[0]), self.point(a[1])]
        out = [self.alloc("p") for _ in range(3)]
        self.mults.append((kind, ins, out))
        return self.pa(out)

    def done(self):
        self.st = self.S.read(self.D, self.s.I.load(self.cs))
        p = self.d.q
        self.x = [Poly.const(1, p)] + [self.D.var("X%d" % i, p) for i in range(1, len(self.st["x"]))]
        self.w = [self.D.var("W%d" % i, p) for i in range(len(self.st["w"]))]
        self.eqs = [(self.ev(a), self.ev(b), self.ev(c)) for a, b, c in zip(self.st["a"], self.st["b"], self.st["c"])]


def instances(c):
    new = lambda nm, n: [c.alloc(nm) for _ in range(n)]
    U = {"W": new("UW", 3), "E": new("UE", 3), "u": c.alloc("Uu"), "x0": new("Ux0", 4), "x1": new("Ux1", 4)}
    u = {"W": new("uW", 3), "x0": c.alloc("ux0"), "x1": c.alloc("ux1")}
    return U, u, c.alloc("r"), new("T", 3)


def folding(ctx, d, part):
    def run(facts):
        c = Nat(ctx, d, facts, ("op", "nat"))
        s = c.s
        cd = OTHER[d.name]
        fn = "zknova::circuit::nifs::NifsCircuit::<%s>::verify::<zknova::%s>" % (d.full, cd)
        U, u, r, T = instances(c)
        f = c.prog.fn(fn)
        single = s.mk(SIN % d.full, commit_w=c.pa(u["W"]), x0=c.fa(u["x0"]), x1=c.fa(u["x1"]))
        rel = s.mk(REL % d.full, commit_w=c.pa(U["W"]), commit_e=c.pa(U["E"]), u=c.fa(U["u"]), x0=c.bn4(U["x0"]), x1=c.bn4(U["x1"]))
        out = c.relaxed(s.must(fn, c.cs, c.fa(r), rel, single, c.pa(T)))
        c.done()
        ev = c.ev
        if part == "u":
            return c.force([("the folded u", ev(out["u"]) - ev(U["u"]) - ev(r))])
        if part in ("W", "E"):
            base, add = (U["W"], u["W"]) if part == "W" else (U["E"], T)
            what = {"W": "the folded witness commitment", "E": "the folded error commitment"}[part]
            same = lambda a, b: all(c.force([("", ev(x) - ev(y))]) is None for x, y in zip(a, b))
            sums = [(i, o) for k, i, o in c.mults if k == "add" and same(o, out[part])]
            if not sums:
                raise Unsupported("%s is not the result of a point addition" % what)
            (p1, p2), _ = sums[0]
            prods = [(i, o) for k, i, o in c.mults if k == "scalar_point"]
            for x, y in ((p1, p2), (p2, p1)):
                m = [i for i, o in prods if same(o, y)]
                if not m:
                    continue
                pt, k = m[0]
                return c.force([("%s: the summand (coordinate %d)" % (what, j), ev(a) - ev(b)) for j, (a, b) in enumerate(zip(x, base))] +
                               [("%s: the multiplied point (coordinate %d)" % (what, j), ev(a) - ev(b)) for j, (a, b) in enumerate(zip(pt, add))] +
                               [("%s: the factor" % what, ev(k) - ev(r))])
            return "%s does not contain a multiple of a point" % what
        if c.words:
            return c.words[0]
        # x0, x1: U.x + r u.x reduced modulo the order of the folded curve's scalars
        p = d.q
        same = lambda a, b: len(a) == len(b) and c.force([("", ev(x) - ev(y)) for x, y in zip(a, b)]) is None
        order = [(d.p >> (64 * i)) & ((1 << 64) - 1) for i in range(4)]

        def value(limbs, depth=0):
            """the number as a polynomial of integers over named numbers, up to multiples of the order"""
            for nm, l in (("U." + part, U[part]), ):
                if same(limbs, l):
                    return {(nm,): 1}
            for kind, args, mod, o in c.ops:
                if len(limbs) == 4 and same(limbs, o):
                    mods = [ev(x) for x in mod]
                    if not all(x.is_const() for x in mods):
                        return "the modulus of %s is a free witness" % kind
                    if [x.cval() for x in mods] != order:
                        return "the modulus of %s is not the order of the scalars" % kind
                    vs = [value(a, depth + 1) for a in args]
                    bad = [v for v in vs if type(v) is str]
                    if bad:
                        return bad[0]
                    if len(vs) == 1:
                        return vs[0]
                    q = {}
                    for m1, k1 in vs[0].items():
                        for m2, k2 in vs[1].items():
                            m = tuple(sorted(m1 + m2))
                            q[m] = q.get(m, 0) + k1 * k2
                    return q
            for src, o in c.nats:
                if len(limbs) == 4 and same(limbs, o):
                    for nm, w in (("u." + part, u[part]), ("r", r)):
                        if not (ev(src) - ev(w)).t:
                            return {(nm,): 1}
                    for nm, w in [("u.x0", u["x0"]), ("u.x1", u["x1"]), ("U.u", U["u"])]:
                        if not (ev(src) - ev(w)).t:
                            return {(nm,): 1}
                    return "the converted number is another value"
            if depth < 4:
                # a sum of known numbers, limb by limb
                known = [U["x0"], U["x1"]] + [o for _, o in c.nats] + [o[3] for o in c.ops]
                for k in known:
                    rest = [ev(a) - ev(b) for a, b in zip(limbs, k)]
                    for k2 in known:
                        if len(k2) == len(limbs) and all(not (a - ev(b)).t for a, b in zip(rest, k2)):
                            v1, v2 = value(k, depth + 1), value(k2, depth + 1)
                            if type(v1) is str or type(v2) is str:
                                return v1 if type(v1) is str else v2
                            q = dict(v1)
                            for m, j in v2.items():
                                q[m] = q.get(m, 0) + j
                            return q
            for nm, l in (("U.x0", U["x0"]), ("U.x1", U["x1"])):
                if same(limbs, l):
                    return {(nm,): 1}
            fresh = [i for i, l in enumerate(limbs) if c.force([("", ev(l))]) is not None]
            if all(len(ev(limbs[i]).atoms()) == 1 and not mentions(c, ev(limbs[i])) for i in fresh) and fresh:
                return "limbs that no constraint mentions"
            raise Unsupported("unknown number in the folded %s" % part)

        v = value(out[part])
        if type(v) is str:
            return "the folded %s: %s" % (part, v)
        want = {("U." + part,): 1, tuple(sorted(("r", "u." + part))): 1}
        if {m: k for m, k in v.items() if k} != want:
            return "the folded %s is %s, not U.%s + r u.%s" % (part, " + ".join("%s%s" % ("" if k == 1 else "%d " % k, " ".join(m)) for m, k in v.items()), part, part)
        return None
    return guard(run)


def mentions(c, q):
    at = q.atoms()
    return any(at & e.atoms() for row in c.eqs for e in row)


# ---------------------------------------------------------------- integer equations
def bounds(c, inputs):
    """wire -> (lo, hi) of the integer (the canonical representative of the wire's value)"""
    b = dict(inputs)
    q = c.d.q
    for row, ws in c.bits.values():
        hi = q - 1
        for bits, bound in c.ranges:
            if bits == ws:
                hi = min(hi, bound)
            elif len(bits) < len(ws) and bits == ws[len(ws) - len(bits):]:
                pass      # only the low bits are bounded
        if len(row) >= 1:
            p = c.ev(row)
            at = list(p.atoms())
            if len(at) == 1 and p.t == {(at[0],): 1}:
                b[at[0]] = (0, min(hi, b.get(at[0], (0, q - 1))[1]))
    return b


def reduced(c, base):
    """the constraints with product wires replaced by products; base: atoms that stay"""
    env, out = {}, []
    one = Poly.const(1, c.d.q)

    def sub(p):
        r = Poly.const(0, c.d.q)
        for m, k in p.t.items():
            t = Poly.const(k, c.d.q)
            for a in m:
                t = t * (env[a] if a in env else Poly.var(a, c.d.q))
            r = r + t
        return r
    for a, b, k in c.eqs:
        sa, sb = sub(a), sub(b)
        if len(k.t) == 1 and sb.t and not sb.is_const() and not sa.is_const():
            (m, co), = k.t.items()
            if len(m) == 1 and m[0] not in env and m[0] not in base and m[0] not in (sa.atoms() | sb.atoms()):
                env[m[0]] = sa * sb * Poly.const(pow(co, -1, c.d.q), c.d.q)
                continue
        e = sa * sb - sub(k)
        if e.t:
            out.append(e)
    # wires with a constant value
    const = {}
    while True:
        k = next((i for i, e in enumerate(out) if len(e.atoms()) == 1 and all(len(m) <= 1 for m in e.t)), None)
        if k is None:
            return out, const
        (a,) = out[k].atoms()
        env = {a: Poly.const(-out[k].cval() * pow(out[k].t[(a,)], -1, c.d.q), c.d.q)}
        const[a] = env[a].cval()
        out = [e for e in (sub(e) if a in e.atoms() else e for e in out) if e.t]


def lifted(e, b, q):
    """integer coefficients of an equation modulo q that must hold between integers, or None"""
    best = None
    cands = [1]
    for co in e.t.values():
        cands.append(pow(co, -1, q))
        cands.append(-pow(co, -1, q) % q)
    for s in cands:
        t = {}
        for m, co in e.t.items():
            k = co * s % q
            t[m] = k - q if k > q // 2 else k
        lo, hi = span(t, b)
        if lo is not None and -q < lo and hi < q:
            return t
    return None


def span(t, b):
    lo = hi = 0
    for m, k in t.items():
        u = 1
        l = 1
        for a in m:
            if a not in b:
                return None, None
            l, u = l * b[a][0], u * b[a][1]
        lo += k * l if k > 0 else k * u
        hi += k * u if k > 0 else k * l
    return lo, hi


def imul(a, b):
    r = {}
    for m, k in a.items():
        for n, j in b.items():
            x = tuple(sorted(m + n))
            r[x] = r.get(x, 0) + k * j
    return r


def ilin(*ts):
    r = {}
    for f, t in ts:
        for m, k in t.items():
            r[m] = r.get(m, 0) + f * k
    return {m: k for m, k in r.items() if k}


def number(c, rows, w=64):
    """the integer of limbs, each a wire or a constant"""
    r = {}
    for i, row in enumerate(rows):
        p = c.ev(row)
        for m, k in p.t.items():
            r[m] = r.get(m, 0) + (k << (w * i))
    return r


def arithmetic(ctx, d, kind, part):
    def run(facts):
        c = Nat(ctx, d, facts)
        s = c.s
        cd = OTHER[d.name]
        fn = "zknova::gadget::big_nat::BigNatAssignment::<%s>::%s::<zknova::%s>" % (d.base, kind, cd)
        new = lambda nm: [c.alloc(nm) for _ in range(4)]
        word = (1 << 64) - 1 if kind == "mult_mod" else (1 << 65) - 2
        a = new("a")
        args = [c.bn4(a, word)]
        c.limit = {r[0][0]: word for r in a}
        one = Poly.const(1, d.q)
        mod = c.bn4([[(("i", 0), Poly.const((d.p >> (64 * i)) & ((1 << 64) - 1), d.q))] for i in range(4)])
        b = None
        if kind == "mult_mod":
            b = new("b")
            call = (args[0], c.cs, c.bn4(b), mod)
            c.limit.update({r[0][0]: (1 << 64) - 1 for r in b})
        else:
            call = (args[0], c.cs, mod)
        out = c.limbs(s.must(fn, *call))
        c.done()
        atom = lambda row: list(c.ev(row).atoms())[0]
        inputs = {atom(r): (0, word) for r in a}
        inputs.update({atom(r): (0, (1 << 64) - 1) for r in b or []})
        bd = bounds(c, inputs)
        if part == "bounded":
            for i, r in enumerate(out):
                p = c.ev(r)
                at = list(p.atoms())
                if len(at) != 1 or p.t != {(at[0],): 1}:
                    raise Unsupported("limb %d of the result is not a wire" % i)
                if bd.get(at[0], (0, d.q))[1] >= 1 << 64:
                    return "limb %d of the result is not forced to be below 2^64" % i
            return None
        eqs, const = reduced(c, set(bd))
        z = []
        for e in eqs:
            t = lifted(e, bd, d.q)
            if t is not None:
                z.append(t)
        A = number(c, a)
        P = imul(A, number(c, b)) if b else A
        R = number(c, out)
        # the quotient: remaining bounded wires that multiply the modulus
        if part == "identity":
            goal = {}
            for m, k in ilin((1, P), (-1, R)).items():
                for a1 in m:
                    k *= const.get(a1, 1)
                m = tuple(x for x in m if x not in const)
                goal[m] = goal.get(m, 0) + k
            if congruent(goal, z, d.p):
                return None
            return "the constraints do not force the result to be congruent to the %s modulo the order of the scalars%s" % (
                "product" if b else "number", "" if len(z) == len(eqs) else " (%d of %d equations hold between integers)" % (len(z), len(eqs)))
        if part == "complete":
            if c.overflow:
                return "a number of up to %d bits is split into limbs of %d bits in all" % c.overflow[0]
            return complete(c, z, bd, [at for r in out for at in c.ev(r).atoms()], d.p)
        return None
    return guard(run)


def congruent(goal, eqs, m):
    """the goal is a combination of the equations up to multiples of the prime m"""
    piv = []

    def red(r):
        r = {k: v % m for k, v in r.items() if v % m}
        for mon, p in piv:
            f = r.get(mon)
            if f:
                for k, v in p.items():
                    y = (r.get(k, 0) - f * v) % m
                    if y:
                        r[k] = y
                    else:
                        r.pop(k, None)
        return r
    for e in eqs:
        r = red(e)
        if r:
            mon = max(r, key=lambda k: (len(k), k))
            f = pow(r[mon], -1, m)
            piv.append((mon, {k: v * f % m for k, v in r.items()}))
    return not red(goal)


def complete(c, eqs, bd, inputs, m):
    """the ranges leave room for every value the honest prover may need"""
    order = {}
    for i, w in enumerate(c.w):
        order[list(w.atoms())[0]] = i
    bd, seen = dict(bd), set()
    for e in sorted(eqs, key=lambda e: max([order[a] for mon in e for a in mon] or [0])):
        # the wire introduced last, when it is linear in the equation and none of its factors is the modulus
        a = max((a for mon in e for a in mon), key=lambda a: order[a])
        co = e.get((a,))
        if a in seen:
            continue
        seen.add(a)
        if co is None or any(a in mon and len(mon) > 1 for mon in e) or abs(co) & (abs(co) - 1):
            continue
        lo, hi = span({mon: -k * (1 if co > 0 else -1) for mon, k in e.items() if mon != (a,)}, bd)
        lo, hi = -(-lo // abs(co)), hi // abs(co)
        if lo < 0 or hi > bd[a][1]:
            return "an honest carry may need values from %d bits (%s) but is restricted to %d bits" % (hi.bit_length(), "negative" if lo < 0 else "nonnegative", bd[a][1].bit_length())
    return None


def digits(ctx, d):
    """the limbs of a field element are the digits of its canonical representative"""
    def run(facts):
        c = Nat(ctx, d, facts)
        fn = "zknova::gadget::big_nat::BigNatAssignment::<%s>::witness_from_field_assignment::<zknova::%s>" % (d.base, OTHER[d.name])
        f = c.alloc("f")
        q = d.q
        out = c.limbs(c.s.must(fn, c.cs, c.fa(f), 64, 4))
        c.done()
        if len(out) != 4:
            return "%d limbs" % len(out)
        want = {}
        for i, r in enumerate(out):
            ds = [ws for row, ws in c.bits.values() if not (c.ev(row) - c.ev(r)).t]
            if not ds:
                return "limb %d is not bounded" % i
            ok = [ws for ws in ds if any(b == ws and bound < 1 << 64 for b, bound in c.ranges)]
            if not ok:
                return "limb %d is not forced to be below 2^64" % i
            for ws in ok:
                for k in range(64):
                    want.setdefault(64 * i + k, set()).add(ws[255 - k])
        eqs, _ = reduced(c, set())
        full = [b for b, bound in c.ranges if len(b) == 256 and bound < q and all(b[255 - k] in want[k] for k in range(256))]
        if not full:
            return "the bits of the limbs together are not forced to be below the modulus"
        for b in full:
            e = c.ev(f)
            for k in range(256):
                e = e - c.ev([(b[255 - k], Poly.const(1 << k, q))])
            if congruent(e.t, [x.t for x in eqs], q):
                return None
        return "the limbs are not forced to be those of the field element"
    return guard(run)


def run(ctx):
    for d in (DRIVERS["GrumpkinDriver"], DRIVERS["Bn254Driver"]):
        fn = "zknova::circuit::nifs::NifsCircuit::<%s>::verify" % d.full
        for part in ("W", "E", "u", "x0", "x1"):
            ctx.ob(fn, part, folding(ctx, d, part))
        bn = "zknova::gadget::big_nat::BigNatAssignment::<%s>::" % d.base
        ctx.ob(bn + "witness_from_field_assignment", "digits", digits(ctx, d))
        for kind in ("mult_mod", "red_mod"):
            for part in ("bounded", "identity", "complete"):
                ctx.ob(bn + kind, part, arithmetic(ctx, d, kind, part))
