"""Integer-polynomial domain for multi-precision arithmetic.

A machine integer is abstracted by an exact integer polynomial over atoms (input numbers and
quotients floor(e/2^k)); wrap-around, shifts, masks and borrows are expressed with quotient
atoms, kept in a normal form in which carry chains telescope.  Ranges are intervals, refined by
replacing quotients with named remainders."""
from fractions import Fraction
from functools import reduce
from math import gcd
from poly import Poly
from prog import Unsupported
from values import *


class IE:
    """integer expression"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = p

    def __eq__(self, o):
        return type(o) is IE and self.p == o.p

    def __hash__(self):
        return hash(self.p)

    def __repr__(self):
        return "IE(%s)" % self.p.show()


class OrV:
    """bitwise or of several non-negative words, only ever compared with zero"""
    __slots__ = ("ps",)

    def __init__(self, ps):
        self.ps = ps

    def __eq__(self, o):
        return type(o) is OrV and self.ps == o.ps


class AndB:
    """conjunction of equalities poly == 0"""
    __slots__ = ("ps", "neg")

    def __init__(self, ps, neg=False):
        self.ps = ps
        self.neg = neg

    def __eq__(self, o):
        return type(o) is AndB and self.ps == o.ps and self.neg == o.neg


def P(c):
    return Poly.const(c)


class LimbDomain:
    def __init__(self):
        self.atoms = []          # (kind, lo, hi)
        self.names = {}
        self.intern = {}
        self.rels = []           # s = w + 2^k f     [s, k, w-atom or None, f-atom, used-f, used-w]
        self.rel_of = {}         # atom -> (relation, "w" | "f")
        self.limb_atoms = {}     # input -> atoms of its words
        self.limb_w = {}
        self.limb0 = {}          # lowest word of an input -> poly
        self.eqs = {}            # eq0 atom -> poly
        self.rcache = {}
        self.fcache = {}
        self.ucache = {}
        self.I = None
        self.nrand = 0
        self.facts = []          # list of (poly, lo, hi)
        self.case = {}           # atom -> value (current case)

    def attach(self, I):
        self.I = I

    # ------------------------------------------------------------- atoms
    def new_atom(self, kind, lo, hi, name=None):
        i = len(self.atoms)
        self.atoms.append((kind, lo, hi))
        self.names[i] = name or "%s%d" % (kind, i)
        return i

    def number(self, name, lo, hi):
        """a fresh whole number in [lo,hi]"""
        return Poly.var(self.new_atom("in", lo, hi, name=name))

    def limbs_of(self, poly, n, w=64):
        """the n w-bit words of an input number"""
        lo, hi = self.rng(poly)
        assert lo >= 0 and hi < 1 << (n * w)
        nm = self.names[next(iter(poly.atoms()))]
        ws = [Poly.var(self.new_atom("limb", 0, min((1 << w) - 1, hi >> (w * i)), "%s[%d]" % (nm, i)))
              for i in range(n)]
        a0 = next(iter(ws[0].atoms()))
        src = next(iter(poly.atoms()))
        self.limb_atoms[src] = [next(iter(x.atoms())) for x in ws]
        self.limb_w[src] = w
        d = poly
        for i in range(1, n):
            d = d - ws[i].scale(1 << (w * i))
        self.limb0[a0] = d
        return tuple(self.mk(x) for x in ws)

    def mk(self, poly):
        return poly.cval() if poly.is_const() else IE(poly)

    def poly(self, v):
        if type(v) is int:
            return P(v)
        if type(v) is IE:
            return v.p
        if type(v) is AndB:
            return self.bool_poly(v)
        if type(v) is Ite:
            b = self.cond_poly(v.c)
            x, y = self.poly(self.I.simp(v.a)), self.poly(self.I.simp(v.b))
            return y + (x - y) * b
        if v is UNINIT:
            return P(0)
        raise Unsupported("integer expected, got %r" % (type(v).__name__,))

    def cond_poly(self, c):
        if type(c) is tuple and c[0] == "b":
            return c[1]
        raise Unsupported("condition %r in integer context" % (c,))

    # ------------------------------------------------------------ ranges
    def mono_range(self, m):
        lo, hi = 1, 1
        i = 0
        while i < len(m):
            j = i
            while j < len(m) and m[j] == m[i]:
                j += 1
            _, a, b = self.atoms[m[i]]
            if m[i] in self.case:
                a = b = self.case[m[i]]
            elif a == 0 and self.case and self.nonzero(m[i]):
                a = 1
            n = j - i
            c = [a ** n, b ** n]
            if n % 2 == 0 and a < 0 < b:
                c.append(0)
            a, b = min(c), max(c)
            c = [lo * a, lo * b, hi * a, hi * b]
            lo, hi = min(c), max(c)
            i = j
        return lo, hi

    def nonzero(self, x):
        """the current case says that x is not zero"""
        e = self.intern.get(("eq0", Poly.var(x)))
        return e is not None and self.case.get(e) == 0

    def rng(self, p):
        if self.case:
            return self.rng_(p)
        r = self.rcache.get(p)
        if r is None:
            r = self.rcache[p] = self.rng_(p)
        return r

    def rng_(self, p):
        nl = set()
        for m in p.t:
            if len(m) > 1:
                nl.update(m)
        if 0 < len(nl) <= 5 and all(self.atoms[a][2] - self.atoms[a][1] <= 1 for a in nl):
            # products of few two-valued atoms: exact over their combinations
            a = next(iter(nl))
            lo = hi = None
            vals = [self.case[a]] if a in self.case else sorted({self.atoms[a][1], self.atoms[a][2]})
            for v in vals:
                l, h = self.rng_(p.subst({a: P(v)}))
                lo, hi = l if lo is None else min(lo, l), h if hi is None else max(hi, h)
            return lo, hi
        lo = hi = 0
        for m, c in p.t.items():
            a, b = self.mono_range(m)
            if c > 0:
                lo += c * a
                hi += c * b
            else:
                lo += c * b
                hi += c * a
        return lo, hi

    def two_valued(self, a):
        k, lo, hi = self.atoms[a]
        return a not in self.case and hi - lo == 1 and k != "in"

    def bool_atoms(self, p):
        return [a for a in sorted(p.atoms()) if self.two_valued(a)]

    # ------------------------------------------------------------- splits
    def floor(self, p, k):
        return self.split(p, k, "f")

    def low(self, p, k):
        return self.split(p, k, "w")

    def split(self, s, k, part):
        """s = w + 2^k f with 0 <= w < 2^k"""
        if k == 0:
            return s if part == "f" else P(0)
        lo, hi = self.rng(s)
        if lo >> k == hi >> k:
            f = P(lo >> k)
            return f if part == "f" else s - f.scale(1 << k)
        # powers of two common to the non-constant part
        g = reduce(gcd, (c for m, c in s.t.items() if m))
        j = min((g & -g).bit_length() - 1, k)
        if j:
            c = s.t.get((), 0)
            q = Poly({m: v for m, v in ((m, x >> j) for m, x in s.t.items()) if v})
            r = self.split(q, k - j, part)
            return r if part == "f" else r.scale(1 << j) + P(c & ((1 << j) - 1))
        # whole multiples of 2^k
        M = 1 << k
        s1, s0 = {}, {}
        for m, c in s.t.items():
            if m == ():
                q, r = c >> k, c & (M - 1)
                if q:
                    s1[m] = q
                if r:
                    s0[m] = r
            elif c % M == 0:
                s1[m] = c >> k
            else:
                s0[m] = c
        if s1:
            r = self.split(Poly(s0), k, part)
            return r + Poly(s1) if part == "f" else r
        bs = self.bool_atoms(s)
        if 0 < len(bs) <= 3 and len(bs) == len(s.atoms()):
            f = self.by_cases(s, k, bs)
            if f is not None:
                return f if part == "f" else s - f.scale(M)
        # a two-valued quotient does not depend on the modulus
        if k > 63:
            for j in (0, 1):
                l, h = lo - (j << k), hi - (j << k)
                k2 = max((-l - 1).bit_length() if l < 0 else 0, h.bit_length() if h > 0 else 0)
                k2 = min(k - max(0, k - max(k2, 1)) // 64 * 64, max(64, -(-k2 // 64) * 64))
                if k2 < k:
                    f = self.split(s - P(j << k), k2, "f") + P(j)
                    return f if part == "f" else s - f.scale(M)
        key = (s, k)
        ri = self.intern.get(key)
        if ri is None:
            zero = self.zero_mod(s, k)
            w = None if zero else self.new_atom("w", 0, min(M - 1, hi) if lo >= 0 else M - 1)
            f = self.nested_floor(s, k)
            shared = f is not None
            if f is None:
                f = self.new_atom("f", lo >> k, hi >> k)
            ri = len(self.rels)
            self.rels.append([s, k, w, f, shared])
            self.intern[key] = ri
            if w is not None:
                self.rel_of[w] = (ri, "w")
            if f not in self.rel_of:
                self.rel_of[f] = (ri, "f")
        r = self.rels[ri]
        if part == "f":
            r[4] = True
            return Poly.var(r[3])
        return P(0) if r[2] is None else Poly.var(r[2])

    def nested_floor(self, s, k):
        """floor(floor(e/2^j)/2^k) is the quotient atom of e by 2^(j+k)"""
        if len(s.t) != 1:
            return None
        (m, c), = s.t.items()
        if c != 1 or len(m) != 1:
            return None
        r = self.rel_of.get(m[0])
        if r is None or r[1] != "f":
            return None
        e, j = self.rels[r[0]][:2]
        q = self.split(e, j + k, "f")
        (m, c), = q.t.items() if len(q.t) == 1 else (((), 0),)
        return m[0] if c == 1 and len(m) == 1 else None

    def zero_mod(self, s, k):
        """s == 0 mod 2^k, by unfolding at most three of the newest words"""
        M = 1 << k
        for _ in range(4):
            s = Poly({m: c % M for m, c in s.t.items() if c % M})
            if s.is_zero():
                return True
            ws = [a for a in s.atoms() if a in self.rel_of and self.rel_of[a][1] == "w"
                  and self.rels[self.rel_of[a][0]][1] >= k]
            if not ws:
                return False
            a = max(ws)
            s = s.subst({a: self.rels[self.rel_of[a][0]][0]})
        return False

    def by_cases(self, rp, k, bs):
        """the quotient as a multilinear function of two-valued atoms"""
        if not bs:
            lo, hi = self.rng(rp)
            if lo >> k != hi >> k:
                return None
            return P(lo >> k)
        a = bs[0]
        _, lo, hi = self.atoms[a]
        vals = []
        for v in (lo, hi):
            vals.append(self.by_cases(rp.subst({a: P(v)}), k, bs[1:]))
            if vals[-1] is None:
                return None
        f0, f1 = vals
        return f0 + (f1 - f0) * (Poly.var(a) - P(lo))

    # -------------------------------------------------- unfolding of words
    def unfold(self, p, keep=()):
        """eliminate words through their defining relations (over the rationals); carries cancel"""
        if not keep:
            r = self.ucache.get(p)
            if r is not None:
                return r
        t = Poly({m: Fraction(c) for m, c in p.t.items()})
        while True:
            best = -1
            for a in t.atoms():
                if a > best and a not in keep and self.def_of(a) is not None:
                    best = a
            if best < 0:
                if not keep:
                    self.ucache[p] = t
                return t
            t = t.subst({best: self.def_of(best)})

    def def_of(self, a):
        if a in self.limb0:
            return self.limb0[a]
        r = self.rel_of.get(a)
        if r is None:
            return None
        s, k, w, f, used = self.rels[r[0]]
        if r[1] == "w":
            _, lo, hi = self.atoms[f]
            if not used and hi - lo > 3:
                return None
            return s - Poly({(f,): 1 << k})
        if w is None:
            inv = Fraction(1, 1 << k)
            return Poly({m: c * inv for m, c in s.t.items()})
        return None

    def carry_facts(self, a):
        key = (a, frozenset(self.case))
        r = self.fcache.get(key)
        if r is None:
            r = self.fcache[key] = list(self.carry_facts_(a))
        return r

    def carry_facts_(self, a):
        """linear facts  lo <= E <= hi  implied by the relations that define a carry"""
        r = self.rel_of.get(a)
        if r is None or r[1] != "f":
            return
        s, k, w, f, _ = self.rels[r[0]]
        E = self.unfold(s) - Poly({(f,): Fraction(1 << k)})
        lo, hi = Fraction(0), Fraction((1 << k) - 1)
        if w is None:
            hi = Fraction(0)
        for _ in range(40):
            yield E, lo, hi
            cs = [x for x in E.atoms() if x != a and x not in self.case and self.rel_of.get(x, (0, ""))[1] == "f"]
            if not cs:
                return
            c = max(cs)
            s2, k2, w2, f2, _ = self.rels[self.rel_of[c][0]]
            col = E.collect(c)
            if set(col) - {0, 1} or not col[1].is_const():
                return
            co = col[1].cval()
            rest = col.get(0, P(0))
            # c = (s2 - w2) / 2^k2
            inv = Fraction(1, 1 << k2)
            E = rest + self.unfold(s2).scale(co * inv)
            W = co * inv * ((1 << k2) - 1)
            lo, hi = lo + min(0, W), hi + max(0, W)

    # ------------------------------------------------------------- cases
    def apply_case(self, p):
        hit = {a: P(v) for a, v in self.case.items() if a in p.atoms()}
        if hit:
            p = p.subst(hit)
        for _ in range(4):
            q = p
            for a, v in self.case.items():
                if a in self.eqs and v:
                    e = self.unfold(self.eqs[a])
                    for m, c in e.t.items():
                        if len(m) == 1 and abs(c) == 1 and m[0] not in self.case and sum(m[0] in x for x in e.t) == 1:
                            if any(m[0] in x for x in p.t):
                                p = p.subst({m[0]: (Poly({m: c}) - e).scale(c)})
                            break
            if p == q:
                break
        return p

    def case_facts(self):
        for x, d in self.limb0.items():
            _, lo, hi = self.atoms[x]
            yield self.apply_case(d), lo, hi
        for f in self.facts:
            yield self.apply_case(self.unfold(f[0])), f[1], f[2]
        for a, v in self.case.items():
            if a in self.eqs:
                e = self.apply_case(self.unfold(self.eqs[a]))
                if v:
                    yield e, 0, 0
                else:
                    lo, hi = self.rng_(e)
                    if lo == 0:
                        yield e, 1, hi
                    elif hi == 0:
                        yield e, lo, -1
            else:
                for E, lo, hi in self.carry_facts(a):
                    yield self.apply_case(E), lo, hi

    def bounds(self, p):
        """interval of an unfolded poly in the current case"""
        p = self.apply_case(p)
        lo, hi = self.rng_(p)
        for e, a, b in self.case_facts():
            q = rel(p, e)
            if q is None:
                continue
            c, rest = q
            rl, rh = self.rng_(rest)
            xs = (c * a, c * b)
            lo, hi = max(lo, rl + min(xs)), min(hi, rh + max(xs))
        return lo, hi

    def consistent(self):
        fs = list(self.case_facts())
        for e, a, b in fs:
            lo, hi = self.rng_(e)
            if lo > b or hi < a:
                return False
        for e, a, b in fs:
            lo, hi = self.bounds(e)
            if lo > b or hi < a:
                return False
        return True

    def cases(self, p, f, limit=8):
        """run f(unfolded poly) in every consistent combination of two-valued atoms; f returns a
        counter-example or None"""
        def go(q, depth):
            bs = self.bool_atoms(q)
            if not bs:
                return f(q)
            if depth >= limit:
                raise Unsupported("too many cases")
            a = bs[-1]
            _, lo, hi = self.atoms[a]
            for v in (lo, hi):
                self.case[a] = v
                try:
                    if not self.consistent():
                        continue
                    r = go(self.apply_case(q), depth + 1)
                    if r is not None:
                        return r
                finally:
                    del self.case[a]
            return None
        return go(self.unfold(p), 0)

    def value(self, words, w=64):
        t = P(0)
        for i, x in enumerate(words):
            t = t + self.poly(x).scale(1 << (w * i))
        return t

    # ------------------------------------------------ counterexamples
    def assignment(self, vals):
        """values of all atoms implied by their definitions, for given values of the input numbers"""
        v = dict(vals)
        rels = {}
        for s, k, w, f, _ in self.rels:
            for x, q in ((w, "w"), (f, "f")):
                if x is not None:
                    rels.setdefault(x, (s, k, q))
        for a in range(len(self.atoms)):
            if a in v:
                continue
            if a in rels:
                s, k, q = rels[a]
                s = s.evaluate(v)
                v[a] = s >> k if q == "f" else s & ((1 << k) - 1)
            elif a in self.eqs:
                v[a] = int(self.eqs[a].evaluate(v) == 0)
            else:
                return None
        return v

    def counterexamples(self, seeds, tries=3000):
        """assignments of the input numbers worth looking at: extreme values, words built from
        extreme words and from the words of the given numbers, and arbitrary ones"""
        import random
        R = random.Random(7)
        ins = [a for a, x in enumerate(self.atoms) if x[0] == "in"]
        limbs = {a: [x for x in self.atoms_of_limbs(a)] for a in ins}
        pool = [0, 1, 2, (1 << 63), (1 << 64) - 1, (1 << 64) - 2]
        for s in seeds:
            while s:
                w = s & ((1 << 64) - 1)
                pool += [w, (w - 1) % (1 << 64), (w + 1) % (1 << 64), (-w) % (1 << 64)]
                s >>= 64

        def pick(a):
            _, lo, hi = self.atoms[a]
            r = R.random()
            if r < .25:
                return min(max(R.choice([lo, lo + 1, hi, hi - 1, (lo + hi) // 2, (lo + hi) // 2 + 1]), lo), hi)
            if r < .4:
                return R.randint(lo, hi)
            if r < .6:
                # words that are mostly zero or full
                n, x, full = (hi.bit_length() + 63) // 64, 0, R.random() < .3
                for i in range(n):
                    top = hi >> (64 * i) if i == n - 1 else (1 << 64) - 1
                    x |= (R.randint(0, top) if R.random() < .35 else top if full else 0) << (64 * i)
                if lo <= x <= hi:
                    return x
            for _ in range(20):
                x = 0
                for i in range((hi.bit_length() + 63) // 64):
                    x |= (R.choice(pool) if R.random() < .8 else R.getrandbits(64)) << (64 * i)
                if R.random() < .6:
                    x %= hi + 1
                if lo <= x <= hi:
                    return x
            return R.randint(lo, hi)
        for _ in range(tries):
            vals = {a: pick(a) for a in ins}
            full = dict(vals)
            for a in ins:
                for i, l in enumerate(limbs[a]):
                    full[l] = (vals[a] >> (self.limb_w[a] * i)) & ((1 << self.limb_w[a]) - 1)
            v = self.assignment(full)
            if v is None:
                return
            yield vals, v

    def panic_at(self, panic, seeds):
        """operands under which the recorded condition of the panic holds"""
        if "(conditional)" in panic.msg or any(c[0] != "b" for c in panic.facts):
            return None
        for vals, v in self.counterexamples(seeds):
            if all((c[1].evaluate(v) != 0) == val for c, val in panic.facts.items()):
                return ", ".join("%s = %#x" % (self.names[a], x) for a, x in vals.items()) or "any operands"
        return None

    def atoms_of_limbs(self, a):
        return self.limb_atoms.get(a, ())

    # ------------------------------------------------------- domain hooks
    def const(self, tid, v):
        return None

    def aggregate(self, tid, v, ops):
        return None

    def static(self, I, name, T, v):
        raise Unsupported("static " + name)

    def child(self, v, i):
        raise Unsupported("field of %s" % type(v).__name__)

    def upd(self, v, path, k, val):
        raise Unsupported("update of %s" % type(v).__name__)

    def discr(self, v, tid):
        raise Unsupported("discriminant of %s" % type(v).__name__)

    def ty(self, tid):
        return self.I.p.types[tid]

    def wrap(self, p, T):
        b = T["b"]
        if T["k"] == "uint":
            return self.mk(self.low(p, b))
        h = P(1 << (b - 1))
        return self.mk(self.low(p + h, b) - h)

    def binop(self, op, a, b, tid):
        T = self.ty(tid)
        if T["k"] == "bool":
            return self.bool_op(op, a, b)
        if type(a) is OrV or type(b) is OrV:
            return self.or_op(op, a, b)
        if op == "Eq" or op == "Ne":
            r = self.eq(a, b)
            if op == "Ne":
                r = self.not_(r)
            return r
        if op in ("Lt", "Le", "Gt", "Ge"):
            x, y = self.poly(a), self.poly(b)
            if op == "Lt":
                return self.mk(self.isneg(x - y))
            if op == "Ge":
                return self.mk(P(1) - self.isneg(x - y))
            if op == "Gt":
                return self.mk(self.isneg(y - x))
            return self.mk(P(1) - self.isneg(y - x))
        if op in ("Shl", "ShlUnchecked", "Shr", "ShrUnchecked"):
            if type(b) is not int:
                raise Unsupported("shift by a symbolic amount")
            b %= T["b"]
            x = self.poly(a)
            if op.startswith("Shr"):
                return self.mk(self.floor(x, b))
            return self.wrap(x.scale(1 << b), T)
        if op in ("BitAnd", "BitOr", "BitXor"):
            return self.bitop(op, a, b, T)
        x, y = self.poly(a), self.poly(b)
        if op in ("Add", "AddUnchecked"):
            return self.wrap(x + y, T)
        if op in ("Sub", "SubUnchecked"):
            return self.wrap(x - y, T)
        if op in ("Mul", "MulUnchecked"):
            return self.wrap(x * y, T)
        if op in ("Div", "Rem") and type(b) is int and b > 0 and b & (b - 1) == 0 and T["k"] == "uint":
            k = b.bit_length() - 1
            return self.mk(self.floor(x, k) if op == "Div" else self.low(x, k))
        if op in ("Div", "Rem") and type(b) is int and b > 0:
            lo, hi = self.rng(x)
            if 0 <= lo and lo // b == hi // b:
                q = lo // b
                return q if op == "Div" else self.mk(x - P(q * b))
        raise Unsupported("binop %s on symbolic integers" % op)

    def isneg(self, e):
        lo, hi = self.rng(e)
        if lo >= 0:
            return P(0)
        if hi < 0:
            return P(1)
        k = max((-lo).bit_length(), hi.bit_length())
        k = -(-k // 64) * 64
        while lo < -(1 << k) or hi >= 1 << k:
            k += 64
        return -self.floor(e, k)

    def eq(self, a, b):
        if type(a) is AndB or type(b) is AndB:
            if type(b) is AndB:
                a, b = b, a
            if b == 1:
                return a
            if b == 0:
                return self.not_(a)
            raise Unsupported("equality of booleans")
        d = self.poly(a) - self.poly(b)
        if d.is_const():
            return int(d.is_zero())
        lo, hi = self.rng(d)
        if lo > 0 or hi < 0:
            return 0
        if lo == hi == 0:
            return 1
        if hi - lo == 1:
            # two-valued
            if hi == 0:
                return self.mk(P(1) + d) if lo == -1 else 0
            if lo == 0:
                return self.mk(P(1) - d)
        return AndB((d,))

    def not_(self, r):
        if type(r) is int:
            return 1 - r
        if type(r) is AndB:
            return AndB(r.ps, not r.neg)
        return self.mk(P(1) - r.p)

    def bool_op(self, op, a, b):
        if op in ("Eq", "Ne"):
            r = self.eq(a, b)
            return self.not_(r) if op == "Ne" else r
        for x, y in ((a, b), (b, a)):
            if type(x) is int:
                if op == "BitAnd":
                    return y if x else 0
                if op == "BitOr":
                    return 1 if x else y
                return self.not_(y) if x else y
        if op == "BitAnd" and type(a) is AndB and type(b) is AndB and not a.neg and not b.neg:
            return AndB(a.ps + b.ps)
        if op == "BitOr" and type(a) is AndB and type(b) is AndB and a.neg and b.neg:
            return AndB(a.ps + b.ps, True)
        x, y = self.poly(a), self.poly(b)
        if op == "BitAnd":
            return self.mk(x * y)
        if op == "BitOr":
            return self.mk(x + y - x * y)
        return self.mk(x + y - (x * y).scale(2))

    def bool_poly(self, v):
        """0/1 polynomial of a conjunction of equalities"""
        ps = v.ps
        nonneg = []
        for p in ps:
            lo, hi = self.rng(p)
            if lo >= 0:
                nonneg.append(p)
            elif hi <= 0:
                nonneg.append(-p)
            else:
                nonneg = None
                break
        if nonneg is None:
            if len(ps) == 1:
                e = self.norm_eq(ps[0])
            else:
                # words of a difference: the word-weighted sum is zero iff every word is zero when
                # every word is in (-2^64, 2^64)
                e = self.weighted(ps)
        else:
            e = self.weighted(nonneg)
        at = self.eq0_atom(e)
        r = Poly.var(at)
        return P(1) - r if v.neg else r

    def norm_eq(self, e):
        g = reduce(gcd, e.t.values())
        if g > 1:
            e = Poly({m: c // g for m, c in e.t.items()})
        lead = min(e.t.items())
        if lead[1] < 0:
            e = -e
        return e

    def weighted(self, ps):
        if len(ps) == 1:
            return ps[0]
        for w in (64, 8, 1):
            ok = True
            for p in ps:
                lo, hi = self.rng(p)
                if lo <= -(1 << w) or hi >= 1 << w:
                    ok = False
            if not ok:
                continue
            # sum p_i 2^(w i) = 0 iff all zero (each |p_i| < 2^w): digits of zero are unique only for
            # non-negative words or differences of words; both hold here
            a = b = P(0)
            for i, p in enumerate(ps):
                a = a + p.scale(1 << (w * i))
                b = b + p.scale(1 << (w * (len(ps) - 1 - i)))
            return a if len(a.t) <= len(b.t) else b
        raise Unsupported("conjunction of wide equalities")

    def eq0_atom(self, e):
        key = ("eq0", e)
        at = self.intern.get(key)
        if at is None:
            at = self.new_atom("eq0", 0, 1)
            self.eqs[at] = e
            self.intern[key] = at
        return at

    def or_op(self, op, a, b):
        if op == "BitOr":
            ps = []
            for v in (a, b):
                if type(v) is OrV:
                    ps += list(v.ps)
                else:
                    ps.append(self.poly(v))
            return OrV(tuple(ps))
        if op in ("Eq", "Ne"):
            o, z = (a, b) if type(a) is OrV else (b, a)
            if z == 0 and type(z) is int:
                return AndB(o.ps, op == "Ne")
        raise Unsupported("%s of a bitwise or" % op)

    def mask_of(self, p, w):
        """B when p = (2^w - 1) * B with B in {0,1}"""
        M = (1 << w) - 1
        if all(c % M == 0 for c in p.t.values()):
            B = Poly({m: c // M for m, c in p.t.items()})
            lo, hi = self.rng(B)
            if 0 <= lo and hi <= 1:
                return B
        return None

    def bitop(self, op, a, b, T):
        w = T["b"]
        if T["k"] == "int":
            raise Unsupported("bit operation on signed symbolic integer")
        for x, y in ((a, b), (b, a)):
            if type(x) is int:
                if op == "BitAnd":
                    if x == 0:
                        return 0
                    if x & (x + 1) == 0:
                        return self.mk(self.low(self.poly(y), x.bit_length()))
                    # contiguous mask
                    tz = (x & -x).bit_length() - 1
                    if (x >> tz) & ((x >> tz) + 1) == 0:
                        q = self.low(self.floor(self.poly(y), tz), (x >> tz).bit_length())
                        return self.mk(q.scale(1 << tz))
                elif x == 0:
                    return y
        pa, pb = self.poly(a), self.poly(b)
        if op == "BitAnd":
            for p, q in ((pa, pb), (pb, pa)):
                B = self.mask_of(p, w)
                if B is not None:
                    return self.mk(B * q)
            ra, rb = self.rng(pa), self.rng(pb)
            if ra[0] >= 0 and rb[0] >= 0 and ra[1] <= 1 and rb[1] <= 1:
                return self.mk(pa * pb)
            # one-bit operand
            for (r, p, q) in ((ra, pa, pb), (rb, pb, pa)):
                if r[0] >= 0 and r[1] <= 1:
                    return self.mk(p * self.low(q, 1))
        if op in ("BitOr", "BitXor"):
            ra, rb = self.rng(pa), self.rng(pb)
            for (r, p, q) in ((ra, pa, pb), (rb, pb, pa)):
                k = r[1].bit_length()
                if r[0] >= 0 and all(c % (1 << k) == 0 for c in q.t.values()):
                    return self.mk(p + q)
            if ra[0] >= 0 and rb[0] >= 0 and ra[1] <= 1 and rb[1] <= 1:
                s = pa + pb - pa * pb
                return self.mk(s if op == "BitOr" else s - pa * pb)
            if op == "BitOr":
                return OrV((pa, pb))
            # x ^ y only ever compared with zero: x - y
        raise Unsupported("%s on symbolic words" % op)

    def checked(self, op, a, b, tid):
        T = self.ty(tid)
        x, y = self.poly(a), self.poly(b)
        if op == "Add":
            full = x + y
        elif op == "Sub":
            full = x - y
        elif op == "Mul":
            full = x * y
        else:
            return Agg(None, 0, (self.binop(op, a, b, tid), 0))
        r = self.wrap(full, T)
        d = full - self.poly(r)
        if d.is_zero():
            return Agg(None, 0, (r, 0))
        return Agg(None, 0, (r, self.not_(self.eq(self.mk(full), r))))

    def unop(self, op, a, tid):
        T = self.ty(tid)
        if op == "Not":
            if T["k"] == "bool":
                return self.not_(a)
            if T["k"] == "uint":
                return self.mk(P((1 << T["b"]) - 1) - self.poly(a))
        if op == "Neg":
            return self.wrap(-self.poly(a), T)
        raise Unsupported("unop " + op)

    def cast(self, v, st, dt):
        S, D = self.ty(st), self.ty(dt)
        if type(v) is OrV:
            return v if D["b"] >= S["b"] else OrV(tuple(self.low(p, D["b"]) for p in v.ps))
        if type(v) is AndB:
            v = self.mk(self.bool_poly(v))
            if type(v) is int:
                return v
        if S["k"] == "bool" or (S["k"] == "uint" and D["k"] in ("uint",) and D["b"] >= S["b"]):
            return v
        return self.wrap(self.poly(v), D)

    def transmute(self, v, st, dt):
        raise Unsupported("transmute")

    def concretize(self, v):
        v = self.I.simp(v)
        if type(v) is int:
            return v
        p = self.poly(v)
        lo, hi = self.rng(p)
        if lo == hi:
            return lo
        raise Unsupported("symbolic index or length")

    def as_gate(self, v, term=None):
        if type(v) is AndB:
            return Ite(("b", self.bool_poly(AndB(v.ps))), 0 if v.neg else 1, 1 if v.neg else 0)
        if type(v) is IE:
            lo, hi = self.rng(v.p)
            if lo == hi:
                return lo
            if lo == 0 and hi == 1:
                # orient so that a gate and its negation share one condition
                q = v.p
                if q.t.get((), 0) == 1:
                    return Ite(("b", P(1) - q), 0, 1)
                return Ite(("b", q), 1, 0)
            if term is not None:
                r = UNINIT if False else None
                vals = [int(x[0]) for x in term[3]]
                other = next(x for x in range(1 << 20) if x not in vals)
                res = other
                for x in reversed(vals):
                    e = self.eq(v, x)
                    if type(e) is int:
                        if e:
                            res = x
                        continue
                    g = self.as_gate(e)
                    res = Ite(g.c, x if g.a else res, x if g.b else res)
                return res
        raise Unsupported("branch on %r" % (v,))

    def feasible(self, facts, c, val):
        lo, hi = self.rng(c[1])
        return (hi >= 1) if val else (lo <= 0)

    def refine(self, v, c, val):
        return v

    def join_first(self, c, a, b):
        return None

    def join(self, c, a, b):
        if type(a) in (int, IE) and type(b) in (int, IE):
            x, y = self.poly(a), self.poly(b)
            return self.mk(y + (x - y) * self.cond_poly(c))
        return None

    def decide(self, g):
        return None

    def int_fn(self, n, xs, t):
        return None

    def from_bytes(self, bs, t):
        return None

    def fresh_int(self, name, bits):
        self.nrand += 1
        return IE(self.number("%s%d" % (name, self.nrand), 0, (1 << bits) - 1))

    def cmp3(self, x, y, t):
        out = Agg(None, 2, ())
        for op, v in (("Eq", 1), ("Lt", 0)):
            b = self.binop(op, x, y, t)
            if type(b) is int:
                out = Agg(None, v, ()) if b else out
            else:
                out = self.I.mk_ite(("b", self.poly(b)), Agg(None, v, ()), out)
        return out


def rel(p, e):
    """p = c*e + rest with a top monomial of e cancelled"""
    best = None
    for m, ce in e.t.items():
        if m == () or m not in p.t:
            continue
        c = p.t[m] / Fraction(ce)
        rest = p - e.scale(c)
        if best is None or len(rest.t) < len(best[1].t):
            best = (c, rest)
    return best
