"""Algebraic domain for prime-field code.

A limb array that holds a canonical residue is abstracted by one polynomial modulo the field
prime.  The limb routines are replaced by their specifications, which A01 establishes from their
bodies; everything above them is analysed.  Branch conditions are polynomial equations."""
from consts_ import PRIMES
from poly import Poly
from prog import Unsupported
from values import *
from interp import ImpossibleVariant
import re

M64 = (1 << 64) - 1


def words(x, n):
    return tuple((x >> (64 * i)) & M64 for i in range(n))


class Num:
    """n-limb canonical residue equal to poly mod p"""
    __slots__ = ("p", "poly", "n")

    def __init__(self, p, poly, n):
        self.p = p
        self.poly = poly
        self.n = n

    def __eq__(self, o):
        return type(o) is Num and self.p == o.p and self.poly == o.poly

    def __hash__(self):
        return hash((self.p, self.poly))

    def __repr__(self):
        return "Num(%s)" % self.poly.show()


class Raw:
    """n-limb unknown integer below 2^(64 n)"""
    __slots__ = ("key", "n")

    def __init__(self, key, n):
        self.key = key
        self.n = n

    def __eq__(self, o):
        return type(o) is Raw and self.key == o.key

    def __hash__(self):
        return hash(self.key)

    def __repr__(self):
        return "Raw(%s)" % (self.key,)


class Word:
    __slots__ = ("num", "i")

    def __init__(self, num, i):
        self.num = num
        self.i = i

    def __eq__(self, o):
        return type(o) is Word and self.i == o.i and self.num == o.num

    def __hash__(self):
        return hash((self.num, self.i))

    def __repr__(self):
        return "%r[%d]" % (self.num, self.i)


class WConj:
    """conjunction (or its negation) of word equalities of one number"""
    __slots__ = ("num", "m", "neg")

    def __init__(self, num, m, neg=False):
        self.num = num
        self.m = m
        self.neg = neg

    def __eq__(self, o):
        return type(o) is WConj and self.num == o.num and self.m == o.m and self.neg == o.neg


class FieldDomain:
    def __init__(self):
        self.I = None
        self.names = {}
        self.info = {}          # atom -> (kind, data)
        self.intern = {}
        self.nfresh = 0
        self.assumed = {}       # conditions assumed throughout

    def attach(self, I):
        self.I = I

    # -------------------------------------------------------------- atoms
    def atom(self, key, name=None):
        i = self.intern.get(key)
        if i is None:
            i = len(self.names)
            self.intern[key] = i
            self.names[i] = name or "%s%d" % (key[0], i)
            self.info[i] = key
        return i

    def var(self, name, p):
        return Poly.var(self.atom(("in", name, p), name), p)

    def fresh(self, kind, p):
        self.nfresh += 1
        return Poly.var(self.atom((kind, self.nfresh, p)), p)

    def keyed(self, p, *key):
        return Poly.var(self.atom(key + (p,), "%s#%d" % (key[0], len(self.names))), p)

    def num(self, p, poly):
        n = PRIMES[p]
        if poly.is_const():
            return Arr(words(poly.cval(), n))
        return Num(p, poly, n)

    def R(self, p):
        return (1 << (64 * PRIMES[p])) % p

    def elem(self, tid, p, x):
        """field element (Montgomery) whose value is the polynomial x"""
        return Agg(tid, 0, (self.num(p, x.scale(self.R(p))),))

    def val(self, v, p=None):
        """value polynomial of a field element"""
        v = self.I.settle(v, "gated field element")
        if type(v) is Agg and len(v.f) == 1:
            v = self.I.settle(v.f[0], "gated field element")
        q, ok = self.asnum(v, p)
        if not ok:
            raise Unsupported("limbs not canonical")
        return q.scale(pow(self.R(q.p), -1, q.p))

    def asnum(self, v, p):
        """(poly mod p, is canonical)"""
        t = type(v)
        if t is Num:
            if p is None or v.p == p:
                return v.poly, True
            return self.keyed(p, "lift", v), v.p <= p
        if t is Raw:
            return self.keyed(p, "raw", v.key), False
        if t is Arr:
            e = [self.I.simp(x) for x in v.e]
            if any(type(x) is Ite for x in e) and all(type(x) in (int, Ite) for x in e):
                e = [self.I.settle(x, "gated words") for x in e]
            if all(type(x) is int for x in e):
                k = sum(x << (64 * i) for i, x in enumerate(e))
                if p is None:
                    raise Unsupported("modulus unknown")
                return Poly.const(k, p), k < p
            if all(type(x) is Word and x.i == i and x.num == e[0].num for i, x in enumerate(e)) and e[0].num.n == len(e):
                return self.asnum(e[0].num, p)
            if p is not None and not any(type(x) is Ite for x in e):
                return self.keyed(p, "words", tuple(hk(x) for x in e)), False
        raise Unsupported("number expected, got %s" % t.__name__)

    # ------------------------------------------------------------- hooks
    def const(self, tid, v):
        return None

    def aggregate(self, tid, v, ops):
        return None

    def static(self, I, name, T, v):
        raise Unsupported("static " + name)

    def elems(self, v):
        if type(v) in (Num, Raw):
            return tuple(Word(v, i) for i in range(v.n))
        return None

    def child(self, v, i):
        if type(v) in (Num, Raw):
            return Word(v, i)
        raise Unsupported("projection of %s" % type(v).__name__)

    def upd(self, v, path, k, val):
        if type(v) in (Num, Raw):
            return self.I.upd(Arr(self.elems(v)), path, k, val)
        raise Unsupported("update of %s" % type(v).__name__)

    def discr(self, v, tid):
        raise Unsupported("discriminant of %s" % type(v).__name__)

    def binop(self, op, a, b, tid):
        if op in ("Eq", "Ne"):
            r = self.eq(a, b)
            return self.not_(r) if op == "Ne" else r
        T = self.I.p.types[tid]
        if T["k"] == "bool" or type(a) is WConj or type(b) is WConj:
            return self.bool2(op, a, b)
        for x, y in ((a, b), (b, a)):
            if type(x) is int and type(y) is Opaque:
                if x == 0 and op in ("Add", "BitOr", "BitXor"):
                    return y
                if x == 0 and op in ("Mul", "BitAnd"):
                    return 0
        if b == 0 and op in ("Sub", "Shl", "Shr"):
            return a
        return Opaque(op, (a, b))

    def eq(self, a, b):
        if type(a) is int and type(b) is int:
            return int(a == b)
        if a == b:
            return 1
        if type(b) is Word and type(a) is not Word:
            a, b = b, a
        if type(a) is Word:
            return self.wconj(WConj(a.num, {a.i: b}))
        if type(a) in (WConj, Ite) and type(b) is int:
            return a if b else self.not_(a)
        if type(b) in (WConj, Ite) and type(a) is int:
            return b if a else self.not_(b)
        if type(a) is Opaque or type(b) is Opaque:
            return self.gate(("o", hk(a), hk(b)) if repr(a) <= repr(b) else ("o", hk(b), hk(a)))
        raise Unsupported("comparison of %s and %s" % (type(a).__name__, type(b).__name__))

    def gate(self, c):
        return Ite(c, 1, 0)

    def wconj(self, w):
        """turn a complete conjunction into a polynomial condition"""
        if len(w.m) < w.num.n:
            return w
        o = [w.m[i] for i in range(w.num.n)]
        p = w.num.p if type(w.num) is Num else None
        if p is None:
            p = next((x.num.p for x in o if type(x) is Word and type(x.num) is Num), None)
        if p is None:
            c = ("w", hk(w.num), tuple(hk(x) for x in o))
            return Ite(c, 0, 1) if w.neg else Ite(c, 1, 0)
        b, okb = self.asnum(Arr(tuple(o)), p)
        a, oka = self.asnum(w.num, p)
        if not oka or not okb:
            if all(type(x) is int for x in o):
                return int(w.neg)        # a canonical residue never equals an integer >= p
            c = ("w", hk(w.num), tuple(hk(x) for x in o))
            return Ite(c, 0, 1) if w.neg else Ite(c, 1, 0)
        r = self.zcond(a - b)
        if type(r) is int:
            return r ^ int(w.neg)
        return Ite(r, 0, 1) if w.neg else Ite(r, 1, 0)

    def zcond(self, d):
        """condition d == 0: a constant or a normalised condition"""
        if d.is_const():
            return int(d.is_zero())
        return ("z", d.p, monic(d))

    def not_(self, v):
        if type(v) is int:
            return 1 - v
        if type(v) is WConj:
            return WConj(v.num, v.m, not v.neg)
        if type(v) is Ite:
            return Ite(v.c, self.not_(v.a), self.not_(v.b))
        if type(v) is Opaque:
            g = self.as_gate(v)
            return self.not_(g)
        raise Unsupported("negation")

    def bool2(self, op, a, b):
        for x, y in ((a, b), (b, a)):
            if type(x) is int:
                if op == "BitAnd":
                    return y if x else 0
                if op == "BitOr":
                    return 1 if x else y
                return self.not_(y) if x else y
        if type(a) is WConj and type(b) is WConj and a.neg == b.neg and \
                op == ("BitOr" if a.neg else "BitAnd"):
            for x, y in ((a, b), (b, a)):
                if x.num == y.num:
                    m = dict(x.m)
                    if all(m.get(k, v) == v for k, v in y.m.items()):
                        m.update(y.m)
                        return self.wconj(WConj(x.num, m, x.neg))
        a, b = self.as_gate(a), self.as_gate(b)
        return self.I.lift(lambda x, y: {"BitAnd": x & y, "BitOr": x | y, "BitXor": x ^ y}[op], a, b)

    def checked(self, op, a, b, tid):
        return Agg(None, 0, (self.binop(op, a, b, tid), 0))

    def unop(self, op, a, tid):
        if op == "Not" and self.I.p.types[tid]["k"] == "bool":
            return self.not_(a)
        return Opaque(op, (a,))

    def cast(self, v, st, dt):
        S, D = self.I.p.types[st], self.I.p.types[dt]
        if type(v) is WConj:
            return self.I.lift(lambda x: x, self.as_gate(v))
        if S["k"] == D["k"] and S.get("b") == D.get("b"):
            return v
        return Opaque("cast%s" % D["s"], (v,))

    def transmute(self, v, st, dt):
        raise Unsupported("transmute")

    def concretize(self, v):
        v = self.I.simp(v)
        if type(v) is int:
            return v
        raise Unsupported("symbolic index or length %r" % (v,))

    def as_gate(self, v, term=None):
        if type(v) is Ite or type(v) is int:
            return v
        if type(v) is WConj:
            c = ("w", hk(v.num), tuple(sorted((i, hk(x)) for i, x in v.m.items())))
            return Ite(c, 0, 1) if v.neg else Ite(c, 1, 0)
        if type(v) in (Opaque, Word):
            if term is not None and len(term[3]) != 1:
                raise Unsupported("multi-way branch on %r" % (v,))
            if term is not None:
                k = int(term[3][0][0])
                c = ("o", hk(v), k)
                if k == 0:
                    return Ite(c, 0, 1)
                return Ite(c, k, k + 1)
            return Ite(("o", hk(v), 0), 0, 1)
        raise Unsupported("branch on %r" % (v,))

    def feasible(self, facts, c, val):
        if c[0] != "z":
            return True
        zf = [k[2] for k, v in facts.items() if k[0] == "z" and v and k[1] == c[1]]
        nf = [k[2] for k, v in facts.items() if k[0] == "z" and not v and k[1] == c[1]]
        d = c[2]
        for f in zf:
            s = solve_linear(f)
            if s is not None:
                d = d.subst({s[0]: s[1]})
        if d.is_zero():
            return val
        if val:
            return not self.nonzero(d, nf)
        return True

    def nonzero(self, d, nf):
        """d is certainly nonzero given that every polynomial of nf is nonzero"""
        if d.is_const():
            return not d.is_zero()
        d = monic(d)
        if d in nf:
            return True
        mono, rest = content(d)
        if not mono:
            return False
        ok = all(self.nz_atom(a, nf) for a in set(mono))
        return ok and (rest.is_const() or monic(rest) in nf)

    def nz_atom(self, a, nf):
        if self.info[a][0] == "nz":
            return True
        if Poly.var(a, self.info[a][-1]) in nf:
            return True
        k = self.info[a]
        if k[0] == "inv":
            return self.nonzero(k[1], nf)
        return False

    def refine(self, v, c, val):
        return v

    def join(self, c, a, b):
        return None

    def join_first(self, c, a, b):
        return None

    def times(self, u, v):
        return u * v

    def decide(self, g):
        return None

    def int_fn(self, n, xs, t):
        return Opaque(n, tuple(xs))

    def from_bytes(self, bs, t):
        return None

    def fresh_int(self, name, bits):
        self.nfresh += 1
        return Opaque("rng", (self.nfresh, bits))

    def cmp3(self, x, y, t):
        return None

    # ------------------------------------------------- limb-level summaries
    def inv_poly(self, a):
        """a^(p-2): the inverse, with 0 -> 0"""
        p = a.p
        if a.is_const():
            return Poly.const(pow(a.cval(), p - 2, p), p)
        lc = a.t[max(a.t)]
        m = monic(a)
        mono, rest = content(m)
        r = Poly.const(pow(lc, -1, p), p)
        for x in mono:
            k = self.info[x]
            if k[0] == "inv":
                r = r * k[1]
            else:
                r = r * Poly.var(self.atom(("inv", Poly.var(x, p), p), "1/" + self.names[x]), p)
        if not rest.is_const():
            r = r * Poly.var(self.atom(("inv", rest, p), "1/(%s)" % rest.show(self.names, 3)), p)
        return r

    def limb_models(self):
        D = self

        def prime(v):
            v = D.I.simp(v)
            if type(v) is Arr and all(type(x) is int for x in v.e):
                p = sum(x << (64 * i) for i, x in enumerate(v.e))
                if PRIMES.get(p) == len(v.e):
                    return p
            return None

        def un(p):
            raise Unsupported("limb routine called with an unknown modulus")

        def arith(fn):
            def m(I, c, a):
                return fn(I, *a)
            return m

        def spread(I, v):
            """an array of words with gated words as a gated array"""
            v = I.simp(v)
            if type(v) is Arr and any(type(x) is Ite for x in v.e) and all(type(x) in (int, Ite) for x in v.e):
                return I.lift(lambda *e: Arr(tuple(e)), *v.e)
            return v

        def two(op):
            def f(I, a, b, pp):
                a, b = spread(I, a), spread(I, b)
                p = prime(pp)
                if p is None:
                    if all(type(x) is int for v in (a, b, pp) for x in getattr(I.simp(v), "e", (None,))):
                        return NotImplemented
                    un(pp)
                xs = [I.simp(a), I.simp(b)]
                if all(type(x) is Arr and all(type(I.simp(w)) is int for w in x.e) for x in xs) and not all(D.asnum(x, p)[1] for x in xs):
                    return NotImplemented       # constants out of range: the routine itself is evaluated

                def g(x, y):
                    (u, oku), (v, okv) = D.asnum(x, p), D.asnum(y, p)
                    if not (oku and okv):
                        return D.num(p, D.keyed(p, "bad" + op, u, v))
                    return D.num(p, u + v if op == "add" else u - v)
                return I.lift(g, a, b)
            return arith(f)

        def one(op):
            def f(I, a, pp):
                a = spread(I, a)
                p = prime(pp)
                if p is None:
                    un(pp)

                def g(x):
                    u, ok = D.asnum(x, p)
                    if not ok:
                        return D.num(p, D.keyed(p, "bad" + op, u))
                    return D.num(p, u.scale(2) if op == "double" else -u)
                return I.lift(g, a)
            return arith(f)

        def good_inv(p, inv):
            return type(inv) is int and (p * inv) % (1 << 64) == M64

        def mul(I, a, b, pp, inv):
            a, b = spread(I, a), spread(I, b)
            p = prime(pp)
            if p is None:
                un(pp)

            def g(x, y):
                (u, oku), (v, okv) = D.asnum(x, p), D.asnum(y, p)
                if not (oku or okv) or not good_inv(p, inv):
                    return D.num(p, D.keyed(p, "badmul", u, v))
                return D.num(p, D.times(u, v).scale(pow(D.R(p), -1, p)))
            return I.lift(g, a, b)

        def square(I, a, pp, inv):
            a = spread(I, a)
            p = prime(pp)
            if p is None:
                un(pp)

            def g(x):
                u, oku = D.asnum(x, p)
                if not oku or not good_inv(p, inv):
                    return D.num(p, D.keyed(p, "badsq", u))
                return D.num(p, D.times(u, u).scale(pow(D.R(p), -1, p)))
            return I.lift(g, a)

        def mont(I, a, pp, inv):
            p = prime(pp)
            if p is None:
                un(pp)
            n = PRIMES[p]
            e = I.elems(a)

            def g(*ws):
                lo, hi = Arr(tuple(ws[:n])), Arr(tuple(ws[n:]))
                (u, _), (v, okv) = D.asnum(lo, p), D.asnum(hi, p)
                if not okv or not good_inv(p, inv):
                    return D.num(p, D.keyed(p, "badmont", u, v))
                return D.num(p, u.scale(pow(D.R(p), -1, p)) + v)
            return I.lift(g, *e)

        def pow_(I, a, b, one, pp, inv):
            p = prime(pp)
            if p is None:
                un(pp)

            def g(x, e, o):
                u, ok = D.asnum(x, p)
                w, _ = D.asnum(o, p)
                if not ok or not good_inv(p, inv):
                    return D.num(p, D.keyed(p, "badpow", u))
                u = u.scale(pow(D.R(p), -1, p))
                ev = [I.simp(t) for t in (I.elems(e))]
                if all(type(t) is int for t in ev):
                    k = sum(t << (64 * i) for i, t in enumerate(ev))
                    r = D.pow_poly(u, k)
                    if k == 0:
                        return D.num(p, w)
                    if u.is_const() and u.is_zero():
                        return D.num(p, u)
                    # acc starts at `one`: one^(2^bits) * u^k; only the identity is summarised
                    if w != Poly.const(D.R(p), p):
                        return D.num(p, D.keyed(p, "badpow", u, w))
                    return D.num(p, r.scale(D.R(p)))
                return D.num(p, D.keyed(p, "pow", u, tuple(hk(t) for t in ev)).scale(D.R(p)))
            return I.lift(g, a, b, one)

        T = {"add": two("add"), "sub": two("sub"), "double": one("double"), "neg": one("neg"),
             "mul": arith(mul), "square": arith(square), "mont": arith(mont), "pow": arith(pow_)}
        return [(re.compile(r"(^|::)bits_(256|384)::(\w+::)*%s$" % k), f) for k, f in T.items()]

    def pow_poly(self, u, k):
        p = u.p
        if u.is_const():
            return Poly.const(pow(u.cval(), k, p), p)
        if k == p - 2:
            return self.inv_poly(u)
        if k <= 16 or len(u.t) == 1 and k <= 64:
            return u.pow(k)
        return self.keyed(p, "pow", u, k)

    # ---------------------------------------------------------- comparisons
    def zero(self, d, facts=None, rules=(), depth=0):
        """d == 0 in every state satisfying the facts (conditions) and rules (lead, replacement)"""
        p = d.p
        zs, ns = [], []
        for k, v in list((facts or {}).items()) + list(self.assumed.items()):
            if k[0] == "z" and k[1] == p:
                (zs if v else ns).append(k[2])
        return self.zero_(d, zs, ns, list(rules), 0)

    def zero_(self, d, zs, ns, rules, depth):
        if depth > 12:
            raise Unsupported("case analysis too deep")
        rw = lambda q: rewrite(q, rules)
        d = rw(d)
        if d.is_zero():
            return True
        zs = [z for z in (rw(z) for z in zs) if not z.is_zero()]
        ns2 = []
        for z in zs:
            if z.is_const():
                return True                      # infeasible
        for n in ns:
            n = rw(n)
            if n.is_zero():
                return True                      # infeasible
            if not n.is_const():
                ns2.append(monic(n))
        ns = ns2
        for z in zs:
            if self.nonzero(z, ns):
                return True
        # linear substitution
        for i, z in enumerate(zs):
            s = solve_linear(z, self.info)
            if s is not None:
                if any(s[0] in m for m, _ in rules):
                    # keep the rule variable: turn the rule into a fact
                    rel = [Poly({m: 1}, d.p) - r for m, r in rules if s[0] in m]
                    rules2 = [(m, r) for m, r in rules if s[0] not in m]
                    return self.zero_(d, zs + rel, ns, rules2, depth + 0.05)
                mp = {s[0]: s[1]}
                rules2 = [(m, r.subst(mp)) for m, r in rules]
                return self.zero_(d.subst(mp), [x.subst(mp) for j, x in enumerate(zs) if j != i],
                                  [x.subst(mp) for x in ns], rules2, depth + 0.05)
        # monomial factors of facts
        for i, z in enumerate(zs):
            mono, rest = content(monic(z))
            if mono:
                f = [Poly.var(a, d.p) for a in sorted(set(mono))]
                if not rest.is_const():
                    f.append(rest)
                for q in f:
                    if self.nonzero(q, ns):
                        continue
                    if not self.zero_(d, zs[:i] + zs[i + 1:] + [q], ns, rules, depth + 1):
                        return False
                return True
        # inverses
        ivs = sorted((a for a in allatoms([d] + zs) if self.info[a][0] == "inv"), reverse=True)
        for t in ivs:
            f = rw(self.info[t][1])
            if f.is_zero():
                mp = {t: Poly.const(0, d.p)}
            elif f.is_const():
                mp = {t: Poly.const(pow(f.cval(), -1, d.p), d.p)}
            elif self.nonzero(f, ns):
                n = max(q.deg_in(t) for q in [d] + zs)
                cl = lambda q: clear(q, t, f)
                return self.zero_(cl(d), [cl(z) for z in zs], ns, rules, depth + 1)
            else:
                # split on f
                return self.zero_(d.subst({t: Poly.const(0, d.p)}), [z.subst({t: Poly.const(0, d.p)}) for z in zs] + [f],
                                  ns, rules, depth + 1) and \
                    self.zero_(d, zs, ns + [monic(f)], rules, depth + 1)
            return self.zero_(d.subst(mp), [z.subst(mp) for z in zs], ns, rules, depth + 1)
        # drop known-nonzero monomial factors of d
        mono, rest = content(d)
        if mono and any(self.nz_atom(a, ns) for a in mono):
            keep = tuple(a for a in mono if not self.nz_atom(a, ns))
            q = rest
            for a in keep:
                q = q * Poly.var(a, d.p)
            return self.zero_(q, zs, ns, rules, depth + 1)
        # facts linear in an atom with a nonzero polynomial coefficient
        for i, z in enumerate(zs):
            for a in sorted(z.atoms(), reverse=True):
                if z.deg_in(a) != 1 or not (a in d.atoms()):
                    continue
                if any(a in m for m, _ in rules):
                    continue
                col = z.collect(a)
                u = col[1]
                v = col.get(0, Poly.const(0, d.p))
                if self.nonzero(u, ns):
                    return self.zero_(subst_frac(d, a, -v, u), [subst_frac(x, a, -v, u) for j, x in enumerate(zs) if j != i],
                                      ns, rules, depth + 1)
        # d is a multiple of a fact
        for z in zs:
            if divides(z, d):
                return True
        return False


def hk(x):
    """hashable key"""
    if type(x) is Arr:
        return ("A",) + tuple(hk(y) for y in x.e)
    if type(x) is Agg:
        return ("G", x.v) + tuple(hk(y) for y in x.f)
    if type(x) is Opaque:
        return ("O", x.op) + tuple(hk(y) for y in x.args)
    if type(x) is Ite:
        return ("I", x.c, hk(x.a), hk(x.b))
    if type(x) is tuple:
        return tuple(hk(y) for y in x)
    return x


def allatoms(ps):
    s = set()
    for p in ps:
        s |= p.atoms()
    return s


def monic(d):
    c = d.t[max(d.t)]
    return d if c == 1 else d.scale(pow(c, -1, d.p))


def content(d):
    """(monomial gcd, cofactor)"""
    ms = iter(d.t)
    g = list(next(ms))
    for m in ms:
        if not g:
            break
        mm = list(m)
        h = []
        for a in g:
            if a in mm:
                mm.remove(a)
                h.append(a)
        g = h
    if not g:
        return (), d
    r = {}
    for m, c in d.t.items():
        mm = list(m)
        for a in g:
            mm.remove(a)
        r[tuple(mm)] = c
    return tuple(g), Poly(r, d.p)


def solve_linear(f, info=None):
    """(atom, poly) when f == 0 determines an atom with a constant coefficient"""
    best = None
    for m, c in f.t.items():
        if len(m) == 1:
            a = m[0]
            if sum(a in x for x in f.t) == 1:
                if info is not None and info[a][0] == "inv":
                    continue
                if best is None or a > best[0]:
                    best = (a, c)
    if best is None:
        return None
    a, c = best
    rest = Poly({m: x for m, x in f.t.items() if m != (a,)}, f.p)
    return a, rest.scale(-pow(c, -1, f.p) % f.p)


def clear(q, t, f):
    """q with t = 1/f cleared: q * f^deg"""
    col = q.collect(t)
    n = max(col)
    r = Poly.const(0, q.p)
    for k, x in col.items():
        r = r + x * f.pow(n - k)
    return r


def subst_frac(q, a, num, den):
    """q * den^deg with a = num/den"""
    col = q.collect(a)
    n = max(col)
    r = Poly.const(0, q.p)
    for k, x in col.items():
        r = r + x * num.pow(k) * den.pow(n - k)
    return r


def rewrite(q, rules):
    """apply monomial rewriting rules (lead -> replacement)"""
    if not rules:
        return q
    changed = True
    while changed:
        changed = False
        for lead, rep in rules:
            hit = {}
            rest = {}
            for m, c in q.t.items():
                k = mdiv(m, lead)
                if k is None:
                    rest[m] = c
                else:
                    hit[k] = c
            if hit:
                q = Poly(rest, q.p) + Poly(hit, q.p) * rep
                changed = True
    return q


def mdiv(m, lead):
    mm = list(m)
    for a in lead:
        if a in mm:
            mm.remove(a)
        else:
            return None
    return tuple(mm)


def divides(z, d):
    """d is a polynomial multiple of z (single-divisor reduction, graded order)"""
    key = lambda m: (len(m), m)
    lm = max(z.t, key=key)
    lc = z.t[lm]
    inv = pow(lc, -1, d.p)
    steps = 0
    while not d.is_zero():
        m = max(d.t, key=key)
        k = mdiv(m, lm)
        if k is None:
            return False
        d = d - z * Poly({k: d.t[m] * inv % d.p}, d.p)
        steps += 1
        if steps > 400:
            return False
    return True


def leaves(I, v, facts=None):
    """all (facts, ungated value) of a gated value"""
    facts = dict(facts or {})
    out = []

    def walk(v, facts, k):
        while type(v) is Ite:
            b = facts.get(v.c)
            if b is not None:
                v = v.a if b else v.b
                continue
            for val, x in ((True, v.a), (False, v.b)):
                if I.dom.feasible(facts, v.c, val):
                    f = dict(facts)
                    f[v.c] = val
                    walk(x, f, k)
            return
        t = type(v)
        if t is Agg:
            seq(v.f, facts, lambda xs, f: k(Agg(v.tid, v.v, xs), f))
        elif t is Arr:
            seq(v.e, facts, lambda xs, f: k(Arr(xs), f))
        elif t is VecV:
            seq(tuple(v.items), facts, lambda xs, f: k(Arr(xs), f))
        else:
            k(v, facts)

    def seq(vs, facts, k, acc=()):
        if not vs:
            return k(acc, facts)
        walk(vs[0], facts, lambda x, f: seq(vs[1:], f, k, acc + (x,)))

    walk(v, facts, lambda x, f: out.append((f, x)))
    return out
