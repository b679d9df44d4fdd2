"""Shared helpers of the constraint-system checks: rows, vectors and systems with symbolic coefficients; global case splits."""
import itertools
from fields import *
from values import *

WIRE = "zkstd::r1cs::wire::Wire"


class Split(Exception):
    """the analysed path depends on a condition: analyse it once for each truth value"""

    def __init__(self, c):
        self.c = c


class SplitDomain(FieldDomain):
    def decide(self, g):
        raise Split(g.c)


class EagerDomain(SplitDomain):
    """every open branch is analysed once for each truth value"""

    def feasible(self, facts, c, val):
        r = SplitDomain.feasible(self, facts, c, val)
        if r and not val and SplitDomain.feasible(self, facts, c, True):
            raise Split(c)
        return r


def explore(run, limit=400):
    """run(facts) under every combination of the conditions it asks for; the first reported violation"""
    work = [{}]
    n = 0
    while work:
        facts = work.pop()
        n += 1
        if n > limit:
            raise Unsupported("too many cases, last conditions: %s" % (list(facts)[-2:],))
        try:
            r = run(dict(facts))
        except Split as s:
            for v in (False, True):
                f = dict(facts)
                f[s.c] = v
                work.append(f)
            continue
        if r is not None:
            return r
    return None


def csession(prog, facts, **kw):
    D = kw.get("domain", SplitDomain)()
    I = Interp(prog, D, Models(overrides=kw.get("overrides"), patterns=D.limb_models() + kw.get("patterns", [])))
    I.st.facts.update(facts)
    return D, I


def vec(xs):
    return VecV(list(xs), -1)


def wire(prog, w):
    """w = ('i' | 'w', index)"""
    return Agg(prog.ty(WIRE), 0 if w[0] == "i" else 1, (w[1],))


def unwire(I, v):
    v = I.simp(v)
    if type(v) is not Agg or type(I.simp(v.f[0])) is not int:
        raise Unsupported("wire is not constant")
    return ("iw"[v.v], I.simp(v.f[0]))


class Fld:
    """a prime field of the circuits"""

    def __init__(self, prog, ty):
        self.prog = prog
        self.ty = ty
        self.p = BASE[ty]
        self.tid = prog.ty(ty)
        self.row_s = "zkstd::matrix::SparseRow<%s>" % ty
        self.vec_s = "zkstd::matrix::DenseVectors<%s>" % ty

    def el(self, D, poly):
        if type(poly) is int:
            poly = Poly.const(poly, self.p)
        return D.elem(self.tid, self.p, poly)

    def val(self, D, v):
        c = coeffs(D, self.prog, v, self.p)
        return c[0]

    def row(self, D, terms):
        """terms: list of (wire, poly)"""
        prog = self.prog
        return Agg(prog.ty(self.row_s), 0, (vec(Agg(None, 0, (wire(prog, w), self.el(D, c))) for w, c in terms),))

    def unrow(self, D, v):
        """terms of an abstract row"""
        I = D.I
        v = I.simp(v)
        if type(v) is not Agg:
            raise Unsupported("row expected, got %s" % type(v).__name__)
        return [(unwire(I, I.simp(t).f[0]), self.val(D, I.simp(t).f[1])) for t in items(I, v.f[0])]

    def dense(self, D, polys):
        return Agg(self.prog.ty(self.vec_s), 0, (vec(self.el(D, c) for c in polys),))

    def undense(self, D, v):
        I = D.I
        v = I.simp(v)
        return [self.val(D, x) for x in items(I, v.f[0])]


def items(I, v):
    v = I.settle(v, "sequence of gated shape")
    if type(v) is Ptr:
        return items(I, I.load(v))
    if type(v) is VecV:
        return [I.simp(x) for x in v.items]
    if type(v) is Arr:
        return [I.simp(x) for x in v.e]
    if type(v) is Agg and len(v.f) == 1:
        return items(I, v.f[0])
    raise Unsupported("sequence expected, got %s" % type(v).__name__)


def rowmap(terms, p):
    """coefficient of every wire"""
    m = {}
    for w, c in terms:
        m[w] = m.get(w, Poly.const(0, p)) + c
    return m


def same_rows(D, got, want, p, facts):
    """equal as linear forms, no wire twice"""
    ws = [w for w, _ in got]
    if len(set(ws)) != len(ws):
        return "a wire occurs twice in the result: %s" % (ws,)
    g, w = rowmap(got, p), rowmap(want, p)
    for k in sorted(set(g) | set(w)):
        z = Poly.const(0, p)
        d = g.get(k, z) - w.get(k, z)
        if not D.zero(d, facts):
            return "coefficient of %s %d is %s, expected %s%s" % (
                "instance" if k[0] == "i" else "witness", k[1], g.get(k, z).show(D.names, 4), w.get(k, z).show(D.names, 4), show_facts(D, facts))
    return None


def partitions(na, nb):
    """wire lists for two rows (distinct wires within each), up to renaming; witness and instance wires share indices"""
    pool = [("i", 0), ("w", 0), ("i", 1), ("w", 1), ("i", 2), ("w", 2)]
    out, seen = [], set()
    for a in [pool[:na]]:
        for b in itertools.permutations(pool[:na] + pool[na:na + nb], nb):
            key = tuple(x if x in a else None for x in b)
            if key in seen:
                continue
            seen.add(key)
            out.append((a, list(b)))
    return out


def lin(terms, x, w, p):
    s = Poly.const(0, p)
    for k, c in terms:
        if type(c) is int:
            c = Poly.const(c, p)
        s = s + c * (x if k[0] == "i" else w)[k[1]]
    return s
