"""Shared helpers of the field-level checks."""
import re
from consts import *
from field import FieldDomain, hk, leaves, monic
from interp import Interp, panics
from models import Models
from poly import Poly
from prog import Unsupported
from values import *

# name -> (prime, tower degree)
BASE = {"bn_254::Fr": FR, "bn_254::Fq": FQ}
TOWER = {"bn_254::Fq2": 2, "bn_254::Fq6": 6, "bn_254::Fq12": 12}


def session(prog, **kw):
    D = FieldDomain()
    I = Interp(prog, D, Models(overrides=kw.get("overrides"), patterns=D.limb_models() + kw.get("patterns", [])))
    return D, I


def fields_of(prog, tid):
    T = prog.types[tid]
    return [f[1] for f in T["vs"][0][1]]


def degree(prog, name):
    if name in BASE:
        return 1
    return TOWER.get(name)


def symbolic(D, prog, tid, nm):
    """(abstract value, coefficient list) of an arbitrary element of a (tower) field"""
    T = prog.types[tid]
    p = prime_of(prog, tid)
    if p is not None:
        x = D.var(nm, p)
        return D.elem(tid, p, x), [x]
    fs, cs = [], []

    def build(t, nm):
        if prime_of(prog, t) is not None:
            v, c = symbolic(D, prog, t, nm)
            cs.extend(c)
            return v
        T = prog.types[t]
        if T["k"] == "array":
            return Arr(tuple(build(T["e"], nm + str(i)) for i in range(T["n"])))
        if T["k"] == "adt":
            ft = fields_of(prog, t)
            return Agg(t, 0, tuple(build(x, nm + (str(i) if len(ft) > 1 else "")) for i, x in enumerate(ft)))
        raise Unsupported("element of type " + T["s"])
    return build(tid, nm), cs


def make(D, prog, tid, cs):
    """element with the given coefficients"""
    cs = list(cs)

    def build(t):
        p = prime_of(prog, t)
        if p is not None:
            return D.elem(t, p, cs.pop(0))
        T = prog.types[t]
        if T["k"] == "array":
            return Arr(tuple(build(T["e"]) for i in range(T["n"])))
        return Agg(t, 0, tuple(build(x) for x in fields_of(prog, t)))
    return build(tid)


def prime_of(prog, tid):
    s = prog.types[tid]["s"]
    if s in BASE:
        return BASE[s]
    return EXTRA.get(s)


EXTRA = {"verif_roots::jubjub::Fr": None}


def coeffs(D, prog, v, p):
    """value polynomials of all coefficients of an ungated (tower) field element"""
    out = []

    def walk(v):
        v = D.I.simp(v)
        if type(v) is Agg and len(v.f) == 1:
            w = D.I.simp(v.f[0])
            if type(w) is Arr and w.e and type(D.I.simp(w.e[0])) is Agg:
                return walk(w)
            if type(w) is Agg:
                return walk(w)
            out.append(D.val(v, p))
            return
        if type(v) is Agg:
            for x in v.f:
                walk(x)
            return
        if type(v) is Arr:
            for x in v.e:
                walk(x)
            return
        raise Unsupported("field element expected, got %r" % (type(v).__name__,))
    walk(v)
    return out


def wrap_arg(I, prog, tid, v):
    """pass v to a parameter of type tid (by value or through references)"""
    n = 0
    T = prog.types[tid]
    while T["k"] == "ref":
        n += 1
        T = prog.types[T["e"]]
    for _ in range(n):
        v = I.ref(v)
    return v


def base_ty(prog, tid):
    T = prog.types[tid]
    while T["k"] == "ref":
        tid = T["e"]
        T = prog.types[tid]
    return tid


# ---------------------------------------------------------- tower oracle
def tmul(a, b):
    """product in Fq (1), Fq2 = Fq[u]/(u^2+1), Fq6 = Fq2[v]/(v^3-(9+u)), Fq12 = Fq6[w]/(w^2-v)"""
    n = len(a)
    if n == 1:
        return [a[0] * b[0]]
    if n == 2:
        return [a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]]
    if n == 6:
        A, B = [a[i:i + 2] for i in (0, 2, 4)], [b[i:i + 2] for i in (0, 2, 4)]
        z = [[Poly.const(0, FQ)] * 2 for _ in range(5)]
        for i in range(3):
            for j in range(3):
                z[i + j] = tadd(z[i + j], tmul(A[i], B[j]))
        r = []
        for i in range(3):
            x = z[i]
            if i + 3 < 5:
                x = tadd(x, mul_xi(z[i + 3]))
            r += x
        return r
    if n == 12:
        a0, a1, b0, b1 = a[:6], a[6:], b[:6], b[6:]
        return tadd(tmul(a0, b0), mul_v(tmul(a1, b1))) + tadd(tmul(a0, b1), tmul(a1, b0))
    raise Unsupported("tower degree")


def mul_xi(x):
    return [x[0].scale(9) - x[1], x[0] + x[1].scale(9)]


def mul_v(x):
    return mul_xi(x[4:6]) + list(x[0:4])


def tadd(a, b):
    return [x + y for x, y in zip(a, b)]


def tsub(a, b):
    return [x - y for x, y in zip(a, b)]


def tone(n, p=FQ):
    return [Poly.const(1 if i == 0 else 0, p) for i in range(n)]


def tpow_const(x, e):
    """x^e for a constant tower element given as ints -> ints"""
    r = [1] + [0] * (len(x) - 1)
    X = [Poly.const(c, FQ) for c in x]
    Rr = [Poly.const(c, FQ) for c in r]
    while e:
        if e & 1:
            Rr = tmul(Rr, X)
        X = tmul(X, X)
        e >>= 1
    return [c.cval() for c in Rr]


def differ(D, got, want, facts=None, rules=()):
    """None when equal coefficient-wise in every state allowed by facts"""
    if len(got) != len(want):
        return "shape: %d coefficients, expected %d" % (len(got), len(want))
    for i, (g, w) in enumerate(zip(got, want)):
        if not D.zero(g - w, facts, rules):
            return "coefficient %d is %s, expected %s%s" % (
                i, g.show(D.names, 6), w.show(D.names, 6), show_facts(D, facts))
    return None


def show_facts(D, facts):
    if not facts:
        return ""
    o = []
    for c, v in facts.items():
        if c[0] == "z":
            o.append("%s %s 0" % (c[2].show(D.names, 4), "==" if v else "!="))
        else:
            o.append("%s is %s" % (c[0], v))
    return " when " + ", ".join(o[:4])


def panic_report(I, allowed=None):
    ps = [x for x in I.panics if not (allowed and allowed(x))]
    if ps:
        return "may panic: %s" % ps[0]
    return None


def subtle_models():
    """constant-time helpers of the subtle crate on abstract booleans"""
    def ct_eq(I, c, a):
        u64 = I.p.type_by_str["u64"]
        r = I.binop("Eq", I.load(a[0]), I.load(a[1]), u64)
        if type(r) not in (int, Ite):
            r = I.dom.as_gate(r)
        return Agg(I.p.type_by_str.get("ff::derive::subtle::Choice"), 0, (r,))

    def select(I, c, a):
        b = I.simp(a[2])
        g = I.simp(b.f[0]) if type(b) is Agg else I.child(b, 0)
        x, y = I.load(a[0]), I.load(a[1])
        return I.lift(lambda k: y if k else x, g) if type(g) is not int else (y if g else x)
    S = r"ff::derive::subtle::"
    return [(re.compile(r"^%sblack_box" % S), lambda I, c, a: a[0]),
            (re.compile(r"^<u\d+ as %sConstantTimeEq>::ct_eq$" % S), ct_eq),
            (re.compile(r"^<u\d+ as %sConditionallySelectable>::conditional_select$" % S), select)]
