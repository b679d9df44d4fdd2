"""Models of the standard-library operations the analysed crates call.  Everything else is
analysed from its MIR."""
import re
from prog import Unsupported
from values import *
from interp import REPO, PyFn, BoxV, Call, ImpossibleVariant, Diverged


class ItV:
    """immutable abstract iterator"""
    __slots__ = ("k", "s")

    def __init__(self, k, *s):
        self.k = k
        self.s = s

    def __eq__(self, o):
        return type(o) is ItV and self.k == o.k and len(self.s) == len(o.s) and \
            all(same(a, b) for a, b in zip(self.s, o.s))

    def __hash__(self):
        return hash(self.k)

    def __repr__(self):
        return "ItV(%s,%r)" % (self.k, self.s)


M = {}


def model(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


# ----------------------------------------------------------------- helpers
def tid_of(I, s):
    return I.p.ty(s)


def is_range(I, v, tid=None):
    return type(v) is Agg and v.tid is not None and "ops::Range" in I.p.types[v.tid]["s"]


def rng_kind(I, tid):
    n = I.p.types[tid].get("name", "")
    return n.split("::")[-1]


def conc(I, v):
    v = I.simp(v)
    if type(v) is int:
        return v
    return I.dom.concretize(v)


def elem_ptr(I, p, i):
    return I.pidx(p, i)


def vecptr(I, p):
    """resolve references to references to the sequence"""
    while True:
        p = I.simp(p)
        if type(p) is BoxV:
            p = Ptr(p.cell)
        if type(p) is not Ptr or p.n is not None:
            return p
        v = I.load(p)
        if type(v) in (Ptr, BoxV):
            p = v
            continue
        return p


def as_slice(I, p):
    p = vecptr(I, p)
    if type(p) is Ite:
        return I.mk_ite(p.c, as_slice(I, p.a), as_slice(I, p.b))
    if p.n is not None:
        return p
    v = I.load(p)
    if type(v) is Agg:
        # array wrappers are not sequences
        raise Unsupported("slice of aggregate")
    if type(v) is Ite:
        la, lb = shape_len(I, v.a), shape_len(I, v.b)
        if la is None or la != lb:
            la = len(I.elems(I.settle(v, "slice of gated vector")))
        return Ptr(p.cell, p.path, 0, la)
    return Ptr(p.cell, p.path, 0, len(I.elems(v)))


def shape_len(I, v):
    if type(v) is Ite:
        a, b = shape_len(I, v.a), shape_len(I, v.b)
        return a if a == b else None
    if type(v) in (Arr, VecV):
        return len(I.elems(v))
    try:
        return len(I.elems(v))
    except Unsupported:
        return None


def deep_clone(I, v):
    v = I.simp(v)
    t = type(v)
    if t is VecV:
        return I.new_vec([deep_clone(I, x) for x in v.items])
    if t is Agg:
        if not v.f:
            return v
        nf = tuple(deep_clone(I, x) for x in v.f)
        if all(a is b for a, b in zip(nf, v.f)):
            return v
        return Agg(v.tid, v.v, nf)
    if t is Arr:
        nf = tuple(deep_clone(I, x) for x in v.e)
        if all(a is b for a, b in zip(nf, v.e)):
            return v
        return Arr(nf)
    if t is Ite:
        a, b = deep_clone(I, v.a), deep_clone(I, v.b)
        return v if a is v.a and b is v.b else I.mk_ite(v.c, a, b)
    if t is BoxV:
        return BoxV(I.alloc(deep_clone(I, I.load(Ptr(v.cell)))))
    return v


def ref_args(I, v):
    return I.load(v)


# --------------------------------------------------------------- iterators
def to_iter(I, v, tid=None):
    v = I.simp(v)
    t = type(v)
    if t is ItV:
        return v
    if t is VecV:
        return ItV("own", tuple(v.items), 0, len(v.items))
    if t is Arr:
        return ItV("own", v.e, 0, len(v.e))
    if t is Ptr:
        if v.n is None:
            inner = I.load(v)
            if type(inner) is ItV or is_range(I, inner):
                return ItV("byref", v)
            if type(inner) is Agg and tid is not None and I.p.types[tid]["k"] == "ref":
                T = I.p.types[I.p.types[tid]["e"]]
                n = user_next(I, T)
                if n is not None:
                    return ItV("user", v, n)
        p = as_slice(I, v)
        return ItV("sl", p, 0, p.n)
    if t is Agg:
        if tid is not None or v.tid is not None:
            T = I.p.types[tid if tid is not None else v.tid]
            nm = T.get("name", "").split("::")[-1]
            if nm == "Range":
                return ItV("rg", conc(I, v.f[0]), conc(I, v.f[1]))
            if nm == "RangeInclusive":
                ex = v.f[2] if len(v.f) > 2 else 0
                a, b = conc(I, v.f[0]), conc(I, v.f[1])
                return ItV("rg", a, a if ex else b + 1)
            if nm == "RangeFrom":
                return ItV("rg", conc(I, v.f[0]), 1 << 130)
            if nm == "Option":
                return ItV("own", (v.f[0],) if v.v == 1 else (), 0, 1 if v.v == 1 else 0)
            n = user_next(I, T)
            if n is not None:
                return ItV("user", I.ref(v), n)
    if t is not Ite:
        es = getattr(I.dom, "elems", lambda v: None)(v)
        if es is not None:
            return ItV("own", tuple(es), 0, len(es))
    raise Unsupported("iteration over %s %s" % (t.__name__, I.p.tname(tid) if tid is not None else ""))


def user_next(I, T):
    for f in I.p.by_name.get("<%s as std::iter::Iterator>::next" % T["s"], []):
        if f.bbs is not None:
            return f
    return None


END = object()


def inext(I, it):
    """-> (item | END, iterator)"""
    k, s = it.k, it.s
    if k == "own":
        items, i, j = s
        if i >= j:
            return END, it
        return items[i], ItV("own", items, i + 1, j)
    if k == "sl":
        p, i, j = s
        if i >= j:
            return END, it
        return Ptr(p.cell, p.path + (p.start + i,)), ItV("sl", p, i + 1, j)
    if k == "rg":
        i, j = s
        if i >= j:
            return END, it
        return i, ItV("rg", i + 1, j)
    if k == "map":
        x, n = inext(I, s[0])
        if x is END:
            return END, ItV("map", n, s[1])
        return I.call_value(s[1], [x]), ItV("map", n, s[1])
    if k == "zip":
        x, a = inext(I, s[0])
        if x is END:
            return END, ItV("zip", a, s[1])
        y, b = inext(I, s[1])
        if y is END:
            return END, ItV("zip", a, b)
        return Agg(None, 0, (x, y)), ItV("zip", a, b)
    if k == "enum":
        x, a = inext(I, s[0])
        if x is END:
            return END, ItV("enum", a, s[1])
        return Agg(None, 0, (s[1], x)), ItV("enum", a, s[1] + 1)
    if k == "rev":
        x, a = inext_back(I, s[0])
        return x, ItV("rev", a)
    if k == "skip":
        it2, n = s
        while n:
            x, it2 = inext(I, it2)
            n -= 1
            if x is END:
                return END, ItV("skip", it2, 0)
        x, it2 = inext(I, it2)
        return x, ItV("skip", it2, 0)
    if k == "take":
        it2, n = s
        if n == 0:
            return END, it
        x, it2 = inext(I, it2)
        return x, ItV("take", it2, n - 1)
    if k == "step":
        it2, n, first = s
        if not first:
            for _ in range(n - 1):
                x, it2 = inext(I, it2)
                if x is END:
                    return END, ItV("step", it2, n, False)
        x, it2 = inext(I, it2)
        return x, ItV("step", it2, n, False)
    if k == "chain":
        a, b = s
        x, a = inext(I, a)
        if x is not END:
            return x, ItV("chain", a, b)
        x, b = inext(I, b)
        return x, ItV("chain", a, b)
    if k == "filter":
        it2, f = s
        while True:
            x, it2 = inext(I, it2)
            if x is END:
                return END, ItV("filter", it2, f)
            c = boolc(I, I.call_value(f, [I.ref(x)]))
            if c:
                return x, ItV("filter", it2, f)
    if k == "filter_map":
        it2, f = s
        while True:
            x, it2 = inext(I, it2)
            if x is END:
                return END, ItV(k, it2, f)
            o = I.call_value(f, [x])
            o = optc(I, o)
            if o is not END:
                return o, ItV(k, it2, f)
    if k == "skip_while":
        it2, f, done = s
        while True:
            x, it2 = inext(I, it2)
            if x is END or done:
                return x, ItV(k, it2, f, done)
            if not boolc(I, I.call_value(f, [I.ref(x)])):
                return x, ItV(k, it2, f, True)
    if k == "take_while":
        it2, f, done = s
        if done:
            return END, it
        x, it2 = inext(I, it2)
        if x is END:
            return END, ItV(k, it2, f, True)
        if boolc(I, I.call_value(f, [I.ref(x)])):
            return x, ItV(k, it2, f, False)
        return END, ItV(k, it2, f, True)
    if k == "scan":
        it2, stp, f = s
        x, it2 = inext(I, it2)
        if x is END:
            return END, ItV(k, it2, stp, f)
        o = optc(I, I.call_value(f, [stp, x]))
        return o, ItV(k, it2, stp, f)
    if k == "repeat":
        return deep_clone(I, s[0]), it
    if k == "repeat_with":
        return I.call_value(s[0], []), it
    if k == "byref":
        p = s[0]
        v = I.load(p)
        was = v
        it2 = to_iter(I, v)
        x, it2 = inext(I, it2)
        store_iter(I, p, was, it2)
        return x, it
    if k == "user":
        o = I.call_fn(s[1], [s[0]])
        return optc(I, o), it
    if k == "copied":
        x, a = inext(I, s[0])
        if x is END:
            return END, ItV(k, a)
        return deep_clone(I, I.load(x)), ItV(k, a)
    if k == "chunks":
        p, i, n, size, exact = s
        if i >= n or (exact and i + size > n):
            return END, it
        m = min(size, n - i)
        return Ptr(p.cell, p.path, p.start + i, m), ItV("chunks", p, i + m, n, size, exact)
    if k == "windows":
        p, i, n, size = s
        if i + size > n:
            return END, it
        return Ptr(p.cell, p.path, p.start + i, size), ItV(k, p, i + 1, n, size)
    if k == "peek":
        it2, pk = s
        if pk is not None:
            return pk[0], ItV("peek", it2, None)
        x, it2 = inext(I, it2)
        return x, ItV("peek", it2, None)
    if k == "flat":
        cur, it2, f = s
        while True:
            if cur is not None:
                x, cur = inext(I, cur)
                if x is not END:
                    return x, ItV(k, cur, it2, f)
                cur = None
            x, it2 = inext(I, it2)
            if x is END:
                return END, ItV(k, None, it2, f)
            if f is not None:
                x = I.call_value(f, [x])
            cur = to_iter(I, x)
    raise Unsupported("iterator " + k)


def store_iter(I, p, was, it):
    if type(was) is Agg:
        # ranges stay plain structs
        T = I.p.types[was.tid]["name"].split("::")[-1] if was.tid is not None else ""
        i, j = it.s
        if T == "Range":
            I.store(p, Agg(was.tid, 0, (i, j)))
        elif T == "RangeInclusive":
            I.store(p, Agg(was.tid, 0, (i, j - 1, int(i >= j))))
        elif T == "RangeFrom":
            I.store(p, Agg(was.tid, 0, (i,)))
        else:
            raise Unsupported("iterator state of " + T)
    else:
        I.store(p, it)


def ilen(I, it):
    k, s = it.k, it.s
    if k == "own":
        return s[2] - s[1]
    if k == "sl":
        return s[2] - s[1]
    if k == "rg":
        return max(0, s[1] - s[0])
    if k in ("map", "enum", "rev", "copied", "scan"):
        return ilen(I, s[0])
    if k == "zip":
        a, b = ilen(I, s[0]), ilen(I, s[1])
        return None if a is None and b is None else b if a is None else a if b is None else min(a, b)
    if k == "skip":
        return max(0, ilen(I, s[0]) - s[1])
    if k == "take":
        a = ilen(I, s[0])
        return s[1] if a is None else min(a, s[1])
    if k == "chain":
        return ilen(I, s[0]) + ilen(I, s[1])
    if k == "chunks":
        r = s[2] - s[1]
        return r // s[3] if s[4] else -(-r // s[3])
    if k == "repeat" or k == "repeat_with":
        return None
    if k == "byref":
        return ilen(I, to_iter(I, I.load(s[0])))
    raise Unsupported("length of iterator " + k)


def inext_back(I, it):
    k, s = it.k, it.s
    if k == "own":
        items, i, j = s
        if i >= j:
            return END, it
        return items[j - 1], ItV(k, items, i, j - 1)
    if k == "sl":
        p, i, j = s
        if i >= j:
            return END, it
        return Ptr(p.cell, p.path + (p.start + j - 1,)), ItV(k, p, i, j - 1)
    if k == "rg":
        i, j = s
        if i >= j:
            return END, it
        return j - 1, ItV(k, i, j - 1)
    if k == "map":
        x, n = inext_back(I, s[0])
        if x is END:
            return END, ItV(k, n, s[1])
        return I.call_value(s[1], [x]), ItV(k, n, s[1])
    if k == "enum":
        n = ilen(I, s[0])
        x, a = inext_back(I, s[0])
        if x is END:
            return END, ItV(k, a, s[1])
        return Agg(None, 0, (s[1] + n - 1, x)), ItV(k, a, s[1])
    if k == "rev":
        x, a = inext(I, s[0])
        return x, ItV(k, a)
    if k == "copied":
        x, a = inext_back(I, s[0])
        if x is END:
            return END, ItV(k, a)
        return deep_clone(I, I.load(x)), ItV(k, a)
    if k == "zip":
        a, b = s
        la, lb = ilen(I, a), ilen(I, b)
        while la > lb:
            _, a = inext_back(I, a)
            la -= 1
        while lb > la:
            _, b = inext_back(I, b)
            lb -= 1
        if la == 0:
            return END, ItV(k, a, b)
        x, a = inext_back(I, a)
        y, b = inext_back(I, b)
        return Agg(None, 0, (x, y)), ItV(k, a, b)
    if k == "skip":
        if ilen(I, s[0]) <= s[1]:
            return END, it
        x, a = inext_back(I, s[0])
        return x, ItV(k, a, s[1])
    if k == "take":
        it2, n = s
        l = ilen(I, it2)
        while l > n:
            _, it2 = inext_back(I, it2)
            l -= 1
        if l == 0:
            return END, ItV(k, it2, 0)
        x, it2 = inext_back(I, it2)
        return x, ItV(k, it2, l - 1)
    if k == "chain":
        x, b = inext_back(I, s[1])
        if x is not END:
            return x, ItV(k, s[0], b)
        x, a = inext_back(I, s[0])
        return x, ItV(k, a, b)
    if k == "filter":
        it2, f = s
        while True:
            x, it2 = inext_back(I, it2)
            if x is END:
                return END, ItV(k, it2, f)
            if boolc(I, I.call_value(f, [I.ref(x)])):
                return x, ItV(k, it2, f)
    if k == "byref":
        p = s[0]
        was = I.load(p)
        x, it2 = inext_back(I, to_iter(I, was))
        store_iter(I, p, was, it2)
        return x, it
    if k == "chunks":
        p, i, n, size, exact = s
        l = ilen(I, it)
        if l == 0:
            return END, it
        st = i + (l - 1) * size
        m = min(size, n - st)
        return Ptr(p.cell, p.path, p.start + st, m), ItV(k, p, i, st, size, exact)
    raise Unsupported("reverse iteration of " + k)


def boolc(I, v):
    v = I.simp(v)
    if type(v) is int:
        return v
    if type(v) is not Ite:
        g = I.dom.as_gate(v)
        v = I.simp(g)
        if type(v) is int:
            return v
    r = I.dom.decide(v)
    if r is None:
        raise Unsupported("iterator predicate is not constant")
    return r


def optc(I, v):
    v = I.simp(v)
    if type(v) is Agg:
        return v.f[0] if v.v == 1 else END
    v = I.settle(v, "gated Option from an iterator")
    if type(v) is Agg:
        return v.f[0] if v.v == 1 else END
    raise Unsupported("gated Option from an iterator")


def drain(I, it):
    out = []
    while True:
        x, it = inext(I, it)
        if x is END:
            return out
        out.append(x)
        if len(out) > 3000000:
            raise Unsupported("unbounded iteration")


def opt(x):
    return NONE if x is END else some(x)


IT = "std::iter::Iterator::"


@model("std::iter::IntoIterator::into_iter")
def _(I, c, a):
    v = I.simp(a[0])
    if c.gargs and is_iter_adt(I, c.gargs[0]):
        return a[0]
    return to_iter(I, v, c.gargs[0] if c.gargs else None)


def is_iter_adt(I, tid):
    T = I.p.types[tid]
    if T["k"] != "adt":
        return False
    return T["name"].split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom") or user_next(I, T) is not None


@model(IT + "next")
def _(I, c, a):
    p = a[0]
    v = I.load(p)
    if type(v) is Ite:
        raise Unsupported("gated iterator")
    it = to_iter(I, v, c.gargs[0] if c.gargs else None)
    x, it2 = inext(I, it)
    if it.k != "user":
        store_iter(I, p, v, it2)
    return opt(x)


@model("std::iter::DoubleEndedIterator::next_back")
def _(I, c, a):
    p = a[0]
    v = I.load(p)
    it = to_iter(I, v, c.gargs[0] if c.gargs else None)
    x, it2 = inext_back(I, it)
    store_iter(I, p, v, it2)
    return opt(x)


def fcell(I, f):
    """closures are kept in a cell so that captured state persists"""
    f = I.simp(f)
    if type(f) is Agg and f.f:
        return I.ref(f)
    return f


def adapter(name, f):
    @model(IT + name)
    def g(I, c, a):
        it = to_iter(I, a[0], c.gargs[0] if c.gargs else None)
        return f(I, c, it, a)


adapter("map", lambda I, c, it, a: ItV("map", it, fcell(I, a[1])))
adapter("enumerate", lambda I, c, it, a: ItV("enum", it, 0))
adapter("rev", lambda I, c, it, a: ItV("rev", it))
adapter("skip", lambda I, c, it, a: ItV("skip", it, conc(I, a[1])))
adapter("take", lambda I, c, it, a: ItV("take", it, conc(I, a[1])))
adapter("step_by", lambda I, c, it, a: ItV("step", it, conc(I, a[1]), True))
adapter("filter", lambda I, c, it, a: ItV("filter", it, fcell(I, a[1])))
adapter("filter_map", lambda I, c, it, a: ItV("filter_map", it, fcell(I, a[1])))
adapter("skip_while", lambda I, c, it, a: ItV("skip_while", it, fcell(I, a[1]), False))
adapter("take_while", lambda I, c, it, a: ItV("take_while", it, fcell(I, a[1]), False))
adapter("scan", lambda I, c, it, a: ItV("scan", it, I.ref(a[1]), fcell(I, a[2])))
adapter("copied", lambda I, c, it, a: ItV("copied", it))
adapter("cloned", lambda I, c, it, a: ItV("copied", it))
adapter("by_ref", lambda I, c, it, a: a[0])
adapter("peekable", lambda I, c, it, a: ItV("peek", it, None))
adapter("flat_map", lambda I, c, it, a: ItV("flat", None, it, fcell(I, a[1])))
adapter("flatten", lambda I, c, it, a: ItV("flat", None, it, None))
adapter("count", lambda I, c, it, a: len(drain(I, it)))


def garg(c, i):
    return c.gargs[i] if c.gargs and i < len(c.gargs) and type(c.gargs[i]) is int else None


adapter("zip", lambda I, c, it, a: ItV("zip", it, to_iter(I, a[1], garg(c, 1))))
adapter("chain", lambda I, c, it, a: ItV("chain", it, to_iter(I, a[1], garg(c, 1))))


@model("std::iter::zip")
def _(I, c, a):
    return ItV("zip", to_iter(I, a[0], garg(c, 0)), to_iter(I, a[1], garg(c, 1)))


@model("std::iter::repeat")
def _(I, c, a):
    return ItV("repeat", a[0])


@model("std::iter::repeat_with")
def _(I, c, a):
    return ItV("repeat_with", fcell(I, a[0]))


def _fold(I, c, it, a):
    acc = a[1]
    f = fcell(I, a[2])
    while True:
        x, it = inext(I, it)
        if x is END:
            return acc
        acc = I.call_value(f, [acc, x])


adapter("fold", _fold)


def _foreach(I, c, it, a):
    f = fcell(I, a[1])
    while True:
        x, it = inext(I, it)
        if x is END:
            return UNIT
        I.call_value(f, [x])


adapter("for_each", _foreach)


def _all(want):
    def g(I, c, it, a):
        f = fcell(I, a[1])
        acc = 1 if want else 0
        bt = I.p.type_by_str["bool"]
        while True:
            x, it = inext(I, it)
            if x is END:
                return acc
            r = I.simp(I.call_value(f, [x]))
            if type(r) is int:
                if r != want:
                    return r if type(acc) is int else (0 if want else 1)
                continue
            if type(acc) is int:
                acc = r
            else:
                acc = bool2(I, "BitAnd" if want else "BitOr", acc, r)
    return g


def bool2(I, op, a, b):
    return I.binop(op, a, b, I.p.type_by_str["bool"])


def iter_pred(name, f):
    """methods whose self is &mut I (all / any / position ...)"""
    @model(IT + name)
    def g(I, c, a):
        p = a[0]
        v = I.load(p) if type(I.simp(a[0])) is Ptr else a[0]
        it = to_iter(I, v, c.gargs[0] if c.gargs else None)
        return f(I, c, it, a)


iter_pred("all", _all(1))
iter_pred("any", _all(0))


def _pos(I, c, it, a):
    i = 0
    f = fcell(I, a[1])
    while True:
        x, it = inext(I, it)
        if x is END:
            return NONE
        if boolc(I, I.call_value(f, [x])):
            return some(i)
        i += 1


def _rpos(I, c, it, a):
    i = ilen(I, it)
    f = fcell(I, a[1])
    while True:
        i -= 1
        x, it = inext_back(I, it)
        if x is END:
            return NONE
        if boolc(I, I.call_value(f, [x])):
            return some(i)


def _find(I, c, it, a):
    f = fcell(I, a[1])
    while True:
        x, it = inext(I, it)
        if x is END:
            return NONE
        if boolc(I, I.call_value(f, [I.ref(x)])):
            return some(x)


iter_pred("position", _pos)
iter_pred("rposition", _rpos)
iter_pred("find", _find)


@model(IT + "nth")
def _(I, c, a):
    v = I.load(a[0])
    it = to_iter(I, v, c.gargs[0])
    for _ in range(conc(I, a[1]) + 1):
        x, it = inext(I, it)
        if x is END:
            break
    store_iter(I, a[0], v, it)
    return opt(x)


adapter("last", lambda I, c, it, a: opt((drain(I, it) or [END])[-1]))


@model(IT + "collect")
def _(I, c, a):
    it = to_iter(I, a[0], c.gargs[0])
    items = drain(I, it)
    return build(I, items, c.dty)


def build(I, items, tid):
    T = I.p.types[tid]
    nm = T.get("name", "").split("::")[-1]
    if nm == "Vec":
        return I.new_vec(items)
    if nm in ("Result", "Option"):
        good = 0 if nm == "Result" else 1
        out = []
        for x in items:
            x = I.simp(x)
            if type(x) is not Agg:
                raise Unsupported("collect of gated results")
            if x.v != good:
                return x
            out.append(x.f[0])
        return Agg(None, good, (build(I, out, T["args"][0]),))
    if nm == "String":
        return Opaque("string", ())
    raise Unsupported("collect into " + T["s"])


@model("std::iter::Extend::extend")
def _(I, c, a):
    items = drain(I, to_iter(I, a[1], garg(c, 2)))
    if items and type(items[0]) is Ptr and False:
        pass
    v = I.vec_mut(a[0])
    # extend from references copies the elements
    T = I.p.types[garg(c, 1)] if garg(c, 1) is not None else None
    if T is not None and T["k"] == "ref":
        items = [deep_clone(I, I.load(x)) for x in items]
    v.items.extend(items)
    return UNIT


def _sum(I, c, a, mul=False):
    T = I.p.types[c.dty]
    if T["k"] not in ("int", "uint"):
        return NotImplemented
    items = drain(I, to_iter(I, a[0], c.gargs[0]))
    acc = 1 if mul else 0
    for x in items:
        x = I.load(x) if type(x) is Ptr else x
        acc = I.binop("Mul" if mul else "Add", acc, x, c.dty)
    return acc


M[IT + "sum"] = _sum
M[IT + "product"] = lambda I, c, a: _sum(I, c, a, True)


@model(IT + "unzip")
def _(I, c, a):
    items = drain(I, to_iter(I, a[0], c.gargs[0]))
    return Agg(None, 0, (I.new_vec([x.f[0] for x in items]), I.new_vec([x.f[1] for x in items])))


@model(IT + "max", IT + "min")
def _(I, c, a):
    items = drain(I, to_iter(I, a[0], c.gargs[0]))
    vals = [I.load(x) if type(x) is Ptr else x for x in items]
    if not items:
        return NONE
    if not all(type(v) is int for v in vals):
        raise Unsupported("max of symbolic")
    k = vals.index((max if c.defn.endswith("max") else min)(vals))
    return some(items[k])


@model(IT + "size_hint")
def _(I, c, a):
    n = ilen(I, to_iter(I, I.load(a[0]), c.gargs[0]))
    return Agg(None, 0, (n, some(n)))


@model("std::iter::ExactSizeIterator::len")
def _(I, c, a):
    return ilen(I, to_iter(I, I.load(a[0]), c.gargs[0]))


# rayon: the sequential composition of the same closures
for _n in ("enumerate", "rev"):
    M["rayon::iter::IndexedParallelIterator::" + _n] = M[IT + _n]
M["rayon::iter::ParallelIterator::map"] = M[IT + "map"]
M["rayon::iter::ParallelIterator::collect"] = M[IT + "collect"]
M["rayon::iter::ParallelIterator::for_each"] = M[IT + "for_each"]
M["rayon::iter::IndexedParallelIterator::zip"] = M[IT + "zip"]


@model("rayon::iter::IntoParallelRefMutIterator::par_iter_mut", "rayon::iter::IntoParallelRefIterator::par_iter",
       "core::slice::<impl [T]>::iter", "core::slice::<impl [T]>::iter_mut")
def _(I, c, a):
    p = as_slice(I, a[0])
    if type(p) is Ite:
        raise Unsupported("iteration over gated slice")
    return ItV("sl", p, 0, p.n)


@model("rayon_core::join::join", "rayon_core::join")
def _(I, c, a):
    x = I.call_value(fcell(I, a[0]), [])
    y = I.call_value(fcell(I, a[1]), [])
    return Agg(None, 0, (x, y))


# ------------------------------------------------------------ slices / vec
S = "core::slice::<impl [T]>::"
V = "std::vec::Vec::<T, A>::"


@model(S + "len", V + "len")
def _(I, c, a):
    return as_slice(I, a[0]).n


@model(S + "is_empty", V + "is_empty")
def _(I, c, a):
    return int(as_slice(I, a[0]).n == 0)


@model(S + "first")
def _(I, c, a):
    p = as_slice(I, a[0])
    return some(I.pidx(p, 0)) if p.n else NONE


@model(S + "last", S + "last_mut")
def _(I, c, a):
    p = as_slice(I, a[0])
    return some(I.pidx(p, p.n - 1)) if p.n else NONE


@model(S + "get", S + "get_mut")
def _(I, c, a):
    p = as_slice(I, a[0])
    i = I.simp(a[1])
    if type(i) is Agg:
        r = range_of(I, i, p.n, clamp=False)
        if r is None:
            return NONE
        return some(I.pslice(p, *r))
    i = conc(I, i)
    return some(I.pidx(p, i)) if i < p.n else NONE


@model(S + "chunks", S + "chunks_mut")
def _(I, c, a):
    p = as_slice(I, a[0])
    return ItV("chunks", p, 0, p.n, conc(I, a[1]), False)


@model(S + "chunks_exact", S + "chunks_exact_mut")
def _(I, c, a):
    p = as_slice(I, a[0])
    return ItV("chunks", p, 0, p.n, conc(I, a[1]), True)


@model(S + "windows")
def _(I, c, a):
    p = as_slice(I, a[0])
    return ItV("windows", p, 0, p.n, conc(I, a[1]))


@model(S + "copy_from_slice", S + "clone_from_slice")
def _(I, c, a):
    d, s = as_slice(I, a[0]), as_slice(I, a[1])
    if d.n != s.n:
        I.panic_now("copy_from_slice: length mismatch %s != %s" % (d.n, s.n))
    vals = [I.load(I.pidx(s, i)) for i in range(s.n)]
    for i, v in enumerate(vals):
        I.store(I.pidx(d, i), v)
    return UNIT


@model(S + "fill")
def _(I, c, a):
    d = as_slice(I, a[0])
    for i in range(d.n):
        I.store(I.pidx(d, i), deep_clone(I, a[1]))
    return UNIT


@model(S + "reverse")
def _(I, c, a):
    d = as_slice(I, a[0])
    vals = [I.load(I.pidx(d, i)) for i in range(d.n)]
    for i, v in enumerate(reversed(vals)):
        I.store(I.pidx(d, i), v)
    return UNIT


@model(S + "swap")
def _(I, c, a):
    d = as_slice(I, a[0])
    i, j = conc(I, a[1]), conc(I, a[2])
    pi, pj = I.pidx(d, i), I.pidx(d, j)
    x, y = I.load(pi), I.load(pj)
    I.store(pi, y)
    I.store(pj, x)
    return UNIT


@model(S + "split_at", S + "split_at_mut")
def _(I, c, a):
    p = as_slice(I, a[0])
    k = conc(I, a[1])
    return Agg(None, 0, (I.pslice(p, 0, k), I.pslice(p, k, p.n)))


@model("std::array::<impl [T; N]>::map")
def _(I, c, a):
    f = a[1]
    p = I.ref(f)
    return Arr(tuple(I.call_value(p, [x]) for x in I.elems(a[0])))


@model("std::array::from_fn")
def _(I, c, a):
    n = I.p.types[c.dty]["n"] if c.dty is not None else None
    if n is None:
        return NotImplemented
    p = I.ref(a[0])
    return Arr(tuple(I.call_value(p, [i]) for i in range(n)))


@model("std::slice::<impl [T]>::to_vec", "std::slice::<impl [T]>::into_vec")
def _(I, c, a):
    p = as_slice(I, a[0])
    return I.new_vec([deep_clone(I, I.load(I.pidx(p, i))) for i in range(p.n)])


@model("std::slice::<impl [T]>::concat")
def _(I, c, a):
    p = as_slice(I, a[0])
    out = []
    for i in range(p.n):
        v = I.load(I.pidx(p, i))
        if type(v) is Ptr:
            v = I.load(as_slice(I, v))
        out += [deep_clone(I, x) for x in I.elems(v)]
    return I.new_vec(out)


@model(S + "contains")
def _(I, c, a):
    p = as_slice(I, a[0])
    et = I.p.types[I.p.types[c.fn.locals[2]]["e"]]["s"] if c.fn and c.fn.locals else None
    acc = 0
    for i in range(p.n):
        acc = bool2(I, "BitOr", acc, val_eq(I, I.load(I.pidx(p, i)), I.load(a[1]), None))
    return acc


@model("std::vec::Vec::<T>::new", V + "new", "std::vec::Vec::<T>::with_capacity", "std::vec::Vec::<T, A>::with_capacity")
def _(I, c, a):
    return I.new_vec([])


@model(V + "push")
def _(I, c, a):
    I.vec_mut(a[0]).items.append(a[1])
    return UNIT


@model(V + "pop")
def _(I, c, a):
    v = I.vec_mut(a[0])
    return some(v.items.pop()) if v.items else NONE


@model(V + "resize")
def _(I, c, a):
    v = I.vec_mut(a[0])
    n = conc(I, a[1])
    if n < len(v.items):
        del v.items[n:]
    while len(v.items) < n:
        v.items.append(deep_clone(I, a[2]))
    return UNIT


@model(V + "truncate")
def _(I, c, a):
    v = I.vec_mut(a[0])
    n = conc(I, a[1])
    del v.items[n:]
    return UNIT


@model(V + "clear")
def _(I, c, a):
    I.vec_mut(a[0]).items.clear()
    return UNIT


@model(V + "insert")
def _(I, c, a):
    I.vec_mut(a[0]).items.insert(conc(I, a[1]), a[2])
    return UNIT


@model(V + "remove")
def _(I, c, a):
    return I.vec_mut(a[0]).items.pop(conc(I, a[1]))


@model(V + "extend_from_slice")
def _(I, c, a):
    p = as_slice(I, a[1])
    vals = [deep_clone(I, I.load(I.pidx(p, i))) for i in range(p.n)]
    I.vec_mut(a[0]).items.extend(vals)
    return UNIT


@model(V + "append")
def _(I, c, a):
    o = I.vec_mut(a[1])
    items = list(o.items)
    o.items.clear()
    I.vec_mut(a[0]).items.extend(items)
    return UNIT


@model(V + "as_slice", V + "as_mut_slice", S + "as_ref", "std::convert::AsRef::as_ref", "std::borrow::Borrow::borrow")
def _(I, c, a):
    if c.defn.endswith("as_ref") or c.defn.endswith("borrow"):
        v = I.load(a[0])
        if type(v) not in (VecV, Arr):
            return a[0] if type(v) is not Ptr else v
    return as_slice(I, a[0])


@model(V + "reserve", V + "shrink_to_fit")
def _(I, c, a):
    return UNIT


@model("std::vec::from_elem")
def _(I, c, a):
    return I.new_vec([deep_clone(I, a[0]) for _ in range(conc(I, a[1]))])


@model("std::boxed::Box::<T>::new_uninit")
def _(I, c, a):
    return BoxV(I.alloc(UNINIT))


@model("std::boxed::Box::<T>::new")
def _(I, c, a):
    return BoxV(I.alloc(a[0]))


@model("std::boxed::box_assume_init_into_vec_unsafe", "std::boxed::box_new_uninit_into_vec")
def _(I, c, a):
    v = I.load(Ptr(I.simp(a[0]).cell))
    while type(v) is Agg:
        v = v.f[-1] if v.f[0] is UNINIT else v.f[0]
    return I.new_vec(list(v.e))


@model("std::ops::Deref::deref", "std::ops::DerefMut::deref_mut")
def _(I, c, a):
    v = I.load(a[0])
    if type(v) is BoxV:
        return Ptr(v.cell)
    return as_slice(I, a[0])


def range_of(I, r, n, clamp=True):
    if r.tid is None:
        raise Unsupported("index by untyped range")
    k = rng_kind(I, r.tid)
    if k == "Range":
        lo, hi = conc(I, r.f[0]), conc(I, r.f[1])
    elif k == "RangeFrom":
        lo, hi = conc(I, r.f[0]), n
    elif k == "RangeTo":
        lo, hi = 0, conc(I, r.f[0])
    elif k == "RangeFull":
        lo, hi = 0, n
    elif k == "RangeInclusive":
        lo, hi = conc(I, r.f[0]), conc(I, r.f[1]) + 1
    elif k == "RangeToInclusive":
        lo, hi = 0, conc(I, r.f[0]) + 1
    else:
        raise Unsupported("range " + k)
    if not clamp and not (0 <= lo <= hi <= n):
        return None
    return lo, hi


@model("std::ops::Index::index", "std::ops::IndexMut::index_mut")
def _(I, c, a):
    p = as_slice(I, a[0])
    i = I.simp(a[1])
    if type(i) is Agg:
        return I.pmap(p, lambda q: I.pslice(q, *range_of(I, i, q.n)))
    if type(i) is not int:
        i = conc(I, i)
    return I.pidx(p, i)


@model("std::ops::RangeInclusive::<Idx>::new")
def _(I, c, a):
    return Agg(c.dty, 0, (a[0], a[1], 0))


# -------------------------------------------------------------- conversions
@model("std::clone::Clone::clone")
def _(I, c, a):
    return deep_clone(I, I.load(a[0]))


@model("std::borrow::ToOwned::to_owned")
def _(I, c, a):
    p = a[0]
    v = I.load(p)
    if type(p) is Ptr and p.n is not None:
        return I.new_vec([deep_clone(I, x) for x in v.e])
    return deep_clone(I, v)


@model("std::mem::swap")
def _(I, c, a):
    x, y = I.load(a[0]), I.load(a[1])
    I.store(a[0], y)
    I.store(a[1], x)
    return UNIT


@model("std::mem::replace")
def _(I, c, a):
    x = I.load(a[0])
    I.store(a[0], a[1])
    return x


@model("std::convert::From::from", "std::convert::Into::into")
def _(I, c, a):
    st = garg(c, 1) if c.defn.endswith("From::from") else garg(c, 0)
    dt = c.dty if c.dty is not None else (garg(c, 0) if c.defn.endswith("From::from") else garg(c, 1))
    if st is None or dt is None:
        return NotImplemented
    S_, D = I.p.types[st], I.p.types[dt]
    if st == dt:
        return a[0]
    if S_["k"] in ("int", "uint", "bool", "char") and D["k"] in ("int", "uint"):
        return I.cast("IntToInt", a[0], st, dt)
    if D.get("name", "").endswith("Vec"):
        v = a[0]
        if type(v) is Arr:
            return I.new_vec(list(v.e))
        if type(v) is Ptr:
            p = as_slice(I, v)
            return I.new_vec([deep_clone(I, I.load(I.pidx(p, i))) for i in range(p.n)])
    if c.defn.endswith("Into::into") and D["k"] == "adt":
        for nm in ("<%s as std::convert::From<%s>>::from" % (D["s"], S_["s"]),):
            if I.p.has(nm):
                return I.call_inst(nm, None, I.p.fn(nm).id, a, dt)
    return NotImplemented


@model("std::convert::TryInto::try_into", "std::convert::TryFrom::try_from")
def _(I, c, a):
    D = I.p.types[c.dty]
    T = I.p.types[D["args"][0]]
    v = I.simp(a[0])
    if T["k"] == "array" or (T["k"] == "ref" and I.p.types[T["e"]]["k"] == "array"):
        if type(v) is Ptr:
            p = as_slice(I, v)
            n = p.n
        else:
            n = len(I.elems(v))
        want = T["n"] if T["k"] == "array" else I.p.types[T["e"]]["n"]
        if n != want:
            return err(v)
        if T["k"] == "ref":
            return ok(v)
        if type(v) is Ptr:
            return ok(Arr(tuple(I.load(I.pidx(p, i)) for i in range(n))))
        return ok(Arr(tuple(I.elems(v))))
    if T["k"] in ("int", "uint"):
        S_ = I.p.types[garg(c, 0) if c.defn.endswith("try_into") else garg(c, 1)]
        if type(v) is int:
            lo, hi = int_range(T)
            return ok(v) if lo <= v <= hi else err(UNIT)
        lo, hi = int_range(T)
        l2, h2 = int_range(S_)
        if lo <= l2 and h2 <= hi:
            return ok(I.cast("IntToInt", v, I.p.type_by_str[S_["s"]], D["args"][0]))
    return NotImplemented


def int_range(T):
    b = T["b"]
    if T["k"] == "int":
        return -(1 << (b - 1)), (1 << (b - 1)) - 1
    return 0, (1 << b) - 1


@model("std::default::Default::default")
def _(I, c, a):
    T = I.p.types[c.dty]
    return default(I, T, c)


def default(I, T, c=None):
    k = T["k"]
    if k in ("int", "uint", "bool"):
        return 0
    if k == "array":
        return Arr(tuple(default(I, I.p.types[T["e"]]) for _ in range(T["n"])))
    if k == "tuple":
        return Agg(None, 0, tuple(default(I, I.p.types[e]) for e in T["es"]))
    if k == "adt":
        nm = T["name"].split("::")[-1]
        if nm == "Vec":
            return I.new_vec([])
        if nm == "Option":
            return NONE
        if nm == "PhantomData":
            return UNIT
    if c is None:
        n = "<%s as std::default::Default>::default" % T["s"]
        if I.p.has(n):
            return I.call_fn(I.p.fn(n), [])
    return NotImplemented


# ------------------------------------------------------------------ integers
def num(names, f):
    for ty in ("u8", "u16", "u32", "u64", "u128", "usize", "i8", "i16", "i32", "i64", "i128", "isize"):
        for n in names:
            def g(I, c, a, f=f, ty=ty, n=n):
                return f(I, c, a, I.p.type_by_str[ty] if ty in I.p.type_by_str else None, n)
            M["core::num::<impl %s>::%s" % (ty, n)] = g


OPN = {"add": "Add", "sub": "Sub", "mul": "Mul", "shl": "Shl", "shr": "Shr", "neg": "Neg", "div": "Div", "rem": "Rem"}


def _wrapping(I, c, a, t, n):
    op = OPN[n.split("_")[1]]
    if op == "Neg":
        return I.binop("Sub", 0, a[0], t)
    return I.binop(op, a[0], a[1], t)


num(["wrapping_add", "wrapping_sub", "wrapping_mul", "wrapping_shl", "wrapping_shr", "wrapping_neg"], _wrapping)
num(["overflowing_add", "overflowing_sub", "overflowing_mul"],
    lambda I, c, a, t, n: I.checked(OPN[n.split("_")[1]], a[0], a[1], t))


def _checked(I, c, a, t, n):
    r = I.checked(OPN[n.split("_")[1]], a[0], a[1], t)
    o = I.simp(r.f[1])
    if type(o) is int:
        return NONE if o else some(r.f[0])
    g = I.dom.as_gate(o)
    if type(g) is int:
        return NONE if g else some(r.f[0])
    if g.a == 1 and g.b == 0:
        return I.mk_ite(g.c, NONE, some(r.f[0]))
    if g.a == 0 and g.b == 1:
        return I.mk_ite(g.c, some(r.f[0]), NONE)
    raise Unsupported("checked arithmetic on gated values")


num(["checked_add", "checked_sub", "checked_mul"], _checked)


def _saturating(I, c, a, t, n):
    x, y = I.simp(a[0]), I.simp(a[1])
    if type(x) is int and type(y) is int:
        lo, hi = int_range(I.p.types[t])
        r = x + y if n.endswith("add") else x - y if n.endswith("sub") else x * y
        return min(max(r, lo), hi)
    raise Unsupported("saturating arithmetic on symbolic values")


num(["saturating_add", "saturating_sub", "saturating_mul"], _saturating)


def _cint(f):
    def g(I, c, a, t, n):
        xs = [I.simp(x) for x in a]
        if all(type(x) is int for x in xs):
            return f(I.p.types[t], *xs)
        r = I.dom.int_fn(n, xs, t)
        if r is None:
            raise Unsupported("%s of a symbolic value" % n)
        return r
    return g


num(["leading_zeros"], _cint(lambda T, x: T["b"] - (x & ((1 << T["b"]) - 1)).bit_length()))
num(["trailing_zeros"], _cint(lambda T, x: T["b"] if x == 0 else ((x & -x).bit_length() - 1)))
num(["next_power_of_two"], _cint(lambda T, x: 1 if x <= 1 else 1 << (x - 1).bit_length()))
num(["count_ones"], _cint(lambda T, x: bin(x).count("1")))
num(["is_power_of_two"], _cint(lambda T, x: int(x > 0 and x & (x - 1) == 0)))
num(["reverse_bits"], _cint(lambda T, x: int(bin(x)[2:].zfill(T["b"])[::-1], 2)))
num(["pow", "wrapping_pow"], _cint(lambda T, x, e: x ** e & ((1 << T["b"]) - 1)))
num(["ilog2"], _cint(lambda T, x: x.bit_length() - 1))
num(["div_ceil"], _cint(lambda T, x, y: -(-x // y)))
num(["abs_diff"], _cint(lambda T, x, y: abs(x - y)))
num(["rotate_left"], _cint(lambda T, x, k: ((x << k) | (x >> (T["b"] - k))) & ((1 << T["b"]) - 1)))
num(["abs"], _cint(lambda T, x: abs(x)))
num(["unsigned_abs"], _cint(lambda T, x: abs(x)))


def _to_bytes(I, c, a, t, n):
    T = I.p.types[t]
    nb = T["b"] // 8
    u8 = I.p.type_by_str["u8"]
    v = I.simp(a[0])
    bs = [I.cast("IntToInt", I.binop("Shr", v, 8 * i, t), t, u8) for i in range(nb)]
    if n == "to_be_bytes":
        bs.reverse()
    return Arr(tuple(bs))


num(["to_le_bytes", "to_be_bytes", "to_ne_bytes"], _to_bytes)


def _from_bytes(I, c, a, t, n):
    bs = list(I.elems(a[0]))
    if n == "from_be_bytes":
        bs.reverse()
    r = I.dom.from_bytes(bs, t)
    if r is not None:
        return r
    u8 = I.p.type_by_str["u8"]
    acc = 0
    for i, b in enumerate(bs):
        w = I.cast("IntToInt", b, u8, t)
        acc = I.binop("Add", acc, I.binop("Shl", w, 8 * i, t), t)
    return acc


num(["from_le_bytes", "from_be_bytes", "from_ne_bytes"], _from_bytes)


@model("core::bool::<impl bool>::then_some")
def _(I, c, a):
    b = I.simp(a[0])
    if type(b) is int:
        return some(a[1]) if b else NONE
    g = I.dom.as_gate(b)
    if type(g) is int:
        return some(a[1]) if g else NONE
    return I.mk_ite(g.c, some(a[1]) if g.a else NONE, some(a[1]) if g.b else NONE)


@model("std::cmp::max", "std::cmp::min", "std::cmp::Ord::max", "std::cmp::Ord::min")
def _(I, c, a):
    x, y = I.simp(a[0]), I.simp(a[1])
    if type(x) is int and type(y) is int:
        return max(x, y) if c.defn.endswith("max") else min(x, y)
    raise Unsupported("max/min of symbolic values")


# ------------------------------------------------------------- comparisons
def val_eq(I, x, y, tid):
    """structural equality of two abstract values (as a boolean value)"""
    x, y = I.simp(x), I.simp(y)
    tx, ty = type(x), type(y)
    bt = I.p.type_by_str["bool"]
    if tx is Ptr:
        x = I.load(x)
        return val_eq(I, x, y, deref_t(I, tid))
    if ty is Ptr:
        return val_eq(I, x, I.load(y), tid)
    if tid is not None:
        T = I.p.types[tid]
        if T["k"] == "ref":
            return val_eq(I, x, y, T["e"])
        if T["k"] == "adt" and T["crate"] in REPO:
            n = "<%s as std::cmp::PartialEq>::eq" % T["s"]
            if I.p.has(n):
                f = I.p.fn(n)
                return I.call_inst(n, None, f.id, [I.ref(x), I.ref(y)], bt)
    de = getattr(I.dom, "elems", None)
    if de is not None:
        if tx not in (Arr, VecV, Ite, int) and de(x) is not None:
            x, tx = Arr(de(x)), Arr
        if ty not in (Arr, VecV, Ite, int) and de(y) is not None:
            y, ty = Arr(de(y)), Arr
    if tx in (Arr, VecV) and ty in (Arr, VecV):
        ex, ey = I.elems(x), I.elems(y)
        if len(ex) != len(ey):
            return 0
        et = None
        if tid is not None:
            T = I.p.types[tid]
            et = T.get("e") if T["k"] in ("array", "slice") else (T["args"][0] if T.get("args") else None)
        acc = 1
        for u, v in zip(ex, ey):
            r = I.simp(val_eq(I, u, v, et))
            if type(r) is int:
                if not r:
                    return 0
                continue
            acc = r if type(acc) is int else bool2(I, "BitAnd", acc, r)
        return acc
    if tx is Agg and ty is Agg:
        if x.v != y.v:
            return 0
        fts = [None] * len(x.f)
        if tid is not None:
            T = I.p.types[tid]
            if T["k"] == "tuple":
                fts = T["es"]
            elif T["k"] == "adt" and T["vs"]:
                fts = [ft[1] for ft in T["vs"][x.v][1]]
        acc = 1
        for u, v, ft in zip(x.f, y.f, fts):
            r = I.simp(val_eq(I, u, v, ft))
            if type(r) is int:
                if not r:
                    return 0
                continue
            acc = r if type(acc) is int else bool2(I, "BitAnd", acc, r)
        return acc
    if tx is Ite or ty is Ite:
        return I.lift(lambda p, q: val_eq(I, p, q, tid), x, y)
    if tx is StrV and ty is StrV:
        return int(x.s == y.s)
    if tx is int and ty is int:
        return int(x == y)
    return I.binop("Eq", x, y, tid if tid is not None else I.p.type_by_str["u64"])


def deref_t(I, tid):
    if tid is None:
        return None
    T = I.p.types[tid]
    return T["e"] if T["k"] in ("ref", "ptr") else tid


@model("std::cmp::PartialEq::eq")
def _(I, c, a):
    return val_eq(I, I.load(a[0]), I.load(a[1]), garg(c, 0))


@model("std::cmp::PartialEq::ne")
def _(I, c, a):
    t = garg(c, 0)
    T = I.p.types[t]
    return I.unop("Not", val_eq(I, I.load(a[0]), I.load(a[1]), t), I.p.type_by_str["bool"])


def val_cmp(I, x, y, tid):
    x, y = I.simp(x), I.simp(y)
    if type(x) is Ptr:
        return val_cmp(I, I.load(x), y, deref_t(I, tid))
    if type(y) is Ptr:
        return val_cmp(I, x, I.load(y), tid)
    if type(x) is int and type(y) is int:
        return (x > y) - (x < y)
    if type(x) in (Arr, VecV):
        ex, ey = I.elems(x), I.elems(y)
        T = I.p.types[tid]
        et = T.get("e") if T["k"] in ("array", "slice") else T["args"][0]
        for u, v in zip(ex, ey):
            r = val_cmp(I, u, v, et)
            if r:
                return r
        return (len(ex) > len(ey)) - (len(ex) < len(ey))
    raise Unsupported("ordering of symbolic values")


@model("std::cmp::PartialOrd::lt", "std::cmp::PartialOrd::gt", "std::cmp::PartialOrd::le", "std::cmp::PartialOrd::ge")
def _(I, c, a):
    op = {"lt": "Lt", "gt": "Gt", "le": "Le", "ge": "Ge"}[c.defn[-2:]]
    x, y = I.load(a[0]), I.load(a[1])
    while type(x) is Ptr:
        x = I.load(x)
    while type(y) is Ptr:
        y = I.load(y)
    t = garg(c, 0)
    while t is not None and I.p.types[t]["k"] == "ref":
        t = I.p.types[t]["e"]
    T = I.p.types[t]
    if T["k"] in ("int", "uint", "bool"):
        return I.binop(op, x, y, t)
    if T["k"] == "adt" and T["crate"] in REPO:
        n = "<%s as std::cmp::PartialOrd>::%s" % (T["s"], op.lower())
        if I.p.has(n) and not (c.fn is not None and c.fn.name == n):
            return I.call_inst(n, None, I.p.fn(n).id, [I.ref(x), I.ref(y)])
        n = "<%s as std::cmp::PartialOrd>::partial_cmp" % T["s"]
        if I.p.has(n):
            o = I.call_inst(n, None, I.p.fn(n).id, [I.ref(x), I.ref(y)])
            tst = {"Lt": (0,), "Gt": (2,), "Le": (0, 1), "Ge": (1, 2)}[op]

            def g(o):
                o = I.simp(o)
                if type(o) is Ite:
                    return I.mk_ite(o.c, I.under(o.c, True, lambda: g(o.a)), I.under(o.c, False, lambda: g(o.b)))
                if o.v == 0 and not o.f:
                    return 0

                def h(z):
                    z = I.simp(z)
                    if type(z) is Ite:
                        return I.mk_ite(z.c, I.under(z.c, True, lambda: h(z.a)), I.under(z.c, False, lambda: h(z.b)))
                    return int(z.v in tst)
                return h(o.f[0])
            return g(o)
    r = val_cmp(I, x, y, t)
    return int({"Lt": r < 0, "Gt": r > 0, "Le": r <= 0, "Ge": r >= 0}[op])


@model("std::cmp::Ord::cmp", "std::cmp::PartialOrd::partial_cmp")
def _(I, c, a):
    x, y = I.load(a[0]), I.load(a[1])
    t = garg(c, 0)
    part = c.defn.endswith("partial_cmp")

    def wrapo(o):
        return some(o) if part else o
    x, y = I.simp(x), I.simp(y)
    T = I.p.types[t]
    if not (type(x) is int and type(y) is int) and T["k"] in ("int", "uint"):
        r = I.dom.cmp3(x, y, t)
        if r is not None:
            return wrapo(r)
    r = val_cmp(I, x, y, t)
    return wrapo(Agg(None, r + 1, ()))


# --------------------------------------------------------------- operators on refs to ints
def int_trait(name, op):
    @model("std::ops::%s" % name)
    def g(I, c, a):
        x, y = I.simp(a[0]), I.simp(a[1])
        t = garg(c, 0)
        if type(x) is Ptr:
            x = I.load(x)
        if type(y) is Ptr:
            y = I.load(y)
        while t is not None and I.p.types[t]["k"] == "ref":
            t = I.p.types[t]["e"]
        if I.p.types[t]["k"] not in ("int", "uint", "bool"):
            return NotImplemented
        return I.binop(op, x, y, t)


for _t, _m, _o in (("Add", "add", "Add"), ("Sub", "sub", "Sub"), ("Mul", "mul", "Mul"), ("Shr", "shr", "Shr"),
                   ("Shl", "shl", "Shl"), ("BitAnd", "bitand", "BitAnd"), ("BitOr", "bitor", "BitOr"),
                   ("BitXor", "bitxor", "BitXor"), ("Div", "div", "Div"), ("Rem", "rem", "Rem")):
    int_trait("%s::%s" % (_t, _m), _o)


def int_assign(name, op):
    @model("std::ops::%s" % name)
    def g(I, c, a):
        t = garg(c, 0)
        if I.p.types[t]["k"] not in ("int", "uint", "bool"):
            return NotImplemented
        y = I.simp(a[1])
        if type(y) is Ptr:
            y = I.load(y)
        I.store(a[0], I.binop(op, I.load(a[0]), y, t))
        return UNIT


for _t, _m, _o in (("AddAssign", "add_assign", "Add"), ("SubAssign", "sub_assign", "Sub"),
                   ("MulAssign", "mul_assign", "Mul"), ("BitAndAssign", "bitand_assign", "BitAnd"),
                   ("BitOrAssign", "bitor_assign", "BitOr"), ("BitXorAssign", "bitxor_assign", "BitXor"),
                   ("ShrAssign", "shr_assign", "Shr"), ("ShlAssign", "shl_assign", "Shl")):
    int_assign("%s::%s" % (_t, _m), _o)


# ---------------------------------------------------------------------- misc
@model("verif_roots::rng_u64", "verif_roots::rng_u32")
def _(I, c, a):
    return I.dom.fresh_int("rng", 64 if c.defn.endswith("64") else 32)


@model("verif_roots::rng_fill")
def _(I, c, a):
    p = as_slice(I, a[1])
    for i in range(p.n):
        I.store(I.pidx(p, i), I.dom.fresh_int("rng", 8))
    return UNIT


@model("rand_core::RngCore::next_u64", "rand_core::RngCore::next_u32")
def _(I, c, a):
    return I.dom.fresh_int("rng", 64 if c.defn.endswith("64") else 32)


@model("rand_core::RngCore::fill_bytes")
def _(I, c, a):
    p = as_slice(I, a[1])
    for i in range(p.n):
        I.store(I.pidx(p, i), I.dom.fresh_int("rng", 8))
    return UNIT


@model("std::intrinsics::discriminant_value", "std::intrinsics::black_box", "std::hint::black_box")
def _(I, c, a):
    if c.defn.endswith("discriminant_value"):
        t = garg(c, 0)
        return I.discr(I.load(a[0]), t)
    return a[0]


@model("std::intrinsics::assert_inhabited", "std::hint::assert_unchecked", "std::mem::drop", "std::intrinsics::assume",
       "std::intrinsics::cold_path", "core::ub_checks::check_language_ub")
def _(I, c, a):
    return UNIT


for _n in ("add", "sub", "mul"):
    M["std::intrinsics::wrapping_" + _n] = lambda I, c, a, o=OPN[_n]: I.binop(o, a[0], a[1], garg(c, 0))
    M["std::intrinsics::%s_with_overflow" % _n] = lambda I, c, a, o=OPN[_n]: I.checked(o, a[0], a[1], garg(c, 0))


FMT_RX = re.compile(r"^(std|core)::fmt::(rt::)?(Arguments|Argument)\b")


def fmt_value(I, c, a):
    """text to print: never read back"""
    return Opaque("fmt", ())


class Models:
    """lookup order: check-specific overrides (by resolved name), then standard-library models"""

    def __init__(self, overrides=None, patterns=None):
        self.over = overrides or {}
        self.pats = patterns or []
        self.used = {}

    def lookup(self, I, defn, fn):
        if fn is not None:
            f = self.over.get(fn.name)
            if f is None and fn.defn is not None:
                f = self.over.get(fn.defn)
            if f is not None:
                return f
            for rx, g in self.pats:
                if rx.search(fn.name):
                    return g
            if fn.crate in REPO:
                return M.get(fn.defn)
            m = M.get(defn)
            if m is None:
                m = M.get(fn.defn)
            return fmt_value if m is None and FMT_RX.match(defn) else m
        f = self.over.get(defn)
        if f is not None:
            return f
        m = M.get(defn)
        return fmt_value if m is None and FMT_RX.match(defn) else m


# ------------------------------------------------------------------ floats
import math


def _float(name, f):
    @model("std::f64::<impl f64>::" + name, "core::f64::<impl f64>::" + name)
    def m(I, c, a):
        v = [I.simp(x) for x in a]
        if type(v[0]) is not float or any(type(x) not in (int, float) for x in v):
            raise Unsupported("float " + name)
        try:
            return float(f(*v))
        except (ValueError, OverflowError):
            raise Unsupported("float " + name)


for _n, _f in (("log2", math.log2), ("ceil", math.ceil), ("floor", math.floor), ("round", lambda x: math.floor(abs(x) + 0.5) * (1 if x >= 0 else -1)),
               ("powi", lambda x, n: x ** n), ("abs", abs), ("sqrt", math.sqrt), ("log10", math.log10), ("ln", math.log),
               ("max", max), ("min", min), ("exp2", lambda x: 2.0 ** x)):
    _float(_n, _f)
