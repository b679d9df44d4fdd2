"""Value-flow interpreter over MIR.

The program is never executed: every function body is evaluated over abstract values
(polynomials, gated values, shapes).  A branch on a value that is not constant evaluates both
successors up to their immediate post-dominator and joins the two abstract states with gated
values; loops are unfolded only while their trip count is a constant of the abstract state.
Anything without a rule raises Unsupported: no verdict."""
import struct
import sys
from prog import Unsupported, NonTerminating
from values import *

sys.setrecursionlimit(1000000)


class State:
    __slots__ = ("heap", "facts", "epoch")
    _next_epoch = [1]

    def __init__(self):
        self.heap = {}
        self.facts = {}
        self.epoch = 0

    def fork(self):
        s = State.__new__(State)
        s.heap = dict(self.heap)
        s.facts = dict(self.facts)
        State._next_epoch[0] += 1
        s.epoch = State._next_epoch[0]
        return s


class Panic:
    __slots__ = ("facts", "where", "msg", "stack")

    def __init__(self, facts, where, msg, stack):
        self.facts = facts
        self.where = where
        self.msg = msg
        self.stack = stack

    def __repr__(self):
        return "panic at %s: %s" % (self.where, self.msg)


class Diverged(Exception):
    """the current abstract state cannot continue (certain panic)"""


BITS_MASK = {b: (1 << b) - 1 for b in (8, 16, 32, 64, 128)}


class Interp:
    def __init__(self, prog, domain, models, budget=40_000_000):
        self.p = prog
        self.dom = domain
        self.models = models
        self.st = State()
        self.next_cell = 1
        self.panics = []
        self.stack = []
        self.called = {}
        self.steps = 0
        self.budget = budget
        self.calls = 0
        self.forks = 0
        self.max_forks = 200000
        self.const_cache = {}
        self.model_cache = {}
        self.summaries = {}
        self.trace = False
        domain.attach(self)

    # ---------------------------------------------------------------- memory
    def alloc(self, v):
        c = self.next_cell
        self.next_cell += 1
        self.st.heap[c] = v
        return c

    def ref(self, v):
        return Ptr(self.alloc(v))

    def simp(self, v):
        facts = self.st.facts
        while type(v) is Ite:
            k = facts.get(v.c)
            if k is None:
                return v
            v = v.a if k else v.b
        return v

    def mk_ite(self, c, a, b):
        k = self.st.facts.get(c)
        if k is not None:
            return a if k else b
        if same(a, b):
            return a
        return Ite(c, a, b)

    def child(self, v, i):
        v = self.simp(v)
        t = type(v)
        if t is Agg:
            return v.f[i]
        if t is Arr:
            return v.e[i]
        if t is VecV:
            return v.items[i]
        if t is Ite:
            with_a = self.under(v.c, True, lambda: self.child(v.a, i))
            with_b = self.under(v.c, False, lambda: self.child(v.b, i))
            return self.mk_ite(v.c, with_a, with_b)
        if t is BoxV:
            return v
        return self.dom.child(v, i)

    def under(self, c, val, f):
        """evaluate f with an extra fact (pure computations)"""
        facts = self.st.facts
        if c in facts:
            return f()
        facts[c] = val
        try:
            return f()
        except ImpossibleVariant:
            return UNINIT
        finally:
            del self.st.facts[c]

    def load(self, ptr):
        if type(ptr) is Ite:
            p = self.simp(ptr)
            if type(p) is Ite:
                a = self.under(p.c, True, lambda: self.load(p.a))
                b = self.under(p.c, False, lambda: self.load(p.b))
                return self.mk_ite(p.c, a, b)
            ptr = p
        if type(ptr) is StrV:
            return ptr
        if type(ptr) is not Ptr:
            raise Unsupported("load through %r" % (type(ptr).__name__,))
        v = self.st.heap.get(ptr.cell, UNINIT)
        for i in ptr.path:
            v = self.child(v, i)
        if ptr.n is not None:
            es = self.elems(v)
            return Arr(tuple(es[ptr.start:ptr.start + ptr.n]))
        return self.simp(v)

    def elems(self, v):
        v = self.simp(v)
        if type(v) is Arr:
            return v.e
        if type(v) is VecV:
            return v.items
        if type(v) is Ite:
            return self.elems(self.settle(v, "elements of 'Ite'"))
        if v is not UNINIT:
            r = getattr(self.dom, "elems", _none)(v)
            if r is not None:
                return r
        raise Unsupported("elements of %r" % (type(v).__name__,))

    def store(self, ptr, val):
        p = self.simp(ptr)
        if type(p) is Ite:
            # conditional store
            cur_a = self.under(p.c, True, lambda: self.load(p.a))
            cur_b = self.under(p.c, False, lambda: self.load(p.b))
            self.store(p.a, self.mk_ite(p.c, val, cur_a))
            self.store(p.b, self.mk_ite(p.c, cur_b if not same_loc(p.a, p.b) else val, val))
            return
        if type(p) is not Ptr:
            raise Unsupported("store through %r" % (type(p).__name__,))
        if p.n is not None:
            es = val.e if type(val) is Arr else self.elems(val)
            if len(es) != p.n:
                raise Unsupported("slice store length")
            for k, x in enumerate(es):
                self.store(Ptr(p.cell, p.path + (p.start + k,)), x)
            return
        h = self.st.heap
        if not p.path:
            h[p.cell] = val
        else:
            h[p.cell] = self.upd(h.get(p.cell, UNINIT), p.path, 0, val)

    def upd(self, v, path, k, val):
        if k == len(path):
            return val
        v = self.simp(v)
        i = path[k]
        t = type(v)
        if t is VecV:
            if v.epoch != self.st.epoch:
                v = VecV(list(v.items), self.st.epoch)
            v.items[i] = self.upd(v.items[i], path, k + 1, val)
            return v
        if t is Agg:
            f = list(v.f)
            while len(f) <= i:
                f.append(UNINIT)
            f[i] = self.upd(f[i], path, k + 1, val)
            return Agg(v.tid, v.v, tuple(f))
        if t is Arr:
            e = list(v.e)
            e[i] = self.upd(e[i], path, k + 1, val)
            return Arr(tuple(e))
        if t is Uninit:
            f = [UNINIT] * (i + 1)
            f[i] = self.upd(UNINIT, path, k + 1, val)
            return Agg(None, 0, tuple(f))
        if t is Ite:
            a = self.under(v.c, True, lambda: self.upd(v.a, path, k, val))
            b = self.under(v.c, False, lambda: self.upd(v.b, path, k, val))
            return self.mk_ite(v.c, a, b)
        return self.dom.upd(v, path, k, val)

    def settle(self, v, what):
        """one side of a gated value: the domain may choose it (by analysing each side separately)"""
        v = self.simp(v)
        while type(v) is Ite:
            r = self.dom.decide(Ite(v.c, 1, 0))
            if r is None:
                raise Unsupported(what)
            v = self.simp(v.a if r else v.b)
        return v

    def vec_mut(self, ptr):
        """the VecV stored at ptr, made writable"""
        v = self.load(ptr)
        v = self.simp(v)
        v = self.settle(v, "mutation of a vector whose shape is gated")
        if type(v) is not VecV:
            raise Unsupported("vector expected, got %s" % type(v).__name__)
        if v.epoch != self.st.epoch:
            v = VecV(list(v.items), self.st.epoch)
            self.store(ptr, v)
        return v

    def new_vec(self, items):
        return VecV(list(items), self.st.epoch)

    # ---------------------------------------------------------------- places
    def place_ptr(self, fn, base, place):
        """address of a place; returns Ptr (or Ite of Ptr)"""
        cell = base + place[0]
        ptr = Ptr(cell)
        for pr in place[1:]:
            k = pr[0]
            if k == "*":
                ptr = self.deref(self.load(ptr))
            elif k == "f":
                ptr = self.padd(ptr, pr[1])
            elif k == "d" or k == "o":
                pass
            elif k == "i":
                iv = self.load(Ptr(base + pr[1]))
                if type(iv) is not int:
                    iv = self.dom.concretize(iv)
                ptr = self.pidx(ptr, iv)
            elif k == "c":
                off, _, fe = pr[1], pr[2], pr[3]
                if fe:
                    n = self.plen(ptr)
                    off = n - off
                ptr = self.pidx(ptr, off)
            elif k == "s":
                n = self.plen(ptr)
                frm, to, fe = pr[1], pr[2], pr[3]
                end = n - to if fe else to
                ptr = self.pslice(ptr, frm, end)
            else:
                raise Unsupported("projection " + k)
        return ptr

    def deref(self, v):
        v = self.simp(v)
        t = type(v)
        if t is Ptr or t is Ite or t is StrV:
            return v
        if t is Agg and len(v.f) >= 1:
            # Box / Unique / NonNull wrappers
            return self.deref(v.f[0])
        if t is BoxV:
            return Ptr(v.cell)
        raise Unsupported("deref of %s" % t.__name__)

    def pmap(self, ptr, f):
        ptr = self.simp(ptr)
        if type(ptr) is Ite:
            return self.mk_ite(ptr.c, self.pmap(ptr.a, f), self.pmap(ptr.b, f))
        return f(ptr)

    def padd(self, ptr, i):
        return self.pmap(ptr, lambda p: Ptr(p.cell, p.path + (i,)))

    def pidx(self, ptr, i):
        def f(p):
            if p.n is not None:
                if not (0 <= i < p.n):
                    self.panic_now("slice index %s out of range %s" % (i, p.n))
                return Ptr(p.cell, p.path + (p.start + i,))
            return Ptr(p.cell, p.path + (i,))
        return self.pmap(ptr, f)

    def plen(self, ptr):
        ptr = self.simp(ptr)
        ptr = self.settle(ptr, "length of gated slice")
        if type(ptr) is StrV:
            return len(ptr.s)
        if ptr.n is not None:
            return ptr.n
        v = self.load(ptr)
        return len(self.elems(v))

    def pslice(self, ptr, a, b):
        def f(p):
            n = p.n if p.n is not None else len(self.elems(self.load(p)))
            if not (0 <= a <= b <= n):
                self.panic_now("slice range %s..%s out of range for length %s" % (a, b, n))
            return Ptr(p.cell, p.path, (p.start if p.n is not None else 0) + a, b - a)
        return self.pmap(ptr, f)

    # -------------------------------------------------------------- constants
    def konst(self, tid, v):
        key = None
        r = self.dom.const(tid, v)
        if r is not None:
            return r
        k = v[0]
        T = self.p.types[tid]
        if k == "i":
            return int(v[1])
        if k == "d":
            return struct.unpack("<d", int(v[1]).to_bytes(8, "little"))[0]
        if k == "a":
            if T["k"] == "adt":
                vs = T["vs"]
                ft = [x[1] for x in vs[v[1]][1]] if vs else []
                return Agg(tid, v[1], tuple(self.konst(t, x) for t, x in zip(ft, v[2])))
            if T["k"] == "tuple":
                return Agg(tid, 0, tuple(self.konst(t, x) for t, x in zip(T["es"], v[2])))
            if T["k"] == "closure":
                return Agg(tid, 0, ())
            return Agg(tid, 0, ())
        if k == "A":
            e = T["e"]
            return Arr(tuple(self.konst(e, x) for x in v[1]))
        if k == "r":
            inner = self.konst(T["e"], v[1])
            return self.ref(inner)
        if k == "R":
            arr = Arr(tuple(self.konst(self.p.types[T["e"]]["e"], x) for x in v[1][1]))
            c = self.alloc(arr)
            return Ptr(c, (), 0, len(arr.e))
        if k == "s":
            return StrV(v[1])
        if k == "f":
            return FnV(v[1])
        if k == "z":
            TT = self.p.types[v[1]]
            if TT["k"] == "fndef":
                return FnV(TT["i"])
            return Agg(v[1], 0, ())
        if k == "u":
            return UNINIT
        if k == "S":
            return self.dom.static(self, v[1], T, v[2])
        if k == "p":
            return Opaque("rawptr", (v[1],))
        raise Unsupported("constant %r of %s" % (v, T["s"]))

    # --------------------------------------------------------------- operands
    def operand(self, fn, base, op):
        k = op[0]
        if k == "c" or k == "m":
            pl = op[1]
            if len(pl) == 1:
                return self.simp(self.st.heap.get(base + pl[0], UNINIT))
            return self.load(self.place_ptr(fn, base, pl))
        if k == "k":
            return self.konst(op[1], op[2])
        return 0  # runtime checks are off

    # --------------------------------------------------------------- rvalues
    def rvalue(self, fn, base, rv, dest):
        k = rv[0]
        if k == "use":
            return self.operand(fn, base, rv[1])
        if k == "ref":
            pl = rv[1]
            if len(pl) >= 2 and pl[-1][0] == "*":
                # reborrow: keep slice metadata
                pp = self.place_ptr(fn, base, pl[:-1])
                v = self.load(pp)
                return self.deref(v)
            return self.place_ptr(fn, base, pl)
        if k == "bin":
            a = self.operand(fn, base, rv[2])
            b = self.operand(fn, base, rv[3])
            return self.binop(rv[1], a, b, self.p.op_ty(fn, rv[2]))
        if k == "cbin":
            a = self.operand(fn, base, rv[2])
            b = self.operand(fn, base, rv[3])
            return self.checked(rv[1], a, b, self.p.op_ty(fn, rv[2]))
        if k == "un":
            return self.unop(rv[1], self.operand(fn, base, rv[2]), self.p.op_ty(fn, rv[2]))
        if k == "agg":
            ops = tuple(self.operand(fn, base, o) for o in rv[2])
            ks = rv[1]
            if ks[0] == "A":
                return Arr(ops)
            if ks[0] == "t":
                return Agg(None, 0, ops) if ops else UNIT
            if ks[0] == "a":
                if ks[3] is not None:
                    return Agg(ks[1], ks[2], tuple([UNINIT] * ks[3]) + ops)
                r = self.dom.aggregate(ks[1], ks[2], ops)
                return r if r is not None else Agg(ks[1], ks[2], ops)
            if ks[0] == "cl":
                return Agg(ks[1], 0, ops)
            if ks[0] == "rp":
                p = self.simp(ops[0])
                n = ops[1]
                if type(n) is int and type(p) is Ptr:
                    return self.slice_from(p, n)
                return p
            raise Unsupported("aggregate " + str(ks))
        if k == "disc":
            pl = rv[1]
            v = self.load(self.place_ptr(fn, base, pl))
            return self.discr(v, self.p.place_ty(fn, pl))
        if k == "cast":
            v = self.operand(fn, base, rv[2])
            return self.cast(rv[1], v, self.p.op_ty(fn, rv[2]), rv[3])
        if k == "len":
            return self.plen(self.place_ptr(fn, base, rv[1]))
        if k == "rep":
            v = self.operand(fn, base, rv[1])
            return Arr((v,) * rv[2])
        raise Unsupported("rvalue " + k)

    def slice_from(self, p, n):
        """ptr-to-element + length -> slice pointer"""
        if p.n is not None:
            return Ptr(p.cell, p.path, p.start, n)
        if not p.path:
            raise Unsupported("slice from scalar pointer")
        return Ptr(p.cell, p.path[:-1], p.path[-1], n)

    def discr(self, v, tid):
        v = self.simp(v)
        if type(v) is Ite:
            a = self.under(v.c, True, lambda: self.discr(v.a, tid))
            b = self.under(v.c, False, lambda: self.discr(v.b, tid))
            return self.mk_ite(v.c, a, b)
        if type(v) is Agg:
            T = self.p.types[tid]
            if T["k"] == "adt" and T["ak"] == "enum":
                return self.norm_disc(int(T["vs"][v.v][2]))
            return 0
        if v is UNINIT:
            raise ImpossibleVariant()
        return self.dom.discr(v, tid)

    def norm_disc(self, d):
        if d >= 1 << 127:
            return d - (1 << 128)
        return d

    def lift(self, f, *vs):
        """apply f through gated operands"""
        for i, v in enumerate(vs):
            if type(v) is Ite:
                v = self.simp(v)
                if type(v) is Ite:
                    va = list(vs)
                    va[i] = v.a
                    vb = list(vs)
                    vb[i] = v.b
                    a = self.under(v.c, True, lambda: self.lift(f, *va))
                    b = self.under(v.c, False, lambda: self.lift(f, *vb))
                    return self.mk_ite(v.c, a, b)
                vs = list(vs)
                vs[i] = v
        return f(*vs)

    def binop(self, op, a, b, tid):
        if type(a) is int and type(b) is int:
            return self.cbinop(op, a, b, tid)
        if type(a) is Ite or type(b) is Ite:
            return self.lift(lambda x, y: self.binop(op, x, y, tid), a, b)
        if a is UNINIT or b is UNINIT:
            raise ImpossibleVariant()
        if type(a) is float and type(b) is float:
            return self.fbinop(op, a, b)
        return self.dom.binop(op, a, b, tid)

    def fbinop(self, op, a, b):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
        if op == "Add":
            return a + b
        if op == "Sub":
            return a - b
        if op == "Mul":
            return a * b
        if op == "Div" and b:
            return a / b
        raise Unsupported("float " + op)

    def cbinop(self, op, a, b, tid):
        T = self.p.types[tid]
        k = T["k"]
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            return int({"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op])
        if op == "Cmp":
            return Agg(None, 0 if a < b else (1 if a == b else 2), ())
        if k == "bool":
            return {"BitAnd": a & b, "BitOr": a | b, "BitXor": a ^ b}[op]
        bits = T["b"]
        if op in ("Add", "AddUnchecked"):
            r = a + b
        elif op in ("Sub", "SubUnchecked"):
            r = a - b
        elif op in ("Mul", "MulUnchecked"):
            r = a * b
        elif op == "Div":
            if b == 0:
                self.panic_now("division by zero")
            r = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        elif op == "Rem":
            if b == 0:
                self.panic_now("remainder by zero")
            r = abs(a) % abs(b) * (-1 if a < 0 else 1)
        elif op == "BitAnd":
            r = a & b
        elif op == "BitOr":
            r = a | b
        elif op == "BitXor":
            r = a ^ b
        elif op in ("Shl", "ShlUnchecked"):
            r = a << (b % bits)
        elif op in ("Shr", "ShrUnchecked"):
            r = a >> (b % bits)
        else:
            raise Unsupported("binop " + op)
        return self.wrap(r, T)

    def wrap(self, r, T):
        bits = T["b"]
        r &= (1 << bits) - 1
        if T["k"] == "int" and r >> (bits - 1):
            r -= 1 << bits
        return r

    def checked(self, op, a, b, tid):
        if type(a) is int and type(b) is int:
            T = self.p.types[tid]
            if op in ("Shl", "Shr"):
                r = self.cbinop(op, a, b, tid)
                return Agg(None, 0, (r, int(not 0 <= b < T["b"])))
            full = {"Add": a + b, "Sub": a - b, "Mul": a * b}[op]
            r = self.wrap(full, T)
            return Agg(None, 0, (r, int(r != full)))
        if type(a) is Ite or type(b) is Ite:
            return self.lift(lambda x, y: self.checked(op, x, y, tid), a, b)
        return self.dom.checked(op, a, b, tid)

    def unop(self, op, a, tid):
        if type(a) is int:
            T = self.p.types[tid]
            if op == "Not":
                return 1 - a if T["k"] == "bool" else self.wrap(~a, T)
            if op == "Neg":
                return self.wrap(-a, T)
        if op == "PtrMetadata":
            return self.plen(self.deref(a))
        if type(a) is Ite:
            return self.lift(lambda x: self.unop(op, x, tid), a)
        return self.dom.unop(op, a, tid)

    def cast(self, kind, v, st, dt):
        if kind == "IntToInt":
            if type(v) is int:
                T = self.p.types[dt]
                if T["k"] in ("int", "uint"):
                    return self.wrap(v, T)
                return v
            if type(v) is Ite:
                return self.lift(lambda x: self.cast(kind, x, st, dt), v)
            return self.dom.cast(v, st, dt)
        if kind == "IntToFloat" and type(v) is int and self.p.types[dt]["s"] == "f64":
            return float(v)
        if kind == "FloatToInt" and type(v) is float:
            T = self.p.types[dt]
            lo, hi = (-(1 << (T["b"] - 1)), (1 << (T["b"] - 1)) - 1) if T["k"] == "int" else (0, (1 << T["b"]) - 1)
            return 0 if v != v else lo if v <= lo else hi if v >= hi else int(v)
        if kind == "Unsize":
            T = self.p.types[dt]
            v = self.simp(v)
            if T["k"] in ("ref", "ptr"):
                E = self.p.types[T["e"]]
                if E["k"] == "slice":
                    return self.pmap(v, lambda p: p if p.n is not None else
                                     Ptr(p.cell, p.path, 0, len(self.elems(self.load(p)))))
                return v
            return v
        if kind in ("Reify", "ClosureFn", "UnsafeFnPointer", "MutToConstPointer", "Subtype"):
            if kind == "ClosureFn":
                return v
            return v
        if kind == "PtrToPtr":
            return v
        if kind == "ArrayToPointer":
            return self.pmap(v, lambda p: Ptr(p.cell, p.path + (0,)))
        if kind == "BoxDerefTransmute":
            return v
        if kind == "Transmute":
            return self.dom.transmute(v, st, dt)
        raise Unsupported("cast %s %s -> %s" % (kind, self.p.tname(st), self.p.tname(dt)))

    # ----------------------------------------------------------------- panics
    def panic_now(self, msg, where=None):
        self.panics.append(Panic(dict(self.st.facts), where or self.where(), msg, tuple(f.name for f in self.stack)))
        raise Diverged()

    def where(self):
        return self.stack[-1].name if self.stack else "?"

    # ------------------------------------------------------------------ calls
    def call_fn(self, fn, args):
        """interpret the body of fn"""
        if fn.bbs is None:
            raise Unsupported("no MIR for %s" % fn.name)
        if len(self.stack) > 60 and self.stack[-1] is fn and sum(1 for x in self.stack[-50:] if x is fn) > 20:
            if self.reenters(fn, args):
                raise NonTerminating("%s calls itself with its own arguments: it never returns" % fn.name)
        if len(self.stack) > 400:
            raise Unsupported("call depth exceeded in %s (recursion)" % fn.name)
        self.calls += 1
        self.called[fn.name] = self.called.get(fn.name, 0) + 1
        n = len(fn.locals)
        base = self.next_cell
        self.next_cell += n
        h = self.st.heap
        if fn.spread is not None:
            # tuple argument passed spread: collect
            k = fn.spread
            args = list(args[:k - 1]) + [Agg(None, 0, tuple(args[k - 1:]))] if len(args) != fn.n else args
        for i, a in enumerate(args):
            h[base + 1 + i] = a
        self.stack.append(fn)
        try:
            reached = self.run(fn, base, 0, -1)
        finally:
            self.stack.pop()
        if not reached:
            raise Diverged()
        h = self.st.heap
        r = h.get(base, UNINIT)
        if fn.locals and r is UNINIT:
            r = UNIT
        for i in range(n):
            h.pop(base + i, None)
        return r

    def reenters(self, fn, args):
        """every one of the last frames of fn forwards equal arguments"""
        prev = getattr(self, "_re", None)
        self._re = (fn, args)
        if prev is None or prev[0] is not fn or len(prev[1]) != len(args):
            return False

        def eq(a, b):
            if type(a) is Ptr and type(b) is Ptr:
                return a.key() == b.key() or eq(self.load(a), self.load(b))
            return same(a, b)
        return all(eq(a, b) for a, b in zip(prev[1], args))

    def call_inst(self, defn, gargs, fid, args, dty=None):
        fn = self.p.fns[fid] if fid is not None else None
        if defn in FN_TRAITS and len(args) == 2:
            t = self.simp(args[1])
            if type(t) is Agg and t.v == 0:
                f = self.simp(args[0])
                if type(f) is Ptr and fn is not None and type(self.load(f)) is Ptr:
                    f = self.load(f)
                return self.call_value(f, list(t.f))
        key = fid if fid is not None else ("u", defn)
        m = self.model_cache.get(key, 0)
        if m == 0:
            m = self.models.lookup(self, defn, fn)
            self.model_cache[key] = m
        if m is not None:
            r = m(self, Call(defn, gargs, fn, dty), args)
            if r is not NotImplemented:
                if fn is not None and fn.crate in REPO:
                    self.summaries[fn.name] = self.summaries.get(fn.name, 0) + 1
                return r
        if fn is None:
            raise Unsupported("unresolved call to %s" % defn)
        if fn.bbs is None:
            r = self.construct(fn, args)
            if r is not None:
                return r
            raise Unsupported("no body and no model for %s" % fn.name)
        return self.call_fn(fn, args)

    def construct(self, fn, args):
        """a tuple constructor used as a function"""
        if fn.res is None:
            return None
        T = self.p.types[fn.res]
        if T["k"] != "adt" or T["ak"] == "union":
            return None
        for i, v in enumerate(T["vs"]):
            if len(v[1]) == len(args) and fn.defn == (T["name"] if T["ak"] == "struct" else
                                                      T["name"] + "::" + v[0]):
                ops = tuple(args)
                r = self.dom.aggregate(fn.res, i, ops)
                return r if r is not None else Agg(fn.res, i, ops)
        return None

    def call_value(self, f, args):
        """call a callable abstract value with a list of arguments"""
        f = self.simp(f)
        t = type(f)
        if t is FnV:
            fn = self.p.fns[f.fid]
            return self.call_inst(fn.defn, fn.args, f.fid, list(args))
        if t is PyFn:
            return f.f(self, list(args))
        if t is Ptr:
            return self.call_closure(self.load(f), f, args)
        if t is Agg:
            return self.call_closure(f, None, args)
        raise Unsupported("call of %s" % t.__name__)

    def call_closure(self, clo, ptr, args):
        if type(clo) in (FnV, PyFn, Ptr):
            return self.call_value(clo, args)
        if type(clo) is not Agg or clo.tid is None:
            raise Unsupported("call of non-closure %r" % type(clo).__name__)
        T = self.p.types[clo.tid]
        if T["k"] == "fndef":
            return self.call_value(FnV(T["i"]), args)
        if T["k"] != "closure" or T["i"] is None:
            raise Unsupported("call of %s" % T["s"])
        fn = self.p.fns[T["i"]]
        if fn.bbs is None:
            raise Unsupported("no MIR for closure " + fn.name)
        selfty = self.p.types[fn.locals[1]]
        if selfty["k"] == "ref":
            if ptr is None:
                ptr = self.ref(clo)
            first = ptr
        else:
            first = clo
        return self.call_fn(fn, [first] + list(args))

    # -------------------------------------------------------------- execution
    def run(self, fn, base, bb, stop):
        bbs = fn.bbs
        while True:
            if bb == stop:
                h = self.st.heap
                for x in fn.dead(bb):
                    h.pop(base + x, None)
                return True
            stmts, term = bbs[bb]
            try:
                for s in stmts:
                    self.steps += 1
                    k = s[0]
                    if k == "=":
                        pl = s[1]
                        v = self.rvalue(fn, base, s[2], pl)
                        if len(pl) == 1:
                            self.st.heap[base + pl[0]] = v
                        else:
                            self.store(self.place_ptr(fn, base, pl), v)
                    elif k == "sd":
                        p = self.place_ptr(fn, base, s[1])
                        v = self.load(p)
                        if type(v) is Agg:
                            self.store(p, Agg(v.tid, s[2], v.f))
                        else:
                            self.store(p, Agg(None, s[2], ()))
                    else:
                        raise Unsupported("statement " + k)
                if self.steps > self.budget:
                    raise Unsupported("analysis budget exceeded in %s" % fn.name)
                k = term[0]
                if k == "goto":
                    bb = term[1]
                    continue
                if k == "ret":
                    return True
                if k == "call":
                    bb2 = self.do_call(fn, base, term)
                    if bb2 is None:
                        return False
                    bb = bb2
                    continue
                if k == "sw":
                    d = self.simp(self.operand(fn, base, term[1]))
                    if type(d) is int:
                        bb = self.switch(term, d)
                        continue
                    r = self.fork_switch(fn, base, bb, term, d)
                    if r is None:
                        return False
                    bb = r
                    if bb == -1:
                        return True
                    continue
                if k == "assert":
                    c = self.simp(self.operand(fn, base, term[1]))
                    want = 1 if term[2] else 0
                    if type(c) is int:
                        if c != want:
                            self.panics.append(Panic(dict(self.st.facts), "%s:%s" % (fn.name, term[5]), term[4],
                                                     tuple(f.name for f in self.stack)))
                            return False
                    else:
                        self.assume(c, want, "%s:%s" % (fn.name, term[5]), term[4])
                    bb = term[3]
                    continue
                if k == "unreachable":
                    return False
                if k == "resume":
                    return False
                raise Unsupported("terminator %s in %s" % (k, fn.name))
            except (Diverged, ImpossibleVariant):
                return False

    def assume(self, c, want, where, msg):
        """continue only where boolean value c equals want; record the panic of the rest"""
        c = self.simp(c)
        if type(c) is int:
            if c != want:
                self.panics.append(Panic(dict(self.st.facts), where, msg, tuple(f.name for f in self.stack)))
                raise Diverged()
            return
        if type(c) is not Ite:
            c = self.simp(self.dom.as_gate(c))
            if type(c) is int:
                return self.assume(c, want, where, msg)
        ka = self.const_under(c.a, c.c, True)
        kb = self.const_under(c.b, c.c, False)
        if ka is not None and kb is not None:
            if ka == kb:
                return self.assume(ka, want, where, msg)
            f = dict(self.st.facts)
            f[c.c] = (kb == want) is False and (ka != want)
            bad = ka != want
            f[c.c] = bad
            self.panics.append(Panic(f, where, msg, tuple(x.name for x in self.stack)))
            self.st.facts[c.c] = not bad
            return
        # nested: record the panic of every failing case and keep going without refinement
        self.assume_cases(c, want, where, msg, 5)

    def assume_cases(self, c, want, where, msg, depth):
        c = self.simp(c)
        facts = dict(self.st.facts)
        if type(c) is Ite and depth:
            for x, val in ((c.a, True), (c.b, False)):
                self.under(c.c, val, lambda: self.assume_cases(x, want, where, msg, depth - 1))
        elif type(c) is not int:
            self.panics.append(Panic(facts, where, msg + " (conditional)", tuple(x.name for x in self.stack)))
        elif c != want:
            self.panics.append(Panic(facts, where, msg, tuple(x.name for x in self.stack)))

    def const_under(self, v, c, val):
        def f():
            x = self.simp(v)
            return x if type(x) is int else None
        return self.under(c, val, f)

    def switch(self, term, d):
        for v, t in term[3]:
            iv = int(v)
            if iv == d or (d < 0 and iv == d & ((1 << self.bits_of(term[2])) - 1)):
                return t
        return term[4]

    def bits_of(self, tid):
        T = self.p.types[tid]
        return T.get("b", 8)

    def fork_switch(self, fn, base, bb, term, d):
        """branch on a non-constant value: evaluate both sides up to the post-dominator and join"""
        if type(d) is not Ite:
            d = self.dom.as_gate(d, term)
            d = self.simp(d)
            if type(d) is int:
                return self.switch(term, d)
        if d is UNINIT:
            raise ImpossibleVariant()
        if type(d) is not Ite:
            raise Unsupported("branch on %r in %s" % (d, fn.name))
        j = fn.ipdom(bb)
        ok = self.fork_on(d, lambda dd: self.run_from_switch(fn, base, bb, term, dd, j))
        if not ok:
            return None
        return j

    def run_from_switch(self, fn, base, bb, term, d, j):
        d = self.simp(d)
        if type(d) is int:
            t = self.switch(term, d)
            if fn.bbs[t][1][0] == "unreachable" and not fn.bbs[t][0]:
                return False
            return self.run(fn, base, t, j)
        if d is UNINIT:
            return False
        if type(d) is not Ite:
            d = self.dom.as_gate(d, term)
            if type(d) is int:
                return self.run_from_switch(fn, base, bb, term, d, j)
        return self.fork_on(d, lambda dd: self.run_from_switch(fn, base, bb, term, dd, j))

    def fork_on(self, d, k):
        """run k(d.a) under d.c and k(d.b) under not d.c, joining the states"""
        self.forks += 1
        if self.forks > self.max_forks:
            raise Unsupported("too many joins")
        c = d.c
        st0 = self.st
        if not self.dom.feasible(st0.facts, c, True):
            st0.facts[c] = False
            return k(d.b)
        if not self.dom.feasible(st0.facts, c, False):
            st0.facts[c] = True
            return k(d.a)
        sa = st0.fork()
        sa.facts[c] = True
        self.st = sa
        oka = self.try_(k, d.a)
        sa = self.st
        sb = st0.fork()
        sb.facts[c] = False
        self.st = sb
        okb = self.try_(k, d.b)
        sb = self.st
        if oka and okb:
            self.st = self.merge(c, st0, sa, sb)
            return True
        if oka:
            self.st = sa
            return True
        if okb:
            self.st = sb
            return True
        self.st = st0
        return False

    def try_(self, k, x):
        try:
            return k(x)
        except (Diverged, ImpossibleVariant):
            return False

    def merge(self, c, st0, sa, sb):
        s = st0.fork()
        ha, hb, h0 = sa.heap, sb.heap, st0.heap
        heap = {}
        facts = {k: v for k, v in sa.facts.items() if k in sb.facts and sb.facts[k] == v}
        s.facts = facts
        self.st = s
        for k, va in ha.items():
            if k in hb:
                vb = hb[k]
                heap[k] = va if va is vb else self.merge_val(c, va, vb)
            else:
                heap[k] = va
        for k, vb in hb.items():
            if k not in ha:
                heap[k] = vb
        s.heap = heap
        return s

    def merge_val(self, c, a, b):
        if a is b:
            return a
        if a is UNINIT:
            return b
        if b is UNINIT:
            return a
        j = self.dom.join_first(c, a, b)
        if j is not None:
            return j
        if type(a) is Agg and type(b) is Agg and a.v == b.v and len(a.f) == len(b.f) and a.f:
            return Agg(a.tid if a.tid is not None else b.tid, a.v,
                       tuple(self.merge_val(c, x, y) for x, y in zip(a.f, b.f)))
        if type(a) is Arr and type(b) is Arr and len(a.e) == len(b.e):
            return Arr(tuple(self.merge_val(c, x, y) for x, y in zip(a.e, b.e)))
        if type(a) is VecV and type(b) is VecV and len(a.items) == len(b.items):
            return VecV([self.merge_val(c, x, y) for x, y in zip(a.items, b.items)], -1)
        if same(a, b):
            return a
        a = self.dom.refine(a, c, True)
        b = self.dom.refine(b, c, False)
        if same(a, b):
            return a
        j = self.dom.join(c, a, b)
        if j is not None:
            return j
        return Ite(c, a, b)

    def do_call(self, fn, base, term):
        callee, aops, dest, target, line = term[1], term[2], term[3], term[4], term[5]
        args = [self.operand(fn, base, o) for o in aops]
        if callee[0] == "v":
            f = self.operand(fn, base, callee[1])
            r = self.call_value(f, args)
        else:
            dfn = callee[1]
            if target is None:
                # diverging call
                msg = panic_msg(dfn, args)
                self.panics.append(Panic(dict(self.st.facts), "%s:%s" % (fn.name, line), msg,
                                         tuple(f.name for f in self.stack)))
                return None
            r = self.call_inst(dfn, callee[2], callee[3], args, self.p.place_ty(fn, dest))
        if target is None:
            return None
        if len(dest) == 1:
            self.st.heap[base + dest[0]] = r
        else:
            self.store(self.place_ptr(fn, base, dest), r)
        return target

    # ------------------------------------------------------------ entry point
    def analyse(self, fn, args):
        """abstract result of fn on abstract args; None when it certainly diverges"""
        try:
            return self.call_fn(fn, args)
        except Diverged:
            return None


def panic_msg(dfn, args):
    for a in args:
        if type(a) is StrV:
            return "%s: %s" % (dfn, a.s)
    return dfn


def _none(v):
    return None


def same_loc(a, b):
    return type(a) is Ptr and type(b) is Ptr and a.key() == b.key()


class ImpossibleVariant(Exception):
    """projection out of a gated value that has no such component on this side"""


class PyFn:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f


class BoxV:
    __slots__ = ("cell",)

    def __init__(self, cell):
        self.cell = cell


class Call:
    __slots__ = ("defn", "gargs", "fn", "dty")

    def __init__(self, defn, gargs, fn, dty):
        self.defn = defn
        self.gargs = gargs
        self.fn = fn
        self.dty = dty


FN_TRAITS = {"std::ops::%s::%s" % x for x in (("Fn", "call"), ("FnMut", "call_mut"), ("FnOnce", "call_once"))}
REPO = ("zkstd", "bn_254", "grumpkin", "zkgroth16", "zknova", "verif_roots")


def panics(I, r, seeds=()):
    """verdict on a routine that must not panic: a possible panic needs operands that reach it"""
    if r is None:
        return "always panics: %s" % (I.panics[:1],)
    if not hasattr(I.dom, "panic_at"):
        return "may panic: %s" % (I.panics[:1],)
    for x in I.panics:
        at = I.dom.panic_at(x, seeds)
        if at:
            return "%s, with %s" % (x, at)
    raise Unsupported("may panic, but no operands found that reach it: %s" % (I.panics[0],))
