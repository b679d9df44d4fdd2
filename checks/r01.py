"""Constraint systems: the satisfaction test against the definition, gates against the relation they name."""
import re
from circ import *

LEVEL = "other"
FLOOR = 20


class Sys:
    """a constraint system value"""

    def __init__(self, prog, driver, F):
        self.prog, self.F = prog, F
        self.tid = prog.ty("zkstd::r1cs::R1cs<%s>" % driver)
        self.names = [f[0] for f in prog.types[self.tid]["vs"][0][1]]
        for n in ("m", "a", "b", "c", "x", "w"):
            if n not in self.names:
                raise Unsupported("R1cs has no field %s" % n)
        self.mt = prog.ty("zkstd::matrix::SparseMatrix<%s>" % F.ty)

    def make(self, D, m, a, b, c, x, w):
        F = self.F
        mat = lambda rows: Agg(self.mt, 0, (vec(F.row(D, r) for r in rows),))
        v = {"m": m, "a": mat(a), "b": mat(b), "c": mat(c), "x": F.dense(D, x), "w": F.dense(D, w)}
        return Agg(self.tid, 0, tuple(v[n] for n in self.names))

    def read(self, D, v):
        """-> dict with m, rows of a, b, c and the assignments"""
        I = D.I
        v = I.simp(v)
        g = {n: v.f[self.names.index(n)] for n in self.names}
        r = {"m": I.simp(g["m"])}
        for n in "abc":
            r[n] = [self.F.unrow(D, x) for x in items(I, I.simp(g[n]).f[0])]
        for n in "xw":
            r[n] = self.F.undense(D, g[n])
        return r


SHAPES = [
    # rows of a, b, c over 2 instance and 2 witness wires
    ([], [], []),
    ([[("w", 0)]], [[("w", 1)]], [[("i", 1)]]),
    ([[("i", 0), ("w", 1)], []], [[("i", 1)], [("w", 0)]], [[], [("w", 0), ("i", 0)]]),
    ([[("w", 1)], [("i", 1), ("w", 0)], [("i", 0)]], [[("w", 1)], [("i", 0)], [("w", 0)]], [[("w", 0)], [("i", 1)], [("w", 1)]]),
]


def sym_rows(D, F, nm, pat):
    return [[(w, D.var("%s%d_%d" % (nm, i, j), F.p)) for j, w in enumerate(r)] for i, r in enumerate(pat)]


def is_sat(ctx, F, driver, f, shapes):
    prog = ctx.prog
    S = Sys(prog, driver, F)
    for pa, pb, pc in shapes:
        D, I = csession(prog, {})
        a, b, c = sym_rows(D, F, "a", pa), sym_rows(D, F, "b", pb), sym_rows(D, F, "c", pc)
        x = [D.var("x%d" % i, F.p) for i in range(2)]
        w = [D.var("w%d" % i, F.p) for i in range(2)]
        m = len(a)
        I_cs = I.ref(S.make(D, m, a, b, c, x, w))
        r = I.analyse(prog.fn(f), [I_cs])
        ctx.used(I)
        if I.panics or r is None:
            return "may panic: %s" % (I.panics[:1],)
        cons = [lin(p, x, w, F.p) * lin(q, x, w, F.p) - lin(s, x, w, F.p) for p, q, s in zip(a, b, c)]
        if type(r) not in (int, Ite):
            r = I.dom.as_gate(r)
        seen = set()
        for fs, leaf in leaves(I, r):
            if type(leaf) is not int:
                raise Unsupported("result of the satisfaction test")
            seen.add(leaf)
            if leaf:
                for i, k in enumerate(cons):
                    if not D.zero(k, fs):
                        return "true although constraint %d of %d may be violated%s" % (i, m, show_facts(D, fs))
            else:
                g = dict(fs)
                for k in cons:
                    z = D.zcond(k)
                    if type(z) is int:
                        continue
                    if g.get(z) is False:
                        break
                    g[z] = True
                else:
                    if not D.zero(Poly.const(1, F.p), g):
                        return "false although every constraint may hold%s" % show_facts(D, fs)
        if cons and seen != {0, 1} or not cons and seen != {1}:
            return "the answer for %d constraints is always %s" % (m, seen)
    return None


GATES = {"mul_gate": lambda x, y, z: x * y - z, "add_gate": lambda x, y, z: x + y - z, "sub_gate": lambda x, y, z: x - y - z,
         "equal_gate": lambda x, y, z: x - y}


def proportional(d, want):
    """d = k*want for a constant k != 0"""
    if not want.t:
        return not d.t
    m = max(want.t)
    if m not in d.t:
        return False
    k = d.t[m] * pow(want.t[m], -1, want.p) % want.p
    return not (d - want.scale(k)).t


def gate(ctx, F, driver, f, name):
    prog = ctx.prog
    S = Sys(prog, driver, F)
    rows = [([("w", 0)], [("w", 1)], [("i", 1)]), ([("w", 0), ("i", 1)], [("i", 1), ("w", 0)], [("i", 0)]), ([], [("i", 0)], []),
            ([("i", 1)], [("w", 1)], [("i", 1), ("w", 1)])]
    for px, py, pz in rows:
        def run(facts):
            D, I = csession(prog, facts)
            old = [sym_rows(D, F, n, [[("w", 1)], [("i", 0)]]) for n in "abc"]
            x = [Poly.const(1, F.p)] + [D.var("x%d" % i, F.p) for i in range(1, 3)]
            w = [D.var("w%d" % i, F.p) for i in range(3)]
            r3 = [sym_rows(D, F, n, [q])[0] for n, q in zip("uvt", (px, py, pz))]
            cs = I.ref(S.make(D, 2, old[0], old[1], old[2], x, w))
            fn = prog.fn(f)
            args = [cs] + [I.ref(F.row(D, t)) for t in r3[:len(fn.locals[1:fn.n + 1]) - 1 if fn.n else 3]]
            r = I.analyse(fn, args)
            ctx.used(I)
            if I.panics or r is None:
                return "may panic: %s" % (I.panics[:1],)
            for fs, leaf in leaves(I, I.load(cs), I.st.facts):
                s = S.read(D, leaf)
                if s["m"] != 3 or any(len(s[n]) != 3 for n in "abc"):
                    return "records %d constraints, counts %s" % (len(s["a"]) - 2, s["m"] - 2)
                for n, o in zip("abc", old):
                    for i in range(2):
                        d = same_rows(D, s[n][i], o[i], F.p, fs)
                        if d:
                            return "changes an earlier constraint: " + d
                if differ(D, s["x"], x) or differ(D, s["w"], w):
                    return "changes the assignment"
                got = lin(s["a"][2], x, w, F.p) * lin(s["b"][2], x, w, F.p) - lin(s["c"][2], x, w, F.p)
                want = GATES[name](*[lin(t, x, w, F.p) for t in r3])
                if not D.zero(got - want, fs) and not D.zero(got + want, fs) and not proportional(got, want):
                    return "records %s = 0, expected %s = 0" % (got.show(D.names, 5), want.show(D.names, 5))
        r = explore(run)
        if r:
            return r
    return None


def accessor(ctx, F, driver, f, name):
    prog = ctx.prog
    S = Sys(prog, driver, F)
    for pa, pb, pc in SHAPES:
        D, I = csession(prog, {})
        rows = [sym_rows(D, F, n, q) for n, q in zip("abc", (pa, pb, pc))]
        x = [D.var("x%d" % i, F.p) for i in range(2)]
        w = [D.var("w%d" % i, F.p) for i in range(3)]
        m = len(pa)
        cs = I.ref(S.make(D, m, rows[0], rows[1], rows[2], x, w))
        args = {"z_vectors": [cs, 2, 3]}.get(name, [cs])
        r = I.simp(I.analyse(prog.fn(f), args))
        ctx.used(I)
        if I.panics or r is None:
            return "may panic: %s" % (I.panics[:1],)
        if name in ("m", "l", "m_l_1"):
            want = {"m": m, "l": 2, "m_l_1": 3}[name]
            if r != want:
                return "returns %r for %d" % (r, want)
        elif name in ("x", "w"):
            d = differ(D, [F.val(D, v) for v in items(I, r)], x if name == "x" else w)
            if d:
                return d
        elif name == "matrices":
            for n, got, want in zip("ABC", r.f, rows):
                g = [F.unrow(D, t) for t in items(I, I.simp(got).f[0])]
                if len(g) != len(want) or any(same_rows(D, p, q, F.p, {}) for p, q in zip(g, want)):
                    return "matrix %s differs" % n
        elif name == "evaluate":
            for n, got, want in zip("ABC", r.f, rows):
                d = differ(D, [F.val(D, v) for v in items(I, got)], [lin(t, x, w, F.p) for t in want])
                if d:
                    return "%s evaluations: %s" % (n, d)
        elif name == "z_vectors":
            for side, part, n in (("i", r.f[0], 2), ("w", r.f[1], 3)):
                for nm, got, want in zip("ABC", I.simp(part).f, rows):
                    cols = items(I, got)
                    if len(cols) != n:
                        return "%d columns for %d wires" % (len(cols), n)
                    for k in range(n):
                        g = sorted((I.simp(t.f[1]), F.val(D, t.f[0]).show(D.names)) for t in items(I, cols[k]))
                        e = sorted((i, c.show(D.names)) for i, rw in enumerate(want) for ww, c in rw if ww == (side, k))
                        if g != e:
                            return "column %s%d of %s is %s" % (side, k, nm, g)
    return None


def default(ctx, F, driver, f):
    prog = ctx.prog
    S = Sys(prog, driver, F)
    D, I = csession(prog, {})
    r = I.analyse(prog.fn(f), [])
    ctx.used(I)
    s = S.read(D, r)
    if s["m"] != 0 or s["a"] or s["b"] or s["c"] or s["w"] or differ(D, s["x"], [Poly.const(1, F.p)]):
        return "an empty system is not (no constraints, x = [1], no witness)"
    return None


def index(ctx, F, driver, f):
    prog = ctx.prog
    S = Sys(prog, driver, F)
    for k in (("i", 0), ("i", 1), ("w", 0), ("w", 2)):
        D, I = csession(prog, {})
        x = [D.var("x%d" % i, F.p) for i in range(2)]
        w = [D.var("w%d" % i, F.p) for i in range(3)]
        r = I.analyse(prog.fn(f), [I.ref(S.make(D, 0, [], [], [], x, w)), wire(prog, k)])
        ctx.used(I)
        if I.panics or r is None:
            return "may panic: %s" % (I.panics[:1],)
        d = differ(D, [F.val(D, I.load(r))], [(x if k[0] == "i" else w)[k[1]]])
        if d:
            return d
    return None


def run(ctx):
    prog = ctx.prog
    shapes = SHAPES
    if ctx.thorough():
        pool = [[], [("i", 0)], [("w", 1)], [("w", 0), ("i", 1)], [("i", 1), ("w", 1), ("i", 0), ("w", 0)]]
        shapes = shapes + [([p], [q], [s]) for p in pool for q in pool for s in pool] + [
            ([p, q], [q, s], [s, p]) for p in pool[1:] for q in pool[1:] for s in pool[1:]]
    for f in sorted(prog.by_name):
        m = re.fullmatch(r"zkstd::r1cs::R1cs::<([\w:]+)>::(\w+)", f)
        if not m:
            m2 = re.fullmatch(r"<zkstd::r1cs::R1cs<([\w:]+)> as std::(default::Default>::default|ops::Index<.*>>::index)", f)
            if not m2:
                continue
            driver = m2.group(1)
        else:
            driver = m.group(1)
        F = Fld(prog, scalar(prog, driver))
        if m:
            n = m.group(2)
            if n == "is_sat":
                ctx.ob(f, "true-iff-satisfied", lambda: is_sat(ctx, F, driver, f, shapes))
            elif n in GATES:
                ctx.ob(f, "gate-relation", lambda: gate(ctx, F, driver, f, n))
            elif n in ("m", "l", "m_l_1", "x", "w", "matrices", "evaluate", "z_vectors"):
                ctx.ob(f, "accessor", lambda: accessor(ctx, F, driver, f, n))
        elif m2.group(2).startswith("default"):
            ctx.ob(f, "empty-system", lambda: default(ctx, F, driver, f))
        else:
            ctx.ob(f, "assignment-of-wire", lambda: index(ctx, F, driver, f))


def scalar(prog, driver):
    """scalar field of a circuit driver, from the type of the system's assignment"""
    T = prog.types[prog.ty("zkstd::r1cs::R1cs<%s>" % driver)]
    for n, t in T["vs"][0][1]:
        if n == "x":
            m = re.search(r"DenseVectors<([\w:]+)>", prog.types[t]["s"])
            return m.group(1)
    raise Unsupported("R1cs without assignment")
