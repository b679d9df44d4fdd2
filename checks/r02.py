"""Sparse rows and dense vectors against linear algebra: rows with symbolic coefficients over every coincidence pattern of wires."""
import re
from circ import *

LEVEL = "other"
FLOOR = 50


# coincidences by the kind of the wires: the constant, instances, witnesses, equal and different indices
KINDS = [(a, b) for a in ([("i", 1)], [("w", 0)], [("i", 2), ("i", 1)], [("w", 1), ("w", 2)], [("w", 2), ("i", 2)], [("i", 0), ("w", 3)])
         for b in (a, a[::-1], [("i", 2)], [("w", 2)], [("w", 0), ("i", 1)])]


def row_binary(ctx, F, f, op, sizes):
    prog = ctx.prog
    for group in [partitions(na, nb) for na, nb in sizes] + [KINDS]:
        for wa, wb in group:
            def run(facts):
                D, I = csession(prog, facts)
                a = [(w, D.var("a%d" % i, F.p)) for i, w in enumerate(wa)]
                b = [(w, D.var("b%d" % i, F.p)) for i, w in enumerate(wb)]
                fn = prog.fn(f)
                r = I.analyse(fn, [wrap_arg(I, prog, fn.locals[1], F.row(D, a)), wrap_arg(I, prog, fn.locals[2], F.row(D, b))])
                ctx.used(I)
                if I.panics or r is None:
                    return "may panic: %s" % (I.panics[:1],)
                want = a + [(w, c if op == "+" else -c) for w, c in b]
                for fs, leaf in leaves(I, r, I.st.facts):
                    d = same_rows(D, F.unrow(D, leaf), want, F.p, fs)
                    if d:
                        return "wires %s %s %s: %s" % (wa, op, wb, d)
            r = explore(run)
            if r:
                return r
    return None


def row_scale(ctx, F, f, neg=False, n=3):
    prog = ctx.prog
    for k in range(n + 1):
        wa = [("i", 0), ("w", 0), ("w", 1), ("i", 3)][:k]

        def run(facts):
            D, I = csession(prog, facts)
            a = [(w, D.var("a%d" % i, F.p)) for i, w in enumerate(wa)]
            s = D.var("s", F.p)
            fn = prog.fn(f)
            args = [wrap_arg(I, prog, fn.locals[1], F.row(D, a))]
            if not neg:
                args.append(wrap_arg(I, prog, fn.locals[2], F.el(D, s)))
            r = I.analyse(fn, args)
            ctx.used(I)
            if I.panics or r is None:
                return "may panic: %s" % (I.panics[:1],)
            want = [(w, -c if neg else c * s) for w, c in a]
            for fs, leaf in leaves(I, r, I.st.facts):
                d = same_rows(D, F.unrow(D, leaf), want, F.p, fs)
                if d:
                    return d
        r = explore(run)
        if r:
            return r
    return None


def row_from(ctx, F, f, kind):
    prog = ctx.prog
    for w in (("i", 0), ("i", 5), ("w", 0), ("w", 7)):
        def run(facts):
            D, I = csession(prog, facts)
            fn = prog.fn(f)
            v = D.var("v", F.p)
            if kind == "one":
                args, want = [], [(("i", 0), Poly.const(1, F.p))]
            elif kind == "value":
                args, want = [F.el(D, v)], [(("i", 0), v)]
            elif kind == "new":
                want = [(w, v), (("i", 9), D.var("u", F.p))]
                args = [F.row(D, want).f[0]]
            else:
                args, want = [wrap_arg(I, prog, fn.locals[1], wire(prog, w))], [(w, Poly.const(1, F.p))]
            r = I.analyse(fn, args)
            ctx.used(I)
            if I.panics or r is None:
                return "may panic: %s" % (I.panics[:1],)
            for fs, leaf in leaves(I, r, I.st.facts):
                d = same_rows(D, F.unrow(D, leaf), want, F.p, fs)
                if d:
                    return d
        r = explore(run)
        if r:
            return r
    return None


def row_evaluate(ctx, F, f, n):
    prog = ctx.prog
    for k in range(n + 1):
        wa = [("w", 1), ("i", 1), ("i", 0), ("w", 0)][:k]

        def run(facts):
            D, I = csession(prog, facts)
            a = [(w, D.var("a%d" % i, F.p)) for i, w in enumerate(wa)]
            x = [D.var("x%d" % i, F.p) for i in range(2)]
            w = [D.var("w%d" % i, F.p) for i in range(2)]
            fn = prog.fn(f)
            r = I.analyse(fn, [I.ref(F.row(D, a)), I.ref(F.dense(D, x)), I.ref(F.dense(D, w))])
            ctx.used(I)
            if I.panics or r is None:
                return "may panic: %s" % (I.panics[:1],)
            for fs, leaf in leaves(I, r, I.st.facts):
                d = differ(D, [F.val(D, leaf)], [lin(a, x, w, F.p)], fs)
                if d:
                    return d
        r = explore(run)
        if r:
            return r
    return None


def row_constant(ctx, F, f):
    """a row is a constant exactly when its only term is on the constant wire"""
    prog = ctx.prog
    for wa in ([], [("i", 0)], [("w", 0)], [("i", 1)], [("i", 0), ("w", 0)], [("w", 0), ("i", 0)]):
        D, I = csession(prog, {})
        a = [(w, D.var("a%d" % i, F.p)) for i, w in enumerate(wa)]
        fn = prog.fn(f)
        r = I.simp(I.analyse(fn, [I.ref(F.row(D, a))]))
        ctx.used(I)
        if I.panics or r is None:
            return "may panic: %s" % (I.panics[:1],)
        for fs, leaf in leaves(I, r):
            is_c = wa == [("i", 0)]
            if leaf.v == 1:
                if not is_c:
                    return "the row over %s is reported constant" % (wa,)
                d = differ(D, [F.val(D, leaf.f[0])], [a[0][1]], fs)
                if d:
                    return d
            elif is_c and not D.zero(a[0][1], fs):
                return "the row over the constant wire is not reported constant"
    return None


def dense_op(ctx, F, f, op, n):
    prog = ctx.prog

    def case(k, j, facts):
        D, I = csession(prog, facts)
        a = [D.var("a%d" % i, F.p) for i in range(k)]
        b = [D.var("b%d" % i, F.p) for i in range(j)]
        s = D.var("s", F.p)
        fn = prog.fn(f)
        second = F.el(D, s) if op == "scale" else F.dense(D, b)
        r = I.analyse(fn, [wrap_arg(I, prog, fn.locals[1], F.dense(D, a)), wrap_arg(I, prog, fn.locals[2], second)])
        ctx.used(I)
        if j != k:
            # vectors of different length: no result is expected
            return None if r is None else "vectors of lengths %d and %d are combined" % (k, j)
        if I.panics or r is None:
            return "may panic: %s" % (I.panics[:1],)
        want = {"+": lambda i: a[i] + b[i], "-": lambda i: a[i] - b[i], "had": lambda i: a[i] * b[i],
                "scale": lambda i: a[i] * s}[op]
        for fs, leaf in leaves(I, r, I.st.facts):
            d = differ(D, F.undense(D, leaf), [want(i) for i in range(k)], fs)
            if d:
                return "length %d: %s" % (k, d)
    for k in range(n + 1):
        for j in ({k, k + 1} if op in ("+", "-", "had") else {k}):
            r = explore(lambda facts: case(k, j, facts))
            if r:
                return r
    return None


def dense_unit(ctx, F, f, c, n):
    prog = ctx.prog
    for k in range(n + 1):
        D, I = csession(prog, {})
        r = I.analyse(prog.fn(f), [k])
        ctx.used(I)
        if I.panics or r is None:
            return "may panic: %s" % (I.panics[:1],)
        d = differ(D, F.undense(D, r), [Poly.const(c, F.p)] * k)
        if d:
            return d
    return None


MATS = [([], 0), ([[("i", 0)]], 1), ([[("w", 0), ("i", 1)], []], 2), ([[("i", 1)], [("w", 1), ("i", 0), ("w", 0)], [("w", 1)]], 3),
        ([[("w", 2)], [("i", 2), ("w", 2)], [("w", 0)], [("i", 0), ("i", 2)]], 4)]


def matrix(ctx, F, f, kind):
    for pat, m in MATS:
        r = explore(lambda facts: product(ctx, F, f, kind, pat, m, facts))
        if r:
            return "matrix %s: %s" % (pat, r)
    return None


def product(ctx, F, f, kind, pat, m, facts):
    prog = ctx.prog
    D, I = csession(prog, facts)
    rows = [[(w, D.var("m%d_%d" % (i, j), F.p)) for j, w in enumerate(r)] for i, r in enumerate(pat)]
    M = Agg(prog.ty("zkstd::matrix::SparseMatrix<%s>" % F.ty), 0, (vec(F.row(D, r) for r in rows),))
    nx, nw = 3, 3
    x = [D.var("x%d" % i, F.p) for i in range(nx)]
    w = [D.var("w%d" % i, F.p) for i in range(nw)]
    if kind == "prod":
        args = [I.ref(M), m, nx, I.ref(F.dense(D, x + w))]
    elif kind == "evaluate":
        args = [I.ref(M), I.ref(F.dense(D, x)), I.ref(F.dense(D, w))]
    else:
        args = [I.ref(M), nx, nw]
    res = I.analyse(prog.fn(f), args)
    ctx.used(I)
    if I.panics or res is None:
        return "may panic: %s" % (I.panics[:1],)
    for fs, r in leaves(I, res, I.st.facts):
        if kind != "columns":
            got = F.undense(D, r) if kind == "prod" else [F.val(D, v) for v in items(I, r)]
            d = differ(D, got, [lin(rw, x, w, F.p) for rw in rows], fs)
            if d:
                return d
            continue
        for side, n, part in (("i", nx, r.f[0]), ("w", nw, r.f[1])):
            cols = items(I, part)
            if len(cols) != n:
                return "%d columns for %d wires" % (len(cols), n)
            for k in range(n):
                got, z = {}, Poly.const(0, F.p)
                for t in items(I, cols[k]):
                    i = I.simp(t.f[1])
                    got[i] = got.get(i, z) + F.val(D, t.f[0])
                want = {i: c for i, rw in enumerate(rows) for ww, c in rw if ww == (side, k)}
                if any(not D.zero(got.get(i, z) - want.get(i, z), fs) for i in set(got) | set(want)):
                    return "column %s%d is %s" % (side, k, {i: c.show(D.names) for i, c in got.items()})
    return None


def run(ctx):
    prog = ctx.prog
    sizes = [(a, b) for a in range(3) for b in range(3)] + [(3, 1), (1, 3)]
    if ctx.thorough():
        sizes = [(a, b) for a in range(4) for b in range(4)]
    n = 6 if ctx.thorough() else 3
    for ty in BASE:
        F = Fld(prog, ty)
        e = re.escape(ty)
        row = re.escape(F.row_s)
        dv = re.escape(F.vec_s)
        for f in sorted(prog.by_name):
            if not re.search(r"(SparseRow|DenseVectors|SparseMatrix)(::)?<%s>" % e, f):
                continue
            m = re.fullmatch(r"<&?%s as std::ops::(Add|Sub)(?:<&?%s>)?>::(add|sub)" % (row, row), f)
            if m:
                ctx.ob(f, "linear-form", lambda: row_binary(ctx, F, f, "+" if m.group(1) == "Add" else "-", sizes))
                continue
            m = re.fullmatch(r"<&?%s as std::ops::(Neg|Mul)(?:<&?%s>)?>::(neg|mul)" % (row, e), f)
            if m:
                ctx.ob(f, "linear-form", lambda: row_scale(ctx, F, f, m.group(1) == "Neg"))
                continue
            m = re.fullmatch(r"<%s as std::convert::From<(.*)>>::from" % row, f)
            if m:
                ctx.ob(f, "linear-form", lambda: row_from(ctx, F, f, "value" if m.group(1) == ty else "wire"))
                continue
            g = {"one": "one", "new": "new"}
            m = re.fullmatch(r"zkstd::matrix::SparseRow::<%s>::(\w+)" % e, f)
            if m and m.group(1) in g:
                ctx.ob(f, "linear-form", lambda: row_from(ctx, F, f, m.group(1)))
            elif m and m.group(1) == "evaluate":
                ctx.ob(f, "linear-form", lambda: row_evaluate(ctx, F, f, n))
            elif m and m.group(1) == "as_constant":
                ctx.ob(f, "constant-row", lambda: row_constant(ctx, F, f))
            m = re.fullmatch(r"<&?%s as std::ops::(Add|Sub|Mul)(?:<%s>)?>::(add|sub|mul)" % (dv, e), f)
            if m:
                op = {"Add": "+", "Sub": "-", "Mul": "scale" if "Mul<" in f else "had"}[m.group(1)]
                ctx.ob(f, "vector-operation", lambda: dense_op(ctx, F, f, op, n))
            m = re.fullmatch(r"zkstd::matrix::DenseVectors::<%s>::(one|zero)" % e, f)
            if m:
                ctx.ob(f, "vector-operation", lambda: dense_unit(ctx, F, f, int(m.group(1) == "one"), n))
            m = re.fullmatch(r"zkstd::matrix::SparseMatrix::<%s>::(prod|evaluate_with_z|x_and_w)" % e, f)
            if m:
                k = {"prod": "prod", "evaluate_with_z": "evaluate", "x_and_w": "columns"}[m.group(1)]
                ctx.ob(f, "matrix-operation", lambda: matrix(ctx, F, f, k))
