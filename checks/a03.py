"""Every arithmetic operator impl (by value, by reference, mixed, assigning) of every field type is
analysed over the algebraic domain with symbolic operands and compared with the ring operation it
denotes; impls are enumerated from the resolved program."""
from fields import *

FLOOR = 100
OPS = {"Add": "add", "Sub": "sub", "Mul": "mul", "Neg": "neg", "AddAssign": "add", "SubAssign": "sub",
       "MulAssign": "mul"}
RX = re.compile(r"^<(&?)([\w:]+) as std::ops::(\w+)(?:<(&?)([\w:]+)>)?>::(\w+)$")


def expected(op, a, b, n):
    if op == "add":
        return tadd(a, b)
    if op == "sub":
        return tsub(a, b)
    if op == "neg":
        return [-x for x in a]
    return tmul(a, b)


def operator(ctx, f, ty, op, assign):
    prog = ctx.prog
    D, I = session(prog)
    tid = prog.ty(ty)
    va, ca = symbolic(D, prog, tid, "a")
    vb, cb = symbolic(D, prog, tid, "b")
    p = ca[0].p
    args = [wrap_arg(I, prog, f.locals[1], va)]
    if f.n > 1:
        args.append(wrap_arg(I, prog, f.locals[2], vb))
    r = I.analyse(f, args)
    ctx.used(I)
    bad = panic_report(I)
    if bad:
        return bad
    if r is None:
        return "always panics"
    if assign:
        r = I.load(args[0])
    for facts, leaf in leaves(I, r):
        d = differ(D, coeffs(D, prog, leaf, p), expected(op, ca, cb, len(ca)), facts)
        if d:
            return d
    return None


def simple(ctx, name, ty, spec):
    """unary PrimeField-style method; spec: coefficient list -> coefficient list"""
    prog = ctx.prog
    f = prog.fn(name)
    D, I = session(prog)
    tid = prog.ty(ty)
    va, ca = symbolic(D, prog, tid, "a")
    args = [wrap_arg(I, prog, f.locals[1], va)] if f.n else []
    r = I.analyse(f, args)
    ctx.used(I)
    bad = panic_report(I)
    if bad:
        return bad
    if r is None:
        return "always panics"
    if name.endswith("_assign"):
        r = I.load(args[0])
    for facts, leaf in leaves(I, r):
        d = differ(D, coeffs(D, prog, leaf, ca[0].p), spec(ca), facts)
        if d:
            return d
    return None


def select(ctx, name, ty, bit):
    """conditional selection returns its first operand for 0 and the second for 1"""
    prog = ctx.prog
    f = prog.fn(name)
    D, I = session(prog, patterns=subtle_models())
    tid = prog.ty(ty)
    (va, ca), (vb, cb) = symbolic(D, prog, tid, "a"), symbolic(D, prog, tid, "b")
    r = I.analyse(f, [wrap_arg(I, prog, f.locals[1], va), wrap_arg(I, prog, f.locals[2], vb), Agg(f.locals[3], 0, (bit,))])
    ctx.used(I)
    bad = panic_report(I)
    if bad or r is None:
        return bad or "always panics"
    for facts, leaf in leaves(I, r):
        # the coordinates' words one by one: those of distinct operands have nothing in common
        words = I.elems(I.simp(va.f[0])) + I.elems(I.simp(vb.f[0]))
        x, y = I.elems(I.simp(leaf.f[0])), I.elems(I.simp((vb if bit else va).f[0]))
        for i, (u, v) in enumerate(zip(x, y)):
            if hk(u) != hk(v):
                if type(u) is Opaque or u in words:
                    return "word %d of the result is not that of the operand chosen by %d" % (i, bit)
                raise Unsupported("word %d of the result" % i)
    return None


def run(ctx):
    prog = ctx.prog
    types = dict(BASE)
    types.update(TOWER)
    for name in sorted(prog.by_name):
        m = RX.match(name)
        if not m or m.group(2) not in types or m.group(3) not in OPS:
            continue
        if m.group(5) not in (None, "", m.group(2)):
            continue
        f = prog.fn(name)
        ctx.ob(name, "operator-form-agrees", lambda: operator(ctx, f, m.group(2), OPS[m.group(3)],
                                                             m.group(3).endswith("Assign")))
    for ty in types:
        for meth, spec in (("zkstd::common::PrimeField>::double", lambda a: tadd(a, a)),
                           ("zkstd::common::PrimeField>::double_assign", lambda a: tadd(a, a)),
                           ("zkstd::common::PrimeField>::square", lambda a: tmul(a, a)),
                           ("zkstd::common::PrimeField>::square_assign", lambda a: tmul(a, a)),
                           ("std::clone::Clone>::clone", lambda a: a),
                           ("zkstd::common::IntGroup>::zero", lambda a: [x - x for x in a]),
                           ("zkstd::common::Ring>::one", lambda a: tone(len(a), a[0].p)),
                           ):
            name = "<%s as %s" % (ty, meth)
            ctx.ob(name, "method-agrees", lambda: simple(ctx, name, ty, spec))
        if prog.has(ty + "::add_const"):
            ctx.ob(ty + "::add_const", "operator-form-agrees", lambda: operator(ctx, prog.fn(ty + "::add_const"), ty, "add", False))
        for meth, spec in (("double", lambda a: tadd(a, a)), ("square", lambda a: tmul(a, a))):
            for name in [n for n in sorted(prog.by_name) if n.endswith("<impl ff::Field for %s>::%s" % (ty, meth))]:
                ctx.ob(name, "method-agrees", lambda: simple(ctx, name, ty, spec))
        for name in [n for n in sorted(prog.by_name) if n.endswith("ConditionallySelectable for %s>::conditional_select" % ty)]:
            for bit in (0, 1):
                ctx.ob(name, "selects[%d]" % bit, lambda: select(ctx, name, ty, bit))
        for meth, spec in (("zero", lambda a: [x - x for x in a]), ("one", lambda a: tone(len(a), a[0].p))):
            name = "%s::%s" % (ty, meth)
            if prog.has(name):
                ctx.ob(name, "method-agrees", lambda: simple(ctx, name, ty, spec))
