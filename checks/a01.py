"""Interval + carry-relation abstract interpretation of every limb routine, for all operands at once:
the limb words of the result are proven congruent to the specification and inside [0, p)."""
from consts import *
from interp import Interp, panics
from limb import LimbDomain
from models import Models
from poly import Poly
from values import *
from prog import Unsupported

FLOOR = 20
MODULI = {"l4": [("bn254 Fr", 4, FR), ("bn254 Fq", 4, FQ), ("bls12-381 Fr", 4, BLSR)],
          "l6": [("bls12-381 Fq", 6, BLSP)]}


def spec(op, n, p):
    """(argument list builder, scale, expected) over integers; all mod p"""
    R = 1 << (64 * n)
    r2, r3 = R * R % p, R * R * R % p
    inv = (-pow(p, -1, 1 << 64)) % (1 << 64)
    P_, I_ = Arr(words(p, n)), inv
    top = R - 1

    def num(D, nm, hi, k=n):
        A = D.number(nm, 0, hi)
        return A, Arr(D.limbs_of(A, k))

    def two(f, hia=p - 1, hib=p - 1, extra=(), scale=1):
        def go(D):
            A, la = num(D, "a", hia)
            B, lb = num(D, "b", hib)
            return [la, lb, P_] + list(extra), scale, f(A, B)
        return go

    def one(f, hi=p - 1, args=None, scale=1, k=n):
        def go(D):
            A, la = num(D, "a", hi, k)
            return [la] + list(args), scale, f(A)
        return go

    def u64(D):
        v = D.number("v", 0, M64)
        return [D.limbs_of(v, 1)[0], Arr(words(r2, n)), P_, I_], 1, v.scale(R % p)

    r2a = Arr(words(r2, n))
    return {
        "add": two(lambda a, b: a + b),
        "sub": two(lambda a, b: a - b),
        "double": one(lambda a: a + a, args=[P_]),
        "neg": one(lambda a: -a, args=[P_]),
        "mul": two(lambda a, b: a * b, extra=[I_], scale=R),
        "mul (left operand not reduced)": two(lambda a, b: a * b, hia=top, extra=[I_], scale=R),
        "square": one(lambda a: a * a, args=[P_, I_], scale=R),
        "mont": one(lambda a: a, hi=p * R - 1, args=[P_, I_], scale=R, k=2 * n),
        "to_mont": one(lambda a: a.scale(R % p), hi=top, args=[r2a, P_, I_]),
        "from_u64": u64,
        "one": lambda D: ([r2a, P_, I_], 1, Poly.const(R % p)),
        "little_fermat": lambda D: ([P_], 1, Poly.const(p - 2)),
    }


FUN = {"l4": ["add", "sub", "double", "neg", "mul", "mul (left operand not reduced)", "square", "mont",
              "little_fermat"],
       "l6": ["add", "sub", "double", "neg", "mul", "mul (left operand not reduced)", "square", "mont", "to_mont",
              "from_u64", "one", "little_fermat"]}


def limb_op(ctx, pre, op, n, p):
    D = LimbDomain()
    I = Interp(ctx.prog, D, Models())
    args, scale, want = spec(op, n, p)[op](D)
    base = op.split(" ")[0]
    r = I.analyse(ctx.prog.fn("verif_roots::limbs::%s_%s" % (pre, base)), args)
    ctx.used(I)
    if I.panics or r is None:
        return panics(I, r, [p])
    ws = I.elems(r)
    if len(ws) != n:
        raise Unsupported("result shape")
    tot = D.value(ws)
    fails = []

    def chk(q):
        d = D.apply_case(D.unfold(q.scale(scale) - want))
        for m, c in d.t.items():
            if c.numerator * pow(c.denominator, -1, p) % p if hasattr(c, "numerator") else c % p:
                nm = "*".join(D.names[x] for x in m) or "1"
                return "result differs from the specification: coefficient of %s is %s mod p (case %s)" % (
                    nm, int(c.numerator) * pow(c.denominator, -1, p) % p,
                    {D.names[k]: v for k, v in D.case.items()})
        lo, hi = D.bounds(q)
        if lo < 0 or hi >= p:
            return "result is not canonical: bounded by [%s, p%+d]" % (int(lo), int(hi - p))
        return None

    bad = D.cases(tot, chk)
    return bad and confirmed(D, bad, tot, want, scale, p)


def confirmed(D, bad, tot, want, scale, p):
    """the abstraction alone does not condemn: operands for which the extracted expression is wrong"""
    for vals, v in D.counterexamples([p]):
        r, w = tot.evaluate(v), want.evaluate(v)
        at = ", ".join("%s = %#x" % (D.names[a], x) for a, x in vals.items())
        if r * scale % p != w % p:
            return "%s; with %s the result is %#x, not congruent to the specification" % (bad, at, r)
        if not 0 <= r < p:
            return "%s; with %s the result %#x is not reduced" % (bad, at, r)
    raise Unsupported("not proved, and no counterexample found: " + bad)


def run(ctx):
    for pre in ("l4", "l6"):
        w = "256" if pre == "l4" else "384"
        for op in FUN[pre]:
            for nm, n, p in MODULI[pre]:
                ctx.ob("bits_%s::%s mod %s" % (w, op, nm), "limb-congruence-and-range",
                       lambda: limb_op(ctx, pre, op, n, p))
