"""Decides whether a set of quadratic constraints forces given polynomials to vanish: linear substitution and case splits."""
import random
from poly import Poly
from field import mdiv
from prog import Unsupported


def lead(d):
    return d.t[max(d.t)]


def prop(a, b):
    """a = k*b, k constant != 0"""
    if len(a.t) != len(b.t) or not a.t:
        return False
    m = max(a.t)
    if m not in b.t:
        return False
    k = a.t[m] * pow(b.t[m], -1, a.p) % a.p
    return all(b.t.get(x, 0) * k % a.p == c for x, c in a.t.items())


def quotient(d, z):
    """d / z when z divides d, else None"""
    key = lambda m: (len(m), m)
    lm = max(z.t, key=key)
    inv = pow(z.t[lm], -1, d.p)
    q = {}
    for _ in range(400):
        if d.is_zero():
            return Poly(q, z.p)
        m = max(d.t, key=key)
        k = mdiv(m, lm)
        if k is None:
            return None
        c = d.t[m] * inv % d.p
        q[k] = c
        d = d - z * Poly({k: c}, d.p)
    return None


class Sys2:
    def __init__(self, eqs, ne=(), names=None, prefer=()):
        """eqs: triples (A, B, C) meaning A*B = C; ne: polynomials that do not vanish; prefer: atoms to eliminate first"""
        self.eqs = list(eqs)
        self.ne = list(ne)
        self.sub = {}
        self.names = names
        self.prefer = set(prefer)

    def copy(self):
        s = Sys2(self.eqs, self.ne, self.names, self.prefer)
        s.sub = dict(self.sub)
        return s

    def ap(self, d):
        while any(a in self.sub for a in d.atoms()):
            d = d.subst(self.sub)
        return d

    def solve_var(self, d):
        """(atom, value) when d = 0 determines an atom"""
        best = None
        occ = {}
        for m in d.t:
            for a in set(m):
                occ[a] = occ.get(a, 0) + 1
        for m in d.t:
            if len(m) == 1 and occ[m[0]] == 1:
                k = (m[0] in self.prefer, m[0])
                if best is None or k > best[0]:
                    best = (k, m[0])
        if best is None:
            return None
        a = best[1]
        c = d.t[(a,)]
        r = Poly({m: v for m, v in d.t.items() if m != (a,)}, d.p)
        return a, r.scale(-pow(c, -1, d.p) % d.p)

    def step(self):
        """False: contradiction; otherwise the equations are reduced as far as linear substitution goes"""
        again = True
        while again:
            again = False
            out = []
            for A, B, C in self.eqs:
                A, B, C = self.ap(A), self.ap(B), self.ap(C)
                d = A * B - C
                if d.is_zero():
                    continue
                if d.is_const():
                    return False
                if any(prop(d, n) for n in self.ne):
                    return False
                for n in self.ne:
                    q = quotient(d, n) if len(d.t) > 1 else None
                    if q is not None:
                        d = q
                        A, B, C = q, Poly.const(1, d.p), Poly.const(0, d.p)
                if d.is_const():
                    return False
                s = self.solve_var(d)
                if s is not None:
                    self.sub[s[0]] = s[1]
                    again = True
                    continue
                out.append((A, B, C))
            self.eqs = out
            ne = []
            for n in self.ne:
                n = self.ap(n)
                if n.is_zero():
                    return False
                if not n.is_const():
                    ne.append(n)
            self.ne = ne
        return True

    def split(self):
        """two cases of the first product that vanishes, or None"""
        for i, (A, B, C) in enumerate(self.eqs):
            d = A * B - C
            f = None
            if C.is_zero() and not A.is_const() and not B.is_const():
                f = (A, B)
            else:
                f = factor(d)
            if f is None:
                continue
            rest = self.eqs[:i] + self.eqs[i + 1:]
            one = Poly.const(1, d.p)
            z = Poly.const(0, d.p)
            r = []
            l, m = self.copy(), self.copy()
            l.eqs = [(f[0], one, z)] + rest
            m.eqs = [(f[1], one, z)] + rest
            m.ne = self.ne + [f[0]]
            return [l, m]
        return None

    def branches(self, limit=3000):
        work = [self]
        n = 0
        while work:
            s = work.pop()
            n += 1
            if n > limit:
                raise Unsupported("too many cases of the constraints")
            if not s.step():
                continue
            t = s.split()
            if t is None:
                yield s
            else:
                work.extend(t)

    def implied(self, goal):
        g = self.ap(goal)
        if g.is_zero():
            return True
        for A, B, C in self.eqs:
            if quotient(g, A * B - C) is not None:
                return True
        return False

    def model(self, goal, tries=40):
        """an assignment satisfying the remaining constraints with goal != 0, by choosing free atoms at random"""
        rnd = random.Random(7)
        for _ in range(tries):
            s = self.copy()
            ok = True
            for _ in range(400):
                if not s.step():
                    ok = False
                    break
                free = set()
                for A, B, C in s.eqs:
                    free |= (A * B - C).atoms()
                if not free:
                    break
                a = rnd.choice(sorted(free))
                p = goal.p
                s.eqs = s.eqs + [(Poly.var(a, p), Poly.const(1, p), Poly.const(rnd.choice([0, 1, 2, 3, 5, 7, rnd.randrange(p)]), p))]
            if not ok or s.eqs:
                continue
            if not s.ap(goal).is_zero():
                return True
        return False


def factor(d):
    """v*(l) for a common variable, or (v - r1)(v - r2) of a quadratic in one atom with constant roots"""
    com = None
    for m in d.t:
        com = set(m) if com is None else com & set(m)
    if com:
        a = min(com)
        t = {}
        for m, c in d.t.items():
            m = list(m)
            m.remove(a)
            t[tuple(m)] = c
        return Poly.var(a, d.p), Poly(t, d.p)
    at = d.atoms()
    if len(at) == 1:
        (a,) = at
        c = d.collect(a)
        if set(c) <= {0, 1, 2}:
            z = Poly.const(0, d.p)
            c2, c1, c0 = (c.get(k, z).cval() for k in (2, 1, 0))
            # roots among small integers
            for r in range(-4, 5):
                if (c2 * r * r + c1 * r + c0) % d.p == 0:
                    q = (-c1 * pow(c2, -1, d.p) - r) % d.p
                    return (Poly.var(a, d.p) - Poly.const(r, d.p), Poly.var(a, d.p) - Poly.const(q, d.p))
    return None


def forced(eqs, ne, goals, names=None, prefer=()):
    """None when every solution of eqs (with ne nonzero) makes every goal vanish; a description of a solution otherwise.
    goals: list of (label, poly)"""
    n = 0
    for s in Sys2(eqs, ne, names, prefer).branches():
        n += 1
        for label, g in goals:
            if s.implied(g):
                continue
            if s.model(g):
                return "%s is not forced: %s may be nonzero while all constraints hold" % (label, s.ap(g).show(names, 5))
            raise Unsupported("cannot decide whether %s is forced: %s" % (label, [(A * B - C).show(names, 6) for A, B, C in s.eqs]))
    return None


def satisfiable(eqs, ne=()):
    for s in Sys2(eqs, ne).branches():
        return s
    return None
