"""Sparse multivariate polynomials.  A monomial is a sorted tuple of atom ids (with
repetition); a polynomial is an immutable mapping monomial -> coefficient, either over the
integers (p = 0) or modulo a prime p."""


class Poly:
    __slots__ = ("t", "p", "_h")

    def __init__(self, t, p=0):
        self.t = t
        self.p = p
        self._h = None

    @staticmethod
    def const(c, p=0):
        if p:
            c %= p
        return Poly({(): c} if c else {}, p)

    @staticmethod
    def var(i, p=0):
        return Poly({(i,): 1}, p)

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.p, frozenset(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.p == o.p and self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def cval(self):
        return self.t.get((), 0)

    def __add__(self, o):
        p = self.p
        if isinstance(o, int):
            o = Poly.const(o, p)
        a, b = self.t, o.t
        if len(a) < len(b):
            a, b = b, a
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if p:
                v %= p
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r, p)

    def __neg__(self):
        p = self.p
        if p:
            return Poly({m: p - c for m, c in self.t.items()}, p)
        return Poly({m: -c for m, c in self.t.items()}, p)

    def __sub__(self, o):
        p = self.p
        if isinstance(o, int):
            o = Poly.const(o, p)
        r = dict(self.t)
        for m, c in o.t.items():
            v = r.get(m, 0) - c
            if p:
                v %= p
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return Poly(r, p)

    def scale(self, k):
        p = self.p
        if p:
            k %= p
            if not k:
                return Poly({}, p)
            return Poly({m: c * k % p for m, c in self.t.items()}, p)
        if not k:
            return Poly({}, p)
        return Poly({m: c * k for m, c in self.t.items()}, p)

    def __mul__(self, o):
        p = self.p
        if isinstance(o, int):
            return self.scale(o)
        if self.is_const():
            return o.scale(self.cval())
        if o.is_const():
            return self.scale(o.cval())
        r = {}
        get = r.get
        for m1, c1 in self.t.items():
            for m2, c2 in o.t.items():
                if not m1:
                    m = m2
                elif not m2:
                    m = m1
                else:
                    m = tuple(sorted(m1 + m2))
                r[m] = get(m, 0) + c1 * c2
        if p:
            r = {m: v for m, v in ((m, c % p) for m, c in r.items()) if v}
        else:
            r = {m: c for m, c in r.items() if c}
        return Poly(r, p)

    def pow(self, n):
        r = Poly.const(1, self.p)
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def atoms(self):
        s = set()
        for m in self.t:
            s.update(m)
        return s

    def deg_in(self, v):
        return max((m.count(v) for m in self.t), default=0)

    def evaluate(self, v):
        r = 0
        for m, c in self.t.items():
            for x in m:
                c = c * v[x]
            r += c
        return r

    def subst(self, mp):
        """substitute atoms by polynomials"""
        r = Poly({}, self.p)
        acc = {}
        for m, c in self.t.items():
            if not any(v in mp for v in m):
                acc[m] = acc.get(m, 0) + c
                continue
            q = Poly.const(c, self.p)
            keep = []
            for v in m:
                if v in mp:
                    q = q * mp[v]
                else:
                    keep.append(v)
            if keep:
                q = q * Poly({tuple(keep): 1}, self.p)
            r = r + q
        if acc:
            acc = {m: (c % self.p if self.p else c) for m, c in acc.items()}
            acc = {m: c for m, c in acc.items() if c}
            r = r + Poly(acc, self.p)
        return r

    def collect(self, v):
        """coefficients as a dict power -> Poly in atom v"""
        out = {}
        for m, c in self.t.items():
            k = m.count(v)
            rest = tuple(x for x in m if x != v)
            out.setdefault(k, {})[rest] = c
        return {k: Poly(t, self.p) for k, t in out.items()}

    def show(self, names=None, limit=8):
        if not self.t:
            return "0"
        out = []
        for i, (m, c) in enumerate(sorted(self.t.items(), key=lambda x: (len(x[0]), x[0]))):
            if i >= limit:
                out.append("...(%d terms)" % len(self.t))
                break
            if self.p and c > self.p // 2:
                c -= self.p
            f = "*".join((names[v] if names and v in names else "v%s" % (v,)) for v in m)
            out.append(("%s*%s" % (c, f)) if f and c != 1 else (f or str(c)))
        return " + ".join(out)
