"""Loader of the MIR dump written by the rustc driver."""
import json


class Unsupported(Exception):
    """The analysed code uses a construct the analysis has no rule for (no verdict)."""


class NonTerminating(Unsupported):
    """a function re-enters itself with the arguments it was entered with"""


class Fn:
    __slots__ = ("id", "name", "defn", "crate", "kind", "args", "at", "n", "spread",
                 "locals", "dbg", "bbs", "res", "_ipdom", "_dead")

    def __init__(self, d):
        self.id = d["F"]
        self.name = d["name"]
        self.defn = d["def"]
        self.crate = d["crate"]
        self.kind = d["kind"]
        self.args = d["args"]
        self.at = d["at"]
        self.n = d.get("n", 0)
        self.spread = d.get("spread")
        self.locals = d.get("locals")
        self.dbg = d.get("dbg", [])
        self.bbs = d.get("bbs")
        self.res = d.get("res")
        self._ipdom = None
        self._dead = None

    def succs(self, b):
        t = self.bbs[b][1]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "sw":
            r = [x[1] for x in t[3]]
            r.append(t[4])
            return list(dict.fromkeys(r))
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[3]]
        return []

    def dead(self, b):
        """locals whose value is not read from block b on (their address is never taken)"""
        if self._dead is None:
            self._compute_dead()
        return self._dead[b]

    def _compute_dead(self):
        taken = set()

        def place(pl, out):
            out.add(pl[0])
            for p in pl[1:]:
                if p[0] == "i":
                    out.add(p[1])

        def op(o, out):
            if o[0] in ("c", "m"):
                place(o[1], out)

        def rv(r, out):
            k = r[0]
            if k == "use" or k == "rep":
                op(r[1], out)
            elif k == "ref":
                place(r[1], out)
                if not any(p[0] == "*" for p in r[1][1:]):
                    taken.add(r[1][0])
            elif k in ("bin", "cbin"):
                op(r[2], out)
                op(r[3], out)
            elif k in ("un", "cast"):
                op(r[2], out)
            elif k == "agg":
                for o in r[2]:
                    op(o, out)
            elif k in ("disc", "len"):
                place(r[1], out)
            else:
                raise Unsupported("rvalue " + k)
        n = len(self.bbs)
        gen, kill = [], []
        for stmts, term in self.bbs:
            g, k = set(), set()

            def use(o):
                g.update(o - k)
            for s in stmts:
                o = set()
                if s[0] == "=":
                    rv(s[2], o)
                    if len(s[1]) > 1:
                        place(s[1], o)
                    use(o)
                    if len(s[1]) == 1:
                        k.add(s[1][0])
                else:
                    place(s[1], o)
                    use(o)
            o = set()
            t = term[0]
            if t == "call":
                if term[1][0] == "v":
                    op(term[1][1], o)
                for a in term[2]:
                    op(a, o)
                if len(term[3]) > 1:
                    place(term[3], o)
                use(o)
                if len(term[3]) == 1:
                    k.add(term[3][0])
            elif t in ("sw", "assert"):
                op(term[1], o)
                use(o)
            elif t == "ret":
                use({0})
            gen.append(g)
            kill.append(k)
        live = [set(g) for g in gen]
        succ = [self.succs(b) for b in range(n)]
        changed = True
        while changed:
            changed = False
            for b in range(n - 1, -1, -1):
                o = set()
                for s in succ[b]:
                    o |= live[s]
                o = gen[b] | (o - kill[b])
                if o != live[b]:
                    live[b] = o
                    changed = True
        every = set(range(len(self.locals)))
        self._dead = {b: sorted(every - live[b] - taken) for b in range(n)}
        self._dead[-1] = sorted(every - {0} - taken)

    def ipdom(self, b):
        """immediate post-dominator over normal-return paths; -1 = function exit.
        Blocks which cannot reach a return are ignored."""
        if self._ipdom is None:
            self._compute_ipdom()
        return self._ipdom.get(b, -1)

    def _compute_ipdom(self):
        n = len(self.bbs)
        succ = {b: self.succs(b) for b in range(n)}
        pred = {b: [] for b in range(n)}
        exits = []
        for b in range(n):
            if self.bbs[b][1][0] == "ret":
                exits.append(b)
            for s in succ[b]:
                pred[s].append(b)
        EXIT = -1
        # reverse postorder on reversed graph
        seen = set()
        order = []
        st = [(e, iter(pred[e])) for e in exits[:0]]

        def dfs(root):
            stack = [(root, iter(pred[root]))]
            seen.add(root)
            while stack:
                x, it = stack[-1]
                for y in it:
                    if y not in seen:
                        seen.add(y)
                        stack.append((y, iter(pred[y])))
                        break
                else:
                    order.append(x)
                    stack.pop()

        for e in exits:
            if e not in seen:
                dfs(e)
        order.append(EXIT)
        rpo = list(reversed(order))
        idx = {b: i for i, b in enumerate(rpo)}
        idom = {EXIT: EXIT}

        def inter(a, b):
            while a != b:
                while idx[a] > idx[b]:
                    a = idom[a]
                while idx[b] > idx[a]:
                    b = idom[b]
            return a

        changed = True
        es = set(exits)
        while changed:
            changed = False
            for b in rpo:
                if b == EXIT:
                    continue
                ps = [s for s in succ[b] if s in idom]
                if b in es:
                    ps = ps + [EXIT]
                if not ps:
                    continue
                new = ps[0]
                for p in ps[1:]:
                    new = inter(p, new)
                if idom.get(b) != new:
                    idom[b] = new
                    changed = True
        self._ipdom = idom


class Program:
    def __init__(self, path):
        self.types = {}
        self.fns = {}
        self.meta = None
        with open(path) as f:
            for line in f:
                d = json.loads(line)
                if "F" in d:
                    self.fns[d["F"]] = Fn(d)
                elif "T" in d:
                    self.types[d["T"]] = d
                elif "END" in d:
                    self.meta = d
        if self.meta is None:
            raise RuntimeError("truncated MIR dump")
        self.by_name = {}
        for f in self.fns.values():
            if "{closure" not in f.name:
                self.by_name.setdefault(f.name, []).append(f)
        self.type_by_str = {}
        for i, t in self.types.items():
            self.type_by_str.setdefault(t["s"], i)

    def fn(self, name):
        l = self.by_name.get(name)
        if not l:
            raise Unsupported("anchor function not found: %s" % name)
        l = [f for f in l if f.bbs is not None] or l
        return l[0]

    def has(self, name):
        return name in self.by_name

    def find(self, pred):
        return [f for f in self.fns.values() if pred(f)]

    def ty(self, s):
        if s not in self.type_by_str:
            raise Unsupported("type not found: %s" % s)
        return self.type_by_str[s]

    def tname(self, tid):
        return self.types[tid]["s"]

    def place_ty(self, fn, place):
        t = fn.locals[place[0]]
        return self.proj_ty(t, place[1:])

    def proj_ty(self, t, projs):
        for p in projs:
            k = p[0]
            T = self.types[t]
            if k == "*":
                if "e" in T:
                    t = T["e"]
                elif T["k"] == "adt" and T["name"].endswith("::Box"):
                    t = T["args"][0]
                else:
                    raise Unsupported("deref of " + T["s"])
            elif k == "f":
                t = p[2]
            elif k == "i" or k == "c":
                t = T["e"]
            elif k == "s":
                pass
            elif k == "d":
                pass
            elif k == "o":
                t = p[1]
        return t

    def op_ty(self, fn, op):
        if op[0] in ("c", "m"):
            return self.place_ty(fn, op[1])
        if op[0] == "k":
            return op[1]
        return self.type_by_str["bool"]
