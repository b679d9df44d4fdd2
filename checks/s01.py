"""Parallel sections: which operators combine the work of the threads, what their closures capture, and what the code they reach touches."""
import re
from prog import Unsupported

LEVEL = "other"
FLOOR = 6
OURS = ("zkstd", "bn_254", "grumpkin", "zkgroth16", "zknova", "verif_roots", "jub_jub")

# operators whose result is a function of their inputs and of the (pure) closures alone
ORDERED = {"join", "par_iter", "par_iter_mut", "into_par_iter", "par_chunks", "par_chunks_mut", "par_chunks_exact", "par_chunks_exact_mut", "par_windows",
           "enumerate", "rev", "zip", "zip_eq", "map", "for_each", "collect", "collect_into_vec", "cloned", "copied", "skip", "take", "step_by", "chain",
           "interleave", "chunks", "filter", "filter_map", "flat_map", "flat_map_iter", "flatten", "all", "any", "count", "len", "with_min_len",
           "with_max_len", "inspect", "update", "unzip", "partition", "find_first", "find_last", "position_first", "position_last", "min", "max",
           "unzip_into_vecs", "map_with_", "scope_"}
# operators whose result depends on which thread is first or how the work was split
RACY = {"par_bridge", "find_any", "position_any", "find_map_any", "current_thread_index", "spawn", "spawn_fifo", "scope", "scope_fifo", "broadcast",
        "map_init", "for_each_init", "map_with", "for_each_with", "while_some", "take_any", "skip_any", "take_any_while", "skip_any_while"}
# combining operators: the result is determined when the combination is associative with the given identity
REDUCE = {"sum", "product", "reduce", "reduce_with", "try_reduce", "fold", "fold_with", "try_fold"}
SHARED = re.compile(r"^(std|core|alloc)::(sync::(Mutex|RwLock|mutex|rwlock|poison|Condvar|mpsc|mpmc|Once|OnceLock|LazyLock|Barrier|atomic|exclusive|nonpoison)|"
                    r"cell::|thread::)|^(parking_lot|crossbeam|dashmap|once_cell|lazy_static|spin)")
# reads of the environment of a thread; cells, locks and atomics count only when several threads reach the same one (captures, statics)
NONDET = re.compile(r"^<?(std|core)::(thread::|time::|env::|process::|fs::|net::)|^<?&?(mut )?(getrandom|rand)\w*::|thread::LocalKey")
CONTAINERS = re.compile(r"^(std|alloc|core)::(vec::|boxed::Box|string::String|slice::|collections::|option::|result::|ops::|iter::|marker::|array::|sync::Arc|rc::)")


def succs(prog, fn):
    """function instances a body may call (directly, through closures and function values in its types)"""
    out = set()
    for stmts, term in fn.bbs or ():
        if term[0] == "call":
            if term[1][0] == "d" and len(term[1]) > 3 and term[1][3] is not None:
                out.add(term[1][3])
    for t in fn.locals or ():
        T = prog.types[t]
        if T["k"] in ("closure", "fndef") and T.get("i") is not None:
            out.add(T["i"])
    for t in fn.args or ():
        if type(t) is int:
            T = prog.types[t]
            if T["k"] in ("closure", "fndef") and T.get("i") is not None:
                out.add(T["i"])
    return out


def reach(prog, roots):
    seen, work, via = set(), list(roots), {}
    while work:
        i = work.pop()
        if i in seen or i not in prog.fns:
            continue
        seen.add(i)
        for j in succs(prog, prog.fns[i]):
            if j not in seen:
                via.setdefault(j, i)
                work.append(j)
    return seen, via


def statics(x, tid=None):
    """(pointer type, name) of every static and thread-local mentioned in a body; the type is None inside larger constants"""
    if type(x) is not list:
        return
    if len(x) == 1 and x[0] == "tls":
        yield None, "tls"
    elif len(x) > 1 and x[0] == "S" and type(x[1]) is str:
        yield tid, x[1]
    elif len(x) > 2 and x[0] == "k" and type(x[1]) is int:
        yield from statics(x[2], x[1])
    else:
        for y in x:
            yield from statics(y)


def shared(prog, t, path, seen):
    """a reason why values of type t give several threads access to the same mutable state"""
    T = prog.types[t]
    if t in seen:
        return None
    seen.add(t)
    s = T["s"]
    k = T["k"]
    if k == "ptr":
        return "%s is a raw pointer (%s)" % (path, s)
    if k == "dyn":
        return None
    if k == "adt":
        if SHARED.match(s) or SHARED.match(T.get("name", "")):
            return "%s is %s" % (path, s)
        kids = [a for a in T["args"] if type(a) is int]
        if not CONTAINERS.match(s):
            kids += [f[1] for v in T["vs"] for f in v[1]]
    elif k in ("ref", "array", "slice"):
        kids = [T["e"]]
    elif k == "tuple":
        kids = T["es"]
    elif k == "closure":
        kids = [a for a in T["args"] if type(a) is int][-1:]
    else:
        kids = []
    for c in kids:
        r = shared(prog, c, path, seen)
        if r:
            return r
    return None


def opname(fn):
    return re.sub(r"::<.*>$", "", fn.defn.strip()).rsplit("::", 1)[-1]


def short(n):
    return n if len(n) < 120 else n[:117] + "..."


def closures_of(prog, fn):
    """closure types handed to a parallel operator: in its generic arguments and in the adaptor types it works on"""
    out, seen = {}, set()

    def walk(t):
        if type(t) is not int or t in seen:
            return
        seen.add(t)
        T = prog.types[t]
        if T["k"] == "closure":
            out[t] = T
        elif T["k"] == "adt" and re.match(r"^rayon", T["s"]):
            for a in T["args"]:
                walk(a)
        elif T["k"] == "fndef":
            out[t] = T
    for a in fn.args:
        walk(a)
    for a in (fn.locals or [])[1:]:
        walk(a)
    return out


class Par:
    def __init__(self, prog):
        self.prog = prog
        self.sites, self.analysed = [], {}
        for f in prog.fns.values():
            if not f.bbs or f.crate.replace("-", "_") not in OURS and not any(c in f.name for c in OURS):
                continue
            for stmts, term in f.bbs:
                if term[0] == "call" and term[1][0] == "d" and len(term[1]) > 3 and term[1][3] is not None:
                    g = prog.fns[term[1][3]]
                    if g.crate in ("rayon", "rayon_core") or re.match(r"^(std::thread::|crossbeam|threadpool)", g.name):
                        self.sites.append((f, g, term[2]))

    def entry(self, f, g):
        """the operator at one call site"""
        n = opname(g)
        if g.crate not in ("rayon", "rayon_core"):
            return "%s starts threads itself" % short(f.name)
        if n in RACY:
            return "%s: the result of %s depends on how the threads are scheduled" % (short(f.name), n)
        if n in ORDERED or n in ("clone", "drop", "into_iter"):
            return None
        if n in REDUCE:
            return self.reduce(f, g, n)
        raise Unsupported("parallel operator %s" % g.name)

    def reduce(self, f, g, n):
        cs = [T for T in closures_of(self.prog, g).values() if T["k"] == "closure"]
        ok = re.compile(r"ops::(Add|AddAssign|Mul|MulAssign)(<[^>]*>)?>::(add|mul)(_assign)?$")
        if n in ("sum", "product"):
            return None
        for T in cs:
            if T.get("i") is None:
                raise Unsupported("closure of %s" % n)
            b = self.prog.fns[T["i"]]
            calls = [self.prog.fns[t[1][3]].name for s, t in b.bbs if t[0] == "call" and t[1][0] == "d" and t[1][3] is not None]
            if "identity" in b.name:
                continue
            if any(re.search(r"ops::(Sub|SubAssign|Div)(<[^>]*>)?>::", c) or re.search(r"::(double|square|pow|invert)$", c) for c in calls):
                return "%s: %s combines partial results with an operation that is not associative" % (short(f.name), n)
            if not all(ok.search(c) for c in calls):
                raise Unsupported("combination of partial results by %s" % n)
        return None

    def captures(self, f, T):
        up = [a for a in T["args"] if type(a) is int][-1:] if T["k"] == "closure" else []
        for t in up:
            r = shared(self.prog, t, "a captured value", set())
            if r:
                return "%s: %s, which the threads share" % (short(f.name), r)
        return None

    def effects(self, f, T):
        if T.get("i") is None:
            raise Unsupported("closure without a body")
        seen, via = reach(self.prog, [T["i"]])
        for i in sorted(seen):
            b = self.prog.fns[i]
            self.analysed[b.name] = self.analysed.get(b.name, 0) + 1

            def path():
                p, j = [short(b.name)], i
                while j in via and len(p) < 6:
                    j = via[j]
                    p.append(short(self.prog.fns[j].name))
                return " < ".join(p)
            if NONDET.search(b.name):
                return "%s: the parallel code reaches %s" % (short(f.name), path())
            for stmts, term in b.bbs or ():
                for t, c in statics([stmts, term]):
                    if c == "tls":
                        return "%s: the parallel code uses a thread-local in %s" % (short(f.name), path())
                    if t is None:
                        raise Unsupported("static %s inside a constant" % c)
                    P = self.prog.types[t]
                    if P["k"] != "ref" or shared(self.prog, P["e"], c, set()):
                        return "%s: the parallel code uses the mutable static %s in %s" % (short(f.name), c, path())
        return None


def run(ctx):
    prog = ctx.prog
    P = Par(prog)
    done = set()
    for f, g, args in P.sites:
        ctx.ob(f.name, "operator %s" % opname(g), lambda: P.entry(f, g))
        for t, T in closures_of(prog, g).items():
            if t in done:
                continue
            done.add(t)
            ctx.ob(f.name, "captures of %s" % T["s"], lambda: P.captures(f, T))
            ctx.ob(f.name, "effects of %s" % T["s"], lambda: P.effects(f, T))
    for k, v in P.analysed.items():
        ctx.analysed[k] = ctx.analysed.get(k, 0) + v
