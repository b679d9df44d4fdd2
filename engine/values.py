"""Abstract values of the value-flow interpreter."""


class Agg:
    """struct / tuple / enum variant / closure value"""
    __slots__ = ("tid", "v", "f")

    def __init__(self, tid, v, f):
        self.tid = tid
        self.v = v
        self.f = f

    def __repr__(self):
        return "Agg(%s:%s%r)" % (self.tid, self.v, self.f)


class Arr:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "Arr%r" % (self.e,)


class VecV:
    """growable sequence; the list is copied on write after a fork (epoch)"""
    __slots__ = ("items", "epoch")

    def __init__(self, items, epoch):
        self.items = items
        self.epoch = epoch

    def __repr__(self):
        return "Vec%r" % (self.items,)


class Ptr:
    """reference or raw pointer; n is not None for slices (start, n elements)"""
    __slots__ = ("cell", "path", "start", "n")

    def __init__(self, cell, path=(), start=0, n=None):
        self.cell = cell
        self.path = path
        self.start = start
        self.n = n

    def __repr__(self):
        return "Ptr(%s,%r,%s,%s)" % (self.cell, self.path, self.start, self.n)

    def key(self):
        return (self.cell, self.path, self.start, self.n)


class FnV:
    """function item / function pointer"""
    __slots__ = ("fid",)

    def __init__(self, fid):
        self.fid = fid


class StrV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "Str(%r)" % self.s


class Ite:
    """gated value: a when the condition atom holds, b otherwise"""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return "Ite(%r,%r,%r)" % (self.c, self.a, self.b)


class Opaque:
    """uninterpreted term"""
    __slots__ = ("op", "args", "_h")

    def __init__(self, op, args=()):
        self.op = op
        self.args = args
        self._h = None

    def key(self):
        return (self.op, self.args)

    def __eq__(self, o):
        return isinstance(o, Opaque) and self.op == o.op and same(self.args, o.args)

    def __hash__(self):
        return hash(self.op)

    def __repr__(self):
        return "%s%r" % (self.op, tuple(self.args))


class Uninit:
    def __repr__(self):
        return "UNINIT"


UNINIT = Uninit()
UNIT = Agg(None, 0, ())


def some(x):
    return Agg(None, 1, (x,))


NONE = Agg(None, 0, ())


def ok(x):
    return Agg(None, 0, (x,))


def err(x):
    return Agg(None, 1, (x,))


def same(a, b):
    """structural identity of abstract values"""
    if a is b:
        return True
    ta, tb = type(a), type(b)
    if ta is not tb:
        return False
    if ta is int or ta is str:
        return a == b
    if ta is Agg:
        return a.v == b.v and len(a.f) == len(b.f) and all(same(x, y) for x, y in zip(a.f, b.f))
    if ta is Arr:
        return len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if ta is VecV:
        return len(a.items) == len(b.items) and all(same(x, y) for x, y in zip(a.items, b.items))
    if ta is Ptr:
        return a.key() == b.key()
    if ta is Ite:
        return a.c == b.c and same(a.a, b.a) and same(a.b, b.b)
    if ta is tuple:
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if ta is FnV:
        return a.fid == b.fid
    if ta is StrV:
        return a.s == b.s
    if ta is Opaque:
        return a.op == b.op and same(a.args, b.args)
    return a == b
