"""Value domain of the analysis: hash-consed value-graph terms, non-term values, heap objects, states."""
from __future__ import annotations

_INTERN: dict = {}
PROV: dict = {}          # term uid -> (file, line, function) of first creation in the current driver
CUR = {"loc": None}
REGBASE = None


class T:
    """Interned term (value-graph node).  op + args; args are T, str, int, None, Val or nested tuples of those."""
    __slots__ = ("op", "args", "uid", "cache", "__weakref__")

    def __repr__(self):
        return show(self, 6)


def mk(op, *args) -> T:
    key = (op, args)
    t = _INTERN.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.uid = len(_INTERN)
        t.cache = {}
        _INTERN[key] = t
    if t.uid not in PROV and CUR["loc"] is not None:
        PROV[t.uid] = CUR["loc"]
    return t


_CONSTV: dict = {}


def const(v) -> T:
    if isinstance(v, T):
        return v
    key = ("const", (type(v).__name__, repr(v)))
    t = _INTERN.get(key)
    if t is None:
        t = mk("const", type(v).__name__, repr(v))
        _INTERN[key] = t
        _CONSTV[t.uid] = v
    return t


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
NAN = const(float("nan"))
INF = const(float("inf"))
ZERO = const(0)
ONE = const(1)
UNBOUND = mk("unbound")


def is_const(v):
    return isinstance(v, T) and v.op == "const"


def cval(t: T):
    return _CONSTV[t.uid]


SYMINFO: dict = {}


def sym(name, **info) -> T:
    t = mk("sym", name)
    SYMINFO[t.uid] = info
    return t


def syminfo(t) -> dict:
    if isinstance(t, T) and t.op in ("sym", "bv"):
        return SYMINFO.get(t.uid, {})
    return {}


_UNK = [0]


def unk(reason):
    _UNK[0] += 1
    return mk("unk", str(reason), _UNK[0])


def show(t, depth=8):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(a, depth) for a in t) + ")"
    if not isinstance(t, T):
        return repr(t) if isinstance(t, str) else str(t)
    if t.op == "const":
        return repr(_CONSTV[t.uid])
    if t.op == "sym":
        return t.args[0]
    if t.op == "bv":
        return f"k{t.args[0]}"
    if depth <= 0:
        return "..."
    d = depth - 1
    a = t.args
    if t.op in ("bin", "cmp"):
        return f"({show(a[1], d)} {a[0]} {show(a[2], d)})"
    if t.op == "gather":
        return f"{show(a[0], d)}[{show(a[1], d)}]"
    if t.op == "iset":
        if a[1] is TRUE:
            return show(a[0], d)
        return f"{show(a[0], d)}&{{{show(a[1], d)}}}"
    if t.op == "fold":
        return f"{a[2]}_{a[1]}"
    if t.op == "fn":
        return f"{a[0]}(" + ", ".join(show(x, d) for x in a[1:]) + ")"
    if t.op == "call":
        s = [show(x, d) for x in a[1]] + [f"{k}={show(v, d)}" for k, v in a[2]]
        return f"{a[0]}({', '.join(s)})"
    return f"{t.op}(" + ", ".join(show(x, d) for x in a) + ")"


def subterms(t, seen=None):
    """All distinct sub-terms (pre-order)."""
    if seen is None:
        seen = set()
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            stack.extend(x)
        elif isinstance(x, T):
            if x.uid in seen:
                continue
            seen.add(x.uid)
            yield x
            stack.extend(x.args)


def contains(t, sub) -> bool:
    return any(x is sub for x in subterms(t))


def has_op(t, ops) -> bool:
    return any(x.op in ops for x in subterms(t))


# ---------------------------------------------------------------- non-term values
class Ref:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a

    def __eq__(self, o):
        return isinstance(o, Ref) and o.a == self.a

    def __hash__(self):
        return hash(("ref", self.a))

    def __repr__(self):
        return f"@{self.a}"


class Val:
    """Immutable non-term value, compared structurally through key()."""
    def key(self):
        raise NotImplementedError

    def __eq__(self, o):
        return type(o) is type(self) and o.key() == self.key()

    def __hash__(self):
        return hash((type(self).__name__, self.key()))


class Tup(Val):
    def __init__(self, items):
        self.items = tuple(items)

    def key(self):
        return self.items

    def __repr__(self):
        return "Tup" + repr(self.items)


class FuncVal(Val):
    def __init__(self, node, mod, fid=None, cls=None, defaults=(), kwdefaults=(), kind="function", qual=""):
        self.node, self.mod, self.fid, self.cls = node, mod, fid, cls
        self.defaults, self.kwdefaults, self.kind, self.qual = defaults, kwdefaults, kind, qual

    def key(self):
        return (id(self.node), self.fid)

    def __repr__(self):
        return f"<fn {self.qual}>"


class Builtin(Val):
    """Function implemented by the analyser: fn(interp, st, args, kwargs) -> value."""
    def __init__(self, name, fn):
        self.name, self.fn = name, fn

    def key(self):
        return (self.name, id(self.fn))

    def __repr__(self):
        return f"<builtin {self.name}>"


class Bound(Val):
    def __init__(self, recv, fn):
        self.recv, self.fn = recv, fn

    def key(self):
        return (self.recv, self.fn)


class ClassVal(Val):
    def __init__(self, info):
        self.info = info

    def key(self):
        return id(self.info)

    def __repr__(self):
        return f"<class {self.info.name}>"


class PropVal(Val):
    def __init__(self, fget, fset=None):
        self.fget, self.fset = fget, fset

    def key(self):
        return (self.fget, self.fset)


class SuperVal(Val):
    def __init__(self, start, recv):
        self.start, self.recv = start, recv

    def key(self):
        return (id(self.start), self.recv)


class Ext(Val):
    """External (library) object named by its dotted path."""
    def __init__(self, path):
        self.path = path

    def key(self):
        return self.path

    def __repr__(self):
        return f"<ext {self.path}>"


class ModVal(Val):
    def __init__(self, mod):
        self.mod = mod

    def key(self):
        return id(self.mod)


class ExtMeth(Val):
    """Method of a value that is not a repository object."""
    def __init__(self, recv, name):
        self.recv, self.name = recv, name

    def key(self):
        return (self.recv, self.name)

    def __repr__(self):
        return f"<meth {self.recv!r}.{self.name}>"


class SliceVal(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def key(self):
        return (self.lo, self.hi, self.step)

    def full(self):
        return self.lo is NONE and self.hi is NONE and self.step is NONE


class Phi(Val):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def key(self):
        return (self.c, self.a, self.b)

    def __repr__(self):
        return f"phi({self.c!r}, {self.a!r}, {self.b!r})"


class RangeVal(Val):
    def __init__(self, lo, hi, step):
        self.lo, self.hi, self.step = lo, hi, step

    def key(self):
        return (self.lo, self.hi, self.step)


class Partial(Val):
    """delayed(f)(*args): a suspended call."""
    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, tuple(args), tuple(sorted(kwargs.items()))

    def key(self):
        return (self.fn, self.args, self.kwargs)


# ---------------------------------------------------------------- heap objects (replaced, never edited in place)
class HObj:
    def __init__(self, cls, fields, owner=None):
        self.cls, self.fields, self.owner = cls, fields, owner

    def with_(self, k, v):
        f = dict(self.fields)
        f[k] = v
        return HObj(self.cls, f, self.owner)


class HLst:
    """List of known length.  pend: values appended under an enclosing symbolic loop."""
    def __init__(self, items, owner=None):
        self.items, self.owner = tuple(items), owner


class HDct:
    def __init__(self, items, owner=None, other=None):
        self.items = dict(items)      # python constant key (or T) -> value
        self.owner, self.other = owner, other


class HSet:
    def __init__(self, items, owner=None):
        self.items, self.owner = tuple(items), owner     # tuple of values


class HArr:
    """Mutable array / series with its content as a term.  base: address of the array it is a view of."""
    def __init__(self, content, owner=None, kind="ndarray", base=None, name=None):
        self.content, self.owner, self.kind, self.base, self.name = content, owner, kind, base, name

    def with_(self, content):
        return HArr(content, self.owner, self.kind, self.base, self.name)


class HDF:
    """Data frame with named columns (ordered); index: None (range) or tuple of labels; nrows: T."""
    def __init__(self, cols, nrows, owner=None, index=None):
        self.cols, self.nrows, self.owner, self.index = dict(cols), nrows, owner, index


class HEst:
    """Estimator-like object.  base: term naming the prototype; params: tuple of (name, value-term);
    fit: NONE or a 'fitted' term; user: name when the object belongs to the caller."""
    def __init__(self, base, params=(), fit=NONE, user=None, info=None):
        self.base, self.params, self.fit, self.user, self.info = base, tuple(params), fit, user, info or {}

    def with_(self, **kw):
        h = HEst(self.base, self.params, self.fit, self.user, self.info)
        for k, v in kw.items():
            setattr(h, k, v)
        return h


class HOpq:
    """Opaque library object identified by a term."""
    def __init__(self, term, owner=None):
        self.term, self.owner = term, owner


class State:
    __slots__ = ("heap", "envs", "pc", "facts", "seq")

    def __init__(self):
        self.heap, self.envs, self.pc, self.facts, self.seq = {}, {}, (), {}, 0

    def copy(self):
        s = State()
        s.heap = dict(self.heap)
        s.envs = {k: dict(v) for k, v in self.envs.items()}
        s.pc = self.pc
        s.facts = dict(self.facts)
        s.seq = self.seq
        return s

    def become(self, o):
        self.heap, self.envs, self.pc, self.facts, self.seq = o.heap, o.envs, o.pc, o.facts, o.seq


class Dead(Exception):
    """Every path through the current expression raises (or the path is infeasible)."""
    def __init__(self, exc=None, st=None):
        super().__init__(exc)
        self.exc, self.st = exc, st


class Unsupported(Exception):
    pass


class Event:
    __slots__ = ("kind", "data", "gate", "loc", "stack")

    def __init__(self, kind, data, gate, loc, stack):
        self.kind, self.data, self.gate, self.loc, self.stack = kind, data, gate, loc, stack

    def __repr__(self):
        return f"<{self.kind} {self.data} at {self.loc}>"
