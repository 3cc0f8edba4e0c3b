"""Smart constructors of value-graph terms: constant folding, broadcasting over arrays whose concrete axes are
enumerated, read-over-write, composition of index sets.  No term is ever evaluated on data."""
from __future__ import annotations

import itertools
import math

from .core import (FALSE, NAN, NONE, ONE, T, TRUE, ZERO, SliceVal, Val, Tup, const, cval, is_const, mk, syminfo, unk)

MAXENUM = 24
ELEMENTWISE = ("bin", "fn", "cmp", "log")


# ------------------------------------------------------------------ shapes
def dimof(v):
    """dimension from an abstract integer: python int when small and constant, else a term"""
    if isinstance(v, int):
        return v if v <= MAXENUM else const(v)
    if is_const(v) and isinstance(cval(v), int) and not isinstance(cval(v), bool):
        return cval(v) if cval(v) <= MAXENUM else v
    return v


def shape(t):
    """tuple of dims (int: enumerated axis, T: symbolic axis) or None when unknown"""
    if not isinstance(t, T):
        return None
    r = t.cache.get("shape", 0)
    if r == 0:
        r = _shape(t)
        t.cache["shape"] = r
    return r


def _shape(t):
    op, a = t.op, t.args
    if op == "const":
        return ()
    if op in ("sym", "bv"):
        return syminfo(t).get("shape")
    if op == "arr":
        return a[0]
    if op in ELEMENTWISE:
        xs = a if op != "bin" and op != "cmp" else a[1:]
        if op in ("fn", "log"):
            xs = a[1:]
        s = ()
        for x in xs:
            sx = shape(x)
            if sx is None or s is None:
                return None
            s = bshape(s, sx)
        return s
    if op == "gather":
        s = shape(a[0])
        if s is None:
            return (size(a[1]),)
        return (size(a[1]),) + tuple(s[1:])
    if op == "iset":
        return (size(t),)
    if op in ("store", "part"):
        if op == "part":
            return (a[2],)
        return shape(a[0])
    if op == "fill":
        return a[1]
    if op == "item":
        s = shape(a[0])
        if s is None:
            return None
        return tuple(d for d in s if not isinstance(d, int))
    if op == "elem":
        s = shape(a[0])
        return None if s is None else tuple(s[1:])
    if op == "size":
        return ()
    if op == "red":
        return a[3]
    if op == "pred":
        return (a[3],)
    if op == "ite":
        x, y = shape(a[1]), shape(a[2])
        if x == y:
            return x
        if a[1].op == "unbound":
            return y
        if a[2].op == "unbound":
            return x
        return None
    if op in ("call", "meth"):
        return t.cache.get("kshape")
    if op == "rng":
        return a[3]
    if op in ("sumL", "fold", "isinst"):
        return ()
    return None


def bshape(a, b):
    """broadcast shape or None"""
    if a is None or b is None:
        return None
    if len(a) < len(b):
        a, b = b, a
    b = (1,) * (len(a) - len(b)) + tuple(b)
    out = []
    for x, y in zip(a, b):
        if x is y or x == y:
            out.append(x)
        elif isinstance(x, int) and x == 1:
            out.append(y)
        elif isinstance(y, int) and y == 1:
            out.append(x)
        else:
            return None
    return tuple(out)


def rank0(t):
    return shape(t) == ()


def cdims(dims):
    return [d for d in dims if isinstance(d, int)]


def prod(xs):
    r = 1
    for x in xs:
        r *= x
    return r


def arr(dims, elems):
    dims = tuple(dims)
    elems = tuple(elems)
    cd = cdims(dims)
    assert prod(cd) == len(elems), (dims, len(elems))
    if not cd:
        return elems[0]
    return mk("arr", dims, elems)


def expand(t):
    """(dims, elems) view of a term of known shape, else None"""
    if t.op == "arr":
        return t.args
    s = shape(t)
    if s is None:
        return None
    cd = cdims(s)
    if not cd:
        return s, (t,)
    if prod(cd) > 400:
        return None
    if t.op == "fill":
        free = tuple(d for d in s if not isinstance(d, int))
        return s, (fill(t.args[0], free),) * prod(cd)
    if t.op == "iset":
        return s, tuple(mk("item", t, i) for i in itertools.product(*[range(d) for d in cd]))
    return s, tuple(mk("item", t, i) for i in itertools.product(*[range(d) for d in cd]))


def fill(v, dims):
    """constant array"""
    dims = tuple(dims)
    cd = cdims(dims)
    free = tuple(d for d in dims if not isinstance(d, int))
    base = mk("fill", v, free) if free else v
    if not cd:
        return base
    return arr(dims, (base,) * prod(cd))


def unfill(t):
    return t.args[0] if t.op == "fill" else t


def broadcast(f, ts):
    """apply an element-level constructor under numpy broadcasting; None when shapes are not known to agree"""
    ex = []
    for t in ts:
        e = expand(t)
        if e is None:
            return None
        ex.append(e)
    s = ()
    for d, _ in ex:
        s = bshape(s, d)
        if s is None:
            return None
    cd = cdims(s)
    if prod(cd) > 2000:
        return None
    # outer products of two symbolic axes cannot be expressed element-wise
    nfree = len(s) - len(cd)
    out = []
    views = []
    for d, el in ex:
        pad = len(s) - len(d)
        dd = (1,) * pad + tuple(d)
        nf_ = sum(1 for x in d if not isinstance(x, int))
        if nfree > 1 and 0 < nf_ < nfree:
            # a lower rank element is only aligned when it matches the trailing symbolic axes
            fr = [x for x in d if not isinstance(x, int)]
            sf = [x for x in s if not isinstance(x, int)]
            last = dd[-nf_:]
            if fr != sf[-nf_:] or any(isinstance(x, int) for x in last):
                return None
        strides = []
        acc = 1
        for x in reversed(dd):
            if isinstance(x, int):
                strides.append((x, acc))
                acc *= x
            else:
                strides.append((None, 0))
        strides.reverse()
        views.append((dd, strides, el))
    for pos in itertools.product(*[range(x) for x in cd]):
        it = iter(pos)
        full = [next(it) if isinstance(x, int) else None for x in s]
        es = []
        for dd, strides, el in views:
            k = 0
            for p, (x, st) in zip(full, strides):
                if x is None or x == 1:
                    continue
                k += p * st
            es.append(el[k])
        out.append(f(*es))
    return arr(s, out)


# ------------------------------------------------------------------ element-wise operations
def _pyop(op, x, y):
    if op == "+":
        return x + y
    if op == "-":
        return x - y
    if op == "*":
        return x * y
    if op == "/":
        return x / y
    if op == "//":
        return x // y
    if op == "%":
        return x % y
    if op == "**":
        return x ** y
    if op == "==":
        return x == y
    if op == "!=":
        return x != y
    if op == "<":
        return x < y
    if op == "<=":
        return x <= y
    if op == ">":
        return x > y
    if op == ">=":
        return x >= y
    raise KeyError(op)


def needs_bc(*ts):
    for t in ts:
        if t.op == "arr":
            return True
        if t.op not in ("const", "fill") and t.op not in ELEMENTWISE:
            s = shape(t)
            if s and any(isinstance(d, int) for d in s):
                return True
    return False


def fmtcat(parts):
    """a text assembled from literal text and shown values"""
    out = []
    for p in parts:
        for q in (p.args[0] if p.op == "fmt" and len(p.args) == 1 and isinstance(p.args[0], tuple) else (p,)):
            if q.op == "const" and out and out[-1].op == "const":
                out[-1] = const(str(cval(out[-1])) + str(cval(q)))
            elif not (q.op == "const" and cval(q) == ""):
                out.append(q if q.op != "const" else const(str(cval(q))))
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("fmt", tuple(out))


def istext(t):
    return t.op == "fmt" or t.op == "const" and isinstance(cval(t), str)


def bin_(op, a, b):
    if op == "+" and istext(a) and istext(b) and (a.op == "fmt" or b.op == "fmt"):
        return fmtcat([a, b])
    if op == "@":
        return dot(a, b)
    if a.op == "const" and b.op == "const":
        x, y = cval(a), cval(b)
        if op in ("+", "-", "*", "/", "//", "%", "**"):
            try:
                if isinstance(x, str) and op == "%":
                    return mk("fmt", a, b)
                r = _pyop(op, x, y)
                if isinstance(r, (bool, int, float, str)):
                    # keep exact ratios of integers symbolic
                    if isinstance(r, float) and op == "/" and isinstance(x, int) and isinstance(y, int) and r != int(r):
                        return mk("bin", op, a, b)
                    if isinstance(r, float) and op in ("/", "**") and not float(r).is_integer():
                        return mk("bin", op, a, b)
                    if isinstance(r, float) and op in ("+", "-", "*") and not float(r).is_integer():
                        return mk("bin", op, a, b)
                    return const(r)
            except Exception:
                pass
        return mk("bin", op, a, b)
    if op in ("*", "+", "-"):
        ca, cb = a.op == "const" and isinstance(cval(a), bool), b.op == "const" and isinstance(cval(b), bool)
        if ca:
            a = const(int(cval(a)))
        if cb:
            b = const(int(cval(b)))
        if (ca or cb) and not (a.op == "const" and b.op == "const"):
            z, o = (a, b) if ca else (b, a)
            if op == "*" and cval(z) == 1 or (op == "+" or op == "-" and cb) and cval(z) == 0:
                if not is_bool(o):
                    return o
    r = foldwise(lambda x, y: bin_(op, x, y), a, b)
    if r is not None:
        return r
    if needs_bc(a, b):
        r = broadcast(lambda x, y: bin_(op, x, y), (a, b))
        if r is not None:
            return r
        return mk("call", "bc" + op, (a, b), ())
    sa, sb = shape(a), shape(b)
    if sa and sb and sa != sb:
        # symbolic axes of different extent or an outer product
        if bshape(sa, sb) is None or (len(sa) != len(sb)):
            pass
    return mk("bin", op, a, b)


def foldparts(t):
    """(group, permuted, pieces) of a vector that is one constant on every test fold of a split"""
    perm = False
    if t.op == "gather" and t.args[1].op == "perm" and t.args[0].op == "part" and t.args[0].args[0] is t.args[1].args[0]:
        t, perm = t.args[0], True
    if t.op == "part" and all(v.op == "const" for v in t.args[1]):
        return t.args[0], perm, t.args[1]
    return None


def foldwise(f, *ts):
    """an elementwise operation on vectors that are constant on every test fold, piece by piece; None when not applicable"""
    h = None
    got = []
    for t in ts:
        q = foldparts(t)
        if q is None:
            u = unfill(t)
            if u.op != "const":
                return None
            got.append(u)
            continue
        if h is None:
            h = (q[0], q[1], t)
        elif h[0] is not q[0] or h[1] != q[1]:
            return None
        got.append(q[2])
    if h is None:
        return None
    g, perm, t0 = h
    vals = [f(*[q[k] if isinstance(q, tuple) else q for q in got]) for k in range(g.args[1])]
    if not all(v.op == "const" for v in vals):
        return None
    r = part(g, vals)
    if not perm:
        return r
    return fill(r.args[0], shape(t0)) if r.op == "fill" else mk("gather", r, t0.args[1])


_CF = {"abs": abs, "sqrt": math.sqrt, "exp": math.exp, "log": math.log, "neg": lambda x: -x, "pos": lambda x: +x,
       "isnan": lambda x: isinstance(x, float) and math.isnan(x),
       "isfinite": lambda x: not (isinstance(x, float) and (math.isnan(x) or math.isinf(x))),
       "isinf": lambda x: isinstance(x, float) and math.isinf(x),
       "sign": lambda x: (x > 0) - (x < 0), "maximum": max, "minimum": min, "float": float,
       "floor": math.floor, "ceil": math.ceil}


def _level(c):
    """a finite number or a scalar built from finite numbers and finite scalars"""
    if c.op == "const":
        return isinstance(cval(c), (int, float)) and not isinstance(cval(c), bool) and math.isfinite(cval(c))
    if c.op == "sym":
        return shape(c) == () and bool(syminfo(c).get("finite"))
    return c.op == "bin" and c.args[0] in "+-*" and _level(c.args[1]) and _level(c.args[2])


def _ordered(lo, hi):
    """lo <= hi whatever the values of the symbols"""
    from .nf import nf, padd, prange
    p = padd(nf(hi), nf(lo), -1)
    m = prange(p)[0]
    return not p or m is not None and m >= 0


def fn(name, *args):
    if name == "float":
        a = args[0]
        if a.op == "const" and isinstance(cval(a), (int, float)) and not isinstance(cval(a), bool):
            return const(float(cval(a)))
        if a.op == "const" and isinstance(cval(a), bool):
            return const(float(cval(a)))
        return a
    if all(a.op == "const" for a in args) and name in _CF and name not in ("exp", "log"):
        try:
            r = _CF[name](*[cval(a) for a in args])
            if name != "sqrt" or float(r).is_integer():
                return const(r)
        except Exception:
            pass
    if name == "where" and args[0].op == "const":
        return args[1] if cval(args[0]) else args[2]
    if name == "where" and args[0].op == "cmp" and args[0].args[0] in ("<", "<=", ">", ">="):
        # where(x < c, c, x) is the larger of the two
        op, p, q = args[0].args
        up = op[0] == "<"
        if q is args[2] and p is args[1]:
            p, q, up = q, p, not up
        if p is args[2] and q is args[1] and _level(q):
            return fn("maximum" if up else "minimum", p, q)
        # the same for a value that is already limited on the other side
        x = args[2]
        if x.op == "fn" and x.args[0] == ("minimum" if up else "maximum") and len(x.args) == 3 and q is args[1] and _level(q):
            for c2, y in (x.args[1:], x.args[:0:-1]):
                if y is p and _level(c2) and (_ordered(q, c2) if up else _ordered(c2, q)):
                    return fn("maximum" if up else "minimum", x, q)
    if name in ("maximum", "minimum") and len(args) == 2:
        other = "minimum" if name == "maximum" else "maximum"
        for c, x in (args, args[::-1]):
            if _level(c) and x.op == "fn" and x.args[0] == other and len(x.args) == 3:
                for c2, y in (x.args[1:], x.args[:0:-1]):
                    lo, hi = (c, c2) if name == "maximum" else (c2, c)
                    if _level(c2) and y.op != "const" and _ordered(lo, hi):
                        return fn("clip", y, lo, hi)
    if len(args) == 1 and args[0].op == "fill":
        return fill(fn(name, args[0].args[0]), args[0].args[1])
    r = foldwise(lambda *x: fn(name, *x), *args)
    if r is not None:
        return r
    if needs_bc(*args):
        r = broadcast(lambda *x: fn(name, *x), args)
        if r is not None:
            return r
        return mk("call", "bc" + name, tuple(args), ())
    if name == "isnan":
        x = args[0]
        # arithmetic over the reals extended by nan
        if x.op == "fn" and x.args[0] in ("neg", "pos", "abs"):
            return fn("isnan", x.args[1])
        if x.op == "bin" and x.args[0] in ("+", "-", "*"):
            return log("or", fn("isnan", x.args[1]), fn("isnan", x.args[2]))
        if x.op == "store":
            v = x.args[2]
            return sto(fn("isnan", x.args[0]), x.args[1], unfill(fn("isnan", v)))
    if name in ("isnan", "isinf") and args[0].op in ("sym", "gather"):
        x = args[0]
        while x.op == "gather":
            x = x.args[0]
        if x.op == "sym" and syminfo(x).get("finite"):
            s = shape(args[0])
            return fill(FALSE, s) if s else FALSE
    if name == "isfinite" and args[0].op in ("sym", "gather"):
        x = args[0]
        while x.op == "gather":
            x = x.args[0]
        if x.op == "sym" and syminfo(x).get("finite"):
            s = shape(args[0])
            return fill(TRUE, s) if s else TRUE
    if name in ("isnan", "isinf", "isfinite") and args[0].op == "pred":
        v = TRUE if name == "isfinite" else FALSE
        s = shape(args[0])
        return fill(v, s) if s else v
    return mk("fn", name, *args)


def cmp_(op, a, b):
    if a.op == "const" and b.op == "const":
        try:
            return const(bool(_pyop(op, cval(a), cval(b))))
        except Exception:
            if op == "==":
                return FALSE
            if op == "!=":
                return TRUE
            return mk("cmp", op, a, b)
    r = foldwise(lambda x, y: cmp_(op, x, y), a, b)
    if r is not None:
        return r
    if needs_bc(a, b):
        r = broadcast(lambda x, y: cmp_(op, x, y), (a, b))
        if r is not None:
            return r
    if a is b and rank0(a):
        return const(op in ("==", "<=", ">="))
    if b is ZERO and a.op in ("size", "bin") and evidently_positive(a):
        return const(op in (">", ">=", "!="))
    if a is ZERO and b.op in ("size", "bin") and evidently_positive(b):
        return const(op in ("<", "<=", "!="))
    return mk("cmp", op, a, b)


def evidently_positive(t):
    """a number of observations of whole test folds, or a positive combination of such numbers (no test fold is empty)"""
    if t.op == "const":
        return isinstance(cval(t), (int, float)) and cval(t) > 0
    if t.op == "size":
        S = t.args[0]
        return S.op == "perm" or S.op == "iset" and S.args[0].op == "fold" and S.args[1] is TRUE
    if t.op == "bin":
        if t.args[0] == "/" and t.args[2].op == "sym" and syminfo(t.args[2]).get("range", (None,))[0] == 1:
            return evidently_positive(t.args[1])
        return t.args[0] in ("+", "*", "/") and evidently_positive(t.args[1]) and evidently_positive(t.args[2])
    return False


def log(op, *args):
    if op == "not":
        (a,) = args
        if a is TRUE:
            return FALSE
        if a is FALSE:
            return TRUE
        if a.op == "const":
            return const(not cval(a))
        if a.op == "log" and a.args[0] == "not":
            return a.args[1]
        if a.op == "fill":
            return fill(log("not", a.args[0]), a.args[1])
        r = foldwise(lambda x: log("not", x), a)
        if r is not None:
            return r
        if needs_bc(a):
            r = broadcast(lambda x: log("not", x), args)
            if r is not None:
                return r
        return mk("log", "not", a)
    a, b = args
    if op == "and":
        if a is TRUE or (a is ONE):
            return b
        if b is TRUE:
            return a
        if a is FALSE and rank0(b) or b is FALSE and rank0(a):
            return FALSE
    else:
        if a is FALSE:
            return b
        if b is FALSE:
            return a
        if a is TRUE and rank0(b) or b is TRUE and rank0(a):
            return TRUE
    if a is b:
        return a
    if a.op == "const" and b.op == "const":
        x, y = cval(a), cval(b)
        if isinstance(x, (bool, int)) and isinstance(y, (bool, int)):
            return const((x & y) if op == "and" else (x | y))
    r = foldwise(lambda x, y: log(op, x, y), a, b)
    if r is not None:
        return r
    if needs_bc(a, b):
        r = broadcast(lambda x, y: log(op, x, y), (a, b))
        if r is not None:
            return r
    return mk("log", op, a, b)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.op == "arr" and b.op == "arr" and a.args[0] == b.args[0]:
        return arr(a.args[0], [ite(c, x, y) for x, y in zip(a.args[1], b.args[1])])
    return mk("ite", c, a, b)


# ------------------------------------------------------------------ index sets
def full(dim):
    if isinstance(dim, int):
        dim = const(dim)
    return mk("iset", mk("full", dim), TRUE)


def iset(base, mask=TRUE):
    if mask.op == "fill":
        mask = mask.args[0]
    if mask is not TRUE and (base.op == "full" or (base.op == "fold" and base.args[0].args[0] == "cluster")):
        base, mask = _fold_mask(base, mask)
    if mask is not TRUE:
        from .nf import rep
        mask = rep(mask)
    return mk("iset", base, mask)


def _conj(m):
    if m.op == "log" and m.args[0] == "and":
        return _conj(m.args[1]) + _conj(m.args[2])
    if m.op == "fill" and len(m.args[1]) <= 1:
        return _conj(m.args[0])
    return [] if m is TRUE else [m]


def _fold_mask(base, mask):
    """rows selected by membership of their clusters in folds of the distinct cluster values"""
    cs = _conj(mask)
    inf = [c for c in cs if c.op == "fn" and c.args[0] == "infold"]
    if not inf:
        return base, mask
    rest = [c for c in cs if c not in inf]
    fs = {}
    for c in inf:
        fs[c.args[1].args[0].uid] = (c.args[1].args[0], c)
    if base.op == "fold":
        fs[base.uid] = (base, mk("fn", "infold", mk("tup1", base)))
    fs = [fs[k] for k in sorted(fs, key=lambda u: (fs[u][0].args[0].uid, fs[u][0].args[1], fs[u][0].args[2]))]
    if len(fs) == 1:
        base = fs[0][0]
    elif all(f.args[2] == "test" for f, _ in fs) and len({f.args[0].uid for f, _ in fs}) == len(fs):
        K, k = 1, 0
        for f, _ in fs:
            K, k = K * f.args[0].args[1], k * f.args[0].args[1] + f.args[1]
        g = mk("fgroup", "prod", K, fs[0][0].args[0].args[2], *[f.args[0] for f, _ in fs])
        base = mk("fold", g, k, "test")
    else:
        base = fs[0][0]
        rest = [c for _, c in fs[1:]] + rest
    m = TRUE
    for c in rest:
        m = log("and", m, c)
    return base, m


def size(S):
    if S.op == "iset":
        if S.args[1] is TRUE and S.args[0].op == "full":
            return dimof(S.args[0].args[0])
        if S.args[0].op == "full" and isinstance(S.args[0].args[0], T) and S.args[0].args[0].op == "size":
            c = compose(S.args[0].args[0].args[0], S)
            if c is not None:
                return size(c)
        if S.args[0].op == "full" and is_bool(S.args[1]):
            q = foldparts(S.args[1])
            r = q and redparts("sum", *q)
            if r is not None:
                return r
    return mk("size", S)


def is_iset(t):
    return isinstance(t, T) and t.op == "iset"


def is_bool(t):
    """boolean valued element-wise term"""
    if t.op == "const":
        return isinstance(cval(t), bool)
    if t.op in ("cmp", "log"):
        return True
    if t.op == "fn":
        return t.args[0] in ("isnan", "isfinite", "isinf", "isin", "infold", "bool") or (
            t.args[0] == "where" and is_bool(t.args[2]) and is_bool(t.args[3]))
    if t.op == "fill":
        return is_bool(t.args[0])
    if t.op == "gather":
        return is_bool(t.args[0])
    if t.op == "sym":
        return syminfo(t).get("dtype") == "bool"
    if t.op == "arr":
        return all(is_bool(e) for e in t.args[1])
    if t.op == "ite":
        return is_bool(t.args[1]) and is_bool(t.args[2])
    if t.op == "store":
        return is_bool(t.args[0])
    if t.op == "part":
        return all(is_bool(v) for v in t.args[1])
    return False


def unlift(t, R):
    """the full-length term u with t = u[R], or None"""
    if t.op == "gather" and t.args[1] is R:
        return t.args[0]
    if t.op == "fill":
        return t.args[0]
    if t.op in ELEMENTWISE:
        h = 1
        xs = []
        for x in t.args[h:]:
            u = unlift(x, R)
            if u is None:
                return None
            xs.append(u)
        return _rebuild(t.op, t.args[0], xs)
    if rank0(t):
        return t
    return None


def _rebuild(op, name, xs):
    if op == "bin":
        return bin_(name, *xs)
    if op == "fn":
        return fn(name, *xs)
    if op == "cmp":
        return cmp_(name, *xs)
    return log(name, *xs)


def compose(R, S):
    """index set of (u[R])[S] relative to u, or None"""
    if not (is_iset(R) and is_iset(S)) or S.args[0].op != "full":
        return None
    d = S.args[0].args[0]
    sz = size(R)
    sz = const(sz) if isinstance(sz, int) else sz
    if d is not sz:
        return None
    if S.args[1] is TRUE:
        return R
    m = unlift(S.args[1], R)
    if m is None:
        return None
    return iset(R.args[0], log("and", R.args[1], m))


def intersect(A, B):
    if is_iset(A) and is_iset(B):
        for X, Y in ((A, B), (B, A)):
            if X.args[0] is Y.args[0] or X.args[0].op == "full":
                return iset(Y.args[0], log("and", Y.args[1], X.args[1]))
    return mk("call", "intersect1d", (A, B), ())


def gather(v, S):
    if S.op == "const" or rank0(S):
        return index1(v, S)
    r = v.cache.get(("g", S.uid))
    if r is None:
        r = _gather(v, S)
        v.cache[("g", S.uid)] = r
    return r


def _gather(v, S):
    if v.op == "const" or rank0(v):
        return fill(v, (size(S),)) if is_iset(S) else v
    if v.op == "fill":
        return fill(v.args[0], (size(S),) + tuple(v.args[1][1:]))
    if is_iset(S) and S.args[0].op == "full" and S.args[1] is TRUE:
        return v
    if v.op == "arr":
        d0 = v.args[0][0]
        if not isinstance(d0, int):
            if sum(1 for d in v.args[0] if not isinstance(d, int)) == 1:
                return arr((dimof(size(S)),) + tuple(v.args[0][1:]), [gather(e, S) for e in v.args[1]])
    if v.op == "gather":
        c = compose(v.args[1], S)
        if c is not None:
            return gather(v.args[0], c)
        return mk("gather", v, S)
    if v.op == "iset" and is_iset(S):
        if v.args[0].op == "full" and v.args[1] is TRUE:
            return S
        c = compose(v, S)
        if c is not None:
            return c
        return mk("gather", v, S)
    if v.op in ELEMENTWISE:
        return _rebuild(v.op, v.args[0], [x if rank0(x) else gather(x, S) for x in v.args[1:]])
    if v.op == "ite" and not rank0(v):
        return ite(v.args[0], gather(v.args[1], S), gather(v.args[2], S))
    if v.op == "part" and is_iset(S) and S.args[0].op == "fold" and S.args[0].args[0] is v.args[0] \
            and S.args[0].args[2] == "test":
        e = v.args[1][S.args[0].args[1]]
        if S.args[1] is TRUE:
            return fill(e, (size(S),)) if rank0(e) else e
    if v.op == "store":
        b, S2, val = v.args
        if S2 is S:
            return fill(val, (size(S),)) if rank0(val) else val
        if disjoint(S, S2):
            return gather(b, S)
    return mk("gather", v, S)


def disjoint(A, B):
    if is_iset(A) and is_iset(B):
        a, b = A.args[0], B.args[0]
        if a.op == "fold" and b.op == "fold" and a.args[0] is b.args[0]:
            if a.args[1] != b.args[1] and a.args[2] == b.args[2] == "test":
                return True
            if a.args[1] == b.args[1] and a.args[2] != b.args[2]:
                return True
        if A.args[1] is not TRUE and B.args[1] is not TRUE and a is b:
            from .nf import nf, is_zero, mulT
            return is_zero(mulT(A.args[1], B.args[1]))
    return False


def index1(v, i):
    """scalar position i (constant or symbolic) on the leading axis"""
    if v.op == "arr" or (shape(v) and isinstance(shape(v)[0], int)):
        return index(v, [i])
    if v.op == "fill":
        return fill(v.args[0], v.args[1][1:])
    if v.op in ELEMENTWISE:
        return _rebuild(v.op, v.args[0], [x if rank0(x) else index1(x, i) for x in v.args[1:]])
    return mk("elem", v, i)


def toindex(x, dim):
    """normalise an index entry for a symbolic axis: T -> iset / scalar / generic"""
    if is_iset(x):
        return x
    if is_bool(x) and not rank0(x):
        return iset(mk("full", const(dim) if isinstance(dim, int) else dim), x)
    return x


def _sel(item, d):
    """selection on a concrete axis of extent d -> (positions, keepdim) or None"""
    if isinstance(item, SliceVal):
        try:
            lo = None if item.lo is NONE else cval(item.lo)
            hi = None if item.hi is NONE else cval(item.hi)
            st = None if item.step is NONE else cval(item.step)
            return list(range(d))[slice(lo, hi, st)], True
        except Exception:
            return None
    if isinstance(item, T):
        if item.op == "const" and isinstance(cval(item), int) and not isinstance(cval(item), bool):
            k = cval(item)
            if -d <= k < d:
                return [k % d], False
            return None
        if is_iset(item) and item.args[0].op == "full":
            if item.args[1] is TRUE:
                return list(range(d)), True
            m = expand(item.args[1])
            if m and len(m[1]) == d and all(e.op == "const" for e in m[1]):
                return [i for i in range(d) if cval(m[1][i])], True
            return None
        if item.op == "arr" and len(item.args[0]) == 1 and all(e.op == "const" for e in item.args[1]):
            vs = [cval(e) for e in item.args[1]]
            if all(isinstance(v, bool) for v in vs) and len(vs) == d:
                return [i for i in range(d) if vs[i]], True
            if all(isinstance(v, int) and -d <= v < d for v in vs):
                return [v % d for v in vs], True
    return None


def norm_items(items, rank):
    out = []
    n_ax = sum(1 for i in items if i is not NONE and i != "...")
    for i in items:
        if isinstance(i, str) and i == "...":
            out.extend([SliceVal(NONE, NONE, NONE)] * (rank - n_ax))
        else:
            out.append(i)
    while sum(1 for i in out if i is not NONE) < rank:
        out.append(SliceVal(NONE, NONE, NONE))
    return out


def opaque_item(a, items):
    key = []
    for i in items:
        if isinstance(i, SliceVal):
            key.append(mk("slice", i.lo, i.hi, i.step))
        elif isinstance(i, str):
            key.append(const(i))
        else:
            key.append(i)
    return mk("getitem", a, tuple(key))


def index(a, items):
    """a[items] with items a list of T / SliceVal / NONE (newaxis) / '...'"""
    if a.op == "ite":
        return ite(a.args[0], index(a.args[1], items), index(a.args[2], items))
    ex = expand(a)
    if ex is None:
        if len(items) == 1 and isinstance(items[0], T) and items[0] is not NONE:
            it = items[0]
            if is_iset(it):
                return gather(a, it)
            if is_bool(it) and not rank0(it):
                s = shape(it)
                if s and len(s) == 1:
                    return gather(a, toindex(it, s[0]))
        return opaque_item(a, items)
    dims, elems = ex
    rank = len(dims)
    # boolean mask over all axes
    if len(items) == 1 and isinstance(items[0], T) and items[0] is not NONE and rank > 1:
        s = shape(items[0])
        if s is not None and len(s) == rank and is_bool(items[0]):
            if rank == 2 and 1 in dims and 1 in s:
                k = [ZERO, SliceVal(NONE, NONE, NONE)] if dims[0] == 1 else [SliceVal(NONE, NONE, NONE), ZERO]
                return index(index(a, k), [index(items[0], k)])
            return opaque_item(a, items)
    items = norm_items(items, rank)
    if sum(1 for i in items if i is not NONE) > rank:
        return unk("too many indices")
    newdims = []
    axsel = []          # per original axis: ('c', positions) or ('f', op)
    ax = 0
    for it in items:
        if it is NONE:
            newdims.append(1)
            continue
        d = dims[ax]
        if isinstance(d, int):
            s = _sel(it, d)
            if s is None:
                if isinstance(it, T) and rank0(it):
                    return opaque_item(a, items)
                return opaque_item(a, items)
            axsel.append(("c", s[0]))
            if s[1]:
                newdims.append(len(s[0]))
        else:
            if isinstance(it, SliceVal):
                if it.full():
                    axsel.append(("f", None))
                    newdims.append(d)
                else:
                    return opaque_item(a, items)
            elif isinstance(it, T):
                it2 = toindex(it, d)
                if rank0(it2):
                    axsel.append(("f", ("e", it2)))
                else:
                    axsel.append(("f", ("g", it2)))
                    s = shape(it2)
                    if s is None or len(s) != 1:
                        newdims.append(mk("size", it2))
                    else:
                        newdims.append(s[0])
            else:
                return opaque_item(a, items)
        ax += 1
    # gather the selected concrete positions
    csel = [s[1] for s in axsel if s[0] == "c"]
    cd = cdims(dims)
    strides = []
    acc = 1
    for x in reversed(cd):
        strides.append(acc)
        acc *= x
    strides.reverse()
    fops = [s[1] for s in axsel if s[0] == "f"]
    active = [(k, o) for k, o in enumerate(fops) if o is not None]
    out = []
    for pos in itertools.product(*csel):
        e = elems[sum(p * s for p, s in zip(pos, strides))]
        if active:
            if len(fops) == 1:
                o = active[0][1]
                e = gather(e, o[1]) if o[0] == "g" else index1(e, o[1])
            elif e.op == "fill":
                nd = []
                for d_, o in zip(e.args[1], fops):
                    if o is None:
                        nd.append(d_)
                    elif o[0] == "g":
                        s = shape(o[1])
                        nd.append(s[0] if s else mk("size", o[1]))
                e = fill(e.args[0], nd)
            else:
                for k, o in reversed(active):
                    e = mk("axis" + o[0], e, k, o[1])
        out.append(e)
    nd = []
    for d in newdims:
        nd.append(d)
    ndc = cdims(nd)
    if prod(ndc) != len(out):
        # a gathered symbolic axis became enumerable
        return opaque_item(a, items)
    return arr(nd, out)


def sto(e, S, v):
    """vector e with positions S replaced by v"""
    sh = shape(e)
    if rank0(S):
        return mk("storei", e, S, v)
    if is_iset(S):
        if S.args[0].op == "full":
            if S.args[1] is TRUE:
                return fill(v, sh) if rank0(v) else v
            u = v if rank0(v) else unlift(v, S)
            if v.op == "fill":
                u = v.args[0]
            if u is not None:
                return fn("where", S.args[1], u, unfill(e))if not (e.op == "fill") else fn(
                    "where", S.args[1], u, e)
        if S.args[0].op == "fold" and S.args[0].args[2] == "test":
            g = S.args[0].args[0]
            if S.args[1] is not TRUE:
                u = unfill(v) if rank0(unfill(v)) else unlift(v, S)
                if u is not None:
                    F = iset(S.args[0])
                    old = gather(e, F)
                    return sto(e, F, fn("where", gather(S.args[1], F), u if rank0(u) else gather(u, F), unfill(old)))
            if e.op == "store" and e.args[1] is S:
                e = e.args[0]
            t = mk("store", e, S, v)
            if S.args[1] is TRUE:
                parts = {}
                x = t
                while x.op == "store" and is_iset(x.args[1]) and x.args[1].args[1] is TRUE and \
                        x.args[1].args[0].op == "fold" and x.args[1].args[0].args[0] is g and \
                        x.args[1].args[0].args[2] == "test":
                    parts.setdefault(x.args[1].args[0].args[1], x.args[2])
                    x = x.args[0]
                K = g.args[1]
                if len(parts) == K:
                    return part(g, [parts[k] for k in range(K)])
            return t
        if S.args[0].op == "fold" and S.args[1] is TRUE and rank0(v):
            # two training samples of a partition cover all observations
            x = e
            while x.op == "store" and x.args[2] is v and is_iset(x.args[1]):
                F = x.args[1]
                if F.args[1] is TRUE and F.args[0].op == "fold" and F.args[0].args[0] is S.args[0].args[0] and \
                        F.args[0].args[2] == S.args[0].args[2] == "train" and F.args[0].args[1] != S.args[0].args[1]:
                    return fill(v, sh)
                x = x.args[0]
    return mk("store", e, S, v)


def part(g, vals):
    """vector assembled from per-fold pieces"""
    K, n = g.args[1], g.args[2]
    u0 = None
    for k in range(K):
        S = iset(mk("fold", g, k, "test"))
        v = vals[k]
        u = unfill(v) if rank0(unfill(v)) else unlift(v, S)
        if u is None or (u0 is not None and u is not u0):
            u0 = None
            break
        u0 = u
    if u0 is not None:
        return fill(u0, (n,)) if rank0(u0) else u0
    return mk("part", g, tuple(unfill(v) for v in vals), n)


def store(a, items, v):
    """content of a after a[items] = v, or None when not expressible"""
    ex = expand(a)
    if ex is None:
        if len(items) == 1 and isinstance(items[0], T) and items[0] is not NONE:
            it = items[0]
            if is_bool(it) and shape(it) and len(shape(it)) == 1:
                it = toindex(it, shape(it)[0])
            return sto(a, it, v)
        return None
    dims, elems = ex
    rank = len(dims)
    if len(items) == 1 and isinstance(items[0], T) and items[0] is not NONE and rank > 1:
        s = shape(items[0])
        if s is not None and len(s) == rank and is_bool(items[0]):
            return broadcast(lambda m, x, y: fn("where", m, x, y), (items[0], v, a))
    items = norm_items(items, rank)
    if any(i is NONE for i in items) or len(items) != rank:
        return None
    selshape = []
    csel = []
    fops = []
    for it, d in zip(items, dims):
        if isinstance(d, int):
            s = _sel(it, d)
            if s is None:
                return None
            csel.append(s[0])
            if s[1]:
                selshape.append(len(s[0]))
        else:
            if isinstance(it, SliceVal):
                if not it.full():
                    return None
                fops.append(None)
                selshape.append(d)
            elif isinstance(it, T):
                it2 = toindex(it, d)
                fops.append(it2)
                if not rank0(it2):
                    s = shape(it2)
                    selshape.append(s[0] if s else mk("size", it2))
            else:
                return None
    vs = shape(v)
    if vs is None:
        if prod(cdims(selshape)) == 1 and len(fops) <= 1:
            vdims, vel = None, (v,)
        else:
            return None
    else:
        b = bshape(tuple(selshape), vs)
        if b is None or (len(vs) > len(selshape) and any(d != 1 for d in vs[:len(vs) - len(selshape)])):
            # shapes not known to agree
            if prod(cdims(selshape)) == 1 and len(fops) <= 1:
                e = expand(v)
                vdims, vel = None, ((e[1][0],) if e and len(e[1]) == 1 else (v,))
            else:
                return None
        else:
            if len(vs) > len(selshape):
                selshape = [1] * (len(vs) - len(selshape)) + selshape
            vv = broadcast(lambda x, y: y, (fill(ZERO, selshape) if selshape else ZERO, v))
            if vv is None:
                return None
            e = expand(vv)
            vdims, vel = e
    cd = cdims(dims)
    strides = []
    acc = 1
    for x in reversed(cd):
        strides.append(acc)
        acc *= x
    strides.reverse()
    out = list(elems)
    k = 0
    for pos in itertools.product(*csel):
        j = sum(p * s for p, s in zip(pos, strides))
        val = vel[k] if len(vel) > 1 else vel[0]
        k += 1
        active = [o for o in fops if o is not None]
        if not fops:
            out[j] = val
        elif not active:
            free = tuple(d for d in dims if not isinstance(d, int))
            out[j] = fill(val, free) if rank0(val) else val
        elif len(fops) == 1:
            out[j] = sto(out[j], fops[0], val)
        else:
            return None
    return arr(dims, out)


# ------------------------------------------------------------------ reductions and linear algebra
def overvalues(x):
    """an elementwise condition on the distinct values of a vector, as the same condition on the vector; else None"""
    us = set()

    def walk(t):
        if t.op == "call" and t.args[0] == "unique" and len(t.args[1]) == 1 and not t.args[2] or t.op == "uniq":
            us.add(t)
            return True
        if t.op == "const":
            return True
        if t.op in ("cmp", "bin", "fn", "log") and t.args[0] not in ("isin", "infold"):
            return all(walk(a) for a in t.args[1:])
        return False
    if x.op in ("cmp", "fn", "log") and walk(x) and len(us) == 1:
        u = us.pop()
        v = u.args[1][0] if u.op == "call" else u.args[0]
        if isinstance(v, T) and shape(v) is not None and len(shape(v)) == 1:
            return subst(x, {u: v})
    return None


def noninteger(x):
    """data that are continuous: some value is not a whole number"""
    while x.op == "gather":
        x = x.args[0]
    if x.op != "sym" or not shape(x):
        return False
    i = syminfo(x)
    return i.get("target_type", "continuous") == "continuous" and not (
        i.get("binary") or i.get("levels") or i.get("integer") or i.get("dtype") in ("bool", "int", "object", "str"))


def whole_valued(c):
    """the condition (to hold for all elements) says that continuous data take only some whole numbers: never true"""
    if c.op == "fill":
        return whole_valued(c.args[0])
    if c.op == "log" and c.args[0] == "or":
        return whole_valued(c.args[1]) and whole_valued(c.args[2])
    if c.op == "log" and c.args[0] == "and":
        return whole_valued(c.args[1]) or whole_valued(c.args[2])
    if c.op == "log" and c.args[0] == "not":
        d = c.args[1]
        if d.op == "cmp" and d.args[0] == "!=":
            return whole_valued(mk("cmp", "==", d.args[1], d.args[2]))
        if d.op == "log" and d.args[0] in ("and", "or"):
            r = [whole_valued(log("not", e)) for e in d.args[1:]]
            return all(r) if d.args[0] == "and" else any(r)
        return False
    if c.op == "cmp" and c.args[0] == "==":
        for a, b in (c.args[1:3], c.args[2:0:-1]):
            if noninteger(a) and b.op == "const" and isinstance(cval(b), (int, float)) and float(cval(b)).is_integer():
                return True
            if b is ZERO and a.op == "bin" and a.args[0] == "-":
                # x ** 2 - x == 0, x * x - x == 0, x - x ** 2 == 0
                for p, q in (a.args[1:3], a.args[2:0:-1]):
                    if noninteger(q) and p.op == "bin" and (p.args[0] == "**" and p.args[1] is q and p.args[2].op == "const"
                                                            and cval(p.args[2]) == 2 or p.args[0] == "*" and p.args[1] is q
                                                            and p.args[2] is q):
                        return True
    return False


def redparts(name, g, perm, vals):
    """reduction of a vector that is one constant on every test fold (no test fold is empty)"""
    c = [cval(v) for v in vals]
    if not all(isinstance(v, (bool, int, float)) for v in c):
        return None
    if name in ("any", "all"):
        r = [bool(v) for v in c]
        return const(any(r) if name == "any" else all(r))
    nan = [isinstance(v, float) and math.isnan(v) for v in c]
    if name.startswith("nan"):
        if all(nan):
            return None
        name = name[3:]
        if name == "sum":
            c = [0 if q else v for q, v in zip(nan, c)]
        else:
            c = [v for q, v in zip(nan, c) if not q]
    elif any(nan):
        return NAN
    if name in ("min", "max"):
        return const((min if name == "min" else max)(c))
    inf = [v for v in c if isinstance(v, float) and math.isinf(v)]
    if inf:
        return const(inf[0]) if len(set(inf)) == 1 else NAN
    if len(set(c)) == 1 and name == "mean":
        return const(c[0] + 0)
    s = ZERO
    for k, v in enumerate(c):
        if v:
            s = bin_("+", s, bin_("*", const(v + 0), size(iset(mk("fold", g, k, "test"))))) if s is not ZERO \
                else bin_("*", const(v + 0), size(iset(mk("fold", g, k, "test"))))
    return bin_("/", s, g.args[2]) if name == "mean" and s is not ZERO else s


def red(name, x, axis=None, extra=()):
    """reduction over all axes (axis None) or one axis"""
    if name in ("any", "all", "min", "max", "sum", "mean", "nansum", "nanmin", "nanmax") and axis in (None, 0, -1):
        q = foldparts(x)
        if q is not None:
            r = redparts(name, *q)
            if r is not None:
                return r
    if name in ("any", "all"):
        y = overvalues(x)
        if y is not None:
            return red(name, y, axis, extra)
        if rank0(x) is False or x.op in ("cmp", "log"):
            c = x if name == "all" else log("not", x)
            if whole_valued(c):
                return const(name == "any")
    if name in ("any", "all") and x.op == "cmp" and x.args[0] in ("==", "!="):
        a, b = x.args[1:3]
        if a is b and a.op == "call" and a.args[0] in ("sort", "unique"):
            return const(x.args[0] == "==")
        if never_equal is not None and never_equal(x):
            # repeated or missing members: the comparison fails somewhere
            if (name, x.args[0]) in (("any", "!="), ("all", "==")):
                return const(name == "any")
    if name in ("sum", "mean") and axis in (None, 0, -1) and x.op == "maplist" and not x.args[3] and len(x.args[2]) == 1 and \
            shape(x.args[2][0]) == () and len(shape(x.args[0]) or ()) == 1:
        r = mk("sumL", x.args[0], x.args[1], x.args[2][0], NONE)
        return r if name == "sum" else bin_("/", r, const(shape(x.args[0])[0]) if isinstance(shape(x.args[0])[0], int) else shape(x.args[0])[0])
    if x.op == "ite" and not rank0(x):
        return ite(x.args[0], red(name, x.args[1], axis, extra), red(name, x.args[2], axis, extra))
    ex = expand(x)
    if ex is None:
        t = mk("red", name, x, extra, () if axis is None else None, axis)
        return t
    dims, elems = ex
    if dims == ():
        if name in ("sum", "mean", "median", "max", "min", "any", "all", "prod", "nansum", "nanmean", "quantile"):
            return x
        return mk("red", name, x, extra, (), None)
    if axis is not None and axis < 0:
        axis += len(dims)
    if axis is None and len(dims) > 1:
        # flatten
        cd = cdims(dims)
        if len(cd) == len(dims):
            return red(name, arr((len(elems),), elems), None, extra)
        if not cd:
            return mk("red", name, x, extra, (), None)
        if name in ("any", "all", "max", "min", "sum"):
            parts = [red(name, e, None, extra) for e in elems]
            return red(name, arr((len(parts),), parts), None, extra)
        if name == "mean" and len(dims) - len(cd) == 1:
            parts = [red(name, e, None, extra) for e in elems]
            return red(name, arr((len(parts),), parts), None, extra)
        return mk("red", name, x, extra, (), None)
    if axis is None:
        axis = 0
    d = dims[axis]
    rest = dims[:axis] + dims[axis + 1:]
    if not isinstance(d, int):
        nfree = sum(1 for q in dims if not isinstance(q, int))
        out = []
        k = sum(1 for q in dims[:axis] if not isinstance(q, int))
        for e in elems:
            if nfree == 1:
                if e.op == "fill" and name in ("mean", "median", "max", "min", "any", "all", "quantile"):
                    out.append(e.args[0])
                else:
                    out.append(mk("red", name, e, extra, (), None))
            else:
                free = tuple(q for q in rest if not isinstance(q, int))
                out.append(mk("red", name, e, extra, free, k))
        return arr(rest, out)
    # concrete axis
    cd = cdims(dims)
    cax = sum(1 for q in dims[:axis] if isinstance(q, int))
    rc = cdims(rest)
    out = []
    strides = []
    acc = 1
    for q in reversed(cd):
        strides.append(acc)
        acc *= q
    strides.reverse()
    for pos in itertools.product(*[range(q) for q in rc]):
        lane = []
        for k in range(d):
            p = list(pos)
            p.insert(cax, k)
            lane.append(elems[sum(a * b for a, b in zip(p, strides))])
        out.append(redlist(name, lane, extra))
    return arr(rest, out)


never_equal = None     # set by models


def redlist(name, lane, extra=()):
    """reduction of an enumerated list of element terms"""
    n = len(lane)
    if name == "sum" or name == "mean":
        if n == 0:
            return ZERO
        r = lane[0]
        for e in lane[1:]:
            r = bin_("+", r, e)
        return r if name == "sum" else bin_("/", r, const(n))
    if name == "prod":
        r = ONE
        for e in lane:
            r = bin_("*", r, e)
        return r
    if name in ("all", "any"):
        r = TRUE if name == "all" else FALSE
        for e in lane:
            if e.op == "const":
                e = const(bool(cval(e)))
            r = log("and" if name == "all" else "or", r, e)
        return r
    if name in ("max", "min"):
        r = lane[0]
        for e in lane[1:]:
            r = fn("maximum" if name == "max" else "minimum", r, e)
        return r
    if n == 1 and name in ("median", "quantile", "nanmean", "nansum"):
        return lane[0]
    if name == "median" and all(e is lane[0] for e in lane):
        return lane[0]
    free = shape(lane[0])
    if free is None:
        free = ()
    if name == "median":
        from .nf import sort_terms
        lane = sort_terms(lane)
    return mk("red", name, mk("lane", tuple(lane)), extra, free, "lane")


def transpose(t):
    ex = expand(t)
    if ex is None:
        return mk("call", "transpose", (t,), ())
    dims, elems = ex
    if len(dims) <= 1:
        return t
    free = [d for d in dims if not isinstance(d, int)]
    if len(free) > 1:
        if len(free) == len(dims) and len(dims) == 2:
            r = mk("call", "transpose", (t,), ())
            r.cache["kshape"] = (dims[1], dims[0])
            return r
        return mk("call", "transpose", (t,), ())
    nd = tuple(reversed(dims))
    cd = cdims(dims)
    out = []
    for pos in itertools.product(*[range(q) for q in reversed(cd)]):
        p = list(reversed(pos))
        k = 0
        for a, q in zip(p, cd):
            k = k * q + a
        out.append(elems[k])
    return arr(nd, out)


def reshape(t, dims):
    """dims: list of int / T / -1"""
    ex = expand(t)
    if ex is None:
        return None
    od, elems = ex
    ofree = [d for d in od if not isinstance(d, int)]
    nfree = [d for d in dims if not isinstance(d, int)]
    nc = [d for d in dims if isinstance(d, int) and d != -1]
    if len(ofree) == 0 and not nfree:
        tot = len(elems)
        ds = [d for d in dims]
        if -1 in ds:
            k = prod([d for d in ds if d != -1])
            if k == 0 or tot % k:
                return None
            ds[ds.index(-1)] = tot // k
        if prod(ds) != tot:
            return None
        return arr(ds, elems)
    if len(ofree) == 1 and (len(nfree) == 1 or (not nfree and -1 in dims)):
        ds = [ofree[0] if (d == -1 and not nfree) else d for d in dims]
        if nfree and nfree[0] is not ofree[0]:
            return None
        if -1 in ds:
            k = prod(nc)
            if len(elems) % max(k, 1):
                return None
            ds[ds.index(-1)] = len(elems) // k
        if prod(cdims(ds)) != len(elems):
            return None
        # order is preserved only when the relative position of the symbolic axis is immaterial
        before_o = prod(cdims(od[:list(od).index(ofree[0])]))
        before_n = prod(cdims(ds[:ds.index(ofree[0])]))
        if before_o == before_n:
            return arr(ds, elems)
        return None
    return None


def squeeze(t, axis=None):
    ex = expand(t)
    if ex is None:
        return None
    if axis is not None:
        ax = {k % len(ex[0]) for k in axis} if ex[0] else set()
        return arr([d for i, d in enumerate(ex[0]) if i not in ax], ex[1])
    return arr([d for d in ex[0] if not (isinstance(d, int) and d == 1)], ex[1])


def dot(a, b):
    sa, sb = shape(a), shape(b)
    if sa is None or sb is None:
        return mk("call", "dot", (a, b), ())
    if sa == () or sb == ():
        return bin_("*", a, b)
    if len(sa) == 1 and len(sb) == 1:
        return red("sum", bin_("*", a, b))
    if len(sb) == 1 and len(sa) == 2:
        ea = expand(a)
        if ea is not None and isinstance(sa[0], int):
            rows = [index(a, [const(i)]) for i in range(sa[0])]
            return arr((sa[0],), [dot(r, b) for r in rows])
        if isinstance(sb[0], int) and isinstance(sa[1], int):
            r = ZERO
            for k in range(sb[0]):
                r = bin_("+", r, bin_("*", index(a, [SliceVal(NONE, NONE, NONE), const(k)]), index(b, [const(k)])))
            return r
    if len(sa) == 2 and len(sb) == 2 and isinstance(sb[1], int):
        cols = [dot(a, index(b, [SliceVal(NONE, NONE, NONE), const(k)])) for k in range(sb[1])]
        return stack_cols(cols)
    if len(sa) == 2 and len(sb) == 2 and all(isinstance(d, int) for d in (*sa, sb[0])) and sa[1] == sb[0] and sa[0] * sa[1] <= 64:
        ea, eb = expand(a), expand(b)
        if ea is not None and eb is not None:
            rows = []
            for i in range(sa[0]):
                r = ZERO
                for k in range(sa[1]):
                    x = ea[1][i * sa[1] + k]
                    if x.op == "const" and cval(x) == 0:
                        continue
                    r = bin_("+", r, bin_("*", x, eb[1][k]))
                rows.append(fill(ZERO, (sb[1],)) if r is ZERO else r)
            return arr((sa[0], sb[1]), rows)
    if len(sa) == 1 and len(sb) == 2:
        if isinstance(sb[1], int):
            cols = [dot(a, index(b, [SliceVal(NONE, NONE, NONE), const(k)])) for k in range(sb[1])]
            return arr((sb[1],), cols)
    r = mk("call", "dot", (a, b), ())
    r.cache["kshape"] = tuple(sa[:-1]) + (tuple(sb[:-2]) + tuple(sb[-1:]) if len(sb) > 1 else ())
    return r


def stack_cols(cols):
    """1-d terms of one common length -> (len, k)"""
    out = []
    dims = None
    for c in cols:
        ex = expand(c)
        if ex is None:
            return None
        d, el = ex
        if len(d) == 1:
            d = (d[0], 1)
        if len(d) != 2:
            return None
        if dims is None:
            dims = d[0]
        elif dims is not d[0] and dims != d[0]:
            return None
        out.append((d, el))
    if isinstance(dims, int):
        el = []
        for i in range(dims):
            for d, e in out:
                el.extend(e[i * d[1]:(i + 1) * d[1]])
        return arr((dims, sum(d[1] for d, _ in out)), el)
    el = []
    w = 0
    for d, e in out:
        if not isinstance(d[1], int):
            return None
        w += d[1]
        el.extend(e)
    return arr((dims, w), el)


def stack_rows(rows):
    cols = []
    for r in rows:
        s = shape(r)
        if s is None:
            return None
        if len(s) == 1:
            t = index(r, [NONE, SliceVal(NONE, NONE, NONE)])
        else:
            t = r
        t = transpose(t)
        cols.append(t)
    m = stack_cols(cols)
    return None if m is None else transpose(m)


def resimp(t):
    op, a = t.op, t.args
    if op == "bin":
        return bin_(*a)
    if op == "fn":
        return fn(*a)
    if op == "cmp":
        return cmp_(*a)
    if op == "log":
        return log(*a)
    if op == "gather":
        return gather(*a)
    if op == "iset":
        return iset(*a)
    if op == "ite":
        return ite(*a)
    return t


def rebuild(t, f, memo):
    """bottom-up rewriting; f(term) -> term or None (descend)"""
    if isinstance(t, tuple):
        return tuple(rebuild(a, f, memo) for a in t)
    if not isinstance(t, T):
        return t
    r = memo.get(t.uid)
    if r is not None:
        return r
    top = f(t)
    if top is None:
        if t.op in ("const", "sym", "bv", "unbound"):
            top = t
        else:
            na = tuple(rebuild(a, f, memo) for a in t.args)
            top = t if all(x is y or x == y for x, y in zip(na, t.args)) else resimp(mk(t.op, *na))
    memo[t.uid] = top
    return top


def subst(t, mapping):
    if not mapping:
        return t
    return rebuild(t, lambda x: mapping.get(x), {})
