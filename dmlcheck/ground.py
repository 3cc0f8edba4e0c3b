"""Ground evaluation of value terms on small pseudo-random universes.

A second judge next to the normal form: two terms whose normal forms differ are evaluated on a few small universes
(16-24 observations, data columns, held-out predictions, folds and draws replaced by pseudo-random values that depend only on the
*values* of whatever they depend on).  Terms that agree on every universe are never reported as different.  The
code under analysis is not executed: the objects evaluated are the terms the static analysis derived."""
from __future__ import annotations

import hashlib
import math
import statistics

from .core import FALSE, T, TRUE, cval, is_const, subterms, syminfo
from . import simp


class Unsupported(Exception):
    pass


def h01(*key):
    b = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(b, "big") / 2.0 ** 64


def canon(v):
    """value rounded so that different evaluation orders give the same key"""
    if isinstance(v, list):
        return tuple(canon(x) for x in v)
    if isinstance(v, tuple):
        return tuple(canon(x) for x in v)
    if isinstance(v, bool):
        return float(v)
    if isinstance(v, (int, float)):
        v = float(v)
        if math.isnan(v):
            return "nan"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        return float("%.6g" % v) + 0.0
    return v


def div(a, b):
    if b == 0:
        if a == 0 or math.isnan(a):
            return math.nan
        return math.copysign(math.inf, a) if math.copysign(1, b) > 0 or b == 0 else -math.copysign(math.inf, a)
    return a / b


def power(a, b):
    try:
        r = a ** b
        return r if not isinstance(r, complex) else math.nan
    except ZeroDivisionError:
        return math.inf
    except OverflowError:
        return math.inf


BIN = {"+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": div, "**": power,
       "//": lambda a, b: math.floor(a / b) if b and math.isfinite(a / b) else math.nan,
       "%": lambda a, b: a % b if b and math.isfinite(a) else math.nan,
       "&": lambda a, b: int(a) & int(b), "|": lambda a, b: int(a) | int(b), "^": lambda a, b: int(a) ^ int(b)}
CMP = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
       ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def f_sqrt(x):
    return math.sqrt(x) if x >= 0 else math.nan


def f_exp(x):
    try:
        return math.exp(x)
    except OverflowError:
        return math.inf


def nanaware(f):
    def g(a, b):
        if math.isnan(a) or math.isnan(b):
            return math.nan
        return f(a, b)
    return g


FN = {"neg": lambda x: -x, "pos": lambda x: x, "abs": abs, "sqrt": f_sqrt, "square": lambda x: x * x, "exp": f_exp,
      "log": lambda x: math.log(x) if x > 0 else math.nan, "where": lambda c, a, b: a if c else b,
      "maximum": nanaware(max), "minimum": nanaware(min), "float": lambda x: float(x), "int": lambda x: x, "bool": lambda x: bool(x),
      "clip": lambda x, lo, hi: x if math.isnan(x) else (lo if lo is not None and x < lo else hi if hi is not None and x > hi else x),
      "isnan": lambda x: isinstance(x, float) and math.isnan(x), "isfinite": lambda x: math.isfinite(x),
      "isinf": lambda x: math.isinf(x), "sign": lambda x: (x > 0) - (x < 0), "floor": math.floor, "ceil": math.ceil,
      "not": lambda x: not x, "divide": div, "power": power, "reciprocal": lambda x: div(1.0, x),
      "cdf": lambda x: 0.5 * math.erfc(-x / math.sqrt(2)), "pdf": lambda x: f_exp(-x * x / 2) / math.sqrt(2 * math.pi),
      "ppf": lambda p: statistics.NormalDist().inv_cdf(p) if 0 < p < 1 else math.nan}


BOUND = {}


def bound(t):
    """bound variables occurring in a term"""
    r = BOUND.get(t.uid)
    if r is None:
        if t.op == "bv":
            r = frozenset((t.uid,))
        else:
            out = set()
            todo = list(t.args)
            while todo:
                x = todo.pop()
                if isinstance(x, T):
                    out |= bound(x)
                elif isinstance(x, tuple):
                    todo += x
            r = frozenset(out)
        BOUND[t.uid] = r
    return r


class World:
    def __init__(self, seed, n, salt=()):
        self.seed, self.n = seed, n
        self.salt = dict(salt)   # redrawn symbols: (name, cell) -> draw number
        self.memo = {}
        self.env = {}
        self.hashed = 0          # values of library functions that are known only up to their arguments
        self.steps = 0

    # ------------------------------------------------------------ helpers
    def dim(self, d):
        if isinstance(d, int):
            return d
        v = self.val(d)
        if isinstance(v, bool) or not isinstance(v, (int, float)) or v != int(v) or v < 0 or v > 400:
            raise Unsupported("dimension")
        return int(v)

    def free(self, dims):
        return [self.dim(d) for d in dims if not isinstance(d, int)]

    def alldims(self, dims):
        return [self.dim(d) for d in dims]

    def rand(self, shape, key, f):
        def go(shape, idx):
            if not shape:
                return f(h01(self.seed, key, idx))
            return [go(shape[1:], idx + (i,)) for i in range(shape[0])]
        return go(list(shape), ())

    def grid(self, u, lo=-2.0, hi=2.0):
        """coarse grid so that ties and boundary cases occur"""
        return lo + (hi - lo) * round(u * 16) / 16

    # ------------------------------------------------------------ evaluation
    def val(self, t):
        if not isinstance(t, T):
            if isinstance(t, tuple):
                return tuple(self.val(x) for x in t)
            if isinstance(t, (int, float, str, bool)) or t is None:
                return t
            raise Unsupported(str(type(t)))
        r = self.memo.get(t.uid)
        if r is not None:
            return r[0]
        if self.env:
            key = (t.uid,) + tuple((u, canon(self.env[u])) for u in sorted(bound(t)) if u in self.env)
            r = self.memo.get(key)
            if r is not None:
                return r[0]
        self.steps += 1
        if self.steps > 60000:
            raise Unsupported("too many terms")
        v = self._val(t)
        if not self.env or len(key) == 1:
            self.memo[t.uid] = (v,)
        else:
            self.memo[key] = (v,)
        return v

    def map(self, f, xs):
        if any(isinstance(x, list) for x in xs):
            n = None
            for x in xs:
                if isinstance(x, list):
                    if n is None or n == 1:
                        n = len(x)
                    elif len(x) not in (n, 1):
                        raise Unsupported("lengths")
            # right-aligned broadcasting of symbolic axes is only used for equal ranks or scalars
            dep = max(depth(x) for x in xs)
            out = []
            for i in range(n):
                row = []
                for x in xs:
                    if isinstance(x, list):
                        if depth(x) < dep:
                            row.append(x)      # leading axis missing: aligned on the trailing axis
                        else:
                            row.append(x[i if len(x) > 1 else 0])
                    else:
                        row.append(x)
                out.append(self.map(f, row))
            if any(isinstance(x, list) and depth(x) < dep for x in xs):
                m = max((x for x in xs if isinstance(x, list)), key=depth)
                if len(m) != n:
                    raise Unsupported("broadcast")
            return out
        try:
            return f(*xs)
        except (TypeError, ValueError, OverflowError):
            raise Unsupported("scalar operation")

    def rows(self, S):
        """list of positions selected by an index set"""
        if simp.is_iset(S):
            base, mask = S.args
            rows = self.baserows(base)
            if mask is TRUE:
                return rows
            m = self.val(mask)
            if not isinstance(m, list):
                return rows if m else []
            if rows and max(rows) >= len(m):
                raise Unsupported("mask length")
            return [i for i in rows if m[i]]
        v = self.val(S)
        if isinstance(v, list):
            if v and all(isinstance(x, bool) for x in v):
                return [i for i, x in enumerate(v) if x]
            return [int(x) for x in v]
        raise Unsupported("rows")

    def baserows(self, b):
        if b.op == "full":
            return list(range(self.dim(b.args[0])))
        if b.op == "fold":
            g, k, which = b.args[:3]
            parts = self.folds(g)
            if which == "test":
                return parts[k]
            return [i for j, p in enumerate(parts) if j != k for i in p] if False else sorted(
                i for j, p in enumerate(parts) if j != k for i in p)
        if b.op == "sub":
            S, w, ps = b.args
            rs = self.rows(S)
            key = ("sub", canon(tuple(rs)), canon(tuple((k, self.val(x)) for k, x in ps)))
            if ("sub", key, w) in self.memo:
                return self.memo["sub", key, w]
            order = sorted(rs, key=lambda i: h01(self.seed, key, i))
            h = len(order) // 2
            r = self.memo["sub", key, w] = sorted(order[:h] if w == 0 else order[h:])
            return r
        raise Unsupported("base " + b.op)

    def folds(self, g):
        r = self.memo.get(("folds", g.uid))
        if r is None:
            if g.op != "fgroup":
                # an opaque user supplied split
                if g.op != "sym":
                    raise Unsupported("split " + g.op)
                raise Unsupported("split")
            K, n = g.args[1], self.dim(g.args[2])
            if g.args[0] == "cluster":
                c = self.val(g.args[4])
                u = sorted(set(c))
                r = [sorted(i for i in range(n) if c[i] in {u[j] for j in p}) for p in self.folds(g.args[3])]
                self.memo[("folds", g.uid)] = r
                return r
            if g.args[0] == "prod":
                r = [set(range(n))]
                for h in g.args[3:]:
                    r = [x & set(p) for x in r for p in self.folds(h)]
                r = self.memo[("folds", g.uid)] = [sorted(x) for x in r]
                return r
            key = ("folds", g.args[0], K, n) + tuple(canon(self.val(x)) if isinstance(x, T) else x for x in g.args[3:])
            order = sorted(range(n), key=lambda i: h01(self.seed, key, i))
            r = [sorted(order[k::K]) for k in range(K)]
            self.memo[("folds", g.uid)] = r
        return r

    def _val(self, t):
        op, a = t.op, t.args
        if op == "const":
            return cval(t)
        if op == "bv":
            if t.uid in self.env:
                return self.env[t.uid]
            raise Unsupported("bound variable")
        if op == "sym":
            return self.sym(t, ())
        if op == "item":
            if a[0].op == "sym":
                return self.sym(a[0], tuple(a[1]))
            return self.opaque(("item", self.val(a[0]), tuple(a[1])), t)
        if op == "bin":
            x, y = self.val(a[1]), self.val(a[2])
            if a[0] not in BIN:
                raise Unsupported("bin " + a[0])
            return self.map(BIN[a[0]], [num(x), num(y)])
        if op == "cmp":
            x, y = self.val(a[1]), self.val(a[2])
            if a[0] not in CMP:
                raise Unsupported("cmp")
            if not isinstance(x, (int, float, list)) or not isinstance(y, (int, float, list)):
                if a[0] in ("==", "!="):
                    return (x == y) == (a[0] == "==")
                raise Unsupported("cmp")
            return self.map(CMP[a[0]], [num(x), num(y)])
        if op == "log":
            xs = [self.val(x) for x in a[1:]]
            f = {"and": lambda x, y: bool(x) and bool(y), "or": lambda x, y: bool(x) or bool(y), "not": lambda x: not x}[a[0]]
            return self.map(f, xs)
        if op == "fn" and a[0] == "infold":
            rs = set(self.baserows(a[1].args[0]))
            return [i in rs for i in range(self.dim(a[1].args[0].args[0].args[2]))]
        if op == "fn":
            xs = [self.val(x) for x in a[1:]]
            f = FN.get(a[0])
            if f is None:
                self.hashed += 1
                nm = a[0]
                return self.map(lambda *v: h01(self.seed, "fn", nm, canon(v)) * 4 - 2, [num(x) for x in xs])
            return self.map(f, [num(x) for x in xs])
        if op == "ite":
            c = self.val(a[0])
            if isinstance(c, list):
                raise Unsupported("array condition")
            return self.val(a[1] if c else a[2])
        if op == "fill":
            dims = self.free(a[1])
            v = self.val(a[0])
            for d in reversed(dims):
                v = [v] * d
            return v
        if op == "arr":
            # canonical cells: symbolic axes inside, enumerated axes outside
            return ["arr"] + [self.val(x) for x in a[1]] if a[0] else self.val(a[1][0])
        if op == "size":
            if isinstance(a[0], T) and (a[0].op == "uniq" or (a[0].op == "call" and a[0].args[0] == "unique")):
                return len(self.val(a[0]))
            return len(self.rows(a[0]))
        if op == "iset":
            return self.rows(t)
        if op == "gather":
            v = self.val(a[0])
            if not isinstance(v, list) or (v and v[0] == "arr"):
                raise Unsupported("gather")
            try:
                return [v[i] for i in self.rows(a[1])]
            except IndexError:
                raise Unsupported("index")
        if op == "elem":
            v, i = self.val(a[0]), self.val(a[1])
            if isinstance(v, list) and isinstance(i, (int, float)) and not (v and v[0] == "arr"):
                try:
                    return v[int(i)]
                except IndexError:
                    raise Unsupported("index")
            raise Unsupported("elem")
        if op == "part":
            n = self.dim(a[2])
            out = [math.nan] * n
            for rows, e in zip(self.folds(a[0]), a[1]):
                v = self.val(e)
                if isinstance(v, list) and len(v) != len(rows):
                    raise Unsupported("part")
                for j, i in enumerate(rows):
                    out[i] = v[j] if isinstance(v, list) else v
            return out
        if op == "store":
            v, rows, x = list(self.val(a[0])), self.rows(a[1]), self.val(a[2])
            if isinstance(x, list) and len(x) != len(rows):
                if len(x) == 1:
                    x = x[0]
                else:
                    raise Unsupported("store")
            for j, i in enumerate(rows):
                v[i] = x[j] if isinstance(x, list) else x
            return v
        if op == "storei":
            v, i, x = list(self.val(a[0])), self.val(a[1]), self.val(a[2])
            if isinstance(i, list):
                raise Unsupported("storei")
            v[int(i)] = x
            return v
        if op == "red":
            return self.red(t)
        if op == "pred":
            return self.pred(t)
        if op == "fitted":
            base, ps, X, y, w = a
            return ("fitted", str(base), canon(tuple((k, self.val(v)) for k, v in ps)), canon(self.val(X)), canon(self.val(y)),
                    canon(self.val(w)))
        if op == "lam":
            out = []
            for p in (-1.37, 0.25, 0.5, 1.61):
                self.env[a[0].uid] = p
                try:
                    out.append(canon(self.val(a[1])))
                finally:
                    del self.env[a[0].uid]
            return ("lam", tuple(out))
        if op == "sumL":
            return self.sumloop(t)
        if op == "rng":
            dims = self.alldims(a[3]) if a[3] is not None else []
            key = ("rng", a[0], canon(tuple((k, self.val(v)) for k, v in a[1])), a[2])
            if any(isinstance(d, int) for d in (a[3] or ())):
                raise Unsupported("rng")
            return self.rand(dims, key, lambda u: self.grid(u))
        if op == "uniq" or (op == "call" and a[0] == "unique" and len(a[1]) == 1 and a[2] == ()):
            v = self.val(a[0] if op == "uniq" else a[1][0])
            if not isinstance(v, list) or depth(v) != 1 or any(not isinstance(x, (int, float)) for x in v):
                raise Unsupported("unique")
            return sorted(set(v))
        if op in ("call", "quant", "uniq"):
            return self.call(t)
        if op == "pybool":
            return bool(self.val(a[0]))
        if op in ("lrn", "params", "tup", "dict", "set", "slice", "fmt", "typeof", "axisg", "lane", "est", "rdres"):
            return (op,) + tuple(self.val(x) for x in a)
        raise Unsupported(op)

    def opaque(self, key, t):
        s = simp.shape(t)
        if s is None:
            raise Unsupported("shape of " + t.op)
        self.hashed += 1
        dims = self.free(s)
        if any(isinstance(d, int) for d in s):
            raise Unsupported("enumerated")
        key = canon(key)
        return self.rand(dims, key, lambda u: self.grid(u, -2, 2))

    def call(self, t):
        a = t.args
        if t.op == "call" and a[0] in ("root", "argmin", "minval"):
            return self.grid(h01(self.seed, a[0], self.val(a[1][0])))
        if t.op == "call" and a[0] == "dot":
            x, y = (self.val(v) for v in a[1])
            if depth(x) == 2 and depth(y) == 1 and not any(isinstance(e, str) for e in x) and all(len(row) == len(y) for row in x):
                return [self.reduce("sum", [p * q for p, q in zip(row, y)], ()) for row in x]
            raise Unsupported("dot")
        key = (t.op,) + tuple(self.keyval(x) for x in a)
        return self.opaque(key, t)

    def keyval(self, x):
        if isinstance(x, tuple):
            return tuple(self.keyval(y) for y in x)
        if isinstance(x, T):
            return self.val(x)
        return x

    def sym(self, t, idx):
        name = t.args[0]
        info = syminfo(t)
        if name == "n" and info.get("shape") == ():
            return self.n
        if name == "pi":
            return math.pi
        s = info.get("shape")
        if s is None:
            raise Unsupported("symbol " + name)
        if any(isinstance(d, int) for d in s) and not idx and cells(s) > 1:
            raise Unsupported("enumerated symbol")
        dims = self.free(s)
        key = ("sym", name, idx)
        if key in self.salt:
            key += (self.salt[key],)
        rg = info.get("range")
        if info.get("binary"):
            return self.rand(dims, key, lambda u: 1 if u < 0.5 else 0)
        if rg is not None:
            lo, hi = rg
            if info.get("integer"):
                lo = 0 if lo is None else lo
                hi = lo + 5 if hi is None else hi
                return self.rand(dims, key, lambda u: int(lo + math.floor(u * (hi - lo + 0.999))))
            lo = (hi - 2 if hi is not None else -2.0) if lo is None else lo
            hi = lo + 2.0 if hi is None else hi
            return self.rand(dims, key, lambda u: lo + (hi - lo) * (0.02 + 0.96 * u))
        if info.get("integer"):
            return self.rand(dims, key, lambda u: int(u * 3))
        ty = info.get("ptype") or info.get("types")
        if ty in ("str",):
            raise Unsupported("string symbol")
        return self.rand(dims, key, lambda u: self.grid(u))

    def cellrows(self, v):
        """cells of a matrix value: list of columns"""
        if isinstance(v, list) and v and v[0] == "arr":
            return v[1:]
        return [v]

    def pred(self, t):
        m, f, X, size = t.args
        if f.op != "fitted":
            raise Unsupported("pred")
        key = canon(self.val(f))
        hk = h01(self.seed, key)
        cols = self.cellrows(self.val(X))
        n = self.dim(size) if not isinstance(size, int) else size
        for c in cols:
            if isinstance(c, list) and len(c) != n:
                raise Unsupported("rows of evaluation data")
        out = []
        for i in range(n):
            row = canon(tuple(c[i] if isinstance(c, list) else c for c in cols))
            u = h01(self.seed, m, hk, row)
            if str(m) == "proba":
                if self.seed % 2:
                    out.append(0.05 + 0.9 * u)
                else:       # extreme propensities
                    out.append(0.003 if u < 0.15 else 0.997 if u > 0.85 else 0.05 + 0.9 * u)
            else:
                out.append(self.grid(u) + (u - 0.5) / 8)
        return out

    def sumloop(self, t):
        itt, bv, body, p = t.args
        v = self.val(itt)
        if isinstance(v, tuple) or (isinstance(v, list) and v and v[0] == "arr"):
            raise Unsupported("loop")
        if not isinstance(v, list):
            raise Unsupported("loop")
        tot = None
        if itt.op not in ("iset", "range", "call", "uniq", "gather", "sym"):
            raise Unsupported("loop over " + itt.op)
        # the bound variable of a loop over a range is its value, that of any other loop the position
        for j, x in enumerate(v):
            self.env[bv.uid] = x if itt.op in ("iset", "range") else j
            try:
                b = self.val(body)
            finally:
                del self.env[bv.uid]
            tot = b if tot is None else self.map(lambda q, w: q + w, [tot, b])
        return 0 if tot is None else tot

    def red(self, t):
        name, x, extra, fr, k = t.args
        ex = tuple(self.val(e) if isinstance(e, T) else e for e in extra)
        if x.op == "lane":
            xs = [self.val(e) for e in x.args[0]]
            return self.map(lambda *v: self.reduce(name, list(v), ex), xs)
        v = self.val(x)
        if not isinstance(v, list):
            return v
        if v and v[0] == "arr":
            cols = v[1:]
            if k is None and fr == ():
                flat = []
                for c in cols:
                    flat += flatten(c)
                return self.reduce(name, flat, ex)
            raise Unsupported("red of cells")
        if k is None or depth(v) == 1:
            return self.reduce(name, flatten(v), ex)
        if depth(v) == 2:
            if k == 0:
                return [self.reduce(name, [r[j] for r in v], ex) for j in range(len(v[0]))] if v else []
            if k == 1:
                return [self.reduce(name, r, ex) for r in v]
        raise Unsupported("red axis")

    def reduce(self, name, v, extra):
        if any(isinstance(x, (tuple, str)) for x in v):
            raise Unsupported("reduce")
        w = [float(x) for x in v]
        if name.startswith("nan"):
            w = [x for x in w if not math.isnan(x)]
            name = name[3:]
        nan = any(math.isnan(x) for x in w)
        if name == "sum":
            return math.fsum(w) if all(math.isfinite(x) for x in w) else sum(w)
        if name == "mean":
            if not w:
                return math.nan
            return (math.fsum(w) if all(math.isfinite(x) for x in w) else sum(w)) / len(w)
        if name in ("any", "all"):
            return any(w) if name == "any" else all(w)
        if name in ("max", "min"):
            if not w or nan:
                return math.nan
            return max(w) if name == "max" else min(w)
        if name in ("var", "std"):
            dd = extra[0] if extra and isinstance(extra[0], (int, float)) else 0
            if nan or len(w) <= dd:
                return math.nan
            m = sum(w) / len(w)
            s = sum((x - m) ** 2 for x in w) / (len(w) - dd)
            return s if name == "var" else math.sqrt(s)
        if name == "median":
            name, extra = "quantile", (0.5,)
        if name == "quantile" and len(extra) == 1 and isinstance(extra[0], (int, float)):
            if nan or not w:
                return math.nan
            s = sorted(w)
            p = extra[0] * (len(s) - 1)
            if not 0 <= p <= len(s) - 1:
                return math.nan
            i = int(math.floor(p))
            return s[i] if i + 1 >= len(s) else s[i] + (p - i) * (s[i + 1] - s[i])
        self.hashed += 1
        return self.grid(h01(self.seed, "red", name, canon(tuple(w)), canon(extra)))


def cells(s):
    r = 1
    for d in s:
        if isinstance(d, int):
            r *= d
    return r


def depth(x):
    d = 0
    while isinstance(x, list):
        d += 1
        x = x[0] if x else 0
    return d


def flatten(v):
    if isinstance(v, list):
        out = []
        for x in v:
            out += flatten(x)
        return out
    return [v]


def num(x):
    if isinstance(x, tuple):
        raise Unsupported("tuple operand")
    if isinstance(x, list) and x and x[0] == "arr":
        raise Unsupported("matrix operand")
    if x is None:
        return x
    return x


def close(a, b):
    if isinstance(a, list) != isinstance(b, list):
        # a constant vector is as good as its value
        if isinstance(a, list):
            return all(close(x, b) for x in a)
        return all(close(a, x) for x in b)
    if isinstance(a, list):
        return len(a) == len(b) and all(close(x, y) for x, y in zip(a, b))
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        a, b = float(a), float(b)
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= 1e-8 * max(1.0, abs(a), abs(b))
    return canon(a) == canon(b)


SEEDS = [(1, 20), (2, 17), (3, 23), (4, 20), (5, 16), (6, 24)]
MORE = [(k, 16 + k % 9) for k in range(7, 37)]       # consulted until enough universes satisfy the assumptions


def under(t, facts):
    """the alternative of a conditional value that applies when the assumptions hold, when its condition is their
    conjunction (or the opposite) in every universe"""
    while t.op == "ite":
        agree = set()
        for seed, n in SEEDS + MORE:
            w = World(seed, n)
            try:
                agree.add(bool(w.val(t.args[0])) == all(bool(w.val(c)) == truth for c, truth in facts if c.op in ("cmp", "log")))
            except Exception:
                return t
        if len(agree) != 1:
            return t
        t = t.args[1] if agree.pop() else t.args[2]
    return t


def broken(w, facts):
    """the assumptions that do not hold in the universe; assumptions that cannot be evaluated are passed over"""
    out = []
    for c, truth in facts:
        try:
            if bool(w.val(c)) != truth:
                out.append(c)
        except Unsupported:
            pass
    return out


def leaves(t):
    """the symbols (and cells of enumerated symbols) a condition depends on"""
    out = []
    for x in subterms(t):
        if x.op == "sym":
            out.append((x, ()))
        elif x.op == "item" and x.args[0].op == "sym":
            out.append((x.args[0], tuple(x.args[1])))
    return sorted({("sym", s.args[0], i) for s, i in out}, key=str)


def universe(seed, n, facts):
    """a universe in which the assumptions hold, found by redrawing symbols of assumptions that fail; None without one"""
    w = World(seed, n)
    bad = broken(w, facts)
    for step in range(80):
        if not bad:
            return w
        c = bad[int(h01(seed, "pick", step) * len(bad))]
        ks = leaves(c)
        if not ks:
            return None
        k = ks[int(h01(seed, "leaf", step) * len(ks))]
        salt = dict(w.salt)
        salt[k] = step + 1
        w2 = World(seed, n, salt)
        b2 = broken(w2, facts)
        if len(b2) <= len(bad):
            w, bad = w2, b2
    return w if not bad else None


def n_enough(used, seed):
    return used >= 2 and seed > SEEDS[-1][0]


def judge(a, b, facts=()):
    """'same' (agree on all universes), 'differ' (with number of universes), or None when not evaluable; `facts` is a
    list of (condition term, truth) that the universe has to satisfy"""
    used = differ = hashed = 0
    for seed, n in SEEDS + (MORE if facts else []):
        if n_enough(used, seed):
            break
        try:
            w = universe(seed, n, facts)
            if w is None:
                continue
            va, vb = w.val(a), w.val(b)
        except Unsupported as e:
            return None, str(e)
        except (RecursionError, ZeroDivisionError, OverflowError, ValueError, IndexError, TypeError, KeyError) as e:
            return None, repr(e)
        used += 1
        hashed += w.hashed
        differ += not close(va, vb)
    if not used:
        r = under(a, facts), under(b, facts)
        if r[0] is not a or r[1] is not b:
            return judge(*r)
        # agreement in every universe, whether or not the assumptions hold there, is agreement
        j = judge(a, b) if facts else (None, None)
        return j if j[0] == "same" else (None, "no universe satisfies the assumptions")
    if differ:
        return "differ", (differ, used, hashed)
    return "same", (used, hashed)


def escapes(paths, facts=()):
    """some universe that satisfies the facts falsifies a condition of every path (each path a tuple of condition terms)"""
    for seed, n in SEEDS:
        w = World(seed, n)
        ok = True
        for c, truth in facts:
            try:
                ok = ok and bool(w.val(c)) == truth
            except Exception:
                pass
        if not ok:
            continue
        free = True
        for pc in paths:
            no = False
            for c in pc:
                u = World(seed, n)
                try:
                    v = u.val(c)
                except Exception:
                    continue
                if isinstance(v, (list, tuple)) or u.hashed:
                    continue
                if not v:
                    no = True
                    break
            free = free and no
        if free:
            return True
    return False
