"""Models of the library operations the repository uses (numpy, pandas, scikit-learn, scipy, statsmodels, joblib,
builtins), as constructors of value-graph terms.  An operation without a model yields an uninterpreted term and is
recorded, so that comparisons depending on it are reported as undecided."""
from __future__ import annotations

import math

from .core import (CUR, FALSE, INF, NAN, NONE, ONE, TRUE, UNBOUND, ZERO, Bound, Builtin, ClassVal, Dead, Ext, ExtMeth,
                   FuncVal, HArr, HDct, HDF, HEst, HLst, HObj, HOpq, HSet, ModVal, Partial, Phi, PropVal, RangeVal, Ref,
                   SliceVal, SYMINFO, T, Tup, Unsupported, Val, const, contains as t_contains, cval, is_const, mk, sym,
                   syminfo, unk)
from . import nf, simp
from .simp import (arr, bin_, cmp_, expand, fill, fn, full, gather, index, is_bool, is_iset, iset, ite, log, rank0, red,
                   shape, size, dimof)

EXT = {}
BUILTINS = {}


def ext(*paths):
    def deco(f):
        for p in paths:
            EXT[p] = f
        return f
    return deco


def arg(args, kw, i, name, default=None):
    if i is not None and len(args) > i:
        return args[i]
    return kw.get(name, default)


def opq(it, st, path, args, kw):
    """uninterpreted pure call"""
    it.note_unmodelled(path)
    return mk("call", path, tuple(it.term(a, st) for a in args),
              tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))


def conc(it, st, v):
    """python constant of a value, or raises"""
    t = it.term(v, st)
    if t.op == "const":
        return cval(t)
    raise Unsupported("constant expected")


def tint(x):
    """dim -> term"""
    return const(x) if isinstance(x, int) else x


# ================================================================= type tests
def type_paths(it, v, st):
    """set of type paths of a value, or None when unknown"""
    v = it.deph(v, st)
    if isinstance(v, Ref):
        h = st.heap.get(v.a)
        if isinstance(h, HLst):
            return {"list", "Iterable", "Sequence"}
        if isinstance(h, HDct):
            return {"dict", "Iterable", "Mapping"}
        if isinstance(h, HSet):
            return {"set", "Iterable"}
        if isinstance(h, HArr):
            if h.kind == "series":
                return {"pandas.Series", "pandas.core.series.Series", "Iterable"}
            if h.kind == "index":
                return {"pandas.Index", "Iterable"}
            return {"numpy.ndarray", "Iterable"}
        if isinstance(h, HDF):
            return {"pandas.DataFrame", "Iterable"}
        if isinstance(h, HEst):
            return set(h.info.get("types", ("sklearn.base.BaseEstimator",)))
        if isinstance(h, HObj):
            r = set()
            for c in h.cls.mro:
                r.add(c.path if isinstance(c, Ext) else "repo:" + c.name)
            return r
        if isinstance(h, HOpq):
            t = h.term
            if t.op == "maplist":
                return {"list", "Iterable"}
            return None
        return None
    if isinstance(v, Tup):
        return {"tuple", "Iterable", "Sequence"}
    if isinstance(v, RangeVal):
        return {"range", "Iterable"}
    if isinstance(v, (FuncVal, Bound, Builtin)):
        return {"function", "Callable"}
    if isinstance(v, (ClassVal,)):
        return {"type", "Callable"}
    if isinstance(v, Ext):
        return {"type", "Callable"} if v.path in TYPES or v.path.split(".")[-1][:1].isupper() else {"Callable"}
    if isinstance(v, T):
        if v.op == "const":
            x = cval(v)
            if x is None:
                return {"NoneType"}
            if isinstance(x, bool):
                return {"bool", "int", "numbers.Integral", "numbers.Number", "numbers.Real"}
            if isinstance(x, int):
                return {"int", "numbers.Integral", "numbers.Number", "numbers.Real"}
            if isinstance(x, float):
                return {"float", "numbers.Number", "numbers.Real"}
            if isinstance(x, str):
                return {"str", "Iterable", "Sequence"}
            return {type(x).__name__}
        if v.op == "sym" and "types" in syminfo(v):
            return set(syminfo(v)["types"])
        if v.op in ("fmt",):
            return {"str", "Iterable"}
        if v.op == "ite":
            a, b = type_paths(it, v.args[1], st), type_paths(it, v.args[2], st)
            return a if a == b else None
        s = shape(v)
        if s is None:
            return None
        if len(s) > 0:
            return {"numpy.ndarray", "Iterable"}
        if v.op in ("size",):
            return {"int", "numbers.Integral", "numbers.Number"}
        if is_bool(v):
            return {"numpy.bool_"}
        if v.op == "sym":
            return {syminfo(v).get("ptype", "float"), "numbers.Number"}
        return {"float", "numpy.float64", "numpy.floating", "numbers.Number"}
    return None


TYPES = {"int": "int", "float": "float", "str": "str", "bool": "bool", "list": "list", "dict": "dict",
         "tuple": "tuple", "set": "set", "type": "type", "object": "object"}


def class_path(it, c):
    c = it.unlazy(c)
    if isinstance(c, ClassVal):
        return "repo:" + c.info.name
    if isinstance(c, Ext):
        p = c.path
        if p.startswith("builtins."):
            return p[9:]
        if p.endswith(".Iterable"):
            return "Iterable"
        if p.endswith(".Callable"):
            return "Callable"
        if p.endswith(".Mapping") or p.endswith(".Sequence"):
            return p.split(".")[-1]
        if p in ("numpy.int64", "numpy.integer"):
            return p
        return p
    return None


def isinstance_(it, st, v, cls):
    v = it.deph(v, st)
    if isinstance(v, Phi):
        return ite(v.c, isinstance_(it, st, v.a, cls), isinstance_(it, st, v.b, cls))
    cls = it.unlazy(cls)
    if isinstance(cls, Tup):
        r = FALSE
        for c in cls.items:
            r = log("or", r, isinstance_(it, st, v, c))
        return r
    p = class_path(it, cls)
    tp = type_paths(it, v, st)
    if p == "object":
        return TRUE
    if p is None or tp is None:
        return mk("isinst", it.term(v, st), str(p))
    if "numpy.float64" in tp and p in ("numpy.int64", "numpy.integer", "int"):
        return FALSE
    return const(p in tp)


@ext("builtins.isinstance")
def b_isinstance(it, st, args, kw):
    return isinstance_(it, st, args[0], args[1])


@ext("builtins.issubclass")
def b_issubclass(it, st, args, kw):
    a, b = it.unlazy(args[0]), it.unlazy(args[1])
    if isinstance(a, ClassVal):
        bs = b.items if isinstance(b, Tup) else (b,)
        for x in bs:
            x = it.unlazy(x)
            if any((isinstance(x, ClassVal) and c is x.info) or (isinstance(x, Ext) and c == x) for c in a.info.mro):
                return TRUE
        return FALSE
    if isinstance(a, T) and a.op == "dtype":
        k = dtype_kind(a.args[0])
        fam = {"int": ("integer", "signedinteger", "number", "generic", "int64", "int_"),
               "float": ("floating", "inexact", "number", "generic", "float64"), "bool": ("bool_", "bool", "generic"),
               "object": ("object_", "generic")}.get(k)
        names = {"integer", "signedinteger", "unsignedinteger", "number", "generic", "int64", "int_", "floating", "inexact",
                 "float64", "bool_", "bool", "object_", "character", "complexfloating"}
        bs = [it.unlazy(x) for x in (b.items if isinstance(b, Tup) else (b,))]
        nm = [x.path.split(".")[-1] if isinstance(x, Ext) and x.path.startswith("numpy.") else None for x in bs]
        if fam and all(x in names for x in nm):
            return const(any(x in fam for x in nm))
    it.note_unmodelled("issubclass")
    return mk("isinst", it.term(a, st), "issubclass")


@ext("builtins.callable")
def b_callable(it, st, args, kw):
    v = it.deph(args[0], st)
    if isinstance(v, Phi):
        return ite(v.c, b_callable(it, st, [v.a], {}), b_callable(it, st, [v.b], {}))
    tp = type_paths(it, v, st)
    if tp is None:
        return mk("call", "callable", (it.term(v, st),), ())
    if isinstance(v, Ref) and isinstance(st.heap.get(v.a), HObj):
        f, _ = it.find_in_mro(st.heap[v.a].cls.mro, "__call__")
        return const(f is not None)
    return const("Callable" in tp)


EST_METHODS = {"fit", "predict", "set_params", "get_params", "score"}


@ext("builtins.hasattr")
def b_hasattr(it, st, args, kw):
    v = it.deph(args[0], st)
    name = conc(it, st, args[1])
    if isinstance(v, Phi):
        return ite(v.c, b_hasattr(it, st, [v.a, args[1]], {}), b_hasattr(it, st, [v.b, args[1]], {}))
    if isinstance(v, Ref):
        h = st.heap.get(v.a)
        if isinstance(h, HObj):
            f, _ = it.find_in_mro(h.cls.mro, name)
            if isinstance(f, PropVal):
                q = it.quiet
                it.quiet += 1
                rc = it.raise_count
                s2 = st.copy()
                try:
                    it.call(f.fget, [v], {}, s2)
                    r = TRUE
                except Dead as e:
                    r = FALSE if e.exc == "AttributeError" else TRUE
                finally:
                    it.quiet = q
                    it.raise_count = rc
                return r
            if f is not None:
                return TRUE
            if name in h.fields:
                x = h.fields[name]
                if x is UNBOUND:
                    return FALSE
                if isinstance(x, Phi) and x.a is UNBOUND:
                    return log("not", x.c)
                if isinstance(x, Phi) and x.b is UNBOUND:
                    return x.c
                if isinstance(x, T) and x.op == "ite" and (x.args[1] is UNBOUND or x.args[2] is UNBOUND):
                    return log("not", x.args[0]) if x.args[1] is UNBOUND else x.args[0]
                return TRUE
            if any(isinstance(c, Ext) and "sklearn" in c.path for c in h.cls.mro):
                return const(name in ("get_params", "set_params", "score"))
            g, _ = it.find_in_mro(h.cls.mro, "__getattr__")
            if g is not None:
                return mk("call", "hasattr", (it.term(v, st), const(name)), ())
            return FALSE
        if isinstance(h, HEst):
            lacks = h.info.get("lacks", ())
            if name in lacks:
                return FALSE
            if name == "predict_proba":
                return const(h.info.get("kind") == "classifier")
            if name in EST_METHODS:
                return TRUE
            return mk("call", "hasattr", (h.base, const(name)), ())
        if isinstance(h, HArr):
            return const(name in ("shape", "values", "dtype", "ndim", "size", "mean") or (
                name == "index" and h.kind == "series"))
        if isinstance(h, HDF):
            return TRUE
        if isinstance(h, (HLst, HDct, HSet)):
            import builtins
            return const(hasattr({HLst: [], HDct: {}, HSet: set()}[type(h)], name))
    if isinstance(v, T) and v.op == "const":
        return const(hasattr(cval(v), name))
    if isinstance(v, ClassVal):
        f, _ = it.find_in_mro(v.info.mro, name)
        return const(f is not None)
    return mk("call", "hasattr", (it.term(v, st), const(name)), ())


@ext("builtins.getattr")
def b_getattr(it, st, args, kw):
    name = conc(it, st, args[1])
    if len(args) > 2:
        c = b_hasattr(it, st, args[:2], {})
        d = it.decide(c, st)
        if d is True:
            return it.getattr(args[0], name, st)
        if d is False:
            return args[2]
        return it.split(c, lambda s: it.getattr(args[0], name, s), lambda s: args[2], st)
    return it.getattr(args[0], name, st)


@ext("builtins.setattr")
def b_setattr(it, st, args, kw):
    it.setattr(args[0], conc(it, st, args[1]), args[2], st)
    return NONE


@ext("builtins.type")
def b_type(it, st, args, kw):
    v = it.deph(args[0], st)
    h = it.get(st, v)
    if isinstance(h, HObj):
        return ClassVal(h.cls)
    tp = type_paths(it, v, st)
    for t in ("bool", "int", "float", "str", "list", "dict", "tuple", "set"):
        if tp and t in tp:
            return Ext("builtins." + t)
    if tp and "numpy.ndarray" in tp:
        return Ext("numpy.ndarray")
    if tp and "pandas.DataFrame" in tp:
        return Ext("pandas.DataFrame")
    return mk("typeof", it.term(v, st))


# ================================================================= builtins
@ext("builtins.len")
def b_len(it, st, args, kw):
    v = it.deph(args[0], st)
    if isinstance(v, Phi):
        return ite(v.c, b_len(it, st, [v.a], {}), b_len(it, st, [v.b], {}))
    if isinstance(v, Ref):
        h = st.heap.get(v.a)
        if isinstance(h, (HLst, HSet)):
            return const(len(h.items))
        if isinstance(h, HDct):
            return const(len(h.items))
        if isinstance(h, HDF):
            return tint(h.nrows)
        if isinstance(h, HObj):
            return it.call(it.getattr(v, "__len__", st), [], {}, st)
        if isinstance(h, HOpq) and h.term.op == "maplist" and not h.term.args[3]:
            s = shape(h.term.args[0])
            if s:
                return tint(s[0])
            return mk("call", "len", (h.term,), ())
    if isinstance(v, Tup):
        return const(len(v.items))
    if isinstance(v, RangeVal):
        c = it.range_list(v)
        if c is not None:
            return const(len(c))
    t = it.term(v, st)
    if t.op == "const":
        x = cval(t)
        if isinstance(x, str):
            return const(len(x))
        it.raise_("TypeError", st, "len")
    s = shape(t)
    if s:
        d = s[0]
        return tint(d)
    if s == ():
        it.raise_("TypeError", st, "len of scalar")
    r = mk("call", "len", (t,), ())
    r.cache["kshape"] = ()
    return r


@ext("builtins.range")
def b_range(it, st, args, kw):
    a = [it.term(x, st) for x in args]
    if len(a) == 1:
        return RangeVal(ZERO, a[0], ONE)
    if len(a) == 2:
        return RangeVal(a[0], a[1], ONE)
    return RangeVal(*a)


@ext("builtins.enumerate")
def b_enumerate(it, st, args, kw):
    s = arg(args, kw, 1, "start", ZERO)
    items = it.iterate(args[0], st)
    if items is None:
        return mk("enumit", it.term(args[0], st))
    k0 = cval(s)
    return it.alloc(st, HLst([Tup((const(i + k0), x)) for i, x in enumerate(items)]))


@ext("builtins.zip")
def b_zip(it, st, args, kw):
    ls = [it.iterate(a, st) for a in args]
    if any(x is None for x in ls):
        return mk("zipit", tuple(it.term(a, st) for a in args))
    return it.alloc(st, HLst([Tup(x) for x in zip(*ls)]))


@ext("builtins.list")
def b_list(it, st, args, kw):
    if not args:
        return it.alloc(st, HLst([]))
    v = it.iterate(args[0], st)
    if v is None:
        return it.alloc(st, HOpq(it.term(args[0], st)))
    return it.alloc(st, HLst(v))


@ext("builtins.tuple")
def b_tuple(it, st, args, kw):
    if not args:
        return Tup(())
    v = it.iterate(args[0], st)
    if v is None:
        return it.term(args[0], st)
    return Tup(v)


@ext("builtins.reversed")
def b_reversed(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None:
        return opq(it, st, "reversed", args, kw)
    return it.alloc(st, HLst(list(reversed(v))))


def uniq(it, st, vals):
    out = []
    seen = []
    for v in vals:
        v = it.deph(v, st)
        k = it.term(v, st) if not isinstance(v, (T, Tup)) else v
        if isinstance(k, T) and k.op == "const":
            x = cval(k)
            if any(isinstance(y, T) and y.op == "const" and cval(y) == x for y in seen):
                continue
        elif k in seen:
            continue
        seen.append(k)
        out.append(v)
    return out


def make_set(it, vals, st):
    for v in vals:
        h = it.get(st, it.deph(v, st))
        if isinstance(h, (HLst, HDct, HSet)):
            it.raise_("TypeError", st, "unhashable")
    vals = uniq(it, st, vals)
    return it.alloc(st, HSet(vals))


@ext("builtins.set", "builtins.frozenset")
def b_set(it, st, args, kw):
    if not args:
        return it.alloc(st, HSet(()))
    v = it.iterate(args[0], st)
    if v is None:
        return it.alloc(st, HOpq(mk("set", (it.term(args[0], st),))))
    return make_set(it, v, st)


@ext("builtins.dict")
def b_dict(it, st, args, kw):
    d = {}
    if args:
        h = it.get(st, it.deph(args[0], st))
        if isinstance(h, HDct):
            d.update(h.items)
        elif isinstance(h, HObj):
            return it.alloc(st, HOpq(unk("dict(obj)")))
        else:
            v = it.iterate(args[0], st)
            if v is None:
                return it.alloc(st, HOpq(unk("dict")))
            for p in v:
                k, x = it.unpack(p, 2, st)
                d[it.dkey(k, st)] = x
    d.update(kw)
    return it.alloc(st, HDct(d))


@ext("builtins.dict.fromkeys")
def b_fromkeys(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None:
        return it.alloc(st, HOpq(unk("dict.fromkeys")))
    d = {}
    for k in v:
        d[it.dkey(k, st)] = args[1] if len(args) > 1 else NONE
    return it.alloc(st, HDct(d))


@ext("builtins.str")
def b_str(it, st, args, kw):
    if not args:
        return const("")
    t = shown(it, args[0], st)
    if t.op == "const":
        return const(str(cval(t)))
    return simp.fmtcat([t]) if t.op == "fmt" else mk("fmt", (t,))


def shown(it, v, st):
    """the value whose text str() gives: a text, or one term holding everything that is shown"""
    v = it.deph(v, st)
    h = it.get(st, v)
    if isinstance(h, HObj):
        f, _ = it.find_in_mro(h.cls.mro, "__str__")
        if isinstance(f, FuncVal):
            return it.term(it.call(it.getattr(v, "__str__", st), [], {}, st), st)
        return mk("strof", h.cls.name)
    try:
        if isinstance(h, HDF):
            nm = tuple(k if isinstance(k, T) else const(str(k)) for k in h.cols)
            ix = getattr_index(it, v, h, st)
            return mk("call", "table", nm + ((simp.stack_cols(list(h.cols.values())),) if h.cols else ()) + ix, ())
        if isinstance(h, HDct):
            return mk("call", "dict", tuple(x for k, w in h.items.items() for x in (const(str(k)), shown(it, w, st))), ())
        if isinstance(h, HLst):
            return mk("call", "list", tuple(shown(it, w, st) for w in h.items), ())
        return it.term(v, st)
    except (Unsupported, AttributeError):
        return unk("str")


def shown_repr(it, v, st):
    t = shown(it, v, st)
    return t if t.op != "fmt" else mk("call", "repr", (t,), ())


def getattr_index(it, v, h, st):
    try:
        ix = it.iterate(it.getattr(v, "index", st), st)
        return tuple(it.term(x, st) for x in ix) if ix is not None else ()
    except (Unsupported, Dead):
        return ()


@ext("builtins.repr", "builtins.format")
def b_repr(it, st, args, kw):
    return mk("fmt", (it.term(args[0], st),))


@ext("builtins.int")
def b_int(it, st, args, kw):
    if not args:
        return ZERO
    t = it.term(args[0], st)
    if t.op == "const":
        try:
            return const(int(cval(t)))
        except (TypeError, ValueError):
            it.raise_("TypeError", st, "int()")
    if t.op == "size" or syminfo(t).get("ptype") == "int":
        return t
    if t.op in ("bin", "fn") and float_const(t) is not None:
        return const(int(float_const(t)))
    if t.op == "bin" and t.args[0] in ("+", "-", "*") and "int" in (type_paths(it, t, st) or ()):
        return t
    return fn("int", t)


@ext("builtins.float")
def b_float(it, st, args, kw):
    t = it.term(args[0], st)
    if t.op == "const":
        try:
            return const(float(cval(t)))
        except (TypeError, ValueError):
            it.raise_("ValueError", st, "float()")
    return t


@ext("builtins.bool")
def b_bool(it, st, args, kw):
    return it.truth(args[0], st) if args else FALSE


@ext("builtins.abs", "numpy.abs", "numpy.absolute")
def b_abs(it, st, args, kw):
    return ufunc_out(it, fn("abs", it.term(args[0], st)), args, kw, st, 1)


b_abs.kws = {"out", "where"}


def _minmax(name):
    def f(it, st, args, kw):
        if len(args) == 1:
            v = it.iterate(args[0], st)
            if v is None:
                return red(name, it.term(args[0], st))
            if not v:
                if "default" in kw:
                    return kw["default"]
                it.raise_("ValueError", st, name + " of empty")
        else:
            v = list(args)
        ts = [it.term(x, st) for x in v]
        if "key" in kw:
            return opq(it, st, name, args, kw)
        r = ts[0]
        for x in ts[1:]:
            c = cmp_("<", x, r) if name == "min" else cmp_(">", x, r)
            d = nf.decide(c, st.facts)
            if d is True:
                r = x
            elif d is None:
                r = fn("minimum" if name == "min" else "maximum", r, x)
        return r
    return f


EXT["builtins.max"] = _minmax("max")
EXT["builtins.min"] = _minmax("min")


@ext("builtins.sum")
def b_sum(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None:
        return red("sum", it.term(args[0], st))
    r = arg(args, kw, 1, "start", ZERO)
    for x in v:
        if r is ZERO:
            r = it.term(x, st) if not isinstance(it.get(st, it.deph(x, st)), HObj) else x
        else:
            r = it.binop("+", r, x, st)
    return r


def _anyall(name):
    def f(it, st, args, kw):
        v = it.iterate(args[0], st)
        if v is None:
            t = it.term(args[0], st)
            if t.op == "maplist" and not t.args[3] and len(t.args[2]) == 1:
                return mk("quant", name, t.args[0], t.args[1], t.args[2][0])
            return red(name, t)
        r = TRUE if name == "all" else FALSE
        for x in v:
            r = log("and" if name == "all" else "or", r, it.truth(x, st))
        return r
    return f


EXT["builtins.any"] = _anyall("any")
EXT["builtins.all"] = _anyall("all")


@ext("builtins.sorted")
def b_sorted(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is not None and "key" not in kw:
        ts = [it.term(x, st) for x in v]
        if all(t.op == "const" for t in ts):
            try:
                r = sorted((cval(t) for t in ts), reverse=bool(kw.get("reverse") is TRUE))
                return it.alloc(st, HLst([const(x) for x in r]))
            except TypeError:
                it.raise_("TypeError", st, "sorted")
    return it.alloc(st, HOpq(opq(it, st, "sorted", args, kw)))


@ext("builtins.map")
def b_map(it, st, args, kw):
    ls = [it.iterate(a, st) for a in args[1:]]
    if any(x is None for x in ls):
        return it.alloc(st, HOpq(unk("map")))
    return it.alloc(st, HLst([it.materialise(it.call(args[0], list(x), {}, st), st) for x in zip(*ls)]))


@ext("builtins.filter")
def b_filter(it, st, args, kw):
    v = it.iterate(args[1], st)
    if v is None:
        return it.alloc(st, HOpq(unk("filter")))
    out = []
    for x in v:
        c = it.truth(x if args[0] is NONE else it.call(args[0], [x], {}, st), st)
        d = it.decide(c, st)
        if d is None:
            return it.alloc(st, HOpq(unk("filter")))
        if d:
            out.append(x)
    return it.alloc(st, HLst(out))


@ext("builtins.print")
def b_print(it, st, args, kw):
    return NONE


@ext("builtins.id", "builtins.hash")
def b_id(it, st, args, kw):
    it.event("nondet", "id/hash", st)
    return unk("id")


def float_const(t):
    """an expression over numbers only, evaluated as Python does"""
    if t.op == "const":
        v = cval(t)
        return v if isinstance(v, (int, float)) and not isinstance(v, bool) else None
    if t.op == "bin":
        a, b = float_const(t.args[1]), float_const(t.args[2])
        if a is None or b is None:
            return None
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b,
                    "**": lambda: a ** b}[t.args[0]]()
        except (KeyError, ArithmeticError):
            return None
    if t.op == "fn" and t.args[0] == "sqrt":
        a = float_const(t.args[1])
        return None if a is None or a < 0 else a ** 0.5
    return None


@ext("builtins.round")
def b_round(it, st, args, kw):
    t = it.term(args[0], st)
    if t.op != "const" and len(args) == 1 and isinstance(float_const(t), float):
        return const(round(float_const(t)))
    if t.op == "const":
        return const(round(cval(t), *[cval(it.term(x, st)) for x in args[1:]]))
    return fn("round", t, *[it.term(x, st) for x in args[1:]])


@ext("builtins.next")
def b_next(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v:
        return v[0]
    if v == [] and len(args) > 1:
        return args[1]
    if v == []:
        it.raise_("StopIteration", st)
    return opq(it, st, "next", args, kw)


@ext("builtins.iter")
def b_iter(it, st, args, kw):
    return args[0]


@ext("builtins.slice")
def b_slice(it, st, args, kw):
    a = [it.term(x, st) for x in args]
    if len(a) == 1:
        return SliceVal(NONE, a[0], NONE)
    if len(a) == 2:
        return SliceVal(a[0], a[1], NONE)
    return SliceVal(*a)


@ext("builtins.vars")
def b_vars(it, st, args, kw):
    h = it.get(st, args[0])
    return it.alloc(st, HDct(h.fields))


@ext("builtins.property")
def b_property(it, st, args, kw):
    return PropVal(args[0] if args else None, args[1] if len(args) > 1 else None)


for _n in ("isinstance issubclass callable hasattr getattr setattr type len range enumerate zip list tuple reversed set "
           "frozenset dict str repr format int float bool abs max min sum any all sorted map filter print id hash round "
           "next iter slice vars object complex bytes property staticmethod classmethod open input").split():
    BUILTINS[_n] = Ext("builtins." + _n)


# ================================================================= attributes
def getattr(it, o, name, st):
    if isinstance(o, Ext) and o.path == "sklearn.__version__":
        o = const(SKVERSION)
    if isinstance(o, Ext):
        p = o.path + "." + name
        if p in ("numpy.nan", "numpy.NaN", "numpy.NAN"):
            return NAN
        if p in ("numpy.inf", "numpy.Inf", "math.inf"):
            return INF
        if p == "numpy.newaxis":
            return NONE
        if p == "sklearn.__version__":
            return const(SKVERSION)
        if p in ("numpy.pi", "math.pi", "scipy.pi"):
            return nf.PI
        if p == "builtins.object.__init__":
            return Builtin("init", lambda it, s, a, k: NONE)
        if o.path.startswith("builtins.") and name == "__name__":
            return const(o.path[9:])
        return Ext(p)
    if isinstance(o, (Builtin, Bound, Partial)):
        if isinstance(o, Bound) and name == "__func__":
            return o.fn
        if name == "__name__":
            return mk("fmt", (mk("val", o),))
        return ExtMeth(o, name)
    if isinstance(o, Ref):
        h = st.heap.get(o.a)
        if isinstance(h, (HLst, HDct, HSet)):
            if name == "__class__":
                return Ext({HLst: "builtins.list", HDct: "builtins.dict", HSet: "builtins.set"}[type(h)])
            return ExtMeth(o, name)
        if isinstance(h, HEst):
            return est_attr(it, o, h, name, st)
        if isinstance(h, HDF):
            return df_attr(it, o, h, name, st)
        if isinstance(h, HArr):
            return arr_attr(it, o, h.content, name, st, h)
        if isinstance(h, HOpq):
            return opq_attr(it, o, h.term, name, st)
        return ExtMeth(o, name)
    if isinstance(o, Tup):
        return ExtMeth(o, name)
    if isinstance(o, RangeVal):
        return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
    if isinstance(o, Phi):
        return it.split(o.c, lambda s: it.getattr(o.a, name, s), lambda s: it.getattr(o.b, name, s), st)
    if isinstance(o, T):
        if o.op == "const":
            v = cval(o)
            if v is None:
                it.raise_("AttributeError", st, "NoneType." + name)
            if not hasattr_py(v, name):
                if name in ("shape", "ndim", "dtype") and isinstance(v, (int, float)):
                    return arr_attr(it, o, o, name, st, None)
                if isinstance(v, (int, float)) and name in ("item", "astype", "reshape", "all", "any", "copy", "sum"):
                    return ExtMeth(o, name)
                it.raise_("AttributeError", st, name)
            return ExtMeth(o, name)
        if o.op == "ite":
            return it.split(o.args[0], lambda s: it.getattr(o.args[1], name, s),
                            lambda s: it.getattr(o.args[2], name, s), st)
        if shape(o) is not None or o.op in ("bin", "fn", "gather", "iset"):
            return arr_attr(it, o, o, name, st, None)
        return opq_attr(it, o, o, name, st)
    if isinstance(o, SliceVal):
        return {"start": o.lo, "stop": o.hi, "step": o.step}[name]
    if isinstance(o, FuncVal):
        return ExtMeth(o, name)
    raise Unsupported(f"attribute {name} of {type(o).__name__}")


import builtins as _bi


def hasattr_py(v, name):
    return _bi.hasattr(v, name)


ARR_ATTRS = {"shape", "T", "values", "ndim", "size", "dtype", "index", "columns", "loc", "iloc", "name", "flat", "array",
             "empty", "is_unique"}


def arr_attr(it, o, t, name, st, h):
    s = shape(t)
    if name == "shape":
        if s is None:
            return mk("getattr", t, "shape")
        return Tup([tint(d) for d in s])
    if name == "ndim":
        if s is None:
            r = mk("getattr", t, "ndim")
            r.cache["shape"] = ()
            return r
        return const(len(s))
    if name == "size":
        if s is None:
            return mk("getattr", t, "size")
        r = ONE
        for d in s:
            r = bin_("*", r, tint(d)) if r is not ONE else tint(d)
        return r
    if name == "T":
        return view(it, o, h, simp.transpose(t), st)
    if name in ("values", "array"):
        return view(it, o, h, t, st)
    if name == "dtype":
        return mk("dtype", t)
    if name == "name" and h is not None:
        return const(h.name)
    if name in ("loc", "iloc", "at", "iat"):
        return ExtMeth(o, name)
    if name == "index" and h is not None and h.kind == "series":
        return mk("indexof", t)
    if name == "empty":
        return FALSE
    if name == "is_unique":
        v = it.iterate(t, st)
        if v is not None and all(isinstance(x, T) and x.op == "const" for x in v):
            return const(len({cval(x) for x in v}) == len(v))
        return mk("call", "is_unique", (t,), ())
    if name == "__class__":
        return Ext("numpy.ndarray")
    if h is not None and h.kind == "series" and name == "cat":
        return mk("getattr", t, name)
    return ExtMeth(o, name)


def view(it, o, h, t, st):
    """array sharing memory with o"""
    if h is None or not isinstance(o, Ref):
        return t
    return it.alloc(st, HArr(t, h.owner, "ndarray", o.a, h.name))


def opq_attr(it, o, t, name, st):
    if t.op == "dtype" and name == "type":
        return t
    if t.op == "dtype" and name == "kind":
        k = {"int": "i", "float": "f", "bool": "b", "object": "O"}.get(dtype_kind(t.args[0]))
        return const(k) if k else mk("getattr", t, name)
    s = shape(t)
    if s is not None:
        return arr_attr(it, o, t, name, st, None)
    if t.op == "maplist" and name in ("append", "extend"):
        return ExtMeth(o, name)
    key = ("attr", t.uid, name)
    if t.op in ("optres", "regres", "rdres", "regmodel", "kde", "gridsearch", "object", "tunefit", "sig"):
        return objterm_attr(it, o, t, name, st)
    if name in METHODNAMES or name in ARRMETHODS:
        return ExtMeth(o, name)
    return mk("getattr", t, name)


METHODNAMES = {"fit", "predict", "get_n_splits", "split", "items", "keys", "append", "update", "copy", "join", "format",
               "evaluate", "summary", "cov_params", "conf_int", "plot", "add_trace", "update_layout"}


# ================================================================= data frames
def df_attr(it, o, h, name, st):
    if name == "columns":
        return it.alloc(st, HArr(arr((len(h.cols),), [const(c) for c in h.cols]), h.owner, "index"))
    if name == "shape":
        return Tup([tint(h.nrows), const(len(h.cols))])
    if name in ("loc", "iloc", "at"):
        return ExtMeth(o, name)
    if name == "values":
        t = it.term(o, st)
        return it.alloc(st, HArr(t, None))
    if name == "index":
        if h.index is not None:
            return it.alloc(st, HArr(arr((len(h.index),), list(h.index)), None, "index"))
        return mk("indexof", tint(h.nrows))
    if name == "T":
        return simp.transpose(it.term(o, st))
    if name == "ndim":
        return const(2)
    if name == "empty":
        return const(not h.cols)
    if name == "dtypes":
        return it.alloc(st, HArr(arr((len(h.cols),), [mk("dtype", v) for v in h.cols.values()]), None, "series"))
    if name in h.cols and name not in DFMETHODS:
        return it.getitem(o, const(name), st)
    return ExtMeth(o, name)


DFMETHODS = {"join", "set_index", "copy", "drop", "rename", "to_numpy", "iterrows", "head", "isnull", "isna", "info",
             "apply", "mean", "sum", "std", "any", "all", "round", "insert", "assign", "reset_index", "items", "astype",
             "sort_values", "dropna", "fillna", "to_dict", "keys", "equals", "select_dtypes"}


def col_view(it, o, h, c, st):
    """column of a data frame (may share memory with it)"""
    return it.alloc(st, HArr(h.cols[c], h.owner, "series", o.a, c))


def df_rows(it, h, rows, st):
    """row selection"""
    if isinstance(rows, SliceVal) and rows.full():
        return h
    r = it.term(rows, st) if not isinstance(rows, SliceVal) else rows
    cols = {c: index(v, [r]) for c, v in h.cols.items()}
    any_c = next(iter(cols.values()), None)
    s = shape(any_c) if any_c is not None else None
    n = s[0] if s else (mk("size", r) if isinstance(r, T) else h.nrows)
    return HDF(cols, n, None, None)


def labels(it, st, v):
    """list of constant labels or None"""
    items = it.iterate(v, st)
    if items is None:
        return None
    ts = [it.term(x, st) for x in items]
    if all(t.op == "const" for t in ts):
        return [cval(t) for t in ts]
    return None


def df_getitem(it, o, h, i, st):
    i = it.deph(i, st)
    if isinstance(i, T) and i.op == "const":
        c = cval(i)
        if c not in h.cols:
            it.raise_("KeyError", st, c)
        return col_view(it, o, h, c, st)
    ls = labels(it, st, i)
    if ls is not None and all(not isinstance(x, bool) for x in ls):
        for c in ls:
            if c not in h.cols:
                it.raise_("KeyError", st, c)
        return it.alloc(st, HDF({c: h.cols[c] for c in ls}, h.nrows, None, h.index))
    if isinstance(i, SliceVal):
        return it.alloc(st, df_rows(it, h, i, st))
    t = it.term(i, st)
    if is_bool(t):
        return it.alloc(st, df_rows(it, h, t, st))
    return it.alloc(st, HOpq(mk("getitem", it.term(o, st), (t,))))


def df_loc(it, o, h, i, st, positional):
    if isinstance(i, Tup) and len(i.items) == 2:
        r, c = i.items
    else:
        r, c = i, SliceVal(NONE, NONE, NONE)
    c = it.deph(c, st)
    r = it.deph(r, st)
    names = list(h.cols)
    single = None
    if isinstance(c, SliceVal):
        if c.full():
            sel = names
        elif positional and all(x is NONE or is_const(x) for x in (c.lo, c.hi, c.step)):
            sel = names[slice(*[None if x is NONE else cval(x) for x in (c.lo, c.hi, c.step)])]
        else:
            return it.alloc(st, HOpq(unk("loc slice")))
    elif isinstance(c, T) and c.op == "const":
        k = cval(c)
        if positional:
            k = names[k]
        if k not in h.cols:
            it.raise_("KeyError", st, k)
        single, sel = k, [k]
    else:
        ls = labels(it, st, c)
        if ls is None:
            return it.alloc(st, HOpq(mk("getitem", it.term(o, st), (it.term(c, st),))))
        if ls and all(isinstance(x, bool) for x in ls):
            sel = [n for n, b in zip(names, ls) if b]
        else:
            sel = [names[x] for x in ls] if positional else ls
        for k in sel:
            if k not in h.cols:
                it.raise_("KeyError", st, k)
    if isinstance(r, SliceVal) and r.full():
        if single is not None:
            return col_view(it, o, h, single, st)
        return it.alloc(st, HDF({k: h.cols[k] for k in sel}, h.nrows, None, h.index))
    # row selection
    if isinstance(r, T) and r.op == "const":
        pos = None
        if positional:
            pos = cval(r)
        elif h.index is not None:
            ix = [cval(x) if is_const(x) else x for x in h.index]
            if cval(r) in ix:
                pos = ix.index(cval(r))
            else:
                it.raise_("KeyError", st, cval(r))
        elif isinstance(cval(r), int):
            pos = cval(r)
        if pos is None:
            it.raise_("KeyError", st, cval(r))
        vals = [index(h.cols[k], [const(pos)]) for k in sel]
        if single is not None:
            return vals[0]
        return arr((len(vals),), vals)
    h2 = df_rows(it, HDF({k: h.cols[k] for k in sel}, h.nrows), r, st)
    if single is not None:
        return it.alloc(st, HArr(h2.cols[single], None, "series", None, single))
    return it.alloc(st, h2)


def df_meth(it, o, h, name, args, kw, st):
    if name in ("copy", "round", "astype", "dropna", "head"):
        return it.alloc(st, HDF(h.cols, h.nrows, None, h.index))
    if name == "to_numpy":
        return it.alloc(st, HArr(it.term(o, st)))
    if name == "set_index":
        ix = it.iterate(args[0], st)
        inplace = kw.get("inplace") is TRUE
        nh = HDF(h.cols, h.nrows, h.owner if inplace else None, tuple(it.term(x, st) for x in ix) if ix is not None else None)
        if inplace:
            it.mutate(o, st, "set_index")
            st.heap[o.a] = nh
            return NONE
        return it.alloc(st, nh)
    if name == "reset_index":
        return it.alloc(st, HDF(h.cols, h.nrows))
    if name == "join":
        h2 = it.get(st, it.deph(args[0], st))
        if isinstance(h2, HDF):
            c = dict(h.cols)
            c.update(h2.cols)
            return it.alloc(st, HDF(c, h.nrows, None, h.index))
    if name == "drop":
        cols = kw.get("columns")
        if cols is None and len(args) >= 1 and (kw.get("axis") is ONE or (len(args) > 1 and args[1] is ONE)):
            cols = args[0]
        if cols is None and "labels" in kw:
            cols = kw["labels"]
        if cols is not None:
            ls = [cval(cols)] if is_const(cols) else labels(it, st, cols)
            if ls is not None:
                inplace = kw.get("inplace") is TRUE
                nh = HDF({k: v for k, v in h.cols.items() if k not in ls}, h.nrows, h.owner if inplace else None,
                         h.index)
                if inplace:
                    it.mutate(o, st, "drop columns")
                    st.heap[o.a] = nh
                    return NONE
                return it.alloc(st, nh)
    if name == "rename":
        m = it.get(st, it.deph(kw.get("columns", NONE), st))
        if isinstance(m, HDct):
            return it.alloc(st, HDF({(cval(m.items[k]) if k in m.items else k): v for k, v in h.cols.items()}, h.nrows,
                                    None, h.index))
    if name == "insert":
        it.mutate(o, st, "insert column")
        loc, c, v = (list(args) + [kw.get("loc"), kw.get("column"), kw.get("value")])[:3]
        items = list(h.cols.items())
        items.insert(cval(it.term(loc, st)), (cval(it.term(c, st)), bcast_to(it.term(v, st), h.nrows)))
        st.heap[o.a] = HDF(dict(items), h.nrows, h.owner, h.index)
        return NONE
    if name == "assign":
        c = dict(h.cols)
        for k, v in kw.items():
            c[k] = bcast_to(it.term(v, st), h.nrows)
        return it.alloc(st, HDF(c, h.nrows, None, h.index))
    if name in ("keys",):
        return df_attr(it, o, h, "columns", st)
    if name == "items":
        return it.alloc(st, HLst([Tup((const(c), col_view(it, o, h, c, st))) for c in h.cols]))
    if name == "iterrows" and isinstance(h.nrows, int):
        rows = []
        for i in range(h.nrows):
            rows.append(Tup((h.index[i] if h.index else const(i),
                             it.alloc(st, HDct({c: index(v, [const(i)]) for c, v in h.cols.items()})))))
        return it.alloc(st, HLst(rows))
    if name in ("info",):
        return NONE
    if name in ("isnull", "isna", "notnull", "notna"):
        f = "isnan"
        c = {k: (fn(f, v) if name in ("isnull", "isna") else log("not", fn(f, v))) for k, v in h.cols.items()}
        return it.alloc(st, HDF(c, h.nrows, None, h.index))
    if name in ("mean", "sum", "std", "any", "all", "max", "min", "median", "var"):
        ax = arg(args, kw, 0, "axis", ZERO)
        axv = cval(it.term(ax, st)) if is_const(it.term(ax, st)) else None
        if axv in (0, 1):
            t = it.term(o, st)
            extra = ("ddof1",) if name in ("std", "var") else ()
            return red(name, t, axv, extra)
    if name == "equals":
        return cmp_("==", it.term(o, st), it.term(args[0], st))
    if name == "apply":
        return opq(it, st, "df.apply", [o] + [a for a in args if not isinstance(a, (FuncVal,))], {})
    it.note_unmodelled("DataFrame." + name)
    return mk("meth", name, it.term(o, st), tuple(it.term(a, st) for a in args),
              tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))


def bcast_to(t, n):
    if rank0(t):
        return fill(t, (n,))
    return t


# ================================================================= estimators
def est_attr(it, o, h, name, st):
    if name in ("fit", "predict", "predict_proba", "set_params", "get_params", "score", "fit_predict"):
        if name in h.info.get("lacks", ()):
            it.raise_("AttributeError", st, name)
        if name == "predict_proba" and h.info.get("kind") not in ("classifier", None):
            it.raise_("AttributeError", st, name)
        return ExtMeth(o, name)
    if name == "__class__":
        return mk("classof", h.base)
    if "search" in h.info and name in ("best_params_", "best_estimator_"):
        best, e = search_best(it, h, st)
        if best is not None:
            return it.alloc(st, HDct(best)) if name == "best_params_" else it.alloc(st, e)
    return mk("getattr", it.est_term(h), name)


def new_est(it, st, base, params=(), user=None, **info):
    return it.alloc(st, HEst(base, params, NONE, user, info))


def params_from(it, st, kw):
    return tuple(sorted((k, it.term(v, st)) for k, v in kw.items()))


def est_fit(it, o, h, X, y, w, st, extra=()):
    xt, yt = it.term(X, st), it.term(y, st)
    wt = NONE if w is None else it.term(w, st)
    fitted = mk("fitted", h.base, tuple(h.params), xt, yt, wt) if not extra else mk(
        "fitted", h.base, tuple(h.params), xt, yt, wt, extra)
    it.event("fit", (h.base, tuple(h.params), xt, yt, wt, h.user, fitted, o.a), st)
    if h.user:
        it.event("mutate", (h.user, "fit"), st)
    st.heap[o.a] = h.with_(fit=fitted)
    return fitted


def est_predict(it, h, X, st, method):
    if "search" in h.info and h.fit is not NONE:
        _, e = search_best(it, h, st)
        if e is not None:
            h = e
    xt = it.term(X, st)
    s = shape(xt)
    rows = s[0] if s else mk("size", xt)
    fitted = h.fit
    if fitted is NONE:
        it.event("predict-unfitted", h.base, st)
    it.event("predict", (h.base, fitted, xt, method), st)
    if method == "predict":
        return mk("pred", "predict", fitted, xt, rows)
    p = mk("pred", "proba", fitted, xt, rows)
    return arr((rows, 2), (bin_("-", ONE, p), p))


def est_set_params(it, o, h, kw, st):
    if h.user:
        it.event("mutate", (h.user, "set_params"), st)
    d = dict(h.params)
    for k, v in kw.items():
        if k == "**":
            d["**"] = it.term(v, st)
        else:
            d[k] = it.term(v, st)
    if h.info.get("nested") is None:
        pass
    st.heap[o.a] = h.with_(params=tuple(sorted(d.items())))
    return o


def est_meth(it, o, h, name, args, kw, st):
    if name == "fit":
        X = arg(args, kw, 0, "X")
        y = arg(args, kw, 1, "y", NONE)
        w = arg(args, kw, 2, "sample_weight")
        est_fit(it, o, h, X, y, w, st)
        return o
    if name in ("predict", "predict_proba"):
        return est_predict(it, h, arg(args, kw, 0, "X"), st, name)
    if name == "set_params":
        return est_set_params(it, o, h, kw, st)
    if name == "get_params":
        return it.alloc(st, HDct(dict(h.params)))
    if name == "score":
        return mk("call", "est.score", (it.est_term(h),) + tuple(it.term(a, st) for a in args), ())
    return mk("meth", name, it.est_term(h), tuple(it.term(a, st) for a in args), ())


@ext("sklearn.base.clone")
def sk_clone(it, st, args, kw):
    v = it.deph(args[0], st)
    if isinstance(v, Phi):
        return it.split(v.c, lambda s: sk_clone(it, s, [v.a], kw), lambda s: sk_clone(it, s, [v.b], kw), st)
    h = it.get(st, v)
    if isinstance(h, HEst):
        return it.alloc(st, HEst(h.base, h.params, NONE, None, h.info))
    if isinstance(h, HObj):
        init, _ = it.find_in_mro(h.cls.mro, "__init__")
        names = [a.arg for a in init.node.args.args[1:]] if init else []
        o = it.alloc(st, HObj(h.cls, {}))
        argsv = {}
        for n in names:
            x = it.getattr(v, n, st)
            hx = it.get(st, it.deph(x, st))
            if isinstance(hx, HEst) or (isinstance(hx, HObj) and any(isinstance(c, Ext) and "sklearn" in c.path
                                                                      for c in hx.cls.mro)):
                x = sk_clone(it, st, [x], {})
            argsv[n] = x
        if init is not None:
            it.call(it.bindfn(o, init, st), [], argsv, st)
        return o
    if isinstance(h, HLst):
        return it.alloc(st, HLst([sk_clone(it, st, [x], {}) for x in h.items]))
    if isinstance(v, T) and v.op == "const":
        it.raise_("TypeError", st, "clone")
    return opq(it, st, "clone", args, kw)


@ext("copy.deepcopy")
def copy_deepcopy(it, st, args, kw):
    return deep(it, st, args[0], {})


def deep(it, st, root, memo, arrowner=None):
    """independent copy of everything reachable from a value"""
    def cp(v):
        if isinstance(v, Ref):
            if v.a in memo:
                return memo[v.a]
            h = st.heap.get(v.a)
            it.naddr += 1
            r = Ref(it.naddr)
            memo[v.a] = r
            if isinstance(h, HObj):
                st.heap[r.a] = HObj(h.cls, {k: cp(x) for k, x in h.fields.items()})
            elif isinstance(h, HLst):
                st.heap[r.a] = HLst([cp(x) for x in h.items])
            elif isinstance(h, HDct):
                st.heap[r.a] = HDct({k: cp(x) for k, x in h.items.items()})
            elif isinstance(h, HSet):
                st.heap[r.a] = HSet(h.items)
            elif isinstance(h, HArr):
                st.heap[r.a] = HArr(h.content, arrowner, h.kind, None, h.name)
            elif isinstance(h, HDF):
                st.heap[r.a] = HDF(h.cols, h.nrows, None, h.index)
            elif isinstance(h, HEst):
                st.heap[r.a] = HEst(h.base, h.params, h.fit, None, h.info)
            else:
                st.heap[r.a] = h
            return r
        if isinstance(v, Tup):
            return Tup([cp(x) for x in v.items])
        if isinstance(v, Phi):
            return Phi(v.c, cp(v.a), cp(v.b))
        if isinstance(v, Bound):
            return Bound(cp(v.recv), v.fn)
        return v
    return cp(root)


@ext("copy.copy")
def copy_copy(it, st, args, kw):
    v = it.deph(args[0], st)
    h = it.get(st, v)
    if h is None:
        return v
    if isinstance(h, HObj):
        return it.alloc(st, HObj(h.cls, h.fields))
    if isinstance(h, HLst):
        return it.alloc(st, HLst(h.items))
    if isinstance(h, HDct):
        return it.alloc(st, HDct(h.items))
    if isinstance(h, HArr):
        return it.alloc(st, HArr(h.content, None, h.kind, None, h.name))
    if isinstance(h, HDF):
        return it.alloc(st, HDF(h.cols, h.nrows, None, h.index))
    if isinstance(h, HEst):
        return it.alloc(st, HEst(h.base, h.params, h.fit, None, h.info))
    return it.alloc(st, h)


def _est_kind(it, st, v, want):
    v = it.deph(v, st)
    if isinstance(v, Phi):
        return ite(v.c, _est_kind(it, st, v.a, want), _est_kind(it, st, v.b, want))
    h = it.get(st, v)
    if isinstance(h, HEst):
        return const(h.info.get("kind") == want)
    if isinstance(h, HObj):
        mix = {"classifier": "ClassifierMixin", "regressor": "RegressorMixin"}[want]
        if "_estimator_type" in h.fields or it.find_in_mro(h.cls.mro, "_estimator_type")[0] is not None:
            t = it.getattr(v, "_estimator_type", st)
            return cmp_("==", it.term(t, st), const(want))
        return const(any(isinstance(c, Ext) and c.path.endswith(mix) for c in h.cls.mro))
    if isinstance(v, T) and v.op == "const":
        return FALSE
    return mk("call", "is_" + want, (it.term(v, st),), ())


@ext("sklearn.base.is_classifier")
def sk_is_classifier(it, st, args, kw):
    return _est_kind(it, st, args[0], "classifier")


@ext("sklearn.base.is_regressor")
def sk_is_regressor(it, st, args, kw):
    return _est_kind(it, st, args[0], "regressor")


LIBDEF = {"LinearRegression": {"fit_intercept": True, "copy_X": True, "n_jobs": None, "positive": False},
          "LogisticRegression": {"penalty": "l2", "C": 1.0, "fit_intercept": True, "random_state": None, "solver": "lbfgs",
                                 "max_iter": 100, "n_jobs": None, "verbose": 0, "tol": 0.0001},
          "DummyRegressor": {"strategy": "mean"}, "DummyClassifier": {"strategy": "prior"},
          "DecisionTreeClassifier": {"criterion": "gini", "splitter": "best", "max_depth": None, "min_samples_split": 2,
                                     "min_samples_leaf": 1, "random_state": None, "ccp_alpha": 0.0},
          "DecisionTreeRegressor": {"splitter": "best", "max_depth": None, "random_state": None}}


def lib_est(path, kind):
    dflt = LIBDEF.get(path.rsplit(".", 1)[1], {})

    def isdef(k, v):
        return k in dflt and isinstance(v, T) and is_const(v) and cval(v) == dflt[k] and type(cval(v)) is type(dflt[k])

    def f(it, st, args, kw):
        ps = tuple((k, v) for k, v in params_from(it, st, kw) if not isdef(k, v)) + tuple((f"#{i}", it.term(a, st)) for i, a in enumerate(args))
        return it.alloc(st, HEst(mk("lib", path), ps, NONE, None, {"kind": kind}))
    return f


for _p, _k in (("sklearn.linear_model.LinearRegression", "regressor"), ("sklearn.linear_model.LogisticRegression", "classifier"),
               ("sklearn.dummy.DummyRegressor", "regressor"), ("sklearn.dummy.DummyClassifier", "classifier"),
               ("sklearn.tree.DecisionTreeClassifier", "classifier"), ("sklearn.tree.DecisionTreeRegressor", "regressor")):
    EXT[_p] = lib_est(_p, _k)


def ext_base_attr(it, exts, recv, name, st):
    """attributes that repository classes inherit from library base classes"""
    paths = [e.path for e in exts]
    if any("sklearn" in p for p in paths):
        if name == "get_params":
            return Builtin("get_params", lambda i, s, a, k: obj_get_params(i, s, recv))
        if name == "set_params":
            def sp(i, s, a, k):
                h = s.heap[recv.a]
                if h.owner:
                    i.event("mutate", (h.owner, "set_params"), s)
                for kk, vv in k.items():
                    if "__" in kk:
                        head, tail = kk.split("__", 1)
                        sub = i.getattr(recv, head, s)
                        i.call(i.getattr(sub, "set_params", s), [], {tail: vv}, s)
                    else:
                        i.setattr(recv, kk, vv, s)
                return recv
            return Builtin("set_params", sp)
        if name == "score":
            return Builtin("score", lambda i, s, a, k: mk("call", "score", tuple(i.term(x, s) for x in a), ()))
        if name == "_estimator_type":
            it.raise_("AttributeError", st, name)
    if name in ("__init__",):
        return Builtin("object.__init__", lambda i, s, a, k: NONE)
    if any(p not in ("abc.ABC", "builtins.object") for p in paths) and "sklearn" not in " ".join(paths):
        return mk("getattr", it.term(recv, st), name)
    it.raise_("AttributeError", st, name)


def obj_get_params(it, st, o):
    h = st.heap[o.a]
    init, _ = it.find_in_mro(h.cls.mro, "__init__")
    names = [a.arg for a in init.node.args.args[1:]] if init else []
    return it.alloc(st, HDct({n: it.getattr(o, n, st) for n in names}))


def ext_instance(info):
    return False


# ---- cross-fitting helpers
def _pairs(it, st, smpls):
    v = it.iterate(smpls, st)
    if v is None:
        return None
    return [it.unpack(p, 2, st) for p in v]


@ext("sklearn.model_selection.cross_val_predict")
def sk_cvp(it, st, args, kw):
    est, X, y = arg(args, kw, 0, "estimator"), arg(args, kw, 1, "X"), arg(args, kw, 2, "y", NONE)
    cv = arg(args, kw, None, "cv", NONE)
    method = arg(args, kw, None, "method", const("predict"))
    prs = _pairs(it, st, cv)
    xt, yt = it.term(X, st), it.term(y, st)
    if prs is None or not is_const(method):
        if isinstance(it.get(st, it.deph(cv, st)), HOpq) or True:
            h = it.get(st, it.deph(est, st))
            it.event("cvp-opaque", (it.term(est, st), xt, yt, it.term(cv, st)), st)
            t = mk("call", "cross_val_predict", (it.term(est, st), xt, yt, it.term(cv, st), method), ())
            n = shape(xt)
            t.cache["kshape"] = (n[0],) if n else None
            return t
    m = cval(method)
    n = shape(xt)[0]
    if m == "predict":
        out = fill(NAN, (n,))
    else:
        out = fill(NAN, (n, 2))
    for tr, te in prs:
        e = sk_clone(it, st, [est], {})
        trt, tet = it.term(tr, st), it.term(te, st)
        it.call(it.getattr(e, "fit", st), [index(xt, [trt]), index(yt, [trt])], {}, st)
        p = it.term(it.call(it.getattr(e, m, st), [index(xt, [tet])], {}, st), st)
        out = simp.store(out, [tet], p)
        if out is None:
            return unk("cross_val_predict")
    return out


MEMMAP = "argument mapped read-only by joblib"


@ext("joblib.Parallel")
def jl_parallel(it, st, args, kw):
    """Worker processes (n_jobs given and not 1) run each task on pickled copies of its arguments, large arrays of which are
    mapped read-only; only the return value comes back."""
    nj = arg(args, kw, 0, "n_jobs", NONE)
    apart = is_const(nj) and nj is not NONE and cval(nj) not in (0, 1) and not (
        it.deph(kw["backend"], st) is const("threading") if "backend" in kw else False) and not (
        it.deph(kw["prefer"], st) is const("threads") if "prefer" in kw else False) and not (
        it.deph(kw["require"], st) is const("sharedmem") if "require" in kw else False)
    mapped = not ("max_nbytes" in kw and it.deph(kw["max_nbytes"], st) is NONE) and not (
        "mmap_mode" in kw and it.deph(kw["mmap_mode"], st) in (NONE, const("c")))

    def run(i, s, a, k):
        v = i.iterate(a[0], s)
        if v is None:
            return i.alloc(s, HOpq(unk("parallel")))
        out = []
        for p in v:
            if not isinstance(p, Partial):
                out.append(unk("parallel task"))
                continue
            if not apart:
                out.append(i.materialise(i.call(p.fn, list(p.args), dict(p.kwargs), s), s))
                continue
            memo = {}
            fn, pa, pk = [deep(i, s, x, memo, MEMMAP if mapped else None) for x in (
                p.fn, Tup(p.args), Tup([v2 for _, v2 in p.kwargs]))]
            i.event("task", None, s)
            i.isolated += 1
            try:
                r = i.materialise(i.call(fn, list(pa.items), dict(zip([k2 for k2, _ in p.kwargs], pk.items)), s), s)
            finally:
                i.isolated -= 1
            for x in memo.values():
                h = s.heap.get(x.a)
                if isinstance(h, HArr) and h.owner == MEMMAP:
                    s.heap[x.a] = HArr(h.content, None, h.kind, h.base, h.name)
            out.append(r)
        return i.alloc(s, HLst(out))
    return Builtin("Parallel", run)


@ext("joblib.delayed")
def jl_delayed(it, st, args, kw):
    f = args[0]
    return Builtin("delayed", lambda i, s, a, k: Partial(f, a, k))


def fgroup(name, K, n, *extra):
    return mk("fgroup", name, K, tint(n) if isinstance(n, int) else n, *extra)


def fold_pair(g, k):
    return Tup((iset(mk("fold", g, k, "train")), iset(mk("fold", g, k, "test"))))


def _cvobj(name):
    def f(it, st, args, kw):
        ks = {"n_splits": const(5), "n_repeats": const(10), "shuffle": FALSE, "random_state": NONE}
        for i, a in enumerate(args):
            ks[["n_splits"][i]] = a
        ks.update(kw)
        return it.alloc(st, HOpq(mk("cvobj", name, tuple(sorted((k, it.term(v, st)) for k, v in ks.items())))))
    return f


for _n in ("KFold", "StratifiedKFold", "RepeatedKFold", "RepeatedStratifiedKFold"):
    EXT["sklearn.model_selection." + _n] = _cvobj(_n)


def cv_split(it, o, t, args, kw, st):
    name, ps = t.args
    ps = dict(ps)
    X = arg(args, kw, 0, "X")
    y = arg(args, kw, 1, "y", NONE)
    xt = it.term(X, st)
    s = shape(xt)
    if s is None or not is_const(ps["n_splits"]):
        return it.alloc(st, HOpq(unk("cv split")))
    n = s[0]
    K = cval(ps["n_splits"])
    if isinstance(K, bool) or not isinstance(K, int) or K < 2:
        it.raise_("ValueError", st, "n_splits")
    R = 1
    if name.startswith("Repeated"):
        if not is_const(ps["n_repeats"]):
            return it.alloc(st, HOpq(unk("cv split")))
        R = cval(ps["n_repeats"])
    random = name.startswith("Repeated") or ps["shuffle"] is TRUE
    strat = name in ("StratifiedKFold", "RepeatedStratifiedKFold")
    if strat and it.deph(y, st) is NONE:
        it.raise_("ValueError", st, "stratify needs y")
    out = []
    st.seq += 1
    fixed = is_const(ps["random_state"]) and ps["random_state"] is not NONE
    if random and ps["random_state"] is NONE:
        it.event("rng", ("cv", name), st)
    for r in range(R):
        g = fgroup(f"{name}", K, n, const(st.seq) if random and not fixed else ZERO, r, it.term(y, st) if strat else NONE,
                   ps["random_state"], TRUE if random else FALSE, xt if not random and False else NONE)
        for k in range(K):
            out.append(fold_pair(g, k))
    return it.alloc(st, HLst(out))


@ext("sklearn.model_selection.train_test_split")
def sk_tts(it, st, args, kw):
    n = len(args)
    ps = tuple(sorted((k, it.term(v, st)) for k, v in kw.items()))
    if dict(ps).get("random_state", NONE) is NONE:
        it.event("rng", ("train_test_split", "global"), st)
        st.seq += 1
        ps = ps + (("#seq", const(st.seq)),)
    out = []
    for a in args:
        t = it.term(a, st)
        for w in (0, 1):
            if is_iset(t):
                out.append(iset(mk("sub", t, w, ps)))
            else:
                s = shape(t)
                r = mk("call", "tts", (t, const(w), mk("params", ps)), ())
                out.append(r)
    return it.alloc(st, HLst([it.materialise(x, st) for x in out]))


def _search(name):
    """hyperparameter searches: a fitted search is a function of the estimator, the grid, the search settings and the
    data; best_params_ has the keys of the grid, predictions are those of the estimator refitted with best_params_"""
    def f(it, st, args, kw):
        est = it.deph(arg(args, kw, 0, "estimator"), st)
        grid = arg(args, kw, 1, "param_grid", kw.get("param_distributions"))
        ks = tuple(sorted((k, it.term(v, st)) for k, v in kw.items() if k not in (
            "estimator", "param_grid", "param_distributions", "n_jobs", "verbose", "pre_dispatch", "error_score")))
        ks = tuple((k, v) for k, v in ks if v is not NONE)
        h = it.get(st, est)
        g = it.get(st, it.deph(grid, st))
        if isinstance(g, HDct) and g.other is None:
            keys = tuple(g.items)
            gt = tuple((k, it.term(v, st)) for k, v in sorted(g.items.items(), key=lambda kv: str(kv[0])))
        else:
            keys, gt = None, it.term(grid, st)
        if isinstance(h, HEst):
            base, ps, info = h.base, tuple(h.params), h.info
        else:
            base, ps, info = it.term(est, st), (), {}
        return it.alloc(st, HEst(mk("search", name, base, ps, gt, ks), (), NONE, None, dict(
            info, search=(base, ps, keys, info))))
    return f


def search_best(it, h, st):
    base, ps, keys, info = h.info["search"]
    if h.fit is NONE:
        it.raise_("AttributeError", st, "best_params_")
    if keys is None:
        return None, None
    best = {k: mk("best", h.fit, k) for k in keys}
    allp = dict(ps)
    for k, v in best.items():
        allp[k if isinstance(k, str) else cval(k)] = v
    X, y, w = h.fit.args[2:5]
    nps = tuple(sorted(allp.items()))
    return best, HEst(base, nps, mk("fitted", base, nps, X, y, w), None, info)


EXT["sklearn.model_selection.GridSearchCV"] = _search("grid")
EXT["sklearn.model_selection.RandomizedSearchCV"] = _search("random")


@ext("sklearn.utils.validation.check_is_fitted")
def sk_fitted(it, st, args, kw):
    h = it.get(st, it.deph(arg(args, kw, 0, "estimator"), st))
    if isinstance(h, HEst) and h.fit is NONE:
        it.raise_("NotFittedError", st, "check_is_fitted")
    if isinstance(h, HObj) and not any(k.endswith("_") and not k.startswith("__") for k in h.fields):
        it.raise_("NotFittedError", st, "check_is_fitted")
    return NONE


def nonfinite(t):
    """(certainly contains NaN, certainly contains infinities) of the columns of an array"""
    nan = inf = False
    todo = [t]
    while todo:
        x = todo.pop()
        if x.op == "sym":
            nan, inf = nan or bool(syminfo(x).get("hasnan")), inf or bool(syminfo(x).get("hasinf"))
        elif x.op == "arr":
            todo += [y for y in x.args[1] if isinstance(y, T)]
        elif is_const(x) and isinstance(cval(x), float):
            nan, inf = nan or math.isnan(cval(x)), inf or math.isinf(cval(x))
        elif x.op == "fill":
            todo.append(x.args[0])
    return nan, inf


def columns_term(it, v, st):
    h = it.get(st, v)
    if isinstance(h, HDF):
        return simp.stack_cols(list(h.cols.values())) if h.cols else None
    return it.term(v, st)


def require_finite(it, t, allow_nan, st, who):
    nan, inf = nonfinite(t)
    if inf or (nan and not allow_nan):
        it.raise_("ValueError", st, who + ": input contains " + ("infinity" if inf else "NaN"))


@ext("sklearn.utils.check_X_y", "sklearn.utils.validation.check_X_y")
def sk_check_xy(it, st, args, kw):
    fin = it.term(kw.get("force_all_finite", kw.get("ensure_all_finite", TRUE)), st)
    X, y = columns_term(it, it.deph(args[0], st), st), it.term(args[1], st)
    if not is_const(fin):
        it.note_unmodelled("check_X_y(force_all_finite)")
    elif cval(fin) is not False:
        require_finite(it, X, cval(fin) == "allow-nan", st, "check_X_y")
    require_finite(it, y, False, st, "check_X_y")
    return Tup((it.alloc(st, HArr(X)), it.alloc(st, HArr(y))))


@ext("sklearn.utils.validation.check_array", "sklearn.utils.check_array")
def sk_check_array(it, st, args, kw):
    v = it.deph(args[0], st)
    tp = type_paths(it, v, st)
    if tp is not None and not ({"numpy.ndarray", "pandas.DataFrame", "pandas.Series", "list", "tuple"} & tp):
        it.raise_("ValueError", st, "check_array")
    fin = it.term(kw.get("force_all_finite", kw.get("ensure_all_finite", TRUE)), st)
    if not is_const(fin):
        it.note_unmodelled("check_array(force_all_finite)")
    h = it.get(st, v)
    t = columns_term(it, v, st)
    if fin is not FALSE:
        require_finite(it, t, is_const(fin) and cval(fin) == "allow-nan", st, "check_array")
    s = shape(t)
    if s is not None:
        if len(s) < 2 and it.term(kw.get("ensure_2d", TRUE), st) is TRUE:
            it.raise_("ValueError", st, "check_array: expected a 2D array")
        if len(s) > 2 and it.term(kw.get("allow_nd", FALSE), st) is FALSE:
            it.raise_("ValueError", st, "check_array: more than two dimensions")
    if isinstance(h, HArr):
        return view(it, v, h, h.content, st) if h.kind == "ndarray" else it.alloc(st, HArr(h.content))
    if isinstance(h, HDF):
        return it.alloc(st, HArr(t))
    return t


@ext("sklearn.utils.validation.column_or_1d", "sklearn.utils.column_or_1d")
def sk_column(it, st, args, kw):
    v = it.deph(args[0], st)
    t = it.term(v, st)
    s = shape(t)
    if s is not None and len(s) == 2 and s[1] == 1:
        return call(it, Ext("numpy.ravel"), [v], {}, st)
    if s is not None and len(s) != 1:
        it.raise_("ValueError", st, "column_or_1d")
    h = it.get(st, v)
    if isinstance(h, HArr):
        return view(it, v, h, h.content, st) if h.kind == "ndarray" else it.alloc(st, HArr(h.content))
    return t


@ext("sklearn.utils.assert_all_finite")
def sk_finite(it, st, args, kw):
    al = it.term(kw.get("allow_nan", FALSE), st)
    t = columns_term(it, it.deph(args[0], st), st)
    if t is not None:
        if not is_const(al):
            it.note_unmodelled("assert_all_finite(allow_nan)")
        require_finite(it, t, al is TRUE, st, "assert_all_finite")
    return NONE


@ext("sklearn.utils.validation.check_consistent_length", "sklearn.utils.check_consistent_length")
def sk_consistent(it, st, args, kw):
    ns = [shape(columns_term(it, it.deph(a, st), st)) for a in args if it.deph(a, st) is not NONE]
    ns = [s[0] for s in ns if s]
    if any(isinstance(x, int) and isinstance(y, int) and x != y or isinstance(x, T) and isinstance(y, T) and x is not y
           and x.op == "sym" and y.op == "sym" for x in ns for y in ns):
        it.raise_("ValueError", st, "check_consistent_length")
    return NONE


@ext("sklearn.utils.validation.validate_data")
def sk_validate_data(it, st, args, kw):
    """the arrays of the given data"""
    me = it.deph(args[0], st)
    h = it.get(st, me)
    if isinstance(h, HObj):
        st.heap[me.a] = h.with_("n_features_in_", mk("call", "n_features_in_", (), ()))
    args = list(args[1:])
    X = kw.get("X", args[0] if args else None)
    y = kw.get("y", args[1] if len(args) > 1 else None)
    for v in (X, y):
        if v is not None and it.deph(v, st) is not NONE:
            require_finite(it, columns_term(it, it.deph(v, st), st), False, st, "validate_data")
    X = it.alloc(st, HArr(columns_term(it, it.deph(X, st), st)))
    if y is None or it.deph(y, st) is NONE:
        return X
    return Tup((X, it.alloc(st, HArr(it.term(y, st)))))


@ext("sklearn.utils.validation._check_sample_weight")
def sk_csw(it, st, args, kw):
    return args[0]


@ext("sklearn.utils.multiclass.unique_labels")
def sk_ul(it, st, args, kw):
    return np_unique(it, st, args[:1], {})


@ext("sklearn.utils.multiclass.type_of_target")
def sk_tot(it, st, args, kw):
    t = it.term(args[0], st)
    x = t
    while x.op == "gather":
        x = x.args[0]
    if x.op == "sym":
        i = syminfo(x)
        if i.get("target_type"):
            return const(i["target_type"])
        if i.get("binary") or i.get("dtype") == "bool":
            return const("binary")
        if i.get("levels"):
            return const("binary" if len(i["levels"]) == 2 else "multiclass")
        return const("continuous")
    ex = expand(t)
    if ex and all(e.op == "const" for e in ex[1]):
        vals = {cval(e) for e in ex[1]}
        if any(isinstance(v, float) and v != int(v) for v in vals):
            return const("continuous")
        return const("binary" if len(vals) <= 2 else "multiclass")
    if is_bool(t):
        return const("binary")
    # a boolean condition cast to numbers, or a 0/1 indicator expression
    try:
        if nf.is_ind(nf.nf(t)):
            return const("binary")
    except nf.TooBig:
        pass
    if t.op == "fill" and is_const(t.args[0]):
        return const("binary")
    r = mk("call", "type_of_target", (t,), ())
    return r


def _opaque_scalar(path):
    def f(it, st, args, kw):
        r = mk("call", path, tuple(it.term(a, st) for a in args),
               tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))
        r.cache["kshape"] = ()
        return r
    return f


@ext("sklearn.metrics.root_mean_squared_error")
def sk_rmse(it, st, args, kw):
    a, b = it.term(arg(args, kw, 0, "y_true"), st), it.term(arg(args, kw, 1, "y_pred"), st)
    d = bin_("-", a, b)
    return fn("sqrt", red("mean", bin_("*", d, d)))


EXT["sklearn.metrics.mean_squared_error"] = lambda it, st, args, kw: red("mean", fn("square", bin_(
    "-", it.term(args[0], st), it.term(args[1], st))))


@ext("sklearn.metrics.log_loss")
def sk_logloss(it, st, args, kw):
    return _opaque_scalar("log_loss")(it, st, args, kw)


@ext("sklearn.preprocessing.LabelEncoder")
def sk_le(it, st, args, kw):
    return it.alloc(st, HOpq(mk("object", "LabelEncoder")))


# ================================================================= terms that denote library objects
def objterm_attr(it, o, t, name, st):
    if t.op in ("optres",):
        return {"x": t.args[1], "root": t.args[1]}.get(name) if name in ("x", "root") else (
            mk("getattr", t, name))
    if t.op == "sig" and name == "parameters":
        return Ref(t.args[0])
    if t.op == "object":
        return ExtMeth(o, name)
    if t.op in ("regmodel",) and name == "fit":
        return ExtMeth(o, name)
    if t.op in ("regres", "rdres"):
        r = (ols_attr if t.op == "regres" else rd_attr)(it, st, t, name)
        if r is not None:
            return r
    if t.op in ("regres", "kde", "gridsearch", "tunefit"):
        if name in METHODNAMES:
            return ExtMeth(o, name)
    return mk("getattr", t, name)


# ================================================================= numpy
def ufunc_out(it, r, args, kw, st, nin):
    """the `out` and `where` options of an element-wise function"""
    out = kw.get("out")
    if out is None and len(args) > nin:
        out = args[nin]
    if out is not None:
        out = it.deph(out, st)
        if isinstance(out, Tup) and len(out.items) == 1:
            out = it.deph(out.items[0], st)
    wh = it.term(kw["where"], st) if "where" in kw else TRUE
    if out is None or out is NONE:
        if wh is TRUE:
            return r
        it.note_unmodelled("element-wise function with where= and no out=")
        return opq(it, st, "ufunc(where=)", list(args), dict(kw))
    h = it.get(st, out)
    if not isinstance(h, HArr):
        it.note_unmodelled("element-wise function with out=")
        return opq(it, st, "ufunc(out=)", list(args), dict(kw))
    old, t = it.term(out, st), it.term(r, st)
    if wh is not TRUE:
        t = fn("where", asboolmap(wh), t, old)
    s0, s1 = shape(old), shape(t)
    if s0 is not None and s1 is not None and len(s1) < len(s0):
        t = simp.bin_("+", mk("fill", ZERO, s0), t)
    it.mutate(out, st, "out=")
    st.heap[out.a] = h.with_(t)
    it.writeback(out, st)
    return out


BINARY = {"maximum", "minimum"}


def ew(name):
    def f(it, st, args, kw):
        nin = 2 if name in BINARY else 1
        ts = [it.term(a, st) for a in args[:nin]]
        return ufunc_out(it, fn(name, *ts), args, kw, st, nin)
    f.kws = {"out", "where"}
    return f


for _n, _m in (("sqrt", "sqrt"), ("exp", "exp"), ("log", "log"), ("isnan", "isnan"), ("isfinite", "isfinite"),
               ("isinf", "isinf"), ("sign", "sign"), ("maximum", "maximum"), ("minimum", "minimum"),
               ("sin", "sin"), ("cos", "cos"), ("sinh", "sinh"), ("cosh", "cosh"), ("tan", "tan"), ("floor", "floor"),
               ("ceil", "ceil"), ("negative", "neg"), ("fmax", "maximum"), ("fmin", "minimum")):
    EXT["numpy." + _n] = ew(_m)
EXT["pandas.isnull"] = EXT["pandas.isna"] = ew("isnan")
EXT["math.sqrt"] = ew("sqrt")
EXT["math.exp"] = ew("exp")
EXT["math.log"] = ew("log")


def bw(op):
    def f(it, st, args, kw):
        # a ufunc works on arrays: lists and tuples of numbers are converted first
        xs = [np_asarray(it, st, [x], {}) if isinstance(it.get(st, it.deph(x, st)), HLst) or isinstance(x, Tup) else x for x in args[:2]]
        return ufunc_out(it, it.binop(op, xs[0], xs[1], st), args, kw, st, 2)
    f.kws = {"out", "where"}
    return f


for _n, _o in (("multiply", "*"), ("divide", "/"), ("true_divide", "/"), ("add", "+"), ("subtract", "-"),
               ("power", "**"), ("float_power", "**"), ("mod", "%"), ("floor_divide", "//"), ("matmul", "@")):
    EXT["numpy." + _n] = bw(_o)


@ext("numpy.square")
def np_square(it, st, args, kw):
    t = it.term(args[0], st)
    return bin_("*", t, t)


@ext("numpy.reciprocal")
def np_recip(it, st, args, kw):
    return bin_("/", ONE, it.term(args[0], st))


@ext("numpy.dot", "numpy.inner")
def np_dot(it, st, args, kw):
    return simp.dot(it.term(args[0], st), it.term(args[1], st))


@ext("numpy.outer")
def np_outer(it, st, args, kw):
    a, b = it.term(args[0], st), it.term(args[1], st)
    return mk("call", "outer", (a, b), ())


@ext("numpy.einsum", "numpy.tensordot")
def np_einsum(it, st, args, kw):
    return opq(it, st, "einsum", args, kw)


@ext("numpy.invert", "numpy.logical_not", "numpy.bitwise_not")
def np_not(it, st, args, kw):
    t = it.term(args[0], st)
    return log("not", asbool(t))


def asbool(t):
    if is_bool(t) or nf.isbinary(t) or t.op == "const":
        return t
    return cmp_("!=", t, ZERO)


@ext("numpy.logical_and", "numpy.bitwise_and")
def np_and(it, st, args, kw):
    return log("and", asbool(it.term(args[0], st)), asbool(it.term(args[1], st)))


@ext("numpy.logical_or", "numpy.bitwise_or")
def np_or(it, st, args, kw):
    return log("or", asbool(it.term(args[0], st)), asbool(it.term(args[1], st)))


for _n, _o in (("equal", "=="), ("not_equal", "!="), ("less", "<"), ("less_equal", "<="), ("greater", ">"),
               ("greater_equal", ">=")):
    EXT["numpy." + _n] = (lambda o: lambda it, st, args, kw: it.compare(
        {"==": "Eq", "!=": "NotEq", "<": "Lt", "<=": "LtE", ">": "Gt", ">=": "GtE"}[o], args[0], args[1], st))(_o)


def axis_of(it, st, args, kw, i):
    a = arg(args, kw, i, "axis", NONE)
    t = it.term(a, st)
    if t.op == "const":
        return cval(t)
    if isinstance(a, Tup):
        return tuple(cval(x) for x in a.items)
    raise Unsupported("axis")


def keepdims(it, t, r, ax, kw):
    if kw.get("keepdims") is TRUE:
        s = shape(t)
        if s is None:
            return r
        if ax is None:
            items = [NONE] * len(s)
            return index_new(r, [1] * len(s))
        ax = ax % len(s)
        nd = list(s)
        ex = expand(r)
        if ex is None:
            return r
        nd[ax] = 1
        return arr(nd, ex[1])
    return r


def index_new(r, dims):
    ex = expand(r)
    return arr(dims, ex[1]) if ex else r


def reducer(name):
    def f(it, st, args, kw):
        t = it.term(args[0], st)
        ax = axis_of(it, st, args, kw, 1)
        extra = ()
        if name in ("std", "var") and kw.get("ddof") not in (None, ZERO):
            extra = ("ddof", it.term(kw["ddof"], st))
        if name == "mean" and "where" in kw:
            return opq(it, st, "mean_where", args, kw)
        if isinstance(ax, tuple):
            r = t
            for a in sorted((x % len(shape(t)) for x in ax), reverse=True):
                r = red(name, r, a, extra)
            return r
        if t.op == "call" and t.args[0] == "outer" and name == "sum" and ax is None:
            return bin_("*", red("sum", t.args[1][0]), red("sum", t.args[1][1]))
        if name in ("any", "all"):
            t = asboolmap(t)
        if name in ("nanmean", "nansum"):
            return nanred(name, t, ax)
        r = red(name, t, ax, extra)
        return keepdims(it, t, r, ax, kw)
    return f


def asboolmap(t):
    if t.op == "arr":
        return arr(t.args[0], [asbool(e) for e in t.args[1]])
    return asbool(t)


def nanred(name, t, ax):
    s = shape(t)
    if s is None:
        return mk("red", name, t, (), () if ax is None else None, ax)
    ex = expand(t)
    if ex is not None and (len(s) == 1 or ax is not None):
        if len(s) == 1 and not isinstance(s[0], int):
            ok = log("not", fn("isnan", t))
            D = s[0]
            x = gather(t, iset(mk("full", tint(D)), ok))
            x2 = denan(x, t)
            return red("mean" if name == "nanmean" else "sum", x2)
        if len(s) == 2 and ax is not None:
            a = ax % 2
            other = 1 - a
            if isinstance(s[other], int):
                outs = []
                for k in range(s[other]):
                    it_ = [SliceVal(NONE, NONE, NONE)] * 2
                    it_[other] = const(k)
                    outs.append(nanred(name, index(t, it_), None))
                return arr((s[other],), outs)
    return red(name, t, ax)


def denan(x, t):
    return x


for _n in ("mean", "sum", "median", "max", "min", "amax", "amin", "any", "all", "std", "var", "prod", "nanmean",
           "nansum", "nanmedian", "nanmax", "nanmin", "nanstd", "nanvar"):
    EXT["numpy." + _n] = reducer({"amax": "max", "amin": "min"}.get(_n, _n))


@ext("numpy.count_nonzero")
def np_count_nonzero(it, st, args, kw):
    t = it.term(args[0], st)
    if set(kw) - {"axis"}:
        return opq(it, st, "numpy.count_nonzero", args, kw)
    if not is_bool(t):
        t = cmp_("!=", t, ZERO)
    return reducer("sum")(it, st, [t] + list(args[1:]), kw)


@ext("numpy.average")
def np_average(it, st, args, kw):
    t = it.term(args[0], st)
    ax = axis_of(it, st, args, kw, 1)
    w = arg(args, kw, 2, "weights", NONE)
    if it.deph(w, st) is NONE:
        return red("mean", t, ax)
    wt = it.term(w, st)
    if ax is not None and shape(t) is not None and shape(wt) is not None and len(shape(wt)) == 1 and len(shape(t)) > 1:
        if ax == 1 or ax == -1:
            return bin_("/", red("sum", bin_("*", t, wt), ax), red("sum", wt))
        return bin_("/", red("sum", bin_("*", t, index(wt, [SliceVal(NONE, NONE, NONE), NONE])), ax), red("sum", wt))
    return bin_("/", red("sum", bin_("*", t, wt), ax), red("sum", wt, ax if shape(wt) == shape(t) else None))


@ext("numpy.quantile", "numpy.percentile", "numpy.nanquantile")
def np_quantile(it, st, args, kw):
    t = it.term(args[0], st)
    q = it.term(arg(args, kw, 1, "q"), st)
    ax = axis_of(it, st, args, kw, 2)
    extra = tuple(sorted((k, it.term(v, st)) for k, v in kw.items() if k not in ("q", "axis")))
    sq = shape(q)
    if sq and isinstance(sq[0], int):
        outs = [red("quantile", t, ax, (index(q, [const(i)]),) + extra) for i in range(sq[0])]
        return it.term(it.alloc(st, HLst(outs)), st)
    return red("quantile", t, ax, (q,) + extra)


def parse_dims(it, st, v):
    v = it.deph(v, st)
    if isinstance(v, Tup) or isinstance(it.get(st, v), HLst):
        items = it.iterate(v, st)
        return [dimof(it.term(x, st)) for x in items]
    t = it.term(v, st)
    if t.op == "arr":
        return [dimof(e) for e in t.args[1]]
    return [dimof(t)]


def mkfill(it, st, dims, v):
    if any(isinstance(d, int) and d < 0 for d in dims):
        return unk("negative dim")
    if simp.prod(simp.cdims(dims)) > 3000:
        return mk("fill", v, tuple(const(d) if isinstance(d, int) else d for d in dims))
    return fill(v, dims)


@ext("numpy.full")
def np_full(it, st, args, kw):
    dims = parse_dims(it, st, arg(args, kw, 0, "shape"))
    v = it.term(arg(args, kw, 1, "fill_value"), st)
    if shape(v) == ():
        r = mkfill(it, st, dims, v)
        if is_const(v) and isinstance(cval(v), float) and dims:
            r = it.alloc(st, HArr(r)) if not isinstance(r, Ref) else r
            it.isfloat.add(r.a)
        return r
    r = simp.broadcast(lambda a, b: b, (fill(ZERO, dims), v))
    return r if r is not None else opq(it, st, "np.full", args, kw)


@ext("numpy.zeros", "numpy.empty")
def np_zeros(it, st, args, kw):
    v = FALSE if _isbool_dtype(it, kw.get("dtype", args[1] if len(args) > 1 else None), st) else const(0.0)
    return mkfill(it, st, parse_dims(it, st, arg(args, kw, 0, "shape")), v)


def _isbool_dtype(it, d, st):
    if d is None:
        return False
    d = it.unlazy(d)
    return (isinstance(d, Ext) and d.path in ("builtins.bool", "numpy.bool_", "numpy.bool")) or (
        isinstance(d, T) and is_const(d) and cval(d) in ("bool",))


@ext("numpy.ones")
def np_ones(it, st, args, kw):
    v = TRUE if _isbool_dtype(it, kw.get("dtype"), st) else const(1.0)
    return mkfill(it, st, parse_dims(it, st, arg(args, kw, 0, "shape")), v)


def like(it, st, args, kw, v):
    t = it.term(args[0], st)
    s = shape(t)
    if s is None:
        return mk("call", "full_like", (t, v), ())
    r = fill(v, s) if s else v
    if s and kw.get("dtype") in (None, NONE):
        r = it.alloc(st, HArr(r))
        it.narrow[r.a] = t
    return r


@ext("numpy.zeros_like", "numpy.empty_like")
def np_zeros_like(it, st, args, kw):
    like_event(it, st, args, kw, ZERO)
    return like(it, st, args, kw, FALSE if _isbool_dtype(it, kw.get("dtype"), st) else const(0.0))


@ext("numpy.ones_like")
def np_ones_like(it, st, args, kw):
    like_event(it, st, args, kw, ONE)
    return like(it, st, args, kw, TRUE if _isbool_dtype(it, kw.get("dtype"), st) else const(1.0))


@ext("numpy.full_like")
def np_full_like(it, st, args, kw):
    v = it.term(arg(args, kw, 1, "fill_value"), st)
    like_event(it, st, args, kw, v)
    return like(it, st, args, kw, v)


def like_event(it, st, args, kw, v):
    if kw.get("dtype") in (None, NONE):
        it.event("like", (it.term(args[0], st), v, False), st)


@ext("numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "numpy.asanyarray")
def np_array(it, st, args, kw):
    v = it.deph(args[0], st)
    d = kw.get("dtype", args[1] if len(args) > 1 else None)
    h = it.get(st, v)
    if isinstance(v, Phi):
        t = it.term(v, st)
    elif isinstance(h, HArr):
        bool_ = _isbool_dtype(it, d, st) if d is not None else False
        r = it.alloc(st, HArr(asboolmap(h.content) if bool_ else h.content))
        if _isfloat_dtype(it, d) or (d is None or d is NONE) and isfloat(it, v, h):
            it.isfloat.add(r.a)
        return r
    else:
        t = it.term(v, st)
    if t.op == "tup":
        r = simp.stack_rows([it.term(x, st) for x in t.args[0]]) if all(
            isinstance(x, T) and shape(x) for x in t.args[0]) else None
        if r is not None:
            t = r
    if rank0(t):
        return t
    r = it.alloc(st, HArr(t))
    if _isfloat_dtype(it, d):
        it.isfloat.add(r.a)
    return r


def _isfloat_dtype(it, d):
    d = it.unlazy(d) if d is not None else None
    return isinstance(d, Ext) and d.path in ("builtins.float", "numpy.float64", "numpy.double") or (
        isinstance(d, T) and is_const(d) and str(cval(d)).startswith("float"))


def isfloat(it, o, h):
    """the storage of the array is known to be floating point"""
    return isinstance(o, Ref) and (o.a in it.isfloat or h.base in it.isfloat)


def np_asarray(it, st, args, kw):
    v = it.deph(args[0], st)
    h = it.get(st, v)
    if isinstance(h, HArr) and _isfloat_dtype(it, kw.get("dtype", args[1] if len(args) > 1 else None)):
        r = view(it, v, h, h.content, st)
        if isinstance(r, Ref):
            it.isfloat.add(r.a)
        return r
    if isinstance(h, HArr) and h.kind == "ndarray":
        return v
    if isinstance(h, HArr):
        return view(it, v, h, h.content, st)
    return np_array(it, st, args, kw)


EXT["numpy.asarray"] = EXT["numpy.asanyarray"] = EXT["numpy.ascontiguousarray"] = np_asarray


@ext("numpy.linspace")
def np_linspace(it, st, args, kw):
    a, b = it.term(arg(args, kw, 0, "start"), st), it.term(arg(args, kw, 1, "stop"), st)
    num = it.term(arg(args, kw, 2, "num", const(50)), st)
    end = it.term(arg(args, kw, 3, "endpoint", TRUE), st)
    if not is_const(num) or not is_const(end) or not isinstance(cval(num), int) or not rank0(a) or not rank0(b) or cval(num) > 200:
        return opq(it, st, "np.linspace", args, kw)
    k = cval(num)
    if k < 0:
        it.raise_("ValueError", st, "number of samples must be non-negative")
    div = k - 1 if cval(end) else k
    out = []
    for i in range(k):
        if i == k - 1 and cval(end) and k > 1:
            out.append(b)
        elif is_const(a) and is_const(b):
            out.append(const(float(cval(a) + i * ((cval(b) - cval(a)) / div if div else 0.0))))
        else:
            out.append(bin_("+", a, bin_("/", bin_("*", const(i), bin_("-", b, a)), const(div))) if div else a)
    return arr((k,), out)


@ext("numpy.arange")
def np_arange(it, st, args, kw):
    ts = [it.term(a, st) for a in args]
    if all(t.op == "const" for t in ts):
        try:
            if all(isinstance(cval(t), int) for t in ts):
                vs = list(range(*[cval(t) for t in ts]))
            else:
                a = [cval(t) for t in ts]
                lo, hi, stp = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
                k = max(0, math.ceil((hi - lo) / stp))
                vs = [lo + i * stp for i in range(k)]
            if len(vs) <= 200:
                return arr((len(vs),), [const(x) for x in vs])
        except TypeError:
            pass
    if len(ts) == 1:
        return full(dimof(ts[0]))
    if len(ts) == 2 and ts[0] is ZERO:
        return full(dimof(ts[1]))
    return opq(it, st, "np.arange", args, kw)


@ext("numpy.where")
def np_where(it, st, args, kw):
    if len(args) == 3:
        return fn("where", asboolmap(it.term(args[0], st)), it.term(args[1], st), it.term(args[2], st))
    t = asboolmap(it.term(args[0], st))
    return Tup((nonzero(it, st, t),))


def nonzero(it, st, t):
    s = shape(t)
    if s is not None and len(s) == 1:
        ex = expand(t)
        if isinstance(s[0], int) and ex and all(e.op == "const" for e in ex[1]):
            vs = [i for i, e in enumerate(ex[1]) if cval(e)]
            return arr((len(vs),), [const(i) for i in vs])
        return iset(mk("full", tint(s[0])), t)
    if s is None:
        return mk("call", "nonzero", (t,), ())
    return mk("call", "nonzero", (t,), ())


@ext("numpy.flatnonzero")
def np_flatnonzero(it, st, args, kw):
    return nonzero(it, st, asboolmap(it.term(args[0], st)))


@ext("numpy.nonzero")
def np_nonzero(it, st, args, kw):
    return Tup((nonzero(it, st, asboolmap(it.term(args[0], st))),))


@ext("numpy.argwhere")
def np_argwhere(it, st, args, kw):
    t = it.term(args[0], st)
    if len(shape(t) or ()) != 1:
        return opq(it, st, "numpy.argwhere", args, kw)
    r = nonzero(it, st, asboolmap(t))
    s = shape(r)
    return simp.reshape(r, (s[0] if s else mk("size", r), 1))


def ufunc_reduce(name, path):
    def f(it, st, args, kw):
        s = shape(it.term(args[0], st))
        if kw or len(args) > 1 or s is None or len(s) != 1:
            return opq(it, st, path, args, kw)
        return reducer(name)(it, st, args, kw)
    return f


for _n, _r in (("logical_or", "any"), ("logical_and", "all"), ("add", "sum"), ("maximum", "max"), ("minimum", "min")):
    EXT[f"numpy.{_n}.reduce"] = ufunc_reduce(_r, f"numpy.{_n}.reduce")


def const_list(t):
    ex = expand(t)
    if ex and all(e.op == "const" for e in ex[1]):
        return [cval(e) for e in ex[1]]
    return None


@ext("numpy.intersect1d")
def np_intersect1d(it, st, args, kw):
    a, b = it.term(args[0], st), it.term(args[1], st)
    ca, cb = const_list(a), const_list(b)
    if ca is not None and cb is not None:
        v = sorted(set(ca) & set(cb))
        return arr((len(v),), [const(x) for x in v])
    if simp.disjoint(a, b):
        return arr((0,), [])
    r = simp.intersect(a, b)
    if r.op == "call":
        r.cache["kshape"] = (mk("size", r),)
    return r


@ext("numpy.setdiff1d")
def np_setdiff1d(it, st, args, kw):
    a, b = it.term(args[0], st), it.term(args[1], st)
    if is_iset(a) and is_iset(b):
        if a.args[0] is b.args[0]:
            return iset(a.args[0], log("and", a.args[1], log("not", b.args[1])))
        if b.args[0].op == "full":
            return iset(a.args[0], log("and", a.args[1], log("not", b.args[1])))
        if a.args[0].op == "full" and a.args[1] is TRUE and b.args[0].op == "fold" and b.args[1] is TRUE:
            f = b.args[0]
            return iset(mk("fold", f.args[0], f.args[1], "train" if f.args[2] == "test" else "test"))
    ca, cb = const_list(a), const_list(b)
    if ca is not None and cb is not None:
        v = sorted(set(ca) - set(cb))
        return arr((len(v),), [const(x) for x in v])
    r = mk("call", "setdiff1d", (a, b), ())
    r.cache["kshape"] = (mk("size", r),)
    return r


@ext("numpy.unique")
def np_unique(it, st, args, kw):
    t = it.term(args[0], st)
    if kw or len(args) > 1:
        if [k for k, v in kw.items() if v is not FALSE and k != "axis"]:
            r = mk("call", "unique", (t,), tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))
            return r
    c = const_list(t)
    if c is not None:
        try:
            v = sorted(set(c))
            return arr((len(v),), [const(x) for x in v])
        except TypeError:
            pass
    x = t
    if x.op == "sym":
        lv = syminfo(x).get("levels") or ((0, 1) if syminfo(x).get("binary") else None)
        if lv:
            return arr((len(lv),), [const(v) for v in lv])
    if is_iset(t) or t.op == "perm":
        return full(t.args[0].args[2]) if t.op == "perm" else t
    r = mk("call", "unique", (t,), ())
    r.cache["kshape"] = (mk("size", mk("uniq", t)),)
    return r


def cluster_fold(a, b):
    """rows whose cluster value a lies in fold b of the distinct values of a"""
    if b.op == "gather" and b.args[0].op == "call" and b.args[0].args[0] == "unique" and b.args[0].args[1] == (a,) \
            and is_iset(b.args[1]) and b.args[1].args[0].op == "fold" and b.args[1].args[1] is TRUE:
        g, k, side = b.args[1].args[0].args
        s = shape(a)
        if s is None or len(s) != 1:
            return None
        g2 = fgroup("cluster", g.args[1], s[0], g, a)
        r = mk("fn", "infold", mk("tup1", mk("fold", g2, k, side)))
        r.cache["shape"] = s
        return r
    return None


@ext("numpy.isin", "numpy.in1d")
def np_isin(it, st, args, kw):
    a = it.term(args[0], st)
    hb = it.get(st, it.deph(args[1], st))
    b = it.term(args[1], st)
    cb = const_list(b)
    if b.op == "set" and all(x.op == "const" for x in b.args[0]):
        cb = [cval(x) for x in b.args[0]]
    ex = expand(a)
    inv = kw.get("invert") is TRUE
    inf = cluster_fold(a, b)
    if inf is not None:
        return log("not", inf) if inv else inf
    if cb is not None and ex is not None and all(e.op == "const" for e in ex[1]):
        r = arr(ex[0], [const(cval(e) in cb) for e in ex[1]])
    elif cb is not None and len(cb) <= 6 and ex is not None:
        def one(e):
            r = FALSE
            for v in cb:
                r = log("or", r, cmp_("==", e, const(v)))
            return r
        r = arr(ex[0], [one(e) for e in ex[1]])
    else:
        r = mk("fn", "isin", a, mk("tup1", b))
        r.cache["shape"] = shape(a)
    return log("not", r) if inv else r


@ext("numpy.append")
def np_append(it, st, args, kw):
    a, b = it.term(arg(args, kw, 0, "arr"), st), it.term(arg(args, kw, 1, "values"), st)
    ax = axis_of(it, st, args, kw, 2)
    if ax is None:
        sa, sb = shape(a), shape(b)
        if sa is None or sb is None or len(sa) > 1 or len(sb) > 1:
            return opq(it, st, "np.append", args, kw)
        a, b = (arr((1,), [x]) if sx == () else x for x, sx in ((a, sa), (b, sb)))
    return concat_terms([a, b], ax or 0)


@ext("numpy.concatenate")
def np_concatenate(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None:
        t = it.term(args[0], st)
        return mk("call", "concatenate", (t,), ())
    ts = [it.term(x, st) for x in v]
    ax = axis_of(it, st, args, kw, 1) if ("axis" in kw or len(args) > 1) else 0
    return concat_terms(ts, ax)


def concat_terms(ts, ax=0):
    if len(ts) == 1:
        return ts[0]
    # complete test partition
    if ts and all(is_iset(t) and t.args[0].op == "fold" and t.args[1] is TRUE and t.args[0].args[2] == "test"
                  for t in ts):
        g = ts[0].args[0].args[0]
        if all(t.args[0].args[0] is g for t in ts) and sorted(t.args[0].args[1] for t in ts) == list(range(g.args[1])):
            r = mk("perm", g)
            r.cache["shape"] = (dimof(g.args[2]),)
            return r
    ss = [shape(t) for t in ts]
    if all(s is not None for s in ss):
        rk = len(ss[0])
        if all(len(s) == rk for s in ss):
            a = ax % rk if rk else 0
            if rk == 1:
                if all(isinstance(s[0], int) for s in ss):
                    el = []
                    for t in ts:
                        e = expand(t)
                        el.extend(e[1])
                    return arr((len(el),), el)
            elif rk == 2:
                if a == 1:
                    r = simp.stack_cols(ts)
                    if r is not None:
                        return r
                else:
                    r = simp.stack_cols([simp.transpose(t) for t in ts])
                    if r is not None:
                        return simp.transpose(r)
            elif rk == 3 and a in (1, 2):
                # stack along a concrete axis
                if all(isinstance(s[a], int) for s in ss):
                    base = [d for i, d in enumerate(ss[0]) if i != a]
                    if all([d for i, d in enumerate(s) if i != a] == base for s in ss):
                        outs = []
                        for t, s in zip(ts, ss):
                            for k in range(s[a]):
                                items = [SliceVal(NONE, NONE, NONE)] * 3
                                items[a] = const(k)
                                outs.append(index(t, items))
                        return stack_axis(outs, a)
    fam = fold_family(ts)
    r = mk("call", "concatenate", tuple(ts), (("axis", const(ax)),))
    if fam is not None and fam[1]:
        r.cache["kshape"] = shape(fam[0])
    elif all(s is not None and len(s) == 1 for s in ss):
        r.cache["kshape"] = (mk("size", r),)
    return r


def stack_axis(ts, a):
    """np.stack of equal-shaped terms along axis a"""
    ex = [expand(t) for t in ts]
    if any(e is None for e in ex):
        return None
    d0 = ex[0][0]
    if any(e[0] != d0 for e in ex):
        return None
    nd = list(d0)
    nd.insert(a, len(ts))
    cd = simp.cdims(d0)
    import itertools
    cax = sum(1 for q in d0[:a] if isinstance(q, int))
    out = {}
    for k, e in enumerate(ex):
        for i, pos in enumerate(itertools.product(*[range(q) for q in cd])):
            p = list(pos)
            p.insert(cax, k)
            out[tuple(p)] = e[1][i]
    ncd = simp.cdims(nd)
    els = [out[p] for p in itertools.product(*[range(q) for q in ncd])]
    return arr(nd, els)


@ext("numpy.hstack")
def np_hstack(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None:
        return opq(it, st, "hstack", args, kw)
    ts = [it.term(x, st) for x in v]
    s = shape(ts[0])
    return concat_terms(ts, 1 if s is not None and len(s) > 1 else 0)


@ext("numpy.column_stack")
def np_column_stack(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None:
        return opq(it, st, "column_stack", args, kw)
    ts = [it.term(x, st) for x in v]
    r = simp.stack_cols(ts)
    return r if r is not None else mk("call", "column_stack", tuple(ts), ())


@ext("numpy.vstack")
def np_vstack(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None:
        return opq(it, st, "vstack", args, kw)
    ts = [it.term(x, st) for x in v]
    r = simp.stack_rows(ts)
    return r if r is not None else mk("call", "vstack", tuple(ts), ())


@ext("numpy.stack")
def np_stack(it, st, args, kw):
    v = it.iterate(args[0], st)
    ax = axis_of(it, st, args, kw, 1) if ("axis" in kw or len(args) > 1) else 0
    if v is None:
        return opq(it, st, "stack", args, kw)
    ts = [it.term(x, st) for x in v]
    s = shape(ts[0])
    if s is not None:
        r = stack_axis(ts, ax % (len(s) + 1))
        if r is not None:
            return r
    return mk("call", "stack", tuple(ts), (("axis", const(ax)),))


@ext("numpy.transpose")
def np_transpose(it, st, args, kw):
    t = it.term(args[0], st)
    axes = arg(args, kw, 1, "axes", NONE)
    return transpose_axes(it, st, t, axes)


def transpose_axes(it, st, t, axes):
    if it.deph(axes, st) is NONE:
        return simp.transpose(t)
    ax = [cval(it.term(x, st)) for x in it.iterate(axes, st)]
    ex = expand(t)
    if ex is None:
        return mk("call", "transpose", (t, arr((len(ax),), [const(a) for a in ax])), ())
    dims, els = ex
    free = [i for i, d in enumerate(dims) if not isinstance(d, int)]
    nfree = [a for a in ax if not isinstance(dims[a], int)]
    if nfree != free:
        return mk("call", "transpose", (t, arr((len(ax),), [const(a) for a in ax])), ())
    import itertools
    nd = [dims[a] for a in ax]
    cpos = [i for i, d in enumerate(dims) if isinstance(d, int)]
    cd = [dims[i] for i in cpos]
    ncp = [a for a in ax if isinstance(dims[a], int)]
    out = []
    for pos in itertools.product(*[range(dims[a]) for a in ncp]):
        m = dict(zip(ncp, pos))
        k = 0
        for i, q in zip(cpos, cd):
            k = k * q + m[i]
        out.append(els[k])
    return arr(nd, out)


@ext("numpy.repeat")
def np_repeat(it, st, args, kw):
    t = it.term(args[0], st)
    n = it.term(arg(args, kw, 1, "repeats"), st)
    ax = axis_of(it, st, args, kw, 2)
    s = shape(t)
    d = dimof(n) if rank0(n) else None
    if s is not None and d is not None and isinstance(d, int):
        if s == () or s == (1,) and isinstance(s[0], int):
            v = t if s == () else index(t, [ZERO])
            return fill(v, (d,))
        if ax is not None and len(s) >= 2 and s[ax % len(s)] == 1:
            items = [SliceVal(NONE, NONE, NONE)] * len(s)
            a = ax % len(s)
            items[a] = arr((d,), [ZERO] * d)
            return index(t, items)
        a = 0 if ax is None and len(s) == 1 else None if ax is None else ax % len(s)
        if a is not None and isinstance(s[a], int):
            ix = [const(i) for i in range(s[a]) for _ in range(d)]
            return index(t, [SliceVal(NONE, NONE, NONE)] * a + [arr((len(ix),), ix)])
    if s is not None and (s == () or s == (1,)) and d is not None:
        return fill(t if s == () else index(t, [ZERO]), (d,))
    if s is not None and ax is not None and len(s) == 2 and s[ax % 2] == 1 and d is not None:
        a = ax % 2
        items = [SliceVal(NONE, NONE, NONE)] * 2
        items[a] = ZERO
        v = index(t, items)
        nd = [s[1 - a], d] if a == 1 else [d, s[1 - a]]
        if isinstance(s[1 - a], int):
            els = [fill(index(v, [const(i)]), (d,)) for i in range(s[1 - a])]
            return arr(nd, els)
    if s is not None and d is not None and len(s) == 1 and isinstance(d, int) and d == 1:
        return t
    if s is not None and len(s) == 1 and isinstance(s[0], int) and isinstance(d, int):
        ex = expand(t)
        return arr((s[0] * d,), [e for e in ex[1] for _ in range(d)])
    return opq(it, st, "np.repeat", args, kw)


@ext("numpy.tile")
def np_tile(it, st, args, kw):
    t = it.term(args[0], st)
    reps = arg(args, kw, 1, "reps")
    ds = parse_dims(it, st, reps)
    s = shape(t)
    if s is not None and len(s) == 1 and len(ds) == 2 and ds[1] == 1:
        if isinstance(ds[0], int):
            row = index(t, [NONE, SliceVal(NONE, NONE, NONE)])
            return simp.broadcast(lambda a, b: b, (fill(ZERO, (ds[0],) + tuple(s)), t))
    if s is not None and all(isinstance(d, int) for d in ds) and all(d == 1 for d in ds):
        return t
    if s == () and len(ds) == 1:
        return fill(t, ds)
    if s is not None and len(s) == 1 and len(ds) == 1 and isinstance(s[0], int) and isinstance(ds[0], int):
        ex = expand(t)
        return arr((s[0] * ds[0],), list(ex[1]) * ds[0])
    if s is not None and len(s) == len(ds) == 2 and all(isinstance(d, int) for d in tuple(s) + tuple(ds)):
        r, c = [arr((a * b,), [const(i) for i in range(a)] * b) for a, b in zip(s, ds)]
        return index(index(t, [r]), [SliceVal(NONE, NONE, NONE), c])
    return opq(it, st, "np.tile", args, kw)


@ext("numpy.polynomial.polynomial.Polynomial", "numpy.polynomial.Polynomial")
def np_poly(it, st, args, kw):
    """polynomial with known coefficients (default domain and window), callable"""
    ex = expand(it.term(args[0], st))
    if ex is None or len(ex[0]) != 1 or not isinstance(ex[0][0], int) or len(args) > 1 or set(kw) - {"coef"}:
        return opq(it, st, "Polynomial", args, kw)

    def call_(i, st2, a, k):
        x = i.term(a[0], st2)
        r = ex[1][0]
        for j, c in enumerate(ex[1][1:], 1):
            r = bin_("+", r, bin_("*", c, bin_("**", x, const(j)) if j > 1 else x))
        return r
    return Builtin("poly.call", call_)


@ext("numpy.polynomial.polynomial.polyval")
def np_polyval(it, st, args, kw):
    x, c = args[0], args[1]
    f = np_poly(it, st, [c], {})
    return f.fn(it, st, [x], {}) if isinstance(f, Builtin) and not kw and len(args) == 2 else opq(it, st, "polyval", args, kw)


@ext("numpy.squeeze")
def np_squeeze(it, st, args, kw):
    t = it.term(args[0], st)
    ax = arg(args, kw, 1, "axis")
    ax = None if ax is None else it.deph(ax, st)
    if ax is not None and ax is not NONE:
        xs = [it.term(x, st) for x in ax.items] if isinstance(ax, Tup) else [it.term(ax, st)]
        if not all(is_const(x) for x in xs):
            return opq(it, st, "squeeze", args, kw)
        xs = [cval(x) for x in xs]
        s = shape(t)
        if s is not None:
            for x in xs:
                if not -len(s) <= x < len(s) or isinstance(s[x], int) and s[x] != 1:
                    it.raise_("ValueError", st)
        r = simp.squeeze(t, xs)
        return r if r is not None else opq(it, st, "squeeze", args, kw)
    r = simp.squeeze(t)
    return r if r is not None else mk("call", "squeeze", (t,), ())


@ext("numpy.ravel")
def np_ravel(it, st, args, kw):
    return ravel(it.term(args[0], st))


def ravel(t):
    s = shape(t)
    if s is None:
        return mk("call", "ravel", (t,), ())
    if len(s) <= 1:
        return t
    sq = [d for d in s if not (isinstance(d, int) and d == 1)]
    if len(sq) <= 1:
        r = simp.squeeze(t)
        return r if sq else arr((1,), expand(r)[1])
    ex = expand(t)
    if ex and all(isinstance(d, int) for d in s):
        return arr((len(ex[1]),), ex[1])
    return mk("call", "ravel", (t,), ())


@ext("numpy.reshape")
def np_reshape(it, st, args, kw):
    return do_reshape(it, st, it.term(args[0], st), [args[1]])


def do_reshape(it, st, t, args):
    if len(args) == 1:
        ds = parse_dims(it, st, args[0])
    else:
        ds = [dimof(it.term(a, st)) for a in args]
    r = simp.reshape(t, ds)
    if r is not None:
        return r
    if ds == [-1]:
        return ravel(t)
    return mk("call", "reshape", (t, arr((len(ds),), [tint(d) for d in ds])), ())


@ext("numpy.meshgrid")
def np_meshgrid(it, st, args, kw):
    import itertools
    exs = [expand(it.term(a, st)) for a in args]
    ij = "indexing" in kw and cval(kw["indexing"]) == "ij"
    if any(e is None or len(e[0]) != 1 or not isinstance(e[0][0], int) for e in exs) or \
            simp.prod([e[0][0] for e in exs]) > 100:
        ts = tuple(it.term(a, st) for a in args)
        return Tup([mk("call", "meshgrid", ts + (const(i),), ()) for i in range(len(ts))])
    ns = [e[0][0] for e in exs]
    order = list(range(len(ns)))
    if not ij and len(ns) > 1:
        order[0], order[1] = 1, 0
    dims = [ns[a] for a in order]
    out = []
    for v, e in enumerate(exs):
        el = []
        for pos in itertools.product(*[range(d) for d in dims]):
            ix = [0] * len(ns)
            for a, p in zip(order, pos):
                ix[a] = p
            el.append(e[1][ix[v]])
        out.append(it.materialise(arr(dims, el), st))
    return it.alloc(st, HLst(out))


@ext("numpy.expand_dims")
def np_expand_dims(it, st, args, kw):
    t = it.term(args[0], st)
    ax = axis_of(it, st, args, kw, 1)
    s = shape(t)
    if s is None:
        return opq(it, st, "expand_dims", args, kw)
    items = [SliceVal(NONE, NONE, NONE)] * len(s)
    items.insert(ax % (len(s) + 1), NONE)
    return index(t, items)


@ext("numpy.atleast_1d")
def np_atleast1d(it, st, args, kw):
    t = it.term(args[0], st)
    if rank0(t):
        return arr((1,), (t,))
    return args[0]


@ext("numpy.atleast_2d")
def np_atleast2d(it, st, args, kw):
    t = it.term(args[0], st)
    s = shape(t)
    if s is not None and len(s) == 1:
        return index(t, [NONE, SliceVal(NONE, NONE, NONE)])
    return args[0]


@ext("numpy.clip")
def np_clip(it, st, args, kw):
    t = it.term(args[0], st)
    lo = it.term(arg(args, kw, 1, "a_min", kw.get("min", NONE)), st)
    hi = it.term(arg(args, kw, 2, "a_max", kw.get("max", NONE)), st)
    r = fn("clip", t, lo, hi) if lo is not NONE and hi is not NONE else (
        fn("maximum", t, lo) if lo is not NONE else fn("minimum", t, hi))
    out = arg(args, kw, 3, "out")
    if out is not None and it.deph(out, st) is not NONE:
        out = it.deph(out, st)
        h = it.get(st, out)
        if isinstance(h, HArr):
            it.mutate(out, st, "clip(out=)")
            st.heap[out.a] = h.with_(r)
            it.writeback(out, st)
            return out
    return r


@ext("numpy.array_equal", "numpy.array_equiv")
def np_array_equal(it, st, args, kw):
    a, b = it.term(args[0], st), it.term(args[1], st)
    return array_equal(a, b)


def array_equal(a, b):
    ea, eb = expand(a), expand(b)
    if ea and eb and all(e.op == "const" for e in ea[1] + eb[1]):
        return const(ea[0] == eb[0] and all(cval(x) == cval(y) for x, y in zip(ea[1], eb[1])))
    if nf.equal(a, b):
        return TRUE
    return mk("call", "array_equal", (a, b), ())


@ext("numpy.allclose")
def np_allclose(it, st, args, kw):
    a, b = it.term(args[0], st), it.term(args[1], st)
    if nf.equal(a, b):
        return TRUE
    return mk("call", "allclose", (a, b), ())


@ext("numpy.isclose")
def np_isclose(it, st, args, kw):
    a, b = it.term(args[0], st), it.term(args[1], st)
    r = mk("fn", "isclose", a, b)
    return r


def fold_family(ts):
    """(base, is permutation) if the terms select folds of one base vector"""
    base, fs = None, []
    for k, t in enumerate(ts):
        b, x = t.args if t.op == "gather" else (None, t)
        if not (is_iset(x) and x.args[1] is TRUE and x.args[0].op == "fold") or (k and b is not base):
            return None
        base = b
        fs.append(x.args[0].args)
    g = fs[0][0]
    if any(f[0] is not g for f in fs):
        return None
    if all(f[2] == "test" for f in fs):
        ok = sorted(f[1] for f in fs) == list(range(g.args[1]))
    else:
        ok = len(fs) == 2 and fs[0][1] == fs[1][1] and {fs[0][2], fs[1][2]} == {"train", "test"}
    return (base if base is not None else full(g.args[2])), ok


def concat_family(t):
    if t.op == "call" and t.args[0] == "concatenate":
        return fold_family(t.args[1])
    return None


def never_equal(t):
    """element-wise comparison of a sorted selection with repeated or missing elements with distinct sorted values"""
    if t.op == "cmp" and t.args[0] in ("==", "!="):
        for a, b in (t.args[1:3], t.args[2:0:-1]):
            if a.op == "call" and a.args[0] == "sort" and b.op == "call" and b.args[0] == "unique":
                f = concat_family(a.args[1][0])
                if f is not None and not f[1] and f[0] is b:
                    return True
    return False


simp.never_equal = never_equal


@ext("numpy.sort")
def np_sort(it, st, args, kw):
    t = it.term(args[0], st)
    if t.op == "perm":
        return full(t.args[0].args[2])
    if t.op == "gather" and t.args[1].op == "perm":
        t = t.args[0]
    f = concat_family(t)
    if f is not None and f[1]:
        t = f[0]
    if t.op == "call" and t.args[0] == "unique":
        return t
    c = const_list(t)
    if c is not None and shape(t) is not None and len(shape(t)) == 1:
        return arr((len(c),), [const(x) for x in sorted(c)])
    if is_iset(t):
        return t
    r = mk("call", "sort", (t,), tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))
    r.cache["kshape"] = shape(t)
    return r


@ext("numpy.argsort")
def np_argsort(it, st, args, kw):
    t = it.term(args[0], st)
    ex = expand(t)
    if ex is not None and len(ex[0]) == 1 and isinstance(ex[0][0], int) and ex[0][0] <= 6 and not kw:
        order = []
        for k, x in enumerate(ex[1]):
            pos = len(order)
            for q in range(len(order) - 1, -1, -1):
                d = it.decide(simp.cmp_("<", x, ex[1][order[q]]), st)
                if d is None:
                    pos = None
                    break
                if not d:
                    break
                pos = q
            if pos is None:
                order = None
                break
            order.insert(pos, k)
        if order is not None:
            return arr((len(order),), [const(k) for k in order])
    r = mk("call", "argsort", (t,), tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))
    r.cache["kshape"] = shape(t)
    return r


@ext("numpy.diff")
def np_diff(it, st, args, kw):
    t = it.term(args[0], st)
    s = shape(t)
    if s and len(s) == 1 and isinstance(s[0], int):
        ex = expand(t)[1]
        return arr((s[0] - 1,), [bin_("-", ex[i + 1], ex[i]) for i in range(s[0] - 1)])
    return opq(it, st, "np.diff", args, kw)


@ext("numpy.cumsum")
def np_cumsum(it, st, args, kw):
    return opq(it, st, "np.cumsum", args, kw)


@ext("numpy.delete")
def np_delete(it, st, args, kw):
    t = it.term(args[0], st)
    i = it.term(args[1], st)
    s = shape(t)
    if s and isinstance(s[0], int) and is_const(i) and len(s) == 1:
        ex = list(expand(t)[1])
        try:
            del ex[cval(i)]
        except IndexError:
            it.raise_("IndexError", st)
        return arr((len(ex),), ex)
    ax = axis_of(it, st, args, kw, 2)
    if ax is None and s and len(s) == 1:
        ax = 0
    ix = None
    if is_const(i):
        ix = [cval(i)]
    elif i.op == "arr" and len(i.args[0]) == 1 and all(is_const(e) for e in i.args[1]):
        ix = [cval(e) for e in i.args[1]]
    if s and ix is not None and ax is not None and isinstance(s[ax % len(s)], int) and all(
            isinstance(k, int) and not isinstance(k, bool) and -s[ax % len(s)] <= k < s[ax % len(s)] for k in ix):
        d = s[ax % len(s)]
        items = [SliceVal(NONE, NONE, NONE)] * len(s)
        ix = {k % d for k in ix}
        keep = [k for k in range(d) if k not in ix]
        items[ax % len(s)] = arr((len(keep),), [const(k) for k in keep])
        return index(t, items)
    return opq(it, st, "np.delete", args, kw)


@ext("numpy.diag")
def np_diag(it, st, args, kw):
    t = it.term(args[0], st)
    s = shape(t)
    if s and len(s) == 2 and isinstance(s[0], int):
        return arr((s[0],), [index(t, [const(i), const(i)]) for i in range(s[0])])
    if s and len(s) == 1 and isinstance(s[0], int) and len(args) == 1 and not kw:
        z = FALSE if is_bool(t) else ZERO
        return arr((s[0], s[0]), [index(t, [const(i)]) if i == j else z for i in range(s[0]) for j in range(s[0])])
    r = mk("call", "diag", (t,), ())
    if s and len(s) == 2:
        r.cache["kshape"] = (s[0],)
    return r


@ext("numpy.eye", "numpy.identity")
def np_eye(it, st, args, kw):
    d = dimof(it.term(args[0], st))
    if isinstance(d, int):
        return arr((d, d), [const(1.0 if i == j else 0.0) for i in range(d) for j in range(d)])
    return opq(it, st, "np.eye", args, kw)


@ext("numpy.isscalar")
def np_isscalar(it, st, args, kw):
    tp = type_paths(it, args[0], st)
    return const(bool(tp) and not ({"numpy.ndarray", "list", "tuple", "dict"} & tp))


@ext("numpy.issubdtype")
def np_issubdtype(it, st, args, kw):
    d, b = it.unlazy(args[0]), it.unlazy(args[1])
    m = {"builtins.int": "numpy.integer", "builtins.float": "numpy.floating", "builtins.bool": "numpy.bool_",
         "builtins.object": "numpy.object_"}
    if isinstance(b, Ext) and b.path in m:
        b = Ext(m[b.path])
    if isinstance(d, T) and d.op == "dtype" and isinstance(b, Ext):
        return b_issubclass(it, st, [d, b], {})
    it.note_unmodelled("issubdtype")
    return mk("call", "issubdtype", tuple(it.term(a, st) for a in args), ())


@ext("numpy.ndim")
def np_ndim(it, st, args, kw):
    s = shape(it.term(args[0], st))
    return const(len(s)) if s is not None else opq(it, st, "ndim", args, kw)


@ext("numpy.shape")
def np_shape(it, st, args, kw):
    return it.getattr(it.materialise(it.term(args[0], st), st), "shape", st)


@ext("numpy.float64", "numpy.float32", "numpy.int64", "numpy.int32", "numpy.bool_")
def np_cast(it, st, args, kw):
    return it.term(args[0], st)


@ext("numpy.corrcoef")
def np_corrcoef(it, st, args, kw):
    a = it.term(args[0], st)
    b = it.term(args[1], st) if len(args) > 1 else NONE
    c = mk("call", "corr", (a, b), ())
    c.cache["kshape"] = ()
    if b is not NONE:
        return arr((2, 2), (ONE, c, c, ONE))
    r = mk("call", "corrcoef", (a,), ())
    s = shape(a)
    if s and len(s) == 2:
        r.cache["kshape"] = (s[0], s[0])
    return r


@ext("numpy.polyfit")
def np_polyfit(it, st, args, kw):
    return opq(it, st, "polyfit", args, kw)


def rngfn(path):
    def f(it, st, args, kw):
        it.event("rng", ("numpy.random", path), st)
        st.seq += 1
        sz = kw.get("size")
        pos = {"normal": 2, "exponential": 1, "uniform": 2, "binomial": 2, "standard_normal": 0, "choice": 1,
               "randint": 2, "permutation": None}.get(path)
        if sz is None and pos is not None and len(args) > pos:
            sz = args[pos]
        dims = () if sz is None or it.deph(sz, st) is NONE else tuple(parse_dims(it, st, sz))
        if path in ("randn", "rand"):
            dims = tuple(dimof(it.term(a, st)) for a in args)
        ps = tuple(it.term(a, st) for a in args if a is not sz), tuple(
            sorted((k, it.term(v, st)) for k, v in kw.items() if k != "size"))
        sig = {"binomial": ("n", "p", "size"), "choice": ("a", "size", "replace", "p")}.get(path)
        if sig and len(args) <= len(sig):
            # however the parameters are passed
            v = {k: it.term(a, st) for k, a in zip(sig, args)}
            v.update(ps[1])
            v.pop("size", None)
            if path == "choice":
                v.setdefault("replace", TRUE)
            ps = tuple(sorted(v.items()))
        base = RNGBASE.get(path)
        if base is not None:
            # location-scale families are expressed through the standard draw
            nm, names, dflt = base
            vals = dict(zip(names, dflt))
            vals.update(zip(names, [it.term(a, st) for a in args if a is not sz] if path not in ("randn", "rand") else ()))
            vals.update({k: it.term(v, st) for k, v in kw.items() if k in names})
            z = mk("rng", nm, (), st.seq, dims)
            if not names:
                return z
            lo, sc = (vals[names[0]], vals[names[1]]) if len(names) == 2 else (ZERO, vals[names[0]])
            if nm == "uniform" and len(names) == 2:
                sc = bin_("-", sc, lo)
            if not (is_const(sc) and cval(sc) == 1):
                z = bin_("*", sc, z)
            if not (is_const(lo) and cval(lo) == 0):
                z = bin_("+", lo, z)
            return z
        return mk("rng", path, ps, st.seq, dims)
    return f


RNGBASE = {"normal": ("normal", ("loc", "scale"), (const(0.0), const(1.0))), "standard_normal": ("normal", (), ()),
           "randn": ("normal", (), ()), "exponential": ("exponential", ("scale",), (const(1.0),)),
           "standard_exponential": ("exponential", (), ()), "rand": ("uniform", (), ()), "random": ("uniform", (), ()),
           "random_sample": ("uniform", (), ()), "uniform": ("uniform", ("low", "high"), (const(0.0), const(1.0)))}


for _n in ("normal", "exponential", "uniform", "binomial", "standard_normal", "choice", "randint", "randn", "rand",
           "permutation", "standard_exponential", "random_sample", "multivariate_normal", "beta", "gamma", "poisson", "random", "laplace", "rademacher", "shuffle"):
    EXT["numpy.random." + _n] = rngfn(_n)


@ext("numpy.random.multivariate_normal")
def np_mvn(it, st, args, kw):
    """(size, k) array of k dependent draws; each is a term naming mean, covariance and position"""
    mean, cov = it.term(arg(args, kw, 0, "mean"), st), it.term(arg(args, kw, 1, "cov"), st)
    sz = arg(args, kw, 2, "size", NONE)
    it.event("rng", ("numpy.random", "multivariate_normal"), st)
    st.seq += 1
    dims = () if it.deph(sz, st) is NONE else tuple(parse_dims(it, st, sz))
    k = shape(mean)
    k = k[0] if k is not None and len(k) == 1 else None
    if not isinstance(k, int):
        return mk("rng", "multivariate_normal", (("mean", mean), ("cov", cov)), st.seq, dims)
    cols = [mk("rng", "mvn", (("mean", mean), ("cov", cov), ("j", const(j))), st.seq, dims) for j in range(k)]
    if not dims:
        return arr((k,), cols)
    r = simp.stack_cols(cols)
    return r if r is not None else unk("multivariate_normal")


@ext("scipy.linalg.toeplitz")
def sp_toeplitz(it, st, args, kw):
    ex = expand(it.term(args[0], st))
    if ex is None or len(ex[0]) != 1 or not isinstance(ex[0][0], int) or len(args) > 1:
        return opq(it, st, "toeplitz", args, kw)
    c = ex[1]
    k = len(c)
    return arr((k, k), [c[abs(i - j)] for i in range(k) for j in range(k)])


@ext("sklearn.datasets.make_spd_matrix")
def sk_spd(it, st, args, kw):
    n = it.term(arg(args, kw, 0, "n_dim"), st)
    if not is_const(n) or set(kw) - {"n_dim"}:
        return opq(it, st, "make_spd_matrix", args, kw)
    it.event("rng", ("sklearn.datasets", "make_spd_matrix"), st)
    st.seq += 1
    k = cval(n)
    return arr((k, k), [mk("rng", "spd", (("n", n), ("i", const(min(i, j))), ("j", const(max(i, j)))), st.seq, ()) for i in range(k) for j in range(k)])


@ext("numpy.random.seed", "random.seed", "numpy.random.set_state")
def np_seed(it, st, args, kw):
    it.event("reseed", "numpy.random.seed", st)
    return NONE


@ext("numpy.random.default_rng", "numpy.random.RandomState")
def np_drng(it, st, args, kw):
    it.event("privaterng", it.term(args[0], st) if args else NONE, st)
    return it.alloc(st, HOpq(mk("object", "rng", it.term(args[0], st) if args else NONE)))


# ================================================================= scipy / statsmodels / misc
@ext("scipy.stats.norm.ppf")
def norm_ppf(it, st, args, kw):
    r = fn("ppf", it.term(arg(args, kw, 0, "q"), st))
    if kw.get("loc") is not None or kw.get("scale") is not None or len(args) > 1:
        return opq(it, st, "norm.ppf", args, kw)
    return r


@ext("scipy.stats.norm.interval")
def norm_interval(it, st, args, kw):
    if set(kw) - {"confidence"} or len(args) > 1:
        return opq(it, st, "norm.interval", args, kw)
    a = bin_("/", bin_("-", ONE, it.term(arg(args, kw, 0, "confidence"), st)), const(2))
    return Tup((fn("ppf", a), fn("ppf", bin_("-", ONE, a))))


@ext("scipy.stats.norm.cdf")
def norm_cdf(it, st, args, kw):
    if kw.get("loc") is not None or kw.get("scale") is not None or len(args) > 1:
        return opq(it, st, "norm.cdf", args, kw)
    return fn("cdf", it.term(arg(args, kw, 0, "x"), st))


@ext("scipy.stats.norm.sf")
def norm_sf(it, st, args, kw):
    return bin_("-", ONE, fn("cdf", it.term(arg(args, kw, 0, "x"), st)))


@ext("scipy.stats.norm.pdf")
def norm_pdf(it, st, args, kw):
    return fn("pdf", it.term(arg(args, kw, 0, "x"), st))


def call_lambda(it, st, f, nargs=1, tag="theta", extra=(), rng=None):
    """body of a callable as a term in a bound variable"""
    bv = mk("bv", 100 + it.loopdepth) if rng is None else mk("bv", 100 + it.loopdepth, *rng)
    SYMINFO[bv.uid] = {"shape": (), "finite": True}
    if rng is not None:
        SYMINFO[bv.uid]["range"] = rng
    it.loopdepth += 1
    s2 = st.copy()
    try:
        v = it.call(f, [bv] + list(extra), {}, s2)
        t = it.term(v, s2)
    except Dead:
        t = unk("callable raises")
    finally:
        it.loopdepth -= 1
    return mk("lam", bv, t)


@ext("scipy.optimize.root_scalar")
def sp_root(it, st, args, kw):
    lam = call_lambda(it, st, arg(args, kw, 0, "f"))
    ks = tuple(sorted((k, it.term(v, st) if not isinstance(v, (FuncVal, Bound)) else call_lambda(it, st, v))
                      for k, v in kw.items() if k != "f"))
    x = mk("call", "root", (lam,), ())
    x.cache["kshape"] = ()
    it.event("rootsearch", (lam, ks), st)
    return it.alloc(st, HOpq(mk("optres", "root_scalar", x, lam, ks)))


@ext("scipy.optimize.minimize_scalar")
def sp_minscalar(it, st, args, kw):
    bd, rng, cons = kw.get("bounds"), None, ()
    if bd is not None and it.deph(bd, st) is not NONE:
        bs = [it.term(x, st) for x in it.unpack(bd, 2, st)]
        cons = (("bounds", tuple(bs)),)
        if all(is_const(b) for b in bs):
            rng = tuple(cval(b) for b in bs)
    ex = kw.get("args")
    ex = () if ex is None else it.iterate(ex, st)
    lam = call_lambda(it, st, arg(args, kw, 0, "fun"), extra=ex, rng=rng)
    ks = tuple(sorted((k, it.term(v, st)) for k, v in kw.items() if k != "fun"))
    x = mk("call", "argmin", (lam,), cons)
    x.cache["kshape"] = ()
    it.event("rootsearch", (lam, ks), st)
    return it.alloc(st, HOpq(mk("optres", "minimize_scalar", x, lam, ks)))


@ext("scipy.optimize.fmin_l_bfgs_b")
def sp_lbfgs(it, st, args, kw):
    lam = call_lambda(it, st, arg(args, kw, 0, "func"))
    bd = it.term(kw["bounds"], st) if "bounds" in kw else NONE
    g = (lam,) if bd is NONE else (lam, bd)
    x = mk("call", "argmin", g, ())
    x.cache["kshape"] = ()
    f = mk("call", "minval", g, ())
    f.cache["kshape"] = ()
    return Tup((arr((1,), (x,)), f, mk("call", "mininfo", g, ())))


@ext("scipy.optimize.minimize")
def sp_min(it, st, args, kw):
    return it.alloc(st, HOpq(unk("scipy.optimize.minimize")))


@ext("scipy.linalg.sqrtm")
def sp_sqrtm(it, st, args, kw):
    t = it.term(args[0], st)
    s = shape(t)
    if s is None or len(s) != 2 or not all(isinstance(d, int) for d in s):
        return opq(it, st, "sqrtm", args, kw)
    ex = expand(t)[1]
    sym_ = all(ex[i * s[0] + j] is ex[j * s[0] + i] for i in range(s[0]) for j in range(i))
    return arr(s, [scall( "sqrtm", (t, const(min(i, j) if sym_ else i), const(max(i, j) if sym_ else j)), ())
                   for i in range(s[0]) for j in range(s[1])])


@ext("statsmodels.api.OLS")
def sm_ols(it, st, args, kw):
    y, X = it.term(arg(args, kw, 0, "endog"), st), it.term(arg(args, kw, 1, "exog"), st)
    return it.alloc(st, HOpq(mk("regmodel", "OLS", y, X)))


@ext("statsmodels.stats.multitest.multipletests")
def sm_mt(it, st, args, kw):
    p = it.term(args[0], st)
    m = it.term(arg(args, kw, 2, "method", const("hs")), st)
    r = mk("call", "multipletests", (p, m), ())
    adj = mk("call", "multipletests.padj", (p, m), ())
    adj.cache["kshape"] = shape(p)
    rj = mk("call", "multipletests.reject", (p, m), ())
    rj.cache["kshape"] = shape(p)
    return Tup((rj, adj, unk("mt"), unk("mt")))


@ext("statsmodels.nonparametric.kde.KDEUnivariate")
def sm_kde(it, st, args, kw):
    return it.alloc(st, HOpq(mk("kde", it.term(args[0], st), NONE)))


RD_NAMES = ("y", "x", "c", "fuzzy", "deriv", "p", "q", "h", "b")


def rd_call(fname):
    def f(it, st, args, kw):
        ks = dict(zip(RD_NAMES if fname == "rdrobust" else RD_NAMES[:-2], args))
        ks.update(kw)
        ks = {k: it.term(v, st) for k, v in ks.items()}
        # omitted, None and (for the cutoff) zero mean the same
        ks = {k: v for k, v in ks.items() if v is not NONE and not (k == "c" and is_const(v) and cval(v) == 0)}
        y, x = ks.pop("y"), ks.pop("x")
        t = mk("rdres", fname, y, x, tuple(sorted(ks.items())))
        it.event("rdd", t, st)
        return it.alloc(st, HOpq(t))
    return f


for _p in ("rdrobust", "rdbwselect"):
    EXT["rdrobust." + _p] = rd_call(_p)


def rd_attr(it, st, t, name):
    """result of rdrobust: coefficients, standard errors and intervals of the three methods, bandwidths (h, b) x (left,
    right), observations used on each side"""
    def val(what, *ix):
        return scall("rd." + what, (t,) + tuple(const(i) for i in ix), ())

    rows = ("Conventional", "Bias-Corrected", "Robust")
    if t.args[0] == "rdrobust":
        if name in ("coef", "se", "t", "z", "pv"):
            col = {"coef": "Coeff", "se": "Std. Err.", "t": "t-stat.", "z": "t-stat.", "pv": "P>|t|"}[name]
            return it.alloc(st, HDF({col: arr((3,), [val(name, i) for i in range(3)])}, 3, None, rows))
        if name == "ci":
            return it.alloc(st, HDF({c: arr((3,), [val("ci", i, j) for i in range(3)])
                                     for j, c in enumerate(("CI Lower", "CI Upper"))}, 3, None, rows))
        if name == "bws":
            return it.alloc(st, HDF({c: arr((2,), [val("bws", i, j) for i in range(2)])
                                     for j, c in enumerate(("left", "right"))}, 2, None, ("h", "b")))
        if name in ("N_h", "N", "N_b"):
            return it.alloc(st, HLst([val(name, 0), val(name, 1)]))
    elif name == "bws":
        return it.alloc(st, HDF({c: arr((1,), [val("bwsel", j)])
                                 for j, c in enumerate(("h (left)", "h (right)", "b (left)", "b (right)"))}, 1, None,
                                ("mserd",)))
    return None


@ext("warnings.warn")
def w_warn(it, st, args, kw):
    it.event("warn", it.term(args[0], st) if args else NONE, st)
    return NONE


for _p in ("warnings.simplefilter", "warnings.filterwarnings", "warnings.catch_warnings"):
    EXT[_p] = lambda it, st, args, kw: NONE


@ext("inspect.signature")
def insp_sig(it, st, args, kw):
    v = it.deph(args[0], st)
    if isinstance(v, ExtMeth) and isinstance(it.get(st, v.recv), HEst):
        h = it.get(st, v.recv)
        ps = ["X", "y"] + (["sample_weight"] if h.info.get("sample_weight", True) else [])
        d = it.alloc(st, HDct({p: const(p) for p in ps}))
        return it.alloc(st, HOpq(mk("sig", d.a)))
    if isinstance(v, Bound) and isinstance(v.fn, FuncVal):
        ps = [a.arg for a in v.fn.node.args.args[1:]]
        d = it.alloc(st, HDct({p: const(p) for p in ps}))
        return it.alloc(st, HOpq(mk("sig", d.a)))
    return it.alloc(st, HOpq(unk("signature")))


@ext("importlib.metadata.version")
def im_version(it, st, args, kw):
    return mk("fmt", ("version",))


@ext("importlib.util.find_spec")
def im_spec(it, st, args, kw):
    return mk("call", "find_spec", tuple(it.term(a, st) for a in args), ())


@ext("importlib.import_module")
def im_import(it, st, args, kw):
    return Ext(conc(it, st, args[0]))


@ext("io.StringIO")
def io_sio(it, st, args, kw):
    return it.alloc(st, HOpq(mk("object", "StringIO")))


# ================================================================= pandas
@ext("pandas.DataFrame")
def pd_dataframe(it, st, args, kw):
    data = it.deph(arg(args, kw, 0, "data", NONE), st)
    cols = arg(args, kw, 2, "columns")
    ix = arg(args, kw, 1, "index")
    index_ = None
    if ix is not None and it.deph(ix, st) is not NONE:
        l = it.iterate(ix, st)
        index_ = tuple(it.term(x, st) for x in l) if l is not None else None
    h = it.get(st, data)
    names = None
    if cols is not None and it.deph(cols, st) is not NONE:
        names = labels(it, st, cols)
        if names is None:
            l = it.iterate(cols, st)
            names = [it.term(x, st) for x in l] if l is not None else None
    if isinstance(h, HDct):
        out = {}
        n = len(index_) if index_ is not None else None
        for k, v in h.items.items():
            t = it.term(v, st)
            if rank0(t) and n is not None:
                t = fill(t, (n,))
            s = shape(t)
            if n is None and s:
                n = s[0]
            if s is not None and len(s) == 2:
                t = ravel(t)
            out[k] = t
        if names is not None:
            out = {k: out.get(k, NAN) for k in names}
        return it.alloc(st, HDF(out, n if n is not None else 0, None, index_))
    if isinstance(h, HDF):
        c = h.cols if names is None else {k: h.cols[k] for k in names if k in h.cols}
        return it.alloc(st, HDF(c, h.nrows, None, index_ or h.index))
    if data is NONE:
        n = len(index_) if index_ is not None else 0
        return it.alloc(st, HDF({k: fill(NAN, (n,)) for k in (names or [])}, n, None, index_))
    t = it.term(data, st)
    s = shape(t)
    if s is not None and len(s) == 1:
        t = index(t, [SliceVal(NONE, NONE, NONE), NONE])
        s = shape(t)
    if s is not None and len(s) == 2 and isinstance(s[1], int):
        if names is None:
            names = list(range(s[1]))
        if len(names) != s[1]:
            it.raise_("ValueError", st, "columns")
        cs = {k: index(t, [SliceVal(NONE, NONE, NONE), const(i)]) for i, k in enumerate(names)}
        return it.alloc(st, HDF(cs, s[0], None, index_))
    if s is not None and len(s) == 2:
        o = mk("dfopq", t)
    return it.alloc(st, HOpq(mk("call", "DataFrame", (t,), tuple(
        (k, it.term(v, st)) for k, v in kw.items() if k != "data"))))


@ext("pandas.Series")
def pd_series(it, st, args, kw):
    data = it.deph(arg(args, kw, 0, "data", NONE), st)
    ix = arg(args, kw, 1, "index")
    l = it.iterate(ix, st) if ix is not None else None
    if data is NONE or l is not None:
        keys = [it.term(x, st) for x in l] if l is not None else []
        if data is NONE:
            vals = {(cval(k) if is_const(k) else k): NAN for k in keys}
        else:
            t = it.term(data, st)
            vals = {(cval(k) if is_const(k) else k): (t if rank0(t) else index(t, [const(i)]))
                    for i, k in enumerate(keys)}
        return it.alloc(st, HDct(vals))
    h = it.get(st, data)
    if isinstance(h, HDct):
        return it.alloc(st, HDct(h.items))
    return it.alloc(st, HArr(it.term(data, st), None, "series"))


@ext("pandas.Index")
def pd_index(it, st, args, kw):
    return it.alloc(st, HArr(it.term(args[0], st), None, "index"))


@ext("pandas.concat")
def pd_concat(it, st, args, kw):
    v = it.iterate(args[0], st)
    ax = axis_of(it, st, args, kw, 1) if ("axis" in kw or len(args) > 1) else 0
    hs = [it.get(st, it.deph(x, st)) for x in v] if v is not None else [None]
    if all(isinstance(h, HDF) for h in hs):
        if ax == 1:
            c = {}
            for h in hs:
                c.update(h.cols)
            return it.alloc(st, HDF(c, hs[0].nrows, None, hs[0].index))
        if all(list(h.cols) == list(hs[0].cols) for h in hs):
            c = {k: concat_terms([h.cols[k] for h in hs]) for k in hs[0].cols}
            ix = None
            if all(h.index is not None for h in hs):
                ix = tuple(x for h in hs for x in h.index)
            n = sum(h.nrows for h in hs) if all(isinstance(h.nrows, int) for h in hs) else shape(
                next(iter(c.values())))[0]
            return it.alloc(st, HDF(c, n, None, ix))
    return it.alloc(st, HOpq(opq(it, st, "pd.concat", [x for x in v or []], {})))


@ext("pandas.get_dummies")
def pd_dummies(it, st, args, kw):
    t = it.term(args[0], st)
    h = it.get(st, it.deph(args[0], st))
    pre, sep = kw.get("prefix", args[1] if len(args) > 1 else NONE), kw.get("prefix_sep", const("_"))
    if isinstance(h, HDF) and set(kw) <= {"prefix", "prefix_sep"} and is_const(sep) and is_const(it.term(pre, st)):
        cols = {}
        for k, v in h.cols.items():
            dk = dtype_kind(v)
            if dk in ("bool", "int", "float"):
                cols[k] = v
            elif dk == "object" and v.op == "sym":
                nm = k if pre is NONE else cval(it.term(pre, st))
                for l in syminfo(v)["levels"]:
                    cols[f"{nm}{cval(sep)}{l}"] = cmp_("==", v, const(l))
            else:
                cols = None
                break
        if cols is not None:
            return it.alloc(st, HDF(cols, h.nrows, None, h.index))
    return it.alloc(st, HOpq(mk("call", "get_dummies", (t,), tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))))


class HKeys(HLst):
    """a dictionary's view of its keys or items: compared and combined as a set"""


class HMI(HLst):
    """multi-index with known entries"""


def mi_frame(it, h, args, kw, st):
    name = arg(args, kw, 1, "name", kw.get("names", NONE))
    ns = it.iterate(name, st) if name is not NONE else None
    rows = [x.args[0] for x in h.items]
    if not ns or not rows or len(ns) != len(rows[0]):
        return unk("MultiIndex.to_frame")
    return it.alloc(st, HDF({cval(it.term(k, st)): arr((len(rows),), [r[j] for r in rows]) for j, k in enumerate(ns)}, const(len(rows)), None))


@ext("pandas.MultiIndex.from_product")
def pd_mi(it, st, args, kw):
    ls = [it.iterate(x, st) for x in it.iterate(args[0], st)]
    if any(x is None for x in ls):
        return opq(it, st, "MultiIndex", args, kw)
    import itertools
    items = [mk("tup", tuple(it.term(y, st) for y in p)) for p in itertools.product(*ls)]
    return it.alloc(st, HMI(items))


# ================================================================= operators
def opterm(it, v, st):
    return it.term(v, st)


def binop(it, op, a, b, ha, hb, st):
    if op == "%" and isinstance(a, T) and is_const(a) and isinstance(cval(a), str):
        vs = b.items if isinstance(b, Tup) else (b,)
        if all(isinstance(x, T) and is_const(x) for x in vs):
            try:
                return const(cval(a) % tuple(cval(x) for x in vs))
            except TypeError:
                it.raise_("TypeError", st, "string formatting")
    if op == "+" and (isinstance(ha, HLst) and isinstance(hb, HLst)):
        return it.alloc(st, HLst(ha.items + hb.items))
    if op == "+" and isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items)
    if op == "+" and (isinstance(ha, HLst) or isinstance(a, Tup)) and (isinstance(hb, HOpq) or isinstance(b, T) and (
            is_const(b))):
        if is_const(b):
            it.raise_("TypeError", st, "list + const")
    if op == "*":
        for x, y, hx in ((a, b, ha), (b, a, hb)):
            if isinstance(hx, HLst) and isinstance(y, T):
                if is_const(y) and isinstance(cval(y), int):
                    return it.alloc(st, HLst(hx.items * cval(y)))
                if shape(y) == () and not is_const(y):
                    return it.alloc(st, HOpq(mk("replist", it.term(x, st), y)))
            if isinstance(x, Tup) and isinstance(y, T) and is_const(y) and isinstance(cval(y), int):
                return Tup(x.items * cval(y))
    if (isinstance(ha, (HSet, HKeys)) and isinstance(hb, (HSet, HKeys)) or op in "|&-^" and (
            isinstance(ha, HKeys) and isinstance(hb, HLst) or isinstance(hb, HKeys) and isinstance(ha, HLst))) and op in "|&-^":
        return set_op(it, op, ha, hb, st)
    if isinstance(ha, HDct) and isinstance(hb, HDct) and op == "|":
        d = dict(ha.items)
        d.update(hb.items)
        return it.alloc(st, HDct(d))
    if isinstance(ha, HDF) or isinstance(hb, HDF):
        x = ha if isinstance(ha, HDF) else hb
        if isinstance(ha, HDF) and isinstance(hb, HDF):
            c = {k: tb(op, ha.cols[k], hb.cols[k]) for k in ha.cols if k in hb.cols}
        else:
            y = it.term(b if isinstance(ha, HDF) else a, st)
            sy = shape(y)
            if sy is not None and len(sy) == 2 and sy[1] == 1:
                y = simp.index(y, [SliceVal(NONE, NONE, NONE), ZERO])
            c = {k: (tb(op, v, y) if isinstance(ha, HDF) else tb(op, y, v)) for k, v in x.cols.items()}
        return it.alloc(st, HDF(c, x.nrows, None, x.index))
    ta, tb_ = it.term(a, st), it.term(b, st)
    if ta.op == "const" and tb_.op == "const":
        x, y = cval(ta), cval(tb_)
        if op in "+-*/" and (x is None or y is None) or op == "+" and isinstance(x, str) != isinstance(y, str):
            it.raise_("TypeError", st, "operand types")
        if op in ("/", "//", "%") and y == 0 and isinstance(x, (int, float)) and not isinstance(x, bool):
            pass
    if isinstance(ha, (HLst, HDct)) and op in ("-", "/", "**") and not isinstance(hb, HArr):
        it.raise_("TypeError", st, "operand types")
    return tb(op, ta, tb_)


def tb(op, a, b):
    if op == "&":
        if a.op == "const" and b.op == "const" and isinstance(cval(a), int) and isinstance(cval(b), int):
            return const(cval(a) & cval(b))
        return log("and", asboolmap(a), asboolmap(b))
    if op == "|":
        if a.op == "const" and b.op == "const" and isinstance(cval(a), int) and isinstance(cval(b), int):
            return const(cval(a) | cval(b))
        return log("or", asboolmap(a), asboolmap(b))
    if op == "^":
        return log("and", log("or", asboolmap(a), asboolmap(b)), log("not", log("and", asboolmap(a), asboolmap(b))))
    return bin_(op, a, b)


def skey(it, st, v):
    t = it.term(v, st) if not isinstance(v, T) else v
    return ("c", cval(t)) if t.op == "const" else ("t", t.uid)


def set_op(it, op, ha, hb, st):
    kb = {skey(it, st, x) for x in hb.items}
    ka = {skey(it, st, x) for x in ha.items}
    if op == "|":
        return it.alloc(st, HSet(ha.items + tuple(x for x in hb.items if skey(it, st, x) not in ka)))
    if op == "&":
        return it.alloc(st, HSet(tuple(x for x in ha.items if skey(it, st, x) in kb)))
    if op == "-":
        return it.alloc(st, HSet(tuple(x for x in ha.items if skey(it, st, x) not in kb)))
    return it.alloc(st, HSet(tuple(x for x in ha.items if skey(it, st, x) not in kb) + tuple(
        x for x in hb.items if skey(it, st, x) not in ka)))


def values_within(it, st, t, hs):
    """every value of a vector (given as its set of values) is one of a few constants"""
    if t.op != "set" or len(t.args[0]) != 1:
        return None
    x = t.args[0][0]
    cs = [it.deph(v, st) for v in hs.items]
    if not (isinstance(x, T) and shape(x) is not None and len(shape(x)) == 1 and 0 < len(cs) <= 8
            and all(is_const(c) and isinstance(cval(c), (int, float, str)) for c in cs)):
        return None
    c = FALSE
    for v in sorted(cs, key=lambda q: str(cval(q))):
        c = log("or", c, cmp_("==", x, v))
    return red("all", asboolmap(c))


def compare(it, op, a, b, st):
    if isinstance(a, Phi):
        if not isinstance(it.get(st, a.a), HArr):
            return ite(a.c, it.term(compare(it, op, it.deph(a.a, st), b, st), st),
                       it.term(compare(it, op, it.deph(a.b, st), b, st), st))
    if isinstance(b, Phi):
        if not isinstance(it.get(st, b.a), HArr):
            return ite(b.c, it.term(compare(it, op, a, it.deph(b.a, st), st), st),
                       it.term(compare(it, op, a, it.deph(b.b, st), st), st))
    ha, hb = it.get(st, a), it.get(st, b)
    if isinstance(ha, HSet) and isinstance(hb, HSet) or isinstance(ha, (HSet, HKeys)) and isinstance(hb, (HSet, HKeys)):
        ka, kb = {skey(it, st, x) for x in ha.items}, {skey(it, st, x) for x in hb.items}
        return const({"==": ka == kb, "!=": ka != kb, "<=": ka <= kb, "<": ka < kb, ">=": ka >= kb, ">": ka > kb}[op])
    for x, hy, ok in ((ha, hb, ("<=",)), (hb, ha, (">=",))):
        if op in ok and isinstance(x, HOpq) and isinstance(hy, HSet):
            r = values_within(it, st, x.term, hy)
            if r is not None:
                return r
    if op in ("==", "!="):
        r = None
        if isinstance(ha, (HLst,)) and isinstance(hb, HLst) or isinstance(a, Tup) and isinstance(b, Tup):
            xa = ha.items if ha is not None else a.items
            xb = hb.items if hb is not None else b.items
            if len(xa) != len(xb):
                r = FALSE
            else:
                r = TRUE
                for x, y in zip(xa, xb):
                    c = compare(it, "==", it.deph(x, st), it.deph(y, st), st)
                    c = it.term(c, st)
                    if not rank0(c) and c.op != "const":
                        c = red("all", asboolmap(c))
                    r = log("and", r, c)
        elif isinstance(ha, HDct) and isinstance(hb, HDct):
            if set(ha.items) != set(hb.items):
                r = FALSE
            else:
                r = TRUE
                for k in ha.items:
                    r = log("and", r, it.term(compare(it, "==", it.deph(ha.items[k], st), it.deph(hb.items[k], st),
                                                      st), st))
        elif isinstance(ha, HObj) or isinstance(hb, HObj):
            if isinstance(ha, HObj):
                f, _ = it.find_in_mro(ha.cls.mro, "__eq__")
                if f is not None:
                    r = it.truth(it.call(it.bindfn(a, f, st), [b], {}, st), st)
            if r is None:
                r = const(a == b)
        elif isinstance(ha, (HLst, HDct, HSet)) != isinstance(hb, (HLst, HDct, HSet)) and not isinstance(
                ha if isinstance(hb, (HLst, HDct, HSet)) else hb, (HArr, HOpq, HDF)):
            o = b if isinstance(ha, (HLst, HDct, HSet)) else a
            if isinstance(o, (T,)) and (is_const(o) or shape(o) == ()) or isinstance(o, Tup):
                r = FALSE
        elif not isinstance(a, T) and not isinstance(b, T) and not isinstance(a, Ref) and not isinstance(b, Ref):
            if isinstance(a, (Ext, ClassVal, FuncVal, Builtin)) or isinstance(b, (Ext, ClassVal, FuncVal, Builtin)):
                r = const(a == b)
        if r is not None:
            return r if op == "==" else log("not", r)
        if isinstance(a, (Ext, ClassVal)) and isinstance(b, T) or isinstance(b, (Ext, ClassVal)) and isinstance(a, T):
            t = a if isinstance(a, T) else b
            if t.op == "dtype":
                return dtype_is(t, b if t is a else a, op)
            return const(op == "!=")
        for f, o in ((a, b), (b, a)):
            if isinstance(f, FuncVal) and (isinstance(o, T) and o.op == "const" or isinstance(o, Tup)):
                return const(op == "!=")
        if isinstance(a, (Ext, ClassVal, Builtin)) or isinstance(b, (Ext, ClassVal, Builtin)):
            tp, o = (a, b) if isinstance(a, (Ext, ClassVal, Builtin)) else (b, a)
            ex = expand(it.term(o, st)) if not isinstance(o, T) or o.op == "arr" else None
            if ex and ex[1] and all(e.op == "dtype" for e in ex[1]):
                return arr(ex[0], [dtype_is(e, tp, op) for e in ex[1]])
            if isinstance(o, T) and o.op == "dtype":
                return dtype_is(o, tp, op)
    if isinstance(ha, HDF) or isinstance(hb, HDF):
        x = ha if isinstance(ha, HDF) else hb
        y = it.term(b if isinstance(ha, HDF) else a, st)
        return it.alloc(st, HDF({k: cmp_(op, v, y) for k, v in x.cols.items()}, x.nrows, None, x.index))
    ta, tb_ = it.term(a, st), it.term(b, st)
    if ta.op == "const" and tb_.op == "const" and op in ("<", "<=", ">", ">="):
        x, y = cval(ta), cval(tb_)
        try:
            x < y
        except TypeError:
            it.raise_("TypeError", st, "comparison")
    sa, sb = shape(ta), shape(tb_)
    if op in ("==", "!=") and sa is not None and sb is not None and simp.bshape(sa, sb) is None and all(
            isinstance(d, int) for d in sa + sb):
        return const(op == "!=")
    return cmp_(op, ta, tb_)


def dtype_kind(t):
    """'bool', 'int', 'float' or 'object' for the element type of an array; None when unknown"""
    if is_bool(t):
        return "bool"
    x = t
    while x.op in ("gather", "fill"):
        x = x.args[0]
    if x.op == "sym":
        i = syminfo(x)
        if i.get("strings"):
            return "object"
        if i.get("dtype") == "bool":
            return "bool"
        if i.get("integer"):
            return "int"
        return "float" if i.get("target") == "continuous" else None
    if x.op == "const":
        v = cval(x)
        return {bool: "bool", int: "int", float: "float", str: "object"}.get(type(v))
    if simp.is_iset(x):
        return "int"
    if x.op == "arr" and x.args[1]:
        ks = {dtype_kind(y) for y in x.args[1]}
        return ks.pop() if len(ks) == 1 else "float" if ks == {"int", "float"} else None
    if x.op == "bin" and x.args[0] in "+-*":
        ks = {dtype_kind(y) for y in x.args[1:]}
        if "float" in ks:
            return "float"
        return "int" if ks == {"int"} else None
    return None


def dtype_is(t, tp, op):
    k = dtype_kind(t.args[0])
    nm = tp.path if isinstance(tp, Ext) else tp.name if isinstance(tp, (ClassVal, Builtin)) else repr(tp)
    nm = nm.split(".")[-1].rstrip("_'>").split("'")[-1]
    want = {"bool": "bool", "int": "int", "float": "float", "object": "object", "str": "str", "int64": "int", "float64": "float"}.get(nm)
    if k is None or want is None:
        return mk("isinst", t, repr(tp), op)
    return const((k == want) == (op == "=="))


def contains(it, a, b, st):
    b = it.deph(b, st)
    if isinstance(b, Phi):
        return ite(b.c, contains(it, a, b.a, st), contains(it, a, b.b, st))
    h = it.get(st, b)
    if isinstance(h, HDct):
        a = it.deph(a, st)
        if isinstance(a, T) and a.op == "const":
            k = cval(a)
            if k in h.items:
                v = h.items[k]
                if isinstance(v, Phi) and v.a is UNBOUND:
                    return log("not", v.c)
                if isinstance(v, Phi) and v.b is UNBOUND:
                    return v.c
                return TRUE
            if any(isinstance(q, (T, Val)) for q in h.items):
                return mk("call", "in", (it.term(a, st), it.term(b, st)), ())
            return FALSE
        ha = it.get(st, a)
        if isinstance(ha, (HLst, HDct, HSet)):
            it.raise_("TypeError", st, "unhashable")
        if a in h.items:
            return TRUE
        return mk("call", "in", (it.term(a, st), it.term(b, st)), ()) if h.items else FALSE
    if isinstance(h, HDF):
        t = it.term(a, st)
        if t.op == "const":
            return const(cval(t) in h.cols)
    if isinstance(h, HObj):
        f, _ = it.find_in_mro(h.cls.mro, "__contains__")
        if f is not None:
            return it.truth(it.call(it.bindfn(b, f, st), [a], {}, st), st)
    if isinstance(b, T) and b.op == "const":
        t = it.term(a, st)
        if isinstance(cval(b), str):
            if t.op == "const" and isinstance(cval(t), str):
                return const(cval(t) in cval(b))
            if t.op == "const":
                it.raise_("TypeError", st, "in str")
            return mk("call", "in", (t, b), ())
        it.raise_("TypeError", st, "not iterable")
    items = it.iterate(b, st)
    if items is None:
        return mk("call", "in", (it.term(a, st), it.term(b, st)), ())
    r = FALSE
    a = it.deph(a, st)
    for x in items:
        x = it.deph(x, st)
        c = it.is_(a, x, st) if not isinstance(a, T) and not isinstance(x, T) else FALSE
        if c is not TRUE:
            c = compare(it, "==", a, x, st)
            c = it.term(c, st)
            if not rank0(c) and c.op != "const":
                c = red("any", asboolmap(c))
        r = log("or", r, c)
        if r is TRUE:
            return TRUE
    return r


# ================================================================= subscripts
def idx_items(it, i, st):
    """index expression -> list of entries for simp.index"""
    out = []
    for x in (i.items if isinstance(i, Tup) else (i,)):
        x = it.deph(x, st)
        if isinstance(x, SliceVal):
            out.append(x)
        elif isinstance(x, T) and x.op == "ellipsis":
            out.append("...")
        elif isinstance(x, T) and x is NONE:
            out.append(NONE)
        else:
            out.append(it.term(x, st))
    return out


def getitem(it, o, h, i, st):
    if isinstance(h, HDct):
        k = it.deph(i, st)
        if isinstance(k, T) and k.op == "const":
            k = cval(k)
        else:
            hk = it.get(st, k)
            if isinstance(hk, (HLst,)):
                ls = labels(it, st, k)
                if ls is not None and all(x in h.items for x in ls):
                    return it.alloc(st, HDct({x: h.items[x] for x in ls}))
            if isinstance(k, SliceVal):
                return arr((len(h.items),), [it.term(x, st) for x in h.items.values()])
            if isinstance(k, Phi):
                return it.split(k.c, lambda s: getitem(it, o, s.heap.get(o.a), k.a, s),
                                lambda s: getitem(it, o, s.heap.get(o.a), k.b, s), st)
            if isinstance(k, T) and k.op == "ite":
                return it.split(k.args[0], lambda s: getitem(it, o, s.heap.get(o.a), k.args[1], s),
                                lambda s: getitem(it, o, s.heap.get(o.a), k.args[2], s), st)
        if k in h.items:
            v = h.items[k]
            if v is UNBOUND:
                it.raise_("KeyError", st, k)
            if isinstance(v, Phi) and (v.a is UNBOUND or v.b is UNBOUND):
                d = it.decide(v.c, st)
                if d is not None:
                    v = v.a if d else v.b
                    if v is UNBOUND:
                        it.raise_("KeyError", st, k)
                    return v
                return v.b if v.a is UNBOUND else v.a
            return v
        if isinstance(k, T) and not is_const(k):
            return mk("getitem", it.term(o, st), (k,))
        if h.other is not None:
            return mk("getitem", h.other, (const(k),))
        if isinstance(k, int) and not isinstance(k, bool) and h.items and all(isinstance(q, str) for q in h.items):
            # positional access to a labelled series
            vs = list(h.items.values())
            if -len(vs) <= k < len(vs) and h.owner == "series":
                return vs[k]
        it.raise_("KeyError", st, k)
    if isinstance(h, HLst) or isinstance(o, Tup):
        items = h.items if h is not None else o.items
        i = it.deph(i, st)
        if isinstance(i, SliceVal):
            try:
                sl = slice(*[None if x is NONE else cval(x) for x in (i.lo, i.hi, i.step)])
            except Exception:
                return it.alloc(st, HOpq(unk("list slice")))
            r = items[sl]
            return it.alloc(st, HLst(r)) if h is not None else Tup(r)
        t = it.term(i, st)
        if t.op == "const":
            k = cval(t)
            if not isinstance(k, int):
                it.raise_("TypeError", st, "list index")
            if not -len(items) <= k < len(items):
                it.raise_("IndexError", st, k)
            return items[k]
        if t.op == "ite":
            return it.split(t.args[0], lambda s: getitem(it, o, it.get(s, o), t.args[1], s),
                            lambda s: getitem(it, o, it.get(s, o), t.args[2], s), st)
        return mk("getitem", it.term(o, st), (t,))
    if isinstance(h, HDF):
        return df_getitem(it, o, h, i, st)
    if isinstance(o, ExtMeth) and o.name in ("loc", "iloc", "at", "iat"):
        h2 = it.get(st, o.recv)
        if isinstance(h2, HDF):
            return df_loc(it, o.recv, h2, i, st, o.name in ("iloc", "iat"))
        if isinstance(h2, HDct):
            k = it.term(i, st)
            if o.name == "iloc" and is_const(k):
                return list(h2.items.values())[cval(k)]
            return getitem(it, o.recv, h2, i, st)
        return getitem(it, o.recv, h2, i, st)
    if isinstance(h, HArr) or isinstance(o, T) or isinstance(h, HOpq) or isinstance(o, RangeVal):
        if isinstance(o, T) and o.op == "const":
            if cval(o) is None:
                it.raise_("TypeError", st, "None is not subscriptable")
            if isinstance(cval(o), str):
                try:
                    if isinstance(i, SliceVal):
                        return const(cval(o)[slice(*[None if x is NONE else cval(x) for x in (i.lo, i.hi, i.step)])])
                    return const(cval(o)[cval(it.term(i, st))])
                except (IndexError, KeyError, TypeError):
                    it.raise_("IndexError", st)
            it.raise_("TypeError", st, "not subscriptable")
        t = it.term(o, st)
        if t.op == "sig":
            pass
        items = idx_items(it, i, st)
        r = index(t, items)
        if isinstance(h, HArr) and all(isinstance(x, SliceVal) or x is NONE or x == "..." or
                                       (isinstance(x, T) and shape(x) == ()) for x in items) and shape(r) != ():
            return it.alloc(st, HArr(r, h.owner, "ndarray", o.a, h.name))
        return r
    if isinstance(o, Ext):
        return o
    if isinstance(h, HSet):
        it.raise_("TypeError", st, "set is not subscriptable")
    if isinstance(h, HEst):
        return mk("getitem", it.est_term(h), (it.term(i, st),))
    raise Unsupported("getitem of " + type(o).__name__)


def setitem(it, o, h, i, v, st):
    if isinstance(h, HDct):
        it.mutate(o, st, "item assignment")
        d = dict(h.items)
        k = it.dkey(i, st)
        d[k] = it.materialise(v, st)
        st.heap[o.a] = HDct(d, h.owner, h.other)
        return None
    if isinstance(h, HLst):
        it.mutate(o, st, "item assignment")
        t = it.term(i, st) if not isinstance(i, SliceVal) else i
        items = list(h.items)
        if isinstance(t, T) and t.op == "const":
            k = cval(t)
            if not isinstance(k, int):
                it.raise_("TypeError", st, "list index")
            if not -len(items) <= k < len(items):
                it.raise_("IndexError", st, k)
            items[k] = it.materialise(v, st)
            st.heap[o.a] = HLst(items, h.owner)
            return None
        if isinstance(t, SliceVal) and all(q is NONE or is_const(q) for q in (t.lo, t.hi, t.step)):
            w = it.iterate(v, st)
            if w is not None:
                try:
                    items[slice(*(cval(q) for q in (t.lo, t.hi, t.step)))] = list(w)
                except ValueError:
                    it.raise_("ValueError", st, "slice assignment")
                st.heap[o.a] = HLst(items, h.owner)
                return None
        st.heap[o.a] = HOpq(unk("list store"))
        return None
    if isinstance(h, HDF):
        it.mutate(o, st, "column assignment")
        k = it.term(i, st)
        if k.op == "const":
            d = dict(h.cols)
            d[cval(k)] = bcast_to(it.term(v, st), h.nrows)
            st.heap[o.a] = HDF(d, h.nrows, h.owner, h.index)
        else:
            ls = labels(it, st, i)
            if ls is not None:
                d = dict(h.cols)
                t = it.term(v, st)
                for j, c in enumerate(ls):
                    d[c] = bcast_to(t if rank0(t) else index(t, [SliceVal(NONE, NONE, NONE), const(j)]), h.nrows)
                st.heap[o.a] = HDF(d, h.nrows, h.owner, h.index)
            else:
                st.heap[o.a] = HOpq(unk("frame store"))
        return None
    if isinstance(o, ExtMeth) and o.name in ("loc", "iloc", "at", "iat"):
        h2 = it.get(st, o.recv)
        if isinstance(h2, HDF):
            it.mutate(o.recv, st, o.name + " assignment")
            r, c = i.items if isinstance(i, Tup) and len(i.items) == 2 else (i, None)
            names = list(h2.cols)
            if c is None or isinstance(c, SliceVal):
                sel = names if c is None or c.full() else None
            elif is_const(it.term(c, st)):
                k = cval(it.term(c, st))
                sel = [names[k] if o.name in ("iloc", "iat") else k]
            else:
                sel = labels(it, st, c)
            if sel is None:
                st.heap[o.recv.a] = HOpq(unk("frame store"))
                return None
            d = dict(h2.cols)
            t = it.term(v, st)
            rt = r
            if not isinstance(r, SliceVal):
                rt = it.term(r, st)
                if is_const(rt) and h2.index is not None and o.name in ("loc", "at"):
                    ix = [cval(x) if is_const(x) else x for x in h2.index]
                    rt = const(ix.index(cval(rt))) if cval(rt) in ix else None
                    if rt is None:
                        st.heap[o.recv.a] = HOpq(unk("frame append"))
                        return None
            for j, cn in enumerate(sel):
                tv = t if rank0(t) or len(sel) == 1 else index(
                    t, [const(j)] if len(shape(t) or ()) == 1 else [SliceVal(NONE, NONE, NONE), const(j)])
                if isinstance(rt, SliceVal) and rt.full():
                    d[cn] = bcast_to(tv, h2.nrows)
                else:
                    base = d.get(cn, fill(NAN, (h2.nrows,)))
                    nv = simp.store(base, [rt], tv)
                    d[cn] = nv if nv is not None else unk("frame store")
            st.heap[o.recv.a] = HDF(d, h2.nrows, h2.owner, h2.index)
            return None
        if isinstance(h2, HDct):
            return setitem(it, o.recv, h2, i, v, st)
        return setitem(it, o.recv, h2, i, v, st)
    if isinstance(h, HArr):
        it.mutate(o, st, "element assignment")
        items = idx_items(it, i, st)
        tv = it.term(v, st)
        r = simp.store(h.content, items, tv)
        if r is None:
            r = mk("wstore", h.content, tuple(x if isinstance(x, T) else (mk("slice", x.lo, x.hi, x.step) if isinstance(
                x, SliceVal) else const("...")) for x in items), tv)
            r.cache["shape"] = shape(h.content)
        it.event("store", (o.a, h.content, tuple(items), tv), st)
        for ad in (o.a, h.base):
            if ad in it.narrow:
                it.event("like", (it.narrow[ad], tv, False), st)
                break
        else:
            if o.a not in it.isfloat and h.base not in it.isfloat:
                it.event("like", (h.content, tv, False), st)
        st.heap[o.a] = h.with_(r)
        it.writeback(o, st)
        return None
    if isinstance(h, HOpq):
        st.heap[o.a] = HOpq(mk("wstore", h.term, (it.term(i, st) if not isinstance(i, (SliceVal, Tup)) else unk("i"),),
                               it.term(v, st)))
        return None
    if isinstance(o, T):
        if o.op == "const":
            it.raise_("TypeError", st, "item assignment")
        items = idx_items(it, i, st)
        r = simp.store(o, items, it.term(v, st))
        if r is None:
            r = unk("store")
        return it.alloc(st, HArr(r))
    if isinstance(o, Tup):
        it.raise_("TypeError", st, "tuple item assignment")
    if isinstance(h, HEst):
        return None
    raise Unsupported("setitem of " + type(o).__name__)


def setattr(it, o, h, name, v, st):
    if isinstance(h, HDF):
        if name == "columns":
            ls = labels(it, st, v)
            if ls is None:
                l = it.iterate(v, st)
                ls = [it.term(x, st) for x in l] if l is not None else None
            if ls is not None and len(ls) == len(h.cols):
                it.mutate(o, st, "columns")
                st.heap[o.a] = HDF(dict(zip(ls, h.cols.values())), h.nrows, h.owner, h.index)
                return
        if name == "index":
            it.mutate(o, st, "index")
            l = it.iterate(v, st)
            st.heap[o.a] = HDF(h.cols, h.nrows, h.owner, tuple(it.term(x, st) for x in l) if l is not None else None)
            return
        st.heap[o.a] = HOpq(unk("frame attribute"))
        return
    if isinstance(h, HEst):
        if h.user:
            it.event("mutate", (h.user, "attribute " + name), st)
        return
    if isinstance(h, HArr):
        if name == "name":
            st.heap[o.a] = HArr(h.content, h.owner, h.kind, h.base, None)
            return
        if name == "shape":
            raise Unsupported("shape assignment")
        return
    if isinstance(h, HOpq):
        return
    if isinstance(o, T) and o.op == "const":
        it.raise_("AttributeError", st, name)
    if isinstance(o, ClassVal):
        o.info.ns[name] = v
        return
    raise Unsupported("setattr on " + type(o).__name__)


# ================================================================= calls on library values
# keywords without influence on the modelled value
IGNKW = {"msg", "ensure_min_samples", "ensure_min_features", "estimator", "input_name", "approx_grad", "force_all_finite", "ensure_all_finite", "allow_nd", "multi_output", "n_jobs", "verbose", "copy", "order", "casting", "subok", "pre_dispatch", "stacklevel", "category", "warn"}
_KW = {}
SKVERSION = "1.6.1"      # the installed release; both branches of the only comparison (>= 1.6) are modelled alike


def known_kw(f):
    """keyword names a model function looks at (string constants of its code, its closures and direct helpers)"""
    r = _KW.get(f)
    if r is None:
        r, seen, todo = set(vars(f).get("kws", ())), set(), [(f, 0)]
        while todo:
            g, d = todo.pop()
            c = vars(g).get("__wrapped__", g).__code__ if type(g).__name__ == "function" else None
            if c is None or c in seen:
                continue
            seen.add(c)
            if "kw" not in c.co_varnames + c.co_freevars:
                continue
            cs = [c]
            while cs:
                x = cs.pop()
                if "kw" in x.co_varnames + x.co_freevars and "items" in x.co_names:
                    r.add("*")
                for k in x.co_consts:
                    if isinstance(k, str):
                        r.add(k)
                    elif isinstance(k, tuple):
                        r.update(y for y in k if isinstance(y, str))
                    elif hasattr(k, "co_consts"):
                        cs.append(k)
                if d < 2:
                    todo += [(g.__globals__[nm], d + 1) for nm in x.co_names if callable(g.__globals__.get(nm))]
            for cell in g.__closure__ or ():
                if callable(cell.cell_contents):
                    todo.append((cell.cell_contents, d))
                elif isinstance(cell.cell_contents, (tuple, list, set)):
                    r.update(y for y in cell.cell_contents if isinstance(y, str))
        _KW[f] = r
    return r


# ================================================================= iteration helpers of the standard library
def listof(it, st, vals):
    return it.alloc(st, HLst(vals))


@ext("itertools.product")
def it_product(it, st, args, kw):
    import itertools
    ls = [it.iterate(a, st) for a in args]
    k = kw.get("repeat", ONE)
    if any(x is None for x in ls) or not is_const(k):
        return opq(it, st, "itertools.product", args, kw)
    return listof(it, st, [Tup(p) for p in itertools.product(*ls, repeat=cval(k))])


def it_comb(name):
    def f(it, st, args, kw):
        import itertools
        v = it.iterate(args[0], st)
        r = arg(args, kw, 1, "r", NONE)
        if v is None or not is_const(r):
            return opq(it, st, "itertools." + name, args, kw)
        a = (cval(r),) if r is not NONE else ()
        return listof(it, st, [Tup(p) for p in _bi.getattr(itertools, name)(v, *a)])
    return f


EXT["itertools.combinations"] = it_comb("combinations")
EXT["itertools.permutations"] = it_comb("permutations")
EXT["itertools.combinations_with_replacement"] = it_comb("combinations_with_replacement")


@ext("itertools.chain")
def it_chain(it, st, args, kw):
    out = []
    for a in args:
        v = it.iterate(a, st)
        if v is None:
            return opq(it, st, "itertools.chain", args, kw)
        out += v
    return listof(it, st, out)


@ext("itertools.chain.from_iterable")
def it_chain_from(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None:
        return opq(it, st, "itertools.chain", args, kw)
    return it_chain(it, st, v, {})


@ext("itertools.repeat")
def it_repeat(it, st, args, kw):
    k = arg(args, kw, 1, "times", None)
    if k is None or not is_const(it.term(k, st)):
        return opq(it, st, "itertools.repeat", args, kw)
    return listof(it, st, [args[0]] * cval(it.term(k, st)))


@ext("itertools.islice")
def it_islice(it, st, args, kw):
    v = it.iterate(args[0], st)
    c = [it.term(a, st) for a in args[1:]]
    if v is None or not all(x.op == "const" for x in c):
        return opq(it, st, "itertools.islice", args, kw)
    return listof(it, st, v[slice(*[cval(x) for x in c])])


@ext("itertools.starmap")
def it_starmap(it, st, args, kw):
    v = it.iterate(args[1], st)
    rows = None if v is None else [it.iterate(x, st) for x in v]
    if rows is None or any(r is None for r in rows):
        return opq(it, st, "itertools.starmap", args, kw)
    return listof(it, st, [it.materialise(it.call(args[0], list(r), {}, st), st) for r in rows])


@ext("itertools.pairwise")
def it_pairwise(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None:
        return opq(it, st, "itertools.pairwise", args, kw)
    return listof(it, st, [Tup((a, b)) for a, b in zip(v, v[1:])])


@ext("numpy.ndindex")
def np_ndindex(it, st, args, kw):
    import itertools
    if len(args) == 1:
        v = it.iterate(args[0], st)
        args = v if v is not None else args
    ds = [it.term(a, st) for a in args]
    if not all(d.op == "const" for d in ds):
        return opq(it, st, "numpy.ndindex", args, kw)
    return listof(it, st, [Tup([const(i) for i in p]) for p in itertools.product(*[range(cval(d)) for d in ds])])


@ext("functools.partial")
def ft_partial(it, st, args, kw):
    f, a0, k0 = args[0], list(args[1:]), dict(kw)
    return Builtin("partial", lambda i, s, a, k: i.call(f, a0 + list(a), {**k0, **k}, s))


@ext("functools.reduce")
def ft_reduce(it, st, args, kw):
    v = it.iterate(args[1], st)
    if v is None:
        return opq(it, st, "functools.reduce", args, kw)
    v = list(v)
    acc = args[2] if len(args) > 2 else v.pop(0)
    for x in v:
        acc = it.materialise(it.call(args[0], [acc, x], {}, st), st)
    return acc


@ext("operator.itemgetter")
def op_itemgetter(it, st, args, kw):
    ks = list(args)

    def f(i, s, a, k):
        r = [i.getitem(a[0], q, s) for q in ks]
        return r[0] if len(r) == 1 else Tup(r)
    return Builtin("itemgetter", f)


@ext("operator.attrgetter")
def op_attrgetter(it, st, args, kw):
    ks = [cval(a) for a in args]

    def one(i, o, path, s):
        for p in path.split("."):
            o = i.getattr(o, p, s)
        return o

    def f(i, s, a, k):
        r = [one(i, a[0], q, s) for q in ks]
        return r[0] if len(r) == 1 else Tup(r)
    return Builtin("attrgetter", f)


def op_of(path):
    def f(it, st, args, kw):
        return it.call(Ext(path), args, kw, st)
    return f


def op_binary(o):
    def f(it, st, args, kw):
        return it.binop(o, args[0], args[1], st)
    return f


@ext("scipy.stats.norm.isf")
def norm_isf(it, st, args, kw):
    if kw.get("loc") is not None or kw.get("scale") is not None or len(args) > 1:
        return opq(it, st, "norm.isf", args, kw)
    return norm_ppf(it, st, [bin_("-", ONE, it.term(arg(args, kw, 0, "q"), st))], {})


def axes_mover(name):
    def f(it, st, args, kw):
        t = it.term(args[0], st)
        s = shape(t)
        i = arg(args, kw, 1, "axis1" if name == "numpy.swapaxes" else "source", NONE)
        j = arg(args, kw, 2, "axis2" if name == "numpy.swapaxes" else "destination", NONE)
        i, j = it.term(i, st), it.term(j, st)
        if s is None or not isinstance(i.op == "const" and cval(i), int) or not isinstance(j.op == "const" and cval(j), int):
            return opq(it, st, name, args, kw)
        i, j = cval(i) % len(s), cval(j) % len(s)
        ax = list(range(len(s)))
        if name == "numpy.moveaxis":
            ax.insert(j, ax.pop(i))
        else:
            ax[i], ax[j] = ax[j], ax[i]
        return transpose_axes(it, st, t, Tup([const(a) for a in ax]))
    return f


EXT["numpy.swapaxes"] = axes_mover("numpy.swapaxes")
EXT["numpy.moveaxis"] = axes_mover("numpy.moveaxis")


@ext("numpy.take")
def np_take(it, st, args, kw):
    ax = arg(args, kw, 2, "axis", NONE)
    t = it.term(args[0], st)
    s = shape(t)
    ax = it.term(ax, st)
    if set(kw) - {"axis", "indices"} or s is None or ax.op != "const" or (ax is NONE and len(s) != 1):
        return opq(it, st, "numpy.take", args, kw)
    k = 0 if ax is NONE else cval(ax) % len(s)
    ix = [SliceVal(NONE, NONE, NONE)] * k + [arg(args, kw, 1, "indices")]
    return it.getitem(args[0], ix[0] if len(ix) == 1 else Tup(ix), st)


@ext("numpy.flip")
def np_flip(it, st, args, kw):
    t = it.term(args[0], st)
    s = shape(t)
    if s is None or len(s) != 1 or kw or len(args) > 1:
        return opq(it, st, "numpy.flip", args, kw)
    return it.getitem(args[0], SliceVal(NONE, NONE, const(-1)), st)


@ext("numpy.size")
def np_size(it, st, args, kw):
    if kw or len(args) > 1:
        return opq(it, st, "numpy.size", args, kw)
    return it.getattr(it.call(Ext("numpy.asarray"), args, {}, st), "size", st)


@ext("math.prod")
def m_prod(it, st, args, kw):
    v = it.iterate(args[0], st)
    if v is None or kw:
        return opq(it, st, "math.prod", args, kw)
    r = ONE
    for x in v:
        r = bin_("*", r, it.term(x, st))
    return r


@ext("math.fsum")
def m_fsum(it, st, args, kw):
    return it.call(Ext("builtins.sum"), args, kw, st)


def m_pred(name):
    return lambda it, st, args, kw: fn(name, it.term(args[0], st))


for _n in ("isnan", "isfinite", "isinf"):
    EXT["math." + _n] = m_pred(_n)


@ext("numpy.log1p")
def np_log1p(it, st, args, kw):
    return it.call(Ext("numpy.log"), [bin_("+", ONE, it.term(args[0], st))], {}, st)


@ext("numpy.expm1")
def np_expm1(it, st, args, kw):
    return bin_("-", it.term(it.call(Ext("numpy.exp"), [args[0]], {}, st), st), ONE)


@ext("numpy.hypot")
def np_hypot(it, st, args, kw):
    a, b = it.term(args[0], st), it.term(args[1], st)
    return fn("sqrt", bin_("+", bin_("*", a, a), bin_("*", b, b)))


@ext("numpy.select")
def np_select(it, st, args, kw):
    cs, vs = it.iterate(args[0], st), it.iterate(args[1], st)
    if cs is None or vs is None or len(cs) != len(vs):
        return opq(it, st, "numpy.select", args, kw)
    r = arg(args, kw, 2, "default", ZERO)
    for c, v in reversed(list(zip(cs, vs))):
        r = it.call(Ext("numpy.where"), [c, v, r], {}, st)
    return r


@ext("collections.OrderedDict")
def c_odict(it, st, args, kw):
    return b_dict(it, st, args, kw)


@ext("builtins.pow")
def b_pow(it, st, args, kw):
    if len(args) != 2:
        return opq(it, st, "pow", args, kw)
    return it.binop("**", args[0], args[1], st)


@ext("builtins.divmod")
def b_divmod(it, st, args, kw):
    return Tup((it.binop("//", args[0], args[1], st), it.binop("%", args[0], args[1], st)))


for _n, _o in (("add", "+"), ("sub", "-"), ("mul", "*"), ("truediv", "/"), ("floordiv", "//"), ("mod", "%"), ("pow", "**"),
               ("matmul", "@")):
    EXT["operator." + _n] = op_binary(_o)
for _n, _p in (("neg", "numpy.negative"), ("abs", "builtins.abs")):
    EXT["operator." + _n] = op_of(_p)


def call(it, fn_, args, kw, st):
    if isinstance(fn_, Ext):
        p = canon(fn_.path)
        f = EXT.get(p)
        if f is not None:
            args, kw = list(args), dict(kw)
            if not args and not p.startswith(("builtins.", "pandas.", "sklearn.model_selection.", "joblib.", "rdrobust.", "numpy.random.binomial", "numpy.random.choice")):
                for k in FIRSTARG:
                    if k in kw:
                        args = [kw.pop(k)]
                        break
            bad = [] if "*" in known_kw(f) or p.startswith("rdrobust.") else [k for k in kw if k not in known_kw(f) and k not in IGNKW]
            if bad:
                it.note_unmodelled(f"{p}({bad[0]}=)")
                return opq(it, st, f"{p}({bad[0]}=)", args, kw)
            return f(it, st, args, kw)
        if p.startswith(("builtins.set.", "builtins.list.", "builtins.dict.", "builtins.str.", "builtins.frozenset.")) and args:
            return it.call(it.getattr(args[0], p.split(".")[-1], st), list(args[1:]), dict(kw), st)
        if p.startswith("builtins.") and p[9:] in EXCN:
            return mk("excobj", p[9:])
        if p.startswith("numpy.random."):
            return rngfn(p[13:])(it, st, args, kw)
        return opq(it, st, p, args, kw)
    if isinstance(fn_, ExtMeth):
        return meth(it, fn_.recv, fn_.name, list(args), dict(kw), st)
    if isinstance(fn_, T):
        if fn_.op == "const":
            it.raise_("TypeError", st, "not callable")
        if fn_.op == "sym" and syminfo(fn_).get("callable"):
            return syminfo(fn_)["callable"](it, st, args, kw)
        if fn_.op == "classof":
            return unk("class call")
        if not (fn_.op == "getattr" and fn_.args[1] in ("issubset", "issuperset", "isdisjoint")):
            it.note_unmodelled("call of " + fn_.op)
        elif fn_.args[1] == "issubset" and isinstance(fn_.args[0], T) and len(args) == 1 and not kw:
            hb = it.get(st, it.deph(args[0], st))
            if not isinstance(hb, HSet):
                v = None if isinstance(it.deph(args[0], st), RangeVal) else it.iterate(args[0], st)
                hb = None if v is None else HSet(uniq(it, st, v))
            r = None if hb is None else values_within(it, st, fn_.args[0], hb)
            if r is not None:
                return r
        return mk("call", "apply", (fn_,) + tuple(it.term(a, st) for a in args),
                  tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))
    if isinstance(fn_, (Tup, Partial, SliceVal, RangeVal)):
        it.raise_("TypeError", st, "not callable")
    h = it.get(st, fn_)
    if isinstance(h, (HLst, HDct, HArr, HDF, HSet)):
        it.raise_("TypeError", st, "not callable")
    if isinstance(h, HOpq):
        return mk("call", "apply", (h.term,) + tuple(it.term(a, st) for a in args), ())
    if isinstance(h, HEst):
        it.raise_("TypeError", st, "not callable")
    raise Unsupported("call of " + type(fn_).__name__)


from .interp import EXC_BASES as _EB  # noqa: E402  (circular import resolved at call time)
EXCN = set(_EB) | {"Warning", "UserWarning"}

FIRSTARG = ("a", "x", "arr", "ary", "array", "obj", "object", "m", "arrays", "tup", "y_true", "shape", "p", "q", "v",
            "condition", "values", "ar", "ar1", "x1", "prototype", "estimator", "fun", "f", "pvals", "element", "endog")

ALIAS = {"scipy.stats._continuous_distns.norm": "scipy.stats.norm", "np": "numpy"}


def canon(p):
    return p


STRM = {"join", "format", "startswith", "endswith", "lower", "casefold", "capitalize", "swapcase", "count", "find", "zfill",
        "ljust", "rjust", "center", "removeprefix", "removesuffix", "splitlines", "partition", "upper", "replace",
        "strip", "split", "title", "lstrip",
        "rstrip", "isdigit", "capitalize"}

ARRMETHODS = {"mean", "sum", "median", "max", "min", "any", "all", "std", "var", "prod", "reshape", "ravel", "flatten",
              "squeeze", "transpose", "swapaxes", "copy", "astype", "to_numpy", "tolist", "dot", "fill", "sort", "item", "argsort",
              "clip", "round", "repeat", "isin", "unique", "quantile", "nonzero", "abs", "notna", "notnull", "isna",
              "isnull", "take", "between", "eq", "value_counts", "nunique"}


def meth(it, o, name, args, kw, st):
    o = it.deph(o, st)
    if isinstance(o, Ext):
        return call(it, Ext(o.path + "." + name), args, kw, st)
    h = it.get(st, o)
    if isinstance(h, HMI) and name == "to_frame":
        return mi_frame(it, h, [o] + list(args), kw, st)
    if isinstance(h, HLst):
        return lst_meth(it, o, h, name, args, kw, st)
    if isinstance(h, HDct):
        return dct_meth(it, o, h, name, args, kw, st)
    if isinstance(h, HSet):
        return set_meth(it, o, h, name, args, kw, st)
    if isinstance(h, HDF):
        return df_meth(it, o, h, name, args, kw, st)
    if isinstance(h, HEst):
        return est_meth(it, o, h, name, args, kw, st)
    if isinstance(o, Tup):
        if name == "index":
            for k, x in enumerate(o.items):
                if it.decide(it.truth(compare(it, "==", x, args[0], st), st), st):
                    return const(k)
            it.raise_("ValueError", st, "index")
        if name == "count" or name in dir(()):
            return opq(it, st, "tuple." + name, [o] + args, kw)
        it.raise_("AttributeError", st, name)
    if isinstance(o, T) and (o.op == "const" and isinstance(cval(o), str) or o.op == "fmt"):
        return str_meth(it, o, name, args, kw, st)
    t = it.term(o, st)
    if t.op == "cvobj":
        if name == "split":
            return cv_split(it, o, t, args, kw, st)
        return unk("cvobj." + name)
    if isinstance(h, HOpq) and t.op not in ("call", "ite", "bin", "gather", "arr", "fn"):
        r = opq_meth(it, o, h, t, name, args, kw, st)
        if r is not None:
            return r
    return arr_meth(it, o, h if isinstance(h, HArr) else None, t, name, args, kw, st)


def scall(name, args, kw=()):
    """library function with a scalar result"""
    r = mk("call", name, args, kw)
    r.cache["kshape"] = ()
    return r


def ols_parts(t):
    """coefficients, covariance and standard errors of a fitted linear regression with a known number of regressors"""
    mod, ks = t.args
    y, X = mod.args[1:]
    s = shape(X)
    if s is None or len(s) != 2 or not isinstance(s[1], int):
        return None
    k = s[1]
    y = y if shape(y) and len(shape(y)) == 1 else y
    cols = tuple(simp.index(X, [SliceVal(NONE, NONE, NONE), const(j)]) for j in range(k))
    coef = [scall( "ols.coef", (y, mk("tup", cols), const(j)), ()) for j in range(k)]
    cov = [[scall( "ols.cov", (y, mk("tup", cols), const(min(i, j)), const(max(i, j))), ks) for j in range(k)]
           for i in range(k)]
    d = dict(ks)
    ct = d.get("cov_type")
    ut = d.get("use_t")
    use_t = (ct is None) if ut is None or ut is NONE else (cval(ut) if is_const(ut) else None)
    return k, coef, cov, [fn("sqrt", cov[j][j]) for j in range(k)], use_t, s[0]


def ols_quantile(k, n, use_t, q):
    """quantile of the reference distribution of the coefficients at probability q"""
    if use_t is False:
        return scall( "norm.ppf", (q,), ())
    return scall( "ols.tppf" if use_t else "ols.refppf", (q, tint(n), const(k)), ())


def ols_meth(it, st, t, name, args, kw):
    p = ols_parts(t)
    if p is None:
        return None
    k, coef, cov, se, use_t, n = p
    if name == "cov_params" and not args and not kw:
        return it.alloc(st, HDF({j: arr((k,), [cov[i][j] for i in range(k)]) for j in range(k)}, k, None, None))
    if name == "conf_int" and set(kw) <= {"alpha"} and len(args) <= 1:
        al = it.term(arg(args, kw, 0, "alpha", const(0.05)), st)
        if use_t is False:
            q = it.term(call(it, Ext("scipy.stats.norm.ppf"), [bin_("-", ONE, bin_("/", al, const(2)))], {}, st), st)
        else:
            q = ols_quantile(k, n, use_t, bin_("-", ONE, bin_("/", al, const(2))))
        return it.alloc(st, HDF({0: arr((k,), [bin_("-", coef[j], bin_("*", q, se[j])) for j in range(k)]),
                                 1: arr((k,), [bin_("+", coef[j], bin_("*", q, se[j])) for j in range(k)])}, k, None, None))
    if name == "predict":
        B = it.term(arg(args, kw, 0, "exog", t.args[0].args[2]), st)
        s = shape(B)
        if s is None or len(s) != 2 or s[1] != k:
            return None
        r = None
        for j in range(k):
            x = bin_("*", simp.index(B, [SliceVal(NONE, NONE, NONE), const(j)]), coef[j])
            r = x if r is None else bin_("+", r, x)
        return it.alloc(st, HArr(r, None, "series"))
    return None


def ols_attr(it, st, t, name):
    p = ols_parts(t)
    if p is None:
        return None
    k, coef, cov, se, use_t, n = p
    if name == "params":
        return it.alloc(st, HArr(arr((k,), coef), None, "series"))
    if name == "bse":
        return it.alloc(st, HArr(arr((k,), se), None, "series"))
    if name == "tvalues":
        return it.alloc(st, HArr(arr((k,), [bin_("/", coef[j], se[j]) for j in range(k)]), None, "series"))
    if name == "pvalues":
        return it.alloc(st, HArr(arr((k,), [scall( "ols.pvalue", (coef[j], se[j], const(use_t)), ()) for j in range(k)]),
                                 None, "series"))
    if name == "fittedvalues":
        return ols_meth(it, st, t, "predict", [], {})
    return None


def opq_meth(it, o, h, t, name, args, kw, st):
    if t.op == "regmodel" and name == "fit":
        # keep the sandwich type of the fit
        ks = tuple(sorted((k, it.term(v, st)) for k, v in kw.items()))
        it.event("ols", (t, ks), st)
        ks = tuple((k, v) for k, v in ks if not (k == "cov_type" and is_const(v) and cval(v) == "nonrobust"))
        return it.alloc(st, HOpq(mk("regres", t, ks)))
    if t.op == "regres":
        r = ols_meth(it, st, t, name, args, kw)
        if r is not None:
            return r
        if name in ("cov_params", "conf_int", "summary", "get_robustcov_results", "predict"):
            r = mk("meth", name, t, tuple(it.term(a, st) for a in args),
                   tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))
            X = t.args[0].args[2]
            s = shape(X)
            if name == "cov_params" and s and len(s) == 2:
                r.cache["kshape"] = (s[1], s[1])
            return r
    if t.op == "kde":
        if name == "fit":
            ks = tuple(sorted((k, it.term(v, st)) for k, v in kw.items()))
            st.heap[o.a] = HOpq(mk("kde", t.args[0], mk("params", ks)))
            return o
        if name == "evaluate":
            r = mk("call", "kde.evaluate", (t, it.term(args[0], st)), ())
            r.cache["kshape"] = (1,)
            return r
    if t.op == "object":
        if t.args[0] == "LabelEncoder" and name in ("fit_transform", "transform"):
            x = it.term(args[0], st)
            return x
        if t.args[0] == "LabelEncoder" and name == "fit":
            return o
        if t.args[0] == "rng":
            r = rngfn(name)(it, st, args, kw)
            return r
        if t.args[0] == "StringIO":
            return mk("fmt", (mk("call", "buf", (), ()),))
    if t.op == "maplist":
        if name == "append":
            st.heap[o.a] = HOpq(unk("append to unknown list"))
            return NONE
    if name in ("append", "extend", "update", "remove", "insert", "pop", "clear", "sort"):
        st.heap[o.a] = HOpq(unk("mutated opaque"))
        return NONE if name != "pop" else unk("pop")
    return None


def lst_meth(it, o, h, name, args, kw, st):
    if name in ("append", "extend", "remove", "insert", "pop", "clear", "sort", "reverse"):
        it.mutate(o, st, name)
    if name == "append":
        st.heap[o.a] = HLst(h.items + (it.materialise(args[0], st),), h.owner)
        return NONE
    if name == "extend":
        v = it.iterate(args[0], st)
        if v is None:
            st.heap[o.a] = HOpq(unk("extend"))
        else:
            st.heap[o.a] = HLst(h.items + tuple(v), h.owner)
        return NONE
    if name == "insert":
        items = list(h.items)
        items.insert(cval(it.term(args[0], st)), it.materialise(args[1], st))
        st.heap[o.a] = HLst(items, h.owner)
        return NONE
    if name in ("remove", "index", "count"):
        pos = []
        for k, x in enumerate(h.items):
            d = it.decide(it.truth(compare(it, "==", it.deph(x, st), it.deph(args[0], st), st), st), st)
            if d is None:
                if name == "remove":
                    st.heap[o.a] = HOpq(unk("remove"))
                    return NONE
                return mk("call", "list." + name, (it.term(o, st), it.term(args[0], st)), ())
            if d:
                pos.append(k)
        if name == "count":
            return const(len(pos))
        if not pos:
            it.raise_("ValueError", st, name)
        if name == "index":
            return const(pos[0])
        items = list(h.items)
        del items[pos[0]]
        st.heap[o.a] = HLst(items, h.owner)
        return NONE
    if name == "pop":
        items = list(h.items)
        k = cval(it.term(args[0], st)) if args else -1
        if not items or not -len(items) <= k < len(items):
            it.raise_("IndexError", st, "pop")
        v = items.pop(k)
        st.heap[o.a] = HLst(items, h.owner)
        return v
    if name == "copy":
        return it.alloc(st, HLst(h.items))
    if name == "clear":
        st.heap[o.a] = HLst((), h.owner)
        return NONE
    if name == "reverse":
        st.heap[o.a] = HLst(tuple(reversed(h.items)), h.owner)
        return NONE
    if name == "sort":
        r = b_sorted(it, st, [o], kw)
        st.heap[o.a] = st.heap[r.a]
        return NONE
    if isinstance(h, HKeys) and name == "isdisjoint":
        return set_meth(it, o, HSet(h.items), name, args, kw, st)
    if name in dir([]):
        return opq(it, st, "list." + name, [o] + list(args), kw)
    it.raise_("AttributeError", st, "list." + name)


def dct_meth(it, o, h, name, args, kw, st):
    live = {k: v for k, v in h.items.items() if v is not UNBOUND}
    kv = lambda k: const(k) if not isinstance(k, (T, Val)) else k  # noqa: E731
    if name == "keys":
        return it.alloc(st, HKeys([kv(k) for k in live]))
    if name == "values":
        return it.alloc(st, HLst(list(live.values())))
    if name == "items":
        return it.alloc(st, HKeys([Tup((kv(k), v)) for k, v in live.items()]))
    if name == "get":
        k = it.dkey(args[0], st)
        if k in live:
            return getitem(it, o, h, args[0], st)
        return arg(args, kw, 1, "default", NONE)
    if name in ("update", "pop", "setdefault", "clear", "popitem"):
        it.mutate(o, st, name)
    if name == "update":
        d = dict(h.items)
        if args:
            h2 = it.get(st, it.deph(args[0], st))
            if isinstance(h2, HDct):
                d.update(h2.items)
            else:
                v = it.iterate(args[0], st)
                if v is None:
                    st.heap[o.a] = HOpq(unk("dict update"))
                    return NONE
                for p in v:
                    k, x = it.unpack(p, 2, st)
                    d[it.dkey(k, st)] = x
        d.update(kw)
        st.heap[o.a] = HDct(d, h.owner, h.other)
        return NONE
    if name == "pop":
        k = it.dkey(args[0], st)
        d = dict(h.items)
        if k in d:
            v = d.pop(k)
            st.heap[o.a] = HDct(d, h.owner, h.other)
            return v
        if len(args) > 1:
            return args[1]
        it.raise_("KeyError", st, k)
    if name == "setdefault":
        k = it.dkey(args[0], st)
        if k in h.items:
            return h.items[k]
        d = dict(h.items)
        d[k] = it.materialise(arg(args, kw, 1, "default", NONE), st)
        st.heap[o.a] = HDct(d, h.owner, h.other)
        return d[k]
    if name == "copy":
        return it.alloc(st, HDct(h.items))
    if name == "clear":
        st.heap[o.a] = HDct({}, h.owner)
        return NONE
    # labelled series used as a dict
    if name in ("all", "any"):
        r = TRUE if name == "all" else FALSE
        for v in live.values():
            r = log("and" if name == "all" else "or", r, it.truth(v, st))
        return r
    if name in ("to_numpy", "tolist"):
        return arr((len(live),), [it.term(v, st) for v in live.values()])
    if name in ("sum", "mean", "max", "min"):
        return red(name, arr((len(live),), [it.term(v, st) for v in live.values()]))
    if name in dir({}):
        return opq(it, st, "dict." + name, [o] + list(args), kw)
    it.raise_("AttributeError", st, "dict." + name)


def set_meth(it, o, h, name, args, kw, st):
    def other(v):
        hv = it.get(st, it.deph(v, st))
        if isinstance(hv, HSet):
            return hv
        l = it.iterate(v, st)
        return None if l is None else HSet(uniq(it, st, l))
    if name in ("isdisjoint", "issubset", "issuperset"):
        b = other(args[0])
        if b is None:
            return mk("call", "in", (it.term(o, st), it.term(args[0], st), const(name)), ())
        ka, kb = {skey(it, st, x) for x in h.items}, {skey(it, st, x) for x in b.items}
        return const({"isdisjoint": not (ka & kb), "issubset": ka <= kb, "issuperset": ka >= kb}[name])
    if name in ("union", "intersection", "difference", "symmetric_difference"):
        r = o
        for a in args:
            b = other(a)
            if b is None:
                return it.alloc(st, HOpq(unk("set op")))
            r = set_op(it, {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^"}[name],
                       it.get(st, r), b, st)
        if not args:
            r = it.alloc(st, HSet(h.items))
        return r
    if name == "copy":
        return it.alloc(st, HSet(h.items))
    if name in ("add", "update", "remove", "discard"):
        it.mutate(o, st, name)
        if name == "add":
            st.heap[o.a] = HSet(uniq(it, st, list(h.items) + [args[0]]), h.owner)
        elif name == "update":
            l = []
            for a in args:
                l += it.iterate(a, st) or []
            st.heap[o.a] = HSet(uniq(it, st, list(h.items) + l), h.owner)
        else:
            k = skey(it, st, args[0])
            keep = [x for x in h.items if skey(it, st, x) != k]
            if name == "remove" and len(keep) == len(h.items):
                it.raise_("KeyError", st)
            st.heap[o.a] = HSet(keep, h.owner)
        return NONE
    if name == "pop":
        it.event("nondet", "set.pop", st)
        return h.items[0] if h.items else it.raise_("KeyError", st)
    if name in ("difference_update", "intersection_update", "symmetric_difference_update", "clear"):
        it.mutate(o, st, name)
        if name == "clear":
            st.heap[o.a] = HSet((), h.owner)
            return NONE
        r = h
        for a in args:
            b = other(a)
            if b is None:
                st.heap[o.a] = HOpq(unk("set op"))
                return NONE
            r = it.get(st, set_op(it, {"difference_update": "-", "intersection_update": "&"}.get(name, "^"), r, b, st))
        st.heap[o.a] = HSet(r.items, h.owner)
        return NONE
    if name in dir(set()):
        return opq(it, st, "set." + name, [o] + list(args), kw)
    it.raise_("AttributeError", st, "set." + name)


def str_meth(it, o, name, args, kw, st):
    if name == "join":
        v = it.iterate(args[0], st)
        if v is not None:
            ts = [it.term(x, st) for x in v]
            if o.op == "const" and all(t.op == "const" and isinstance(cval(t), str) for t in ts):
                return const(cval(o).join(cval(t) for t in ts))
            out = []
            for k, t in enumerate(ts):
                out += ([o] if k else []) + [t]
            return simp.fmtcat(out)
        return mk("fmt", (mk("call", "str.join", (o, it.term(args[0], st)), ()),))
    if o.op == "const":
        ts = [it.term(a, st) for a in args]
        if name == "format":
            ts = [t if t.op == "const" or float_const(t) is None else const(float_const(t)) for t in ts]
        if all(t.op == "const" for t in ts) and not kw and name in STRM:
            try:
                r = _bi.getattr(cval(o), name)(*[cval(t) for t in ts])
                if isinstance(r, list):
                    return it.alloc(st, HLst([const(x) for x in r]))
                return const(r)
            except Exception:
                it.raise_("TypeError", st, "str." + name)
        if name not in dir(str):
            it.raise_("AttributeError", st, "str." + name)
    return mk("fmt", (mk("call", "str." + name, (o,) + tuple(it.term(a, st) for a in args), ()),))


def arr_meth(it, o, h, t, name, args, kw, st):
    if t.op == "const" and cval(t) is None:
        it.raise_("AttributeError", st, "NoneType." + name)
    if name in ("mean", "sum", "median", "max", "min", "any", "all", "std", "var", "prod"):
        kw2 = dict(kw)
        if h is not None and h.kind == "series" and name in ("std", "var") and "ddof" not in kw2:
            kw2["ddof"] = ONE
        return EXT["numpy." + name](it, st, [t] + args, kw2)
    if name == "reshape":
        r = do_reshape(it, st, t, args)
        return view(it, o, h, r, st)
    if name == "squeeze" and (args or kw):
        return np_squeeze(it, st, [t] + args, kw)
    if name in ("ravel", "squeeze"):
        r = ravel(t) if name == "ravel" else (simp.squeeze(t) if simp.squeeze(t) is not None else mk(
            "call", "squeeze", (t,), ()))
        return view(it, o, h, r, st)
    if name == "flatten":
        return ravel(t)
    if name == "transpose":
        return transpose_axes(it, st, t, Tup(args) if len(args) > 1 else (args[0] if args else NONE))
    if name in ("copy",):
        r = it.alloc(st, HArr(t, None, h.kind if h else "ndarray", None, h.name if h else None))
        if h and isfloat(it, o, h):
            it.isfloat.add(r.a)
        return r
    if name == "astype":
        if args and _isbool_dtype(it, args[0], st):
            return asboolmap(t)
        d = it.unlazy(args[0]) if args else None
        it.event("astype", (t, repr(d)), st)
        if rank0(t):
            return t
        r = t
        if isinstance(d, Ext) and d.path in ("builtins.float", "numpy.float64") or True:
            r = it.alloc(st, HArr(r, None, h.kind if h else "ndarray"))
            if isinstance(d, Ext) and d.path in ("builtins.float", "numpy.float64", "numpy.double") or (
                    isinstance(d, T) and is_const(d) and str(cval(d)).startswith("float")):
                it.isfloat.add(r.a)
            return r
    if name == "to_numpy":
        return view(it, o, h, t, st)
    if name == "tolist":
        v = it.iterate(t, st)
        if v is not None:
            return it.alloc(st, HLst(v))
        return it.alloc(st, HOpq(t))
    if name == "item":
        ex = expand(t)
        if ex and len(ex[1]) == 1 and not [d for d in ex[0] if not isinstance(d, int)]:
            return ex[1][0]
        return mk("call", "item", (t,), ())
    if name == "dot":
        return simp.dot(t, it.term(args[0], st))
    if name == "fill":
        it.mutate(o, st, "fill")
        if h is not None:
            st.heap[o.a] = h.with_(fill(it.term(args[0], st), shape(t)))
            it.writeback(o, st)
        return NONE
    if name == "sort":
        if h is not None:
            it.mutate(o, st, "sort")
            st.heap[o.a] = h.with_(it.term(np_sort(it, st, [t], kw), st))
            it.writeback(o, st)
        return NONE
    if name == "clip":
        kw2 = dict(kw)
        if "lower" in kw2:
            kw2["a_min"] = kw2.pop("lower")
        if "upper" in kw2:
            kw2["a_max"] = kw2.pop("upper")
        return np_clip(it, st, [t] + args, kw2)
    if name in ("argsort", "quantile", "repeat", "nonzero", "round"):
        f = EXT.get("numpy." + name)
        if f:
            return f(it, st, [t] + args, kw)
    if name == "swapaxes":
        return EXT["numpy.swapaxes"](it, st, [t] + args, kw)
    if name in ("isin",):
        return np_isin(it, st, [t] + args, kw)
    if name == "unique":
        return np_unique(it, st, [t], {})
    if name == "nunique":
        u = it.term(np_unique(it, st, [t], {}), st)
        s = shape(u)
        return tint(s[0]) if s else opq(it, st, "nunique", [o], {})
    if name in ("isna", "isnull"):
        return fn("isnan", t)
    if name in ("notna", "notnull"):
        return log("not", fn("isnan", t))
    if name == "abs":
        return fn("abs", t)
    if name in ("issubset",):
        return opq(it, st, "issubset", [o] + args, kw)
    if name in ("add", "sub", "mul", "div", "eq"):
        if name == "eq":
            return cmp_("==", t, it.term(args[0], st))
        return bin_({"add": "+", "sub": "-", "mul": "*", "div": "/"}[name], t, it.term(args[0], st))
    if name == "predict":
        return mk("call", "predict", (t,) + tuple(it.term(a, st) for a in args), ())
    if name == "is_integer" and t.op == "const":
        return const(float(cval(t)).is_integer())
    it.note_unmodelled("method ." + name)
    return mk("meth", name, t, tuple(it.term(a, st) for a in args),
              tuple(sorted((k, it.term(v, st)) for k, v in kw.items())))
