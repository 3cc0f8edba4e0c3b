"""Abstract interpreter over the repository's syntax trees (gated value numbering with constant propagation).
Control-flow joins merge states with gate terms; loops over containers of known size are expanded, other loops are
summarised; calls are inlined.  Nothing of the repository is imported or executed."""
from __future__ import annotations

import ast
import os
import sys

from .core import (CUR, FALSE, NONE, ONE, TRUE, UNBOUND, ZERO, Bound, Builtin, ClassVal, Dead, Event, Ext, ExtMeth,
                   FuncVal, HArr, HDct, HDF, HEst, HLst, HObj, HOpq, HSet, ModVal, Partial, Phi, PropVal, RangeVal, Ref,
                   SliceVal, State, SuperVal, T, Tup, Unsupported, Val, const, contains, cval, is_const, mk, sym, unk)
from . import simp, nf

sys.setrecursionlimit(40000)
MAXDEPTH = 90
MAXUNROLL = 64

EXC_BASES = {"TypeError": "Exception", "ValueError": "Exception", "KeyError": "LookupError", "IndexError": "LookupError",
             "LookupError": "Exception", "AttributeError": "Exception", "NotImplementedError": "RuntimeError",
             "RuntimeError": "Exception", "AssertionError": "Exception", "NameError": "Exception",
             "UnboundLocalError": "NameError", "ImportError": "Exception", "ModuleNotFoundError": "ImportError",
             "ZeroDivisionError": "ArithmeticError", "ArithmeticError": "Exception", "StopIteration": "Exception",
             "NotFittedError": "ValueError", "Exception": "BaseException", "PackageNotFoundError": "ImportError"}


def exc_matches(name, base):
    while name:
        if name == base:
            return True
        name = EXC_BASES.get(name)
    return False


STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")


class ClassInfo:
    def __init__(self, name, mod, node):
        self.name, self.mod, self.node = name, mod, node
        self.bases, self.ns, self.mro = [], {}, []

    def __repr__(self):
        return f"<cls {self.name}>"


class Module:
    def __init__(self, name, path, tree):
        self.name, self.path, self.tree = name, path, tree
        self.ns = {}
        self.loaded = False


class Frame:
    __slots__ = ("fid", "fn", "mod", "cls", "parent", "globals_", "name")

    def __init__(self, fid, fn, mod, cls, parent, name):
        self.fid, self.fn, self.mod, self.cls, self.parent, self.name = fid, fn, mod, cls, parent, name


class Flow:
    __slots__ = ("nxt", "brk", "cnt", "ret", "rz")

    def __init__(self, nxt=None):
        self.nxt, self.brk, self.cnt, self.ret, self.rz = nxt, None, None, None, []


def land(a, b):
    return simp.log("and", a, b)


def lor(a, b):
    return simp.log("or", a, b)


def lnot(a):
    return simp.log("not", a)


class Interp:
    def __init__(self, root, package="doubleml"):
        self.root, self.package = root, package
        self.mods = {}
        self.events = []
        self.naddr = 0
        self.nfid = 0
        self.stack = []
        self.loopdepth = 0
        self.isolated = 0
        self.quiet = 0
        self.obligations = []
        self.funcs_seen = set()
        self.calls_seen = set()
        self.raise_count = 0
        self.unmodelled = {}
        self.narrow = {}
        self.static_envs = {}
        self.isfloat = set()
        self.unmodelled_at = {}
        self.steps = 0
        self.maxsteps = 4_000_000
        from . import models
        self.models = models

    # ------------------------------------------------------------ modules
    def ours(self, name):
        """modules whose source is interpreted: the analysed package, and stand-ins for libraries"""
        return name.split(".")[0] in (self.package, "plotly")

    def find_module(self, name):
        root = STUBS if name.split(".")[0] == "plotly" else self.root
        p = os.path.join(root, *name.split("."))
        if os.path.isdir(p) and os.path.exists(os.path.join(p, "__init__.py")):
            return os.path.join(p, "__init__.py")
        if os.path.exists(p + ".py"):
            return p + ".py"
        return None

    def module(self, name):
        m = self.mods.get(name)
        if m is not None:
            return m
        path = self.find_module(name)
        if path is None:
            return None
        with open(path, encoding="utf-8") as fh:
            tree = ast.parse(fh.read(), path)
        m = Module(name, path, tree)
        self.mods[name] = m
        self.exec_module(m)
        return m

    def exec_module(self, m):
        m.ns["__name__"] = const(m.name)
        st = State()
        fr = Frame(self.newfid(), None, m, None, None, "<module>")
        st.envs[fr.fid] = m.ns
        old = CUR["loc"]
        for s in m.tree.body:
            try:
                self.exec_top(s, st, fr, m)
            except (Unsupported, Dead):
                pass
        m.loaded = True
        m.fid = fr.fid
        m.heap = st.heap
        for k, e in st.envs.items():
            if k != fr.fid:
                self.static_envs[k] = e
        CUR["loc"] = old

    def exec_top(self, s, st, fr, m):
        if isinstance(s, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
            self.exec_stmt(s, st, fr)
            m.ns.update(st.envs[fr.fid])
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            self.exec_stmt(s, st, fr)
            m.ns.update(st.envs[fr.fid])
        elif isinstance(s, (ast.If, ast.Try)):
            for b in getattr(s, "body", []):
                self.exec_top(b, st, fr, m)

    def newfid(self):
        self.nfid += 1
        return self.nfid

    def alloc(self, st, obj):
        self.naddr += 1
        st.heap[self.naddr] = obj
        return Ref(self.naddr)

    def get(self, st, v):
        """heap object of a reference"""
        return st.heap.get(v.a) if isinstance(v, Ref) else None

    # ------------------------------------------------------------ events
    def event(self, kind, data, st):
        if self.quiet:
            return
        if kind == "rng" and self.isolated:
            self.events.append(Event("taskdraw", data, st.pc, CUR["loc"], tuple(self.stack)))
        self.events.append(Event(kind, data, st.pc, CUR["loc"], tuple(self.stack)))

    def note_unmodelled(self, what, st=None):
        if CUR["loc"]:
            self.unmodelled_at[f"{what} @{CUR['loc'][0].split('/')[-1]}:{CUR['loc'][1]}"] = 1
        self.unmodelled[what] = self.unmodelled.get(what, 0) + 1

    def raise_(self, exc, st, msg=None):
        self.event("raise", (exc, msg), st)
        self.raise_count += 1
        raise Dead(exc, st)

    # ------------------------------------------------------------ terms of values
    def term(self, v, st):
        """term view of a value"""
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            h = st.heap.get(v.a)
            if isinstance(h, HArr):
                return h.content
            if isinstance(h, HLst):
                return self.lst_term([self.term(x, st) for x in h.items])
            if isinstance(h, HEst):
                return self.est_term(h)
            if isinstance(h, HOpq):
                return h.term
            if isinstance(h, HDF):
                cols = list(h.cols.values())
                if not cols:
                    return mk("emptydf")
                r = simp.stack_cols(cols)
                return r if r is not None else mk("df", tuple(cols))
            if isinstance(h, HDct):
                return mk("dict", tuple((k if not isinstance(k, T) else k, self.term(x, st)) for k, x in
                                        sorted(h.items.items(), key=lambda z: repr(z[0]))))
            if isinstance(h, HSet):
                return mk("set", tuple(sorted((self.term(x, st) for x in h.items), key=lambda t: repr(t))))
            if isinstance(h, HObj):
                return mk("obj", h.cls.name, v.a)
            return unk("ref")
        if isinstance(v, Tup):
            return self.lst_term([self.term(x, st) for x in v.items], "tup")
        if isinstance(v, Phi):
            return simp.ite(v.c, self.term(v.a, st), self.term(v.b, st))
        if isinstance(v, RangeVal):
            c = self.range_list(v)
            if c is not None:
                return self.lst_term([const(i) for i in c])
            if v.lo is ZERO and v.step is ONE:
                return simp.full(simp.dimof(v.hi))
        if isinstance(v, Ext):
            return mk("ext", v.path)
        if isinstance(v, (FuncVal, Builtin, Bound, ClassVal, Partial, ExtMeth, ModVal, SliceVal, PropVal)):
            return mk("val", v)
        return unk("value " + type(v).__name__)

    def lst_term(self, ts, kind="list"):
        """nested sequence as array term when regular"""
        if not ts:
            return simp.arr((0,), ())
        shapes = [simp.shape(t) for t in ts]
        if all(s is not None and s == shapes[0] for s in shapes) and len(ts) <= simp.MAXENUM and \
                not any(t.op in ("dict", "est", "obj", "set", "val") for t in ts):
            el = []
            for t in ts:
                el.extend(simp.expand(t)[1] if simp.expand(t) else (None,))
            if None not in el:
                return simp.arr((len(ts),) + tuple(shapes[0]), el)
        return mk("tup", tuple(ts))

    def est_term(self, h):
        return mk("est", h.base, tuple(h.params), h.fit)

    def range_list(self, v):
        if is_const(v.lo) and is_const(v.hi) and is_const(v.step):
            r = range(cval(v.lo), cval(v.hi), cval(v.step))
            if len(r) <= 5000:
                return list(r)
        return None

    # ------------------------------------------------------------ truth
    def truth(self, v, st):
        """truth value as boolean term"""
        if isinstance(v, T):
            if v.op == "const":
                return const(bool(cval(v)))
            if simp.is_bool(v) or nf.isbinary(v):
                return v
            if v.op in ("str", "fmt"):
                return TRUE
            s = simp.shape(v)
            if v.op in ("ite",):
                return simp.ite(v.args[0], self.truth(v.args[1], st), self.truth(v.args[2], st))
            if v.op == "arr" and len(v.args[1]) == 1:
                return self.truth(v.args[1][0], st)
            if s == ():
                return simp.cmp_("!=", v, ZERO)
            if v.op == "unbound":
                self.raise_("NameError", st, "unbound")
            return mk("pybool", v)
        if isinstance(v, Ref):
            h = st.heap.get(v.a)
            if isinstance(h, (HLst, HSet)):
                return const(len(h.items) > 0)
            if isinstance(h, HDct):
                return const(len(h.items) > 0)
            if isinstance(h, HArr):
                return self.truth(h.content, st)
            if isinstance(h, HOpq):
                return mk("pybool", h.term)
            return TRUE
        if isinstance(v, Tup):
            return const(len(v.items) > 0)
        if isinstance(v, RangeVal):
            c = self.range_list(v)
            return const(bool(c)) if c is not None else mk("pybool", self.term(v, st))
        if isinstance(v, Phi):
            return simp.ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
        return TRUE

    def decide(self, c, st):
        return nf.decide(c, st.facts)

    # ------------------------------------------------------------ merging
    def mv(self, c, a, b, A=None, B=None, out=None):
        if a is b or (type(a) is type(b) and not isinstance(a, T) and a == b):
            return a
        if isinstance(a, T) and isinstance(b, T):
            return simp.ite(c, a, b)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.items) == len(b.items):
            return Tup([self.mv(c, x, y, A, B, out) for x, y in zip(a.items, b.items)])
        if isinstance(a, Ref) and isinstance(b, Ref) and out is not None and A is not None:
            key = (c.uid, a.a, b.a)
            if a.a not in B.heap and b.a not in A.heap:
                if key in self._unify:
                    return self._unify[key]
                ha, hb = A.heap.get(a.a), B.heap.get(b.a)
                if type(ha) is type(hb) and isinstance(ha, (HLst, HDct, HObj)):
                    if isinstance(ha, HLst) and len(ha.items) == len(hb.items):
                        self.naddr += 1
                        r = Ref(self.naddr)
                        self._unify[key] = r
                        out.heap[r.a] = HLst([self.mv(c, x, y, A, B, out) for x, y in zip(ha.items, hb.items)])
                        return r
                    if isinstance(ha, HDct) and list(ha.items) == list(hb.items):
                        self.naddr += 1
                        r = Ref(self.naddr)
                        self._unify[key] = r
                        out.heap[r.a] = HDct({k: self.mv(c, ha.items[k], hb.items[k], A, B, out) for k in ha.items})
                        return r
                    if isinstance(ha, HObj) and ha.cls is hb.cls:
                        self.naddr += 1
                        r = Ref(self.naddr)
                        self._unify[key] = r
                        ks = list(dict.fromkeys(list(ha.fields) + list(hb.fields)))
                        out.heap[r.a] = HObj(ha.cls, {k: self.mv(c, ha.fields.get(k, UNBOUND),
                                                                 hb.fields.get(k, UNBOUND), A, B, out) for k in ks})
                        return r
        return Phi(c, a, b)

    _unify: dict = {}

    def merge(self, c, A, B):
        """state selected by gate c: A when true, B otherwise"""
        self._unify = {}
        out = State()
        out.pc = A.pc
        out.seq = max(A.seq, B.seq)
        out.facts = {k: v for k, v in A.facts.items() if k != "#atoms" and B.facts.get(k) == v}
        fa, fb = A.facts.get("#atoms", {}), B.facts.get("#atoms", {})
        out.facts["#atoms"] = {k: v for k, v in fa.items() if fb.get(k) == v}
        for a in dict.fromkeys(list(A.heap) + list(B.heap)):
            x, y = A.heap.get(a), B.heap.get(a)
            if x is y or y is None:
                out.heap[a] = x
            elif x is None:
                out.heap[a] = y
            else:
                out.heap[a] = self.merge_obj(c, x, y, A, B, out)
        for f in dict.fromkeys(list(A.envs) + list(B.envs)):
            ea, eb = A.envs.get(f), B.envs.get(f)
            if ea is None or eb is None:
                out.envs[f] = dict(ea or eb)
                continue
            if ea is eb:
                out.envs[f] = dict(ea)
                continue
            e = {}
            for k in dict.fromkeys(list(ea) + list(eb)):
                x, y = ea.get(k, UNBOUND), eb.get(k, UNBOUND)
                e[k] = x if x is y else self.mv(c, x, y, A, B, out)
            out.envs[f] = e
        return out

    def merge_obj(self, c, x, y, A, B, out):
        if type(x) is not type(y):
            return HOpq(unk("merge of different objects"))
        if isinstance(x, HObj):
            ks = list(dict.fromkeys(list(x.fields) + list(y.fields)))
            return HObj(x.cls, {k: self.mv(c, x.fields.get(k, UNBOUND), y.fields.get(k, UNBOUND), A, B, out)
                                for k in ks}, x.owner)
        if isinstance(x, HLst):
            if len(x.items) == len(y.items):
                return HLst([self.mv(c, a, b, A, B, out) for a, b in zip(x.items, y.items)], x.owner)
            return HOpq(unk("merge of lists"))
        if isinstance(x, HDct):
            ks = list(dict.fromkeys(list(x.items) + list(y.items)))
            return HDct({k: self.mv(c, x.items.get(k, UNBOUND), y.items.get(k, UNBOUND), A, B, out) for k in ks},
                        x.owner)
        if isinstance(x, HArr):
            return HArr(simp.ite(c, x.content, y.content), x.owner, x.kind, x.base, x.name)
        if isinstance(x, HDF):
            if list(x.cols) == list(y.cols):
                return HDF({k: simp.ite(c, x.cols[k], y.cols[k]) for k in x.cols}, x.nrows, x.owner, x.index)
            return HOpq(unk("merge of frames"))
        if isinstance(x, HEst):
            r = x.with_(fit=simp.ite(c, x.fit, y.fit))
            if x.params != y.params:
                r.params = (("?", simp.ite(c, mk("params", x.params), mk("params", y.params))),)
            return r
        if isinstance(x, HSet):
            if set(x.items) == set(y.items):
                return x
            return HOpq(unk("merge of sets"))
        if isinstance(x, HOpq):
            return HOpq(simp.ite(c, x.term, y.term))
        return HOpq(unk("merge"))

    def split(self, c, fa, fb, st):
        """evaluate fa under c and fb under not c; merge effects and values"""
        d = self.decide(c, st)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        s2 = st.copy()
        pc = st.pc
        nf.add_fact(st.facts, c, True)
        nf.add_fact(s2.facts, c, False)
        st.pc = pc + (c,)
        s2.pc = pc + (lnot(c),)
        dead = 0
        va = vb = None
        try:
            va = fa(st)
        except Dead as e:
            dead |= 1
            exc = e
        try:
            vb = fb(s2)
        except Dead as e:
            dead |= 2
            exc = e
        if dead == 3:
            raise exc
        if dead == 2:
            st.pc = pc
            return va
        if dead == 1:
            s2.pc = pc
            st.become(s2)
            return vb
        st.pc = s2.pc = pc
        self._unify = {}
        m = self.merge(c, st, s2)
        v = self.mv(c, va, vb, st, s2, m)
        st.become(m)
        return v

    def deph(self, v, st):
        """resolve a phi under the current facts"""
        while isinstance(v, Phi):
            d = self.decide(v.c, st)
            if d is True:
                v = v.a
            elif d is False:
                v = v.b
            elif v.a is UNBOUND:
                v = v.b
            elif v.b is UNBOUND:
                v = v.a
            else:
                return v
        if isinstance(v, T) and v.op == "ite":
            d = self.decide(v.args[0], st)
            if d is True:
                return self.deph(v.args[1], st)
            if d is False:
                return self.deph(v.args[2], st)
        return v

    # ------------------------------------------------------------ statements
    def exec_block(self, stmts, st, fr):
        out = Flow()
        gate = TRUE
        for s in stmts:
            f = self.exec_stmt(s, st, fr)
            if f is None:
                continue
            self.absorb(out, f, gate)
            if f.nxt is None:
                return out
            g, st2 = f.nxt
            if st2 is not st:
                st = st2
            if g is not TRUE:
                gate = land(gate, g)
        out.nxt = (gate, st)
        return out

    def absorb(self, out, f, gate):
        for k in ("brk", "cnt", "ret"):
            x = getattr(f, k)
            if x is not None:
                x = (land(gate, x[0]),) + tuple(x[1:])
                setattr(out, k, self.join(getattr(out, k), x))
        for g, e, s in f.rz:
            out.rz.append((land(gate, g), e, s))

    def join(self, p, q):
        if p is None:
            return q
        if q is None:
            return p
        c = p[0]
        self._unify = {}
        m = self.merge(c, p[1], q[1])
        g = lor(p[0], q[0])
        if len(p) == 3:
            return (g, m, self.mv(c, p[2], q[2], p[1], q[1], m))
        return (g, m)

    def loc(self, node, fr):
        return (fr.mod.path if fr.mod else "?", getattr(node, "lineno", 0), fr.name)

    def exec_stmt(self, s, st, fr):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step limit")
        CUR["loc"] = (fr.mod.path, s.lineno, fr.name)
        m = getattr(self, "st_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        try:
            return m(s, st, fr)
        except Dead as e:
            f = Flow()
            f.rz.append((TRUE, e.exc, e.st or st))
            return f

    def st_Pass(self, s, st, fr):
        return None

    def st_Expr(self, s, st, fr):
        if isinstance(s.value, ast.Constant):
            return None
        self.eval(s.value, st, fr)
        return None

    def st_Assign(self, s, st, fr):
        v = self.eval(s.value, st, fr)
        for t in s.targets:
            self.assign(t, v, st, fr)
        return None

    def st_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, st, fr), st, fr)
        return None

    def st_AugAssign(self, s, st, fr):
        t = s.target
        op = BINOPS[type(s.op)]
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, st, fr, t)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            cur = self.getattr(o, self.mangle(t.attr, fr), st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            i = self.eval_index(t.slice, st, fr)
            cur = self.getitem(o, i, st)
            v = self.eval(s.value, st, fr)
            r = self.binop(op, cur, v, st)
            o2 = self.setitem(o, i, r, st)
            if o2 is not None:
                self.assign(t.value, o2, st, fr)
            return None
        else:
            raise Unsupported("augassign")
        v = self.eval(s.value, st, fr)
        h = self.get(st, cur)
        if isinstance(h, HArr):
            r = self.term(self.binop(op, h.content, v, st), st)
            self.mutate(cur, st, "in-place " + op)
            h = self.get(st, cur)
            st.heap[cur.a] = h.with_(r)
            self.writeback(cur, st)
            if isinstance(t, ast.Attribute):
                self.setattr(o, self.mangle(t.attr, fr), cur, st)
            return None
        if isinstance(h, HLst) and op == "+":
            it = self.iterate(v, st)
            if it is None:
                st.heap[cur.a] = HOpq(unk("extend"))
            else:
                self.mutate(cur, st, "+=")
                st.heap[cur.a] = HLst(h.items + tuple(it), h.owner)
            return None
        r = self.binop(op, cur, v, st)
        if isinstance(t, ast.Name):
            self.bind(t.id, r, st, fr)
        else:
            self.setattr(o, self.mangle(t.attr, fr), r, st)
        return None

    def st_Return(self, s, st, fr):
        v = NONE if s.value is None else self.eval(s.value, st, fr)
        f = Flow()
        f.ret = (TRUE, st, v)
        return f

    def st_Raise(self, s, st, fr):
        name, msg = "Exception", None
        if s.exc is None:
            v = st.envs[fr.fid].get("*exc*")
            if isinstance(v, T) and v.op == "exc":
                name = v.args[0]
        if s.exc is not None:
            e = s.exc
            if isinstance(e, ast.Call):
                name = ast.unparse(e.func).split(".")[-1]
            elif isinstance(e, ast.Name):
                v = st.envs[fr.fid].get(e.id)
                if v is not None and isinstance(v, T) and v.op == "exc":
                    name = v.args[0]
                else:
                    name = e.id
        self.raise_(name, st, msg)

    def st_Assert(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        d = self.decide(c, st)
        if d is True:
            return None
        if d is False:
            self.raise_("AssertionError", st, "assert")
        nf.add_fact(st.facts, c, True)
        return None

    def st_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.envs[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, st, fr)
                i = self.eval_index(t.slice, st, fr)
                h = self.get(st, o)
                if isinstance(h, HDct) and is_const(i) and cval(i) in h.items:
                    self.mutate(o, st, "del")
                    d = dict(h.items)
                    del d[cval(i)]
                    st.heap[o.a] = HDct(d, h.owner)
                elif isinstance(h, HDF) and is_const(i) and cval(i) in h.cols:
                    self.mutate(o, st, "del column")
                    d = dict(h.cols)
                    del d[cval(i)]
                    st.heap[o.a] = HDF(d, h.nrows, h.owner, h.index)
                elif isinstance(h, HLst) and is_const(i):
                    self.mutate(o, st, "del")
                    it = list(h.items)
                    try:
                        del it[cval(i)]
                    except IndexError:
                        self.raise_("IndexError", st)
                    st.heap[o.a] = HLst(it, h.owner)
                else:
                    raise Unsupported("del")
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, st, fr)
                h = self.get(st, o)
                if isinstance(h, HObj):
                    f = dict(h.fields)
                    f.pop(self.mangle(t.attr, fr), None)
                    st.heap[o.a] = HObj(h.cls, f, h.owner)
        return None

    def st_Global(self, s, st, fr):
        raise Unsupported("global")

    def st_Nonlocal(self, s, st, fr):
        raise Unsupported("nonlocal")

    def st_Import(self, s, st, fr):
        for a in s.names:
            nm = a.asname or a.name.split(".")[0]
            target = a.name if a.asname else a.name.split(".")[0]
            if self.ours(target) and self.find_module(target):
                st.envs[fr.fid][nm] = ModVal(self.module(target))
            else:
                st.envs[fr.fid][nm] = Ext(target)
        return None

    def st_ImportFrom(self, s, st, fr):
        base = s.module or ""
        if s.level:
            parts = fr.mod.name.split(".")
            if not fr.mod.path.endswith("__init__.py"):
                parts = parts[:-1]
            parts = parts[:len(parts) - (s.level - 1)]
            base = ".".join(parts + ([s.module] if s.module else []))
        for a in s.names:
            nm = a.asname or a.name
            if self.ours(base):
                m = self.module(base)
                sub = self.find_module(base + "." + a.name)
                if m is not None and a.name in m.ns:
                    v = m.ns[a.name]
                elif sub:
                    v = ModVal(self.module(base + "." + a.name))
                elif m is not None:
                    v = LazyName(m, a.name)
                else:
                    v = Ext(base + "." + a.name)
                st.envs[fr.fid][nm] = v
            else:
                st.envs[fr.fid][nm] = Ext(base + "." + a.name)
        return None

    def st_FunctionDef(self, s, st, fr):
        v = self.make_func(s, st, fr, None)
        for d in reversed(s.decorator_list):
            dn = ast.unparse(d.func if isinstance(d, ast.Call) else d)
            if dn.split(".")[-1] in ("abstractmethod", "wraps", "lru_cache", "cache"):
                continue
            dv = self.eval(d, st, fr)
            v = self.call(dv, [v], {}, st)
        st.envs[fr.fid][s.name] = v
        return None

    def make_func(self, node, st, fr, cls):
        a = node.args
        defaults = tuple(self.eval(d, st, fr) for d in a.defaults)
        kwd = tuple(None if d is None else self.eval(d, st, fr) for d in a.kw_defaults)
        fid = fr.fid if fr.fn is not None or fr.name not in ("<module>",) else None
        q = (cls.name + "." if cls else "") + getattr(node, "name", "<lambda>")
        return FuncVal(node, fr.mod, fid if fr.name != "<module>" else None, cls or fr.cls, defaults, kwd, "function", q)

    def st_ClassDef(self, s, st, fr):
        info = ClassInfo(s.name, fr.mod, s)
        for b in s.bases:
            try:
                info.bases.append(self.eval(b, st, fr))
            except Unsupported:
                info.bases.append(Ext("unknown"))
        cf = Frame(self.newfid(), None, fr.mod, info, fr, s.name)
        cf.name = "<module>"
        st.envs[cf.fid] = env = ParentEnv()
        for b in s.body:
            if isinstance(b, ast.FunctionDef):
                v = self.make_func(b, st, cf, info)
                for d in reversed(b.decorator_list):
                    dn = ast.unparse(d.func if isinstance(d, ast.Call) else d)
                    last = dn.split(".")[-1]
                    if dn == "property":
                        v = PropVal(v)
                    elif last == "setter":
                        old = env.get(dn.split(".")[0]) if dn.count(".") == 1 else None
                        if old is None:
                            old = self.eval(d.value, st, cf)
                        v = PropVal(old.fget if isinstance(old, PropVal) else None, v)
                    elif dn == "staticmethod":
                        v = FuncVal(v.node, v.mod, v.fid, v.cls, v.defaults, v.kwdefaults, "static", v.qual)
                    elif dn == "classmethod":
                        v = FuncVal(v.node, v.mod, v.fid, v.cls, v.defaults, v.kwdefaults, "class", v.qual)
                    elif last == "abstractmethod":
                        pass
                    elif last in ("deprecated",):
                        pass
                    elif last == "cached_property":
                        v = PropVal(v)
                    elif last in ("wraps", "lru_cache", "cache"):
                        pass
                    else:
                        dv = self.unlazy(self.eval(d, st, cf))
                        v = self.call(dv, [v], {}, st) if isinstance(dv, FuncVal) else unk("decorator " + dn)
                env[b.name] = v
            elif isinstance(b, (ast.Assign, ast.AnnAssign)):
                try:
                    self.exec_stmt(b, st, cf)
                except (Unsupported, Dead):
                    pass
            elif isinstance(b, ast.ClassDef):
                self.exec_stmt(b, st, cf)
        info.ns = {self.mangle(k, cf): v for k, v in st.envs.pop(cf.fid).items()}
        info.mro = self.c3(info)
        st.envs[fr.fid][s.name] = ClassVal(info)
        return None

    def c3(self, info):
        seqs = []
        for b in info.bases:
            b = self.unlazy(b)
            if isinstance(b, ClassVal):
                seqs.append(list(b.info.mro))
            elif isinstance(b, Ext):
                seqs.append([b])
        bl = [self.unlazy(b) for b in info.bases]
        seqs.append([b.info if isinstance(b, ClassVal) else b for b in bl])
        out = [info]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                c = s[0]
                if not any(any(c is x or (isinstance(c, Ext) and c == x) for x in o[1:]) for o in seqs):
                    break
            else:
                c = seqs[0][0]
            out.append(c)
            seqs = [[x for x in s if not (x is c or (isinstance(c, Ext) and x == c))] for s in seqs]
            seqs = [s for s in seqs if s]
        return out

    def unlazy(self, v):
        if isinstance(v, LazyName):
            return v.mod.ns.get(v.name, Ext(v.mod.name + "." + v.name))
        return v

    def st_If(self, s, st, fr):
        c = self.truth(self.eval(s.test, st, fr), st)
        return self.branch(c, s, lambda st: self.exec_block(s.body, st, fr),
                           lambda st: self.exec_block(s.orelse, st, fr), st)

    def branch(self, c, s, fa, fb, st):
        d = self.decide(c, st)
        if d is True:
            return fa(st)
        if d is False:
            return fb(st)
        s2 = st.copy()
        pc = st.pc
        nf.add_fact(st.facts, c, True)
        nf.add_fact(s2.facts, c, False)
        st.pc = pc + (c,)
        s2.pc = pc + (lnot(c),)
        f1 = fa(st)
        f2 = fb(s2)
        out = Flow()
        nc = lnot(c)
        for k in ("nxt", "brk", "cnt", "ret"):
            x, y = getattr(f1, k), getattr(f2, k)
            for z in (x, y):
                if z is not None:
                    z[1].pc = pc
            if x is None and y is None:
                continue
            if y is None:
                r = (land(c, x[0]),) + tuple(x[1:])
            elif x is None:
                r = (land(nc, y[0]),) + tuple(y[1:])
            else:
                g = TRUE if x[0] is TRUE and y[0] is TRUE else lor(land(c, x[0]), land(nc, y[0]))
                self._unify = {}
                m = self.merge(c, x[1], y[1])
                r = (g, m) if k != "ret" else (g, m, self.mv(c, x[2], y[2], x[1], y[1], m))
            setattr(out, k, r)
        # when one side only raises, the condition is a fact on the other side (kept in its state)
        if f1.nxt is None and f1.ret is None and f1.brk is None and f1.cnt is None and out.nxt is not None:
            out.nxt = (f2.nxt[0], out.nxt[1])
        elif f2.nxt is None and f2.ret is None and f2.brk is None and f2.cnt is None and out.nxt is not None:
            out.nxt = (f1.nxt[0], out.nxt[1])
        out.rz = [(land(c, g), e, z) for g, e, z in f1.rz] + [(land(nc, g), e, z) for g, e, z in f2.rz]
        return out

    def st_For(self, s, st, fr):
        it = self.eval(s.iter, st, fr)
        items = self.iterate(it, st)
        if items is None:
            return self.sym_loop(s, it, st, fr)
        out = Flow()
        cur = (TRUE, st)
        for v in items:
            if cur is None:
                break
            g, st = cur
            self.assign(s.target, v, st, fr)
            f = self.exec_block(s.body, st, fr)
            cnt, nxt, brk = f.cnt, f.nxt, f.brk
            f.cnt = f.brk = None
            self.absorb(out, f, g)
            cur = self.join(cnt, nxt)
            if cur is not None:
                cur = (land(g, cur[0]), cur[1])
            if brk is not None:
                out.brk = self.join(out.brk, (land(g, brk[0]), brk[1]))
        if cur is not None and s.orelse:
            f = self.exec_block(s.orelse, cur[1], fr)
            self.absorb(out, f, cur[0])
            cur = None if f.nxt is None else (land(cur[0], f.nxt[0]), f.nxt[1])
        out.nxt = self.join(out.brk, cur) if out.brk is not None else cur
        out.brk = None
        return out

    def st_While(self, s, st, fr):
        out = Flow()
        cur = (TRUE, st)
        for k in range(MAXUNROLL):
            g, st = cur
            c = self.truth(self.eval(s.test, st, fr), st)
            d = self.decide(c, st)
            if d is False:
                break
            if d is None:
                return self.havoc_loop(s, st, fr, out, g)
            f = self.exec_block(s.body, st, fr)
            cnt, nxt, brk = f.cnt, f.nxt, f.brk
            f.cnt = f.brk = None
            self.absorb(out, f, g)
            cur = self.join(cnt, nxt)
            if cur is not None:
                cur = (land(g, cur[0]), cur[1])
            if brk is not None:
                out.brk = self.join(out.brk, (land(g, brk[0]), brk[1]))
            if cur is None:
                break
        else:
            return self.havoc_loop(s, cur[1], fr, out, cur[0])
        out.nxt = self.join(out.brk, cur) if out.brk is not None else cur
        out.brk = None
        return out

    def havoc_loop(self, s, st, fr, out, gate):
        """undecidable while loop: body analysed once for its effects, assigned variables become opaque"""
        n0 = dict(st.envs[fr.fid])
        h0 = dict(st.heap)
        s2 = st.copy()
        try:
            f = self.exec_block(s.body, s2, fr)
            end = f.nxt or f.cnt or f.brk
            if end is not None:
                s2 = end[1]
        except Unsupported:
            pass
        for k, v in s2.envs.get(fr.fid, {}).items():
            if n0.get(k, UNBOUND) is not v:
                old = self.term(n0[k], st) if k in n0 else UNBOUND
                st.envs[fr.fid][k] = mk("loopvar", k, s.lineno, old, self.term(v, s2))
        for a, h in s2.heap.items():
            if a in h0 and h0[a] is not h:
                st.heap[a] = HOpq(unk("while")) if not isinstance(h, HObj) else HObj(
                    h.cls, {k: (v if h0[a].fields.get(k) is v else unk("while")) for k, v in h.fields.items()}, h.owner)
        out.nxt = (gate, st)
        return out

    def sym_loop(self, s, it, st, fr):
        """loop over a container of unknown size: one generic iteration, effects closed as sums / scatters / opaque"""
        itt = self.term(it, st)
        bv = mk("bv", self.loopdepth)
        from .core import SYMINFO
        SYMINFO[bv.uid] = {"shape": ()}
        elem = self.sym_elem(it, itt, bv, st)
        if elem is None:
            elem = unk("iteration over " + itt.op)
        # pass 1: which slots change
        s1 = st.copy()
        self.loopdepth += 1
        self.quiet += 1
        try:
            self.assign(s.target, elem, s1, fr)
            f1 = self.exec_block(s.body, s1, fr)
        finally:
            self.quiet -= 1
            self.loopdepth -= 1
        e1 = self.join(f1.cnt, f1.nxt)
        if e1 is None:
            # every iteration leaves the loop: executed at most once
            f1.nxt = (TRUE, st)
            return f1
        e1 = e1[1]
        tnames = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        env0, env1 = st.envs[fr.fid], e1.envs[fr.fid]
        ch_env = [k for k in env1 if k in env0 and env1[k] is not env0[k] and k not in tnames]
        ch_heap = [a for a in e1.heap if a in st.heap and e1.heap[a] is not st.heap[a]]
        # pass 2: placeholders
        s2 = st.copy()
        ph = {}
        for k in ch_env:
            v = env0[k]
            if isinstance(v, T):
                p = mk("ph", "env", k, self.loopdepth, s.lineno)
                p.cache["shape"] = simp.shape(env1[k]) if isinstance(env1[k], T) and simp.shape(env1[k]) is not None \
                    else simp.shape(v)
                ph[("env", k)] = p
                s2.envs[fr.fid][k] = p
        for a in ch_heap:
            h = st.heap[a]
            if isinstance(h, HArr):
                p = mk("ph", "heap", a, self.loopdepth, s.lineno)
                p.cache["shape"] = simp.shape(h.content)
                ph[("heap", a)] = p
                s2.heap[a] = h.with_(p)
            elif isinstance(h, HObj):
                f = dict(h.fields)
                for k, v in h.fields.items():
                    if e1.heap[a].fields.get(k) is not v and isinstance(v, T):
                        p = mk("ph", "fld", a, k, self.loopdepth, s.lineno)
                        p.cache["shape"] = simp.shape(v)
                        ph[("fld", a, k)] = p
                        f[k] = p
                s2.heap[a] = HObj(h.cls, f, h.owner)
        self.loopdepth += 1
        try:
            self.assign(s.target, elem, s2, fr)
            f2 = self.exec_block(s.body, s2, fr)
        finally:
            self.loopdepth -= 1
        e2 = self.join(f2.cnt, f2.nxt)
        if e2 is None:
            f2.nxt = (TRUE, st)
            return f2
        e2 = e2[1]
        final = st
        maybe = f2.brk is not None or f2.ret is not None

        def close(p, init, new):
            if new is p:
                return init
            if maybe:
                return mk("loopout", itt, init, new)
            if not contains(new, p):
                return mk("last", itt, bv, new) if contains(new, bv) else mk("lastc", itt, init, new)
            try:
                if simp.shape(p) not in ((), None):
                    raise nf.TooBig()
                d = nf.padd(nf.nf(new), nf.nf(p), -1)
                pid = [a for m in nf.nf(p) for a, _ in m]
                if not any(a in pid for m in d for a, _ in m) and not any(
                        nf.ATOMS[a].term is not None and contains(nf.ATOMS[a].term, p) for m in d for a, _ in m):
                    if new.op == "bin" and new.args[0] == "+" and new.args[1] is p:
                        body = new.args[2]
                    elif new.op == "bin" and new.args[0] == "+" and new.args[2] is p:
                        body = new.args[1]
                    else:
                        body = simp.bin_("-", new, p)
                    return simp.bin_("+", init, mk("sumL", itt, bv, body, NONE))
            except nf.TooBig:
                pass
            if new.op == "store" and new.args[0] is p:
                return mk("scatL", init, itt, bv, new.args[1], new.args[2])
            return mk("loopval", itt, bv, init, new)

        for k in list(e2.envs[fr.fid]):
            v2 = e2.envs[fr.fid][k]
            if k in tnames:
                final.envs[fr.fid][k] = v2
            elif ("env", k) in ph:
                final.envs[fr.fid][k] = close(ph[("env", k)], env0[k], self.term(v2, e2))
            elif k in ch_env:
                final.envs[fr.fid][k] = unk("loop variable " + k)
            elif k not in env0:
                final.envs[fr.fid][k] = mk("last", itt, bv, self.term(v2, e2)) if isinstance(v2, T) else v2
        for a, h2 in e2.heap.items():
            if a not in st.heap:
                final.heap[a] = h2
                continue
            if a not in ch_heap:
                continue
            h0 = st.heap[a]
            if ("heap", a) in ph and isinstance(h2, HArr):
                final.heap[a] = h0.with_(close(ph[("heap", a)], h0.content, h2.content))
            elif isinstance(h0, HObj) and isinstance(h2, HObj):
                f = {}
                for k in dict.fromkeys(list(h0.fields) + list(h2.fields)):
                    x, y = h0.fields.get(k, UNBOUND), h2.fields.get(k, UNBOUND)
                    if ("fld", a, k) in ph:
                        f[k] = close(ph[("fld", a, k)], x, self.term(y, e2))
                    elif x is y:
                        f[k] = x
                    else:
                        f[k] = unk("loop field " + k)
                final.heap[a] = HObj(h0.cls, f, h0.owner)
            elif isinstance(h0, HLst) and isinstance(h2, HLst) and h2.items[:len(h0.items)] == h0.items:
                app = [self.term(x, e2) for x in h2.items[len(h0.items):]]
                pre = [self.term(x, st) for x in h0.items]
                final.heap[a] = HOpq(mk("maplist", itt, bv, tuple(app), tuple(pre)))
            else:
                final.heap[a] = HOpq(unk("loop object"))
        out = Flow((TRUE, final))
        return out

    def sym_elem(self, it, itt, bv, st):
        if isinstance(it, RangeVal):
            return bv
        if itt.op in ("maplist",):
            return mk("elem", itt, bv)
        if simp.is_iset(itt) and itt.args[0].op == "full" and itt.args[1] is TRUE:
            return bv
        if isinstance(it, T) and it.op == "zipit":
            return Tup([self.sym_elem(x, x, bv, st) for x in it.args[0]])
        if isinstance(it, T) and it.op == "enumit":
            return Tup([bv, self.sym_elem(it.args[0], it.args[0], bv, st)])
        s = simp.shape(itt)
        e = mk("elem", itt, bv)
        if s is not None and len(s) == 1:
            e.cache["shape"] = ()
        return e

    def st_Break(self, s, st, fr):
        f = Flow()
        f.brk = (TRUE, st)
        return f

    def st_Continue(self, s, st, fr):
        f = Flow()
        f.cnt = (TRUE, st)
        return f

    def st_With(self, s, st, fr):
        for it in s.items:
            v = self.eval(it.context_expr, st, fr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        return self.exec_block(s.body, st, fr)

    def st_Try(self, s, st, fr):
        n0 = self.raise_count
        entry = st.copy()
        f = self.exec_block(s.body, st, fr)
        out = Flow()
        caught = []
        rest = []
        for g, e, z in f.rz:
            hd = self.match_handler(s.handlers, e)
            (caught if hd is not None else rest).append((g, e, z, hd))
        f.rz = [(g, e, z) for g, e, z, _ in rest]
        nxt = f.nxt
        f.nxt = None
        self.absorb(out, f, TRUE)
        cur = nxt
        if cur is not None and s.orelse:
            fo = self.exec_block(s.orelse, cur[1], fr)
            self.absorb(out, fo, cur[0])
            cur = None if fo.nxt is None else (land(cur[0], fo.nxt[0]), fo.nxt[1])
        if not caught and self.raise_count > n0 and s.handlers:
            # some inlined call may raise on a data dependent path
            z = entry.copy()
            caught.append((unkbool("handler"), "Exception", z, s.handlers[0]))
        for g, e, z, hd in caught:
            z.envs[fr.fid]["*exc*"] = mk("exc", str(e))
            if hd.name:
                z.envs[fr.fid][hd.name] = mk("exc", str(e))
            fh = self.exec_block(hd.body, z, fr)
            nh = fh.nxt
            fh.nxt = None
            self.absorb(out, fh, g)
            if nh is not None:
                cur = self.join((g, nh[1]), cur) if cur is not None else (land(g, nh[0]), nh[1])
        if cur is not None and s.finalbody:
            ff = self.exec_block(s.finalbody, cur[1], fr)
            self.absorb(out, ff, cur[0])
            cur = ff.nxt and (land(cur[0], ff.nxt[0]), ff.nxt[1])
        out.nxt = cur
        return out

    def match_handler(self, handlers, exc):
        for h in handlers:
            if h.type is None:
                return h
            names = [ast.unparse(x).split(".")[-1] for x in
                     (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
            if any(exc_matches(str(exc), n) for n in names):
                return h
        return None

    # ------------------------------------------------------------ assignment
    def materialise(self, v, st):
        """array terms bound to a variable become array objects so that aliasing is tracked"""
        if isinstance(v, T) and v.op not in ("const", "sym", "unbound", "unk"):
            s = simp.shape(v)
            if s:
                return self.alloc(st, HArr(v))
        elif isinstance(v, T) and v.op == "sym":
            s = simp.shape(v)
            if s:
                return self.alloc(st, HArr(v))
        return v

    def bind(self, name, v, st, fr):
        st.envs[fr.fid][name] = self.materialise(v, st)

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.bind(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            vals = self.unpack(v, None if stars else len(t.elts), st)
            if stars:
                k = stars[0]
                tail = len(t.elts) - k - 1
                for x, y in zip(t.elts[:k], vals[:k]):
                    self.assign(x, y, st, fr)
                mid = vals[k:len(vals) - tail]
                self.assign(t.elts[k].value, self.alloc(st, HLst(mid)), st, fr)
                for x, y in zip(t.elts[k + 1:], vals[len(vals) - tail:]):
                    self.assign(x, y, st, fr)
            else:
                if len(vals) != len(t.elts):
                    self.raise_("ValueError", st, "unpack")
                for x, y in zip(t.elts, vals):
                    self.assign(x, y, st, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, st, fr)
            self.setattr(o, self.mangle(t.attr, fr), self.materialise(v, st), st)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, st, fr)
            i = self.eval_index(t.slice, st, fr)
            CUR["loc"] = (fr.mod.path, t.lineno, fr.name)
            o2 = self.setitem(o, i, v, st)
            if o2 is not None:
                self.assign(t.value, o2, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Unsupported("assign target")

    def unpack(self, v, n, st):
        v = self.deph(v, st)
        if isinstance(v, Phi):
            a, b = self.unpack(v.a, n, st), self.unpack(v.b, n, st)
            return [self.mv(v.c, x, y) for x, y in zip(a, b)]
        it = self.iterate(v, st)
        if it is not None:
            return it
        t = self.term(v, st)
        if n is None:
            raise Unsupported("star unpack")
        if t.op == "ite":
            a, b = self.unpack(t.args[1], n, st), self.unpack(t.args[2], n, st)
            return [self.mv(t.args[0], x, y) for x, y in zip(a, b)]
        return [mk("getitem", t, (const(i),)) for i in range(n)]

    # ------------------------------------------------------------ iteration
    def iterate(self, v, st):
        """list of element values or None"""
        v = self.deph(v, st)
        if isinstance(v, Tup):
            return list(v.items)
        if isinstance(v, RangeVal):
            c = self.range_list(v)
            return None if c is None else [const(i) for i in c]
        if isinstance(v, Ref):
            h = st.heap.get(v.a)
            if isinstance(h, HLst):
                return list(h.items)
            if isinstance(h, HSet):
                return list(h.items)
            if isinstance(h, HDct):
                return [const(k) if not isinstance(k, (T, Val)) else k for k in h.items]
            if isinstance(h, HDF):
                return [const(k) for k in h.cols]
            if isinstance(h, HArr):
                return self.iterate(h.content, st)
            if isinstance(h, HOpq):
                return self.iterate(h.term, st)
            return None
        if isinstance(v, T):
            if v.op == "const" and isinstance(cval(v), str):
                return [const(c) for c in cval(v)]
            if v.op in ("tup",):
                return list(v.args[0])
            if v.op == "const" and cval(v) is None:
                self.raise_("TypeError", st, "not iterable")
            s = simp.shape(v)
            if s and isinstance(s[0], int):
                return [simp.index(v, [const(i)]) for i in range(s[0])]
            if v.op == "const":
                self.raise_("TypeError", st, "not iterable")
        return None

    # ------------------------------------------------------------ names and attributes
    def mangle(self, name, fr):
        if name.startswith("__") and not name.endswith("__") and fr.cls is not None:
            return "_" + fr.cls.name.lstrip("_") + name
        return name

    def lookup(self, name, st, fr, node=None):
        f = fr
        while f is not None:
            env = st.envs.get(f.fid)
            if env is None:
                env = self.static_envs.get(f.fid)
            if env is not None and name in env:
                v = env[name]
                if v is UNBOUND:
                    self.raise_("UnboundLocalError", st, name)
                return self.unlazy(v)
            f = f.parent
        if fr.fn is not None and name in local_names(fr.fn.node):
            self.raise_("UnboundLocalError", st, name)
        if fr.mod is not None and name in fr.mod.ns:
            v = self.unlazy(fr.mod.ns[name])
            if isinstance(v, Ref) and v.a not in st.heap and hasattr(fr.mod, "heap"):
                st.heap[v.a] = fr.mod.heap.get(v.a)
            return v
        b = self.models.BUILTINS.get(name)
        if b is not None:
            return b
        if name in EXC_BASES or name in ("Warning", "UserWarning", "DeprecationWarning", "FutureWarning",
                                         "RuntimeWarning", "BaseException"):
            return Ext("builtins." + name)
        if name == "NotImplemented":
            return mk("notimpl")
        if name == "Ellipsis":
            return mk("ellipsis")
        if name == "__file__":
            return const("file")
        import builtins as _b
        if hasattr(_b, name):
            return Ext("builtins." + name)
        self.raise_("NameError", st, name)

    def find_in_mro(self, mro, name):
        for c in mro:
            if isinstance(c, ClassInfo) and name in c.ns:
                return c.ns[name], c
        return None, None

    def getattr(self, o, name, st):
        o = self.deph(o, st)
        if isinstance(o, Phi):
            return self.split(o.c, lambda s: self.getattr(o.a, name, s), lambda s: self.getattr(o.b, name, s), st)
        if isinstance(o, Ref):
            h = st.heap.get(o.a)
            if isinstance(h, HObj):
                return self.obj_getattr(o, h, name, st)
        if isinstance(o, SuperVal):
            mro = self.class_of(o.recv, st).mro
            i = next((k for k, c in enumerate(mro) if c is o.start), -1)
            v, c = self.find_in_mro(mro[i + 1:], name)
            if v is None:
                if name == "__init__":
                    return Builtin("object.__init__", lambda it, s, a, k: NONE)
                return self.ext_class_attr([x for x in mro if isinstance(x, Ext)], o.recv, name, st)
            if isinstance(v, PropVal):
                if isinstance(o.recv, ClassVal):
                    return v
                return self.call(v.fget, [o.recv], {}, st)
            return self.bindfn(o.recv, v, st)
        if isinstance(o, ClassVal):
            v, c = self.find_in_mro(o.info.mro, name)
            if v is not None:
                if isinstance(v, FuncVal) and v.kind == "class":
                    return Bound(o, v)
                return v
            if name == "__name__":
                return const(o.info.name)
            if name == "__mro__":
                return Tup([ClassVal(x) if isinstance(x, ClassInfo) else x for x in o.info.mro])
            if name == "mro":
                return Builtin("mro", lambda it, s, a, k: it.alloc(s, HLst(
                    [ClassVal(x) if isinstance(x, ClassInfo) else x for x in o.info.mro])))
            return self.ext_class_attr([x for x in o.info.mro if isinstance(x, Ext)], o, name, st)
        if isinstance(o, ModVal):
            if name in o.mod.ns:
                return self.unlazy(o.mod.ns[name])
            sub = self.module(o.mod.name + "." + name)
            if sub is not None:
                return ModVal(sub)
            self.raise_("AttributeError", st, name)
        if isinstance(o, PropVal):
            if name == "fget":
                return o.fget
            if name == "fset":
                return o.fset
            if name in ("__set__", "__get__"):
                if name == "__set__":
                    return Builtin("prop.__set__", lambda it, s, a, k: it.call(o.fset, [a[0], a[1]], {}, s))
                return Builtin("prop.__get__", lambda it, s, a, k: it.call(o.fget, [a[0]], {}, s))
        if isinstance(o, ObjDict):
            return o.method(self, name, st)
        if isinstance(o, FuncVal):
            if name == "__name__":
                return const(getattr(o.node, "name", "<lambda>"))
        return self.models.getattr(self, o, name, st)

    def ext_class_attr(self, exts, recv, name, st):
        return self.models.ext_base_attr(self, exts, recv, name, st)

    def bindfn(self, recv, v, st):
        if isinstance(v, FuncVal):
            if v.kind == "static":
                return v
            if v.kind == "class":
                c = recv if isinstance(recv, ClassVal) else ClassVal(self.class_of(recv, st))
                return Bound(c, v)
            if isinstance(recv, ClassVal):
                return v
            return Bound(recv, v)
        return v

    def class_of(self, o, st):
        if isinstance(o, ClassVal):
            return o.info
        return st.heap[o.a].cls

    def obj_getattr(self, o, h, name, st):
        v, c = self.find_in_mro(h.cls.mro, name)
        if isinstance(v, PropVal):
            return self.call(v.fget, [o], {}, st)
        if name in h.fields:
            x = h.fields[name]
            if x is UNBOUND:
                self.raise_("AttributeError", st, name)
            if isinstance(x, Phi) and (x.a is UNBOUND or x.b is UNBOUND):
                d = self.decide(x.c, st)
                if d is None:
                    return x.b if x.a is UNBOUND else x.a
                y = x.a if d else x.b
                if y is UNBOUND:
                    self.raise_("AttributeError", st, name)
                return y
            return x
        if v is not None:
            return self.bindfn(o, v, st)
        if name == "__class__":
            return ClassVal(h.cls)
        if name == "__dict__":
            return ObjDict(o)
        exts = [x for x in h.cls.mro if isinstance(x, Ext)]
        if name == "__getattr__" or any(x.path != "abc.ABC" for x in exts):
            r = self.ext_class_attr(exts, o, name, st)
            if r is not None:
                return r
        g, _ = self.find_in_mro(h.cls.mro, "__getattr__")
        if g is not None:
            return self.call(g, [o, const(name)], {}, st)
        self.raise_("AttributeError", st, name)

    def setattr(self, o, name, v, st):
        o = self.deph(o, st)
        if isinstance(o, Phi):
            self.split(o.c, lambda s: self.setattr(o.a, name, v, s), lambda s: self.setattr(o.b, name, v, s), st)
            return NONE
        if isinstance(o, Ref):
            h = st.heap.get(o.a)
            if isinstance(h, HObj):
                p, _ = self.find_in_mro(h.cls.mro, name)
                if isinstance(p, PropVal):
                    if p.fset is None:
                        self.raise_("AttributeError", st, "can't set " + name)
                    self.call(p.fset, [o, v], {}, st)
                    return NONE
                if h.owner:
                    self.event("mutate", (h.owner, "attribute " + name), st)
                st.heap[o.a] = h.with_(name, v)
                return NONE
            return self.models.setattr(self, o, h, name, v, st)
        if isinstance(o, SuperVal):
            raise Unsupported("super setattr")
        return self.models.setattr(self, o, None, name, v, st)

    # ------------------------------------------------------------ mutation bookkeeping
    def mutate(self, ref, st, what):
        h = self.get(st, ref)
        ow = getattr(h, "owner", None)
        if ow:
            self.event("mutate", (ow, what), st)

    def writeback(self, ref, st):
        """a view was written: its base content becomes unknown unless a precise update is available"""
        h = self.get(st, ref)
        b = getattr(h, "base", None)
        seen = set()
        while b is not None and b not in seen:
            seen.add(b)
            hb = st.heap.get(b)
            if isinstance(hb, HArr):
                if hb.content is not None and simp.shape(hb.content) == simp.shape(h.content) and h.base == b:
                    st.heap[b] = hb.with_(h.content)
                else:
                    st.heap[b] = hb.with_(mk("viewwritten", hb.content, h.content))
                b = hb.base
            elif isinstance(hb, HDF):
                if h.name in hb.cols:
                    c = dict(hb.cols)
                    c[h.name] = h.content
                    st.heap[b] = HDF(c, hb.nrows, hb.owner, hb.index)
                b = None
            else:
                b = None

    # ------------------------------------------------------------ expressions
    def eval(self, n, st, fr):
        m = getattr(self, "ex_" + type(n).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(n).__name__)
        return m(n, st, fr)

    def ex_Constant(self, n, st, fr):
        if n.value is Ellipsis:
            return mk("ellipsis")
        return const(n.value)

    def ex_Name(self, n, st, fr):
        return self.lookup(n.id, st, fr, n)

    def ex_Attribute(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        CUR["loc"] = (fr.mod.path, n.lineno, fr.name)
        return self.getattr(o, self.mangle(n.attr, fr), st)

    def ex_Tuple(self, n, st, fr):
        return Tup(self.eval_list(n.elts, st, fr))

    def ex_List(self, n, st, fr):
        return self.alloc(st, HLst([self.materialise(v, st) for v in self.eval_list(n.elts, st, fr)]))

    def ex_Set(self, n, st, fr):
        return self.models.make_set(self, self.eval_list(n.elts, st, fr), st)

    def eval_list(self, elts, st, fr):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                it = self.iterate(self.eval(e.value, st, fr), st)
                if it is None:
                    raise Unsupported("star")
                out.extend(it)
            else:
                out.append(self.eval(e, st, fr))
        return out

    def ex_Dict(self, n, st, fr):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.eval(v, st, fr)
                h = self.get(st, self.deph(o, st))
                if isinstance(h, HDct):
                    d.update(h.items)
                    continue
                raise Unsupported("dict star")
            kv = self.eval(k, st, fr)
            vv = self.materialise(self.eval(v, st, fr), st)
            d[self.dkey(kv, st)] = vv
        return self.alloc(st, HDct(d))

    def dkey(self, k, st):
        k = self.deph(k, st)
        if isinstance(k, T):
            if k.op == "const":
                return cval(k)
            return k
        if isinstance(k, Tup):
            return k
        return self.term(k, st)

    def ex_JoinedStr(self, n, st, fr):
        parts = []
        allc = True
        for p in n.values:
            if isinstance(p, ast.Constant):
                parts.append(const(p.value))
            else:
                try:
                    v = self.eval(p.value, st, fr)
                    t = self.models.shown(self, v, st) if p.conversion == -1 or p.conversion == 115 else self.models.shown_repr(self, v, st)
                except Unsupported:
                    t = unk("fstring")
                if p.format_spec is not None:
                    spec = p.format_spec.values
                    x = t if t.op == "const" else None
                    if x is None:
                        from .models import float_const
                        f = float_const(t)
                        x = None if f is None else const(f)
                    if x is not None and all(isinstance(q, ast.Constant) for q in spec):
                        try:
                            t = const(format(cval(x), "".join(q.value for q in spec)))
                        except (ValueError, TypeError):
                            allc = False
                    else:
                        allc = False
                        if all(isinstance(q, ast.Constant) for q in spec):
                            t = mk("call", "format", (t, const("".join(str(q.value) for q in spec))), ())
                parts.append(t)
                if t.op != "const":
                    allc = False
        if allc:
            return const("".join(str(cval(p)) for p in parts))
        return simp.fmtcat(parts)

    def ex_FormattedValue(self, n, st, fr):
        return mk("fmt", (self.term(self.eval(n.value, st, fr), st),))

    def ex_UnaryOp(self, n, st, fr):
        v = self.eval(n.operand, st, fr)
        if isinstance(n.op, ast.Not):
            return lnot(self.truth(v, st))
        h = self.get(st, self.deph(v, st))
        if isinstance(h, HObj):
            nm = {"USub": "__neg__", "UAdd": "__pos__", "Invert": "__invert__"}[type(n.op).__name__]
            return self.call(self.getattr(v, nm, st), [], {}, st)
        t = self.term(v, st)
        if isinstance(n.op, ast.USub):
            return simp.fn("neg", t)
        if isinstance(n.op, ast.UAdd):
            return t
        return simp.log("not", t)

    def ex_BinOp(self, n, st, fr):
        a = self.eval(n.left, st, fr)
        b = self.eval(n.right, st, fr)
        CUR["loc"] = (fr.mod.path, n.lineno, fr.name)
        return self.binop(BINOPS[type(n.op)], a, b, st)

    def binop(self, op, a, b, st):
        a, b = self.deph(a, st), self.deph(b, st)
        for x, y, left in ((a, b, True), (b, a, False)):
            if isinstance(x, Phi) and not (isinstance(self.get(st, x.a), HArr) or isinstance(x.a, T)):
                if left:
                    return self.split(x.c, lambda s: self.binop(op, x.a, b, s), lambda s: self.binop(op, x.b, b, s), st)
                return self.split(x.c, lambda s: self.binop(op, a, x.a, s), lambda s: self.binop(op, a, x.b, s), st)
        ha, hb = self.get(st, a), self.get(st, b)
        if isinstance(ha, HObj) or isinstance(hb, HObj):
            return self.obj_binop(op, a, b, ha, hb, st)
        return self.models.binop(self, op, a, b, ha, hb, st)

    def obj_binop(self, op, a, b, ha, hb, st):
        nm = {"+": "add", "-": "sub", "*": "mul", "/": "truediv", "**": "pow", "@": "matmul", "&": "and", "|": "or",
              "%": "mod", "//": "floordiv", "<<": "lshift", ">>": "rshift", "^": "xor"}[op]
        if isinstance(ha, HObj):
            v, _ = self.find_in_mro(ha.cls.mro, f"__{nm}__")
            if v is not None:
                r = self.call(self.bindfn(a, v, st), [b], {}, st)
                if not (isinstance(r, T) and r.op == "notimpl"):
                    return r
        if isinstance(hb, HObj):
            v, _ = self.find_in_mro(hb.cls.mro, f"__r{nm}__")
            if v is not None:
                r = self.call(self.bindfn(b, v, st), [a], {}, st)
                if not (isinstance(r, T) and r.op == "notimpl"):
                    return r
        self.raise_("TypeError", st, "unsupported operand")

    def ex_BoolOp(self, n, st, fr):
        is_and = isinstance(n.op, ast.And)
        return self.boolchain(n.values, 0, is_and, st, fr)

    def boolchain(self, vals, i, is_and, st, fr):
        v = self.eval(vals[i], st, fr)
        if i == len(vals) - 1:
            return v
        c = self.truth(v, st)
        d = self.decide(c, st)
        if d is not None:
            if d == is_and:
                return self.boolchain(vals, i + 1, is_and, st, fr)
            return v
        isb = isinstance(v, T) and (simp.is_bool(v) or nf.isbinary(v))

        def short(s):
            return const(not is_and) if isb else v

        def rest(s):
            r = self.boolchain(vals, i + 1, is_and, s, fr)
            return r

        if is_and:
            r = self.split(c, rest, short, st)
        else:
            r = self.split(c, short, rest, st)
        if isinstance(r, T) and r.op == "ite" and isb:
            # c ? x : False  ->  c and x
            if is_and and r.args[2] is FALSE and (simp.is_bool(r.args[1]) or nf.isbinary(r.args[1])):
                return land(r.args[0], r.args[1])
            if not is_and and r.args[1] is TRUE and (simp.is_bool(r.args[2]) or nf.isbinary(r.args[2])):
                return lor(r.args[0], r.args[2])
        return r

    def ex_IfExp(self, n, st, fr):
        c = self.truth(self.eval(n.test, st, fr), st)
        return self.split(c, lambda s: self.eval(n.body, s, fr), lambda s: self.eval(n.orelse, s, fr), st)

    def ex_Compare(self, n, st, fr):
        left = self.eval(n.left, st, fr)
        res = None
        for op, r in zip(n.ops, n.comparators):
            right = self.eval(r, st, fr)
            c = self.compare(type(op).__name__, left, right, st)
            if res is None:
                res = c
            else:
                res = land(self.truth(res, st), self.truth(c, st))
            left = right
        return res

    def compare(self, op, a, b, st):
        a, b = self.deph(a, st), self.deph(b, st)
        if op in ("Is", "IsNot"):
            r = self.is_(a, b, st)
            return r if op == "Is" else lnot(r)
        if op in ("In", "NotIn"):
            r = self.models.contains(self, a, b, st)
            return r if op == "In" else lnot(r)
        s = {"Eq": "==", "NotEq": "!=", "Lt": "<", "LtE": "<=", "Gt": ">", "GtE": ">="}[op]
        return self.models.compare(self, s, a, b, st)

    def is_(self, a, b, st):
        if isinstance(a, Phi):
            return simp.ite(a.c, self.is_(self.deph(a.a, st), b, st), self.is_(self.deph(a.b, st), b, st))
        if isinstance(b, Phi):
            return self.is_(b, a, st)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op == "ite" and (y is NONE or is_const(y)):
                return simp.ite(x.args[0], self.is_(x.args[1], y, st), self.is_(x.args[2], y, st))
        if isinstance(a, T) and isinstance(b, T):
            if a is b:
                return TRUE
            if a is NONE or b is NONE:
                o = b if a is NONE else a
                if o.op in ("getitem", "attr", "unk", "elem", "meth", "call", "loopvar", "loopval", "last"):
                    if simp.shape(o) is not None:
                        return FALSE
                    return mk("isinst", o, "None")
                return FALSE
            if a.op == "const" and b.op == "const":
                return FALSE
            return mk("isinst", a, b)
        if isinstance(a, T) != isinstance(b, T):
            t = a if isinstance(a, T) else b
            if t.op == "unk":
                return mk("isinst", t, "obj")
            return FALSE
        return const(a == b)

    def ex_Subscript(self, n, st, fr):
        o = self.eval(n.value, st, fr)
        i = self.eval_index(n.slice, st, fr)
        CUR["loc"] = (fr.mod.path, n.lineno, fr.name)
        return self.getitem(o, i, st)

    def eval_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            return self.ex_Slice(s, st, fr)
        if isinstance(s, ast.Tuple):
            return Tup([self.eval_index(e, st, fr) for e in s.elts])
        return self.eval(s, st, fr)

    def ex_Slice(self, n, st, fr):
        g = [NONE if x is None else self.term(self.eval(x, st, fr), st) for x in (n.lower, n.upper, n.step)]
        return SliceVal(*g)

    def getitem(self, o, i, st):
        o = self.deph(o, st)
        if isinstance(o, Phi):
            return self.split(o.c, lambda s: self.getitem(o.a, i, s), lambda s: self.getitem(o.b, i, s), st)
        if isinstance(o, ObjDict):
            o = self.alloc(st, HDct(st.heap[o.o.a].fields))
        h = self.get(st, o)
        if isinstance(h, HObj):
            return self.call(self.getattr(o, "__getitem__", st), [i], {}, st)
        return self.models.getitem(self, o, h, i, st)

    def setitem(self, o, i, v, st):
        """returns a new value for the target when it was not a heap object"""
        o = self.deph(o, st)
        if isinstance(o, Phi):
            self.split(o.c, lambda s: self.setitem(o.a, i, v, s), lambda s: self.setitem(o.b, i, v, s), st)
            return None
        if isinstance(o, ObjDict):
            self.setattr(o.o, cval(i), v, st)
            return None
        h = self.get(st, o)
        if isinstance(h, HObj):
            self.call(self.getattr(o, "__setitem__", st), [i, v], {}, st)
            return None
        return self.models.setitem(self, o, h, i, v, st)

    def ex_Lambda(self, n, st, fr):
        return self.make_func(n, st, fr, None)

    def ex_Starred(self, n, st, fr):
        raise Unsupported("starred")

    def ex_NamedExpr(self, n, st, fr):
        v = self.eval(n.value, st, fr)
        self.assign(n.target, v, st, fr)
        return v

    def comp(self, gens, k, st, fr, emit):
        """expand comprehension generators; False when a generator has unknown size"""
        if k == len(gens):
            emit(st)
            return True
        g = gens[k]
        itv = self.eval(g.iter, st, fr)
        items = self.iterate(itv, st)
        if items is None:
            return (itv, g)
        for v in items:
            self.assign(g.target, v, st, fr)
            ok = True
            for c in g.ifs:
                t = self.truth(self.eval(c, st, fr), st)
                d = self.decide(t, st)
                if d is None:
                    raise Unsupported("undecided comprehension filter")
                if not d:
                    ok = False
                    break
            if ok:
                r = self.comp(gens, k + 1, st, fr, emit)
                if r is not True:
                    return r
        return True

    def compframe(self, st, fr):
        f = Frame(self.newfid(), None, fr.mod, fr.cls, fr, fr.name)
        st.envs[f.fid] = {}
        return f

    def ex_ListComp(self, n, st, fr):
        f = self.compframe(st, fr)
        out = []
        try:
            r = self.comp(n.generators, 0, st, f, lambda s: out.append(self.materialise(self.eval(n.elt, s, f), s)))
        except Unsupported as e:
            if "filter" not in str(e):
                raise
            st.envs.pop(f.fid, None)
            return self.alloc(st, HOpq(unk(str(e))))
        if r is not True:
            itv, g = r
            itt = self.term(itv, st)
            bv = mk("bv", self.loopdepth)
            from .core import SYMINFO
            SYMINFO[bv.uid] = {"shape": ()}
            self.loopdepth += 1
            try:
                self.assign(g.target, self.sym_elem(itv, itt, bv, st), st, f)
                if g.ifs or len(n.generators) > 1:
                    v = unk("comprehension")
                else:
                    v = self.term(self.eval(n.elt, st, f), st)
            finally:
                self.loopdepth -= 1
            st.envs.pop(f.fid, None)
            return self.alloc(st, HOpq(mk("maplist", itt, bv, (v,), ())))
        st.envs.pop(f.fid, None)
        return self.alloc(st, HLst(out))

    ex_GeneratorExp = ex_ListComp

    def ex_SetComp(self, n, st, fr):
        r = self.ex_ListComp(n, st, fr)
        it = self.iterate(r, st)
        if it is None:
            return self.alloc(st, HOpq(mk("set", (self.term(r, st),))))
        return self.models.make_set(self, it, st)

    def ex_DictComp(self, n, st, fr):
        f = self.compframe(st, fr)
        d = {}

        def emit(s):
            k = self.dkey(self.eval(n.key, s, f), s)
            d[k] = self.materialise(self.eval(n.value, s, f), s)

        r = self.comp(n.generators, 0, st, f, emit)
        st.envs.pop(f.fid, None)
        if r is not True:
            return self.alloc(st, HOpq(unk("dict comprehension")))
        return self.alloc(st, HDct(d))

    # ------------------------------------------------------------ calls
    def ex_Call(self, n, st, fr):
        if isinstance(n.func, ast.Name) and n.func.id == "super" and "super" not in st.envs.get(fr.fid, {}):
            if n.args:
                c = self.eval(n.args[0], st, fr)
                r = self.eval(n.args[1], st, fr)
                return SuperVal(self.unlazy(c).info, r)
            f = fr
            while f is not None and f.fn is None:
                f = f.parent
            selfname = f.fn.node.args.args[0].arg
            return SuperVal(f.fn.cls, st.envs[f.fid][selfname])
        fn = self.eval(n.func, st, fr)
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.eval(a.value, st, fr), st)
                if it is None:
                    raise Unsupported("star args")
                args.extend(it)
            else:
                args.append(self.eval(a, st, fr))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                o = self.deph(self.eval(k.value, st, fr), st)
                h = self.get(st, o)
                if isinstance(h, HDct):
                    for kk, vv in h.items.items():
                        kw[kk if isinstance(kk, str) else "**" + repr(kk)] = vv
                elif isinstance(o, T) and o is NONE:
                    self.raise_("TypeError", st, "** None")
                else:
                    kw["**"] = o
            else:
                kw[k.arg] = self.eval(k.value, st, fr)
        CUR["loc"] = (fr.mod.path, n.lineno, fr.name)
        self._cur_frame = fr
        return self.call(fn, args, kw, st)

    def call(self, fn, args, kw, st):
        fn = self.deph(self.unlazy(fn), st)
        if isinstance(fn, Phi):
            return self.split(fn.c, lambda s: self.call(fn.a, args, kw, s), lambda s: self.call(fn.b, args, kw, s), st)
        if isinstance(fn, Bound):
            return self.call(fn.fn, [fn.recv] + list(args), kw, st)
        if isinstance(fn, FuncVal):
            return self.call_func(fn, args, kw, st)
        if isinstance(fn, Builtin):
            return fn.fn(self, st, args, kw)
        if isinstance(fn, ClassVal):
            return self.instantiate(fn, args, kw, st)
        if isinstance(fn, Ref):
            h = self.get(st, fn)
            if isinstance(h, HObj):
                return self.call(self.getattr(fn, "__call__", st), args, kw, st)
        return self.models.call(self, fn, args, kw, st)

    def instantiate(self, cv, args, kw, st):
        info = cv.info
        if self.models.ext_instance(info):
            o = self.alloc(st, HObj(info, {}))
        else:
            o = self.alloc(st, HObj(info, {}))
        init, _ = self.find_in_mro(info.mro, "__init__")
        if init is not None:
            self.call(self.bindfn(o, init, st), args, kw, st)
        elif any(isinstance(b, Ext) and "Exception" in b.path for b in info.mro):
            pass
        return o

    def bind_args(self, fn, args, kw, st):
        a = fn.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        args = list(args)
        kw = dict(kw)
        if len(args) > len(names):
            if a.vararg is None:
                self.raise_("TypeError", st, "too many arguments for " + fn.qual)
            env[a.vararg.arg] = Tup(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None:
            env[a.vararg.arg] = Tup(())
        for n, v in zip(names, args):
            if n in kw:
                self.raise_("TypeError", st, "multiple values for " + n)
            env[n] = v
        nd = len(fn.defaults)
        for i, n in enumerate(names):
            if n in env:
                continue
            if n in kw:
                env[n] = kw.pop(n)
            elif i >= len(names) - nd:
                env[n] = fn.defaults[i - (len(names) - nd)]
            else:
                self.raise_("TypeError", st, f"missing argument {n} of {fn.qual}")
        for x, d in zip(a.kwonlyargs, fn.kwdefaults):
            if x.arg in kw:
                env[x.arg] = kw.pop(x.arg)
            elif d is not None:
                env[x.arg] = d
            else:
                self.raise_("TypeError", st, "missing keyword " + x.arg)
        if a.kwarg is not None:
            env[a.kwarg.arg] = self.alloc(st, HDct(kw))
        elif kw:
            self.raise_("TypeError", st, "unexpected keyword " + ",".join(map(str, kw)))
        return env

    def call_func(self, fn, args, kw, st):
        if len(self.stack) > MAXDEPTH:
            raise Unsupported("call depth")
        env = self.bind_args(fn, args, kw, st)
        callsite = CUR["loc"]
        self.funcs_seen.add((fn.mod.path, fn.qual))
        self.calls_seen.add((callsite, fn.qual))
        parent = None
        if fn.fid is not None:
            parent = self.frames.get(fn.fid)
        fr = Frame(self.newfid(), fn, fn.mod, fn.cls, parent, fn.qual)
        self.frames[fr.fid] = fr
        st.envs[fr.fid] = {}
        for k, v in env.items():
            st.envs[fr.fid][k] = self.materialise(v, st)
        pc = st.pc
        self.stack.append((callsite, fn.qual))
        try:
            if isinstance(fn.node, ast.Lambda):
                r = self.eval(fn.node.body, st, fr)
                return r
            f = self.exec_block(fn.node.body, st, fr)
        finally:
            self.stack.pop()
        end = None
        if f.nxt is not None:
            end = (f.nxt[0], f.nxt[1], NONE)
        res = self.join(f.ret, end)
        if res is None:
            if f.rz:
                raise Dead(f.rz[-1][1], f.rz[-1][2])
            raise Dead(None, st)
        g, s2, v = res
        s2.pc = pc
        if s2 is not st:
            st.become(s2)
        if not self.keeps_closure(fn):
            st.envs.pop(fr.fid, None)
        CUR["loc"] = callsite
        return v

    frames: dict = {}
    _kc: dict = {}

    def keeps_closure(self, fn):
        k = id(fn.node)
        r = self._kc.get(k)
        if r is None:
            r = any(isinstance(x, (ast.FunctionDef, ast.Lambda)) and x is not fn.node for x in ast.walk(fn.node))
            self._kc[k] = r
        return r


def unkbool(why):
    return mk("pybool", unk(why))


class LazyName(Val):
    def __init__(self, mod, name):
        self.mod, self.name = mod, name

    def key(self):
        return (id(self.mod), self.name)


class ObjDict(Val):
    """the attribute dictionary of an object"""
    def __init__(self, o):
        self.o = o

    def key(self):
        return (self.o.a,)

    def method(self, it, name, st):
        def call(it, s, a, k):
            h = s.heap[self.o.a]
            if name == "update":
                src = it.get(s, a[0]) if a else None
                f = dict(h.fields)
                if isinstance(src, HDct):
                    f.update(src.items)
                elif a:
                    raise Unsupported("__dict__.update")
                f.update(k)
                s.heap[self.o.a] = HObj(h.cls, f, h.owner)
                return NONE
            if name == "pop":
                f = dict(h.fields)
                v = f.pop(cval(a[0]), a[1] if len(a) > 1 else UNBOUND)
                if v is UNBOUND:
                    it.raise_("KeyError", s)
                s.heap[self.o.a] = HObj(h.cls, f, h.owner)
                return v
            if name == "clear":
                s.heap[self.o.a] = HObj(h.cls, {}, h.owner)
                return NONE
            return it.call(it.getattr(it.alloc(s, HDct(h.fields)), name, s), a, k, s)
        return Builtin("__dict__." + name, call)


class ParentEnv(dict):
    pass


_LN: dict = {}


def local_names(node):
    r = _LN.get(id(node))
    if r is None:
        r = set()
        for x in ast.walk(node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                r.add(x.id)
        _LN[id(node)] = r
    return r


BINOPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
          ast.MatMult: "@", ast.BitAnd: "&", ast.BitOr: "|", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>"}
