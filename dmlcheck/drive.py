"""Driver programs: small Python texts that are *analysed* (never executed) together with the repository source.
A driver builds abstract inputs, uses the public interface, and states obligations about the resulting values."""
from __future__ import annotations

import ast
import itertools
import textwrap

from . import core, nf, simp
from .core import (Builtin, Dead, Ext, ExtMeth, FuncVal, HArr, HDct, HDF, HEst, HLst, HObj, HOpq, HSet, ModVal, Bound, ClassVal,
                   NONE, ONE, PROV, CUR, Phi, Ref, State, T, TRUE, FALSE, Tup, Unsupported, const, cval, is_const, mk,
                   show, subterms, sym)
from .interp import Frame, Interp, Module

OPAQUE = {"unk", "meth", "getattr", "getitem", "loopval", "loopout", "viewwritten", "last", "lastc", "val",
          "loopvar", "ph", "pybool", "obj", "df"}


class Obl:
    """one obligation"""
    __slots__ = ("prop", "driver", "label", "status", "detail", "loc")

    def __init__(self, prop, driver, label, status, detail="", loc=None):
        self.prop, self.driver, self.label, self.status, self.detail, self.loc = prop, driver, label, status, detail, loc

    def __repr__(self):
        return f"{self.status}: {self.driver}/{self.label} {self.detail}"


class Stop(Exception):
    pass


def implied(c, facts, depth=0):
    """truth of a condition that an assumption settles up to algebra (the recorded conditions are matched as inequalities
    between the two sides, not by their canonical text)"""
    if c.op == "log" and depth < 4:
        ds = [implied(x, facts, depth + 1) for x in c.args[1:]]
        if c.args[0] == "not":
            return None if ds[0] is None else not ds[0]
        stop = c.args[0] == "or"
        if stop in ds:
            return stop
        return None if None in ds else not stop
    if c.op != "cmp" or c.args[0] not in ("<", "<=", ">", ">="):
        return None
    def norm(t):
        op, x, y = t.args
        if op in (">", ">="):
            op, x, y = {">": "<", ">=": "<="}[op], y, x
        return op, simp.bin_("-", x, y)
    if any(simp.shape(x) != () for x in c.args[1:]):
        return None
    op, e = norm(c)
    for f, truth in facts:
        while f.op == "log" and f.args[0] == "not":
            f, truth = f.args[1], not truth
        fs = f.args[1:] if f.op == "log" and f.args[0] == ("and" if truth else "or") else (f,)
        for g in fs:
            if g.op != "cmp" or g.args[0] not in ("<", "<=", ">", ">=") or any(simp.shape(x) != () for x in g.args[1:]):
                continue
            o, h = norm(g)
            if not truth:                   # not (h < 0)  is  -h <= 0
                o, h = ("<=" if o == "<" else "<"), simp.bin_("-", const(0), h)
            if nf.equal(e, h):
                if o == "<" or op == "<=":
                    return True
            elif nf.equal(e, simp.bin_("-", const(0), h)):
                if o == "<" or op == "<":
                    return False
    return None


class Run:
    """analysis of one driver"""

    def __init__(self, root, name, src, prop=None, params=None, hooks=None, quiet_raise=False):
        self.root, self.name, self.src, self.prop = root, name, src, prop
        self.params = dict(params or {})
        self.obls = []
        self.scalars = {}
        self.hooks = hooks or {}
        self.host = {}
        self.crash = None
        self.big0 = 0

    # -------------------------------------------------------- analysis
    def analyse(self):
        PROV.clear()
        CUR["loc"] = None
        it = Interp(self.root)
        self.it = it
        it.run = self
        it.module("doubleml")
        core.PROV.clear()
        tree = ast.parse(textwrap.dedent(self.src), f"<driver {self.name}>")
        m = Module("driver", f"<driver {self.name}>", tree)
        it.mods["driver"] = m
        m.ns.update(self.namespace())
        it.exec_module(m)
        fn = m.ns.get("driver")
        st = State()
        st.heap.update(getattr(m, "heap", {}))
        self.st = st
        try:
            it.call_func(fn, [], {}, st)
        except Stop:
            pass
        except Dead as e:
            self.crash = ("raise", e.exc, getattr(e, "st", None))
            ev = [x for x in it.events if x.kind == "raise"]
            loc = ev[-1].loc if ev else CUR["loc"]
            stack = ev[-1].stack if ev else ()
            data = ev[-1].data if ev else (e.exc, None)
            # a driver that looks at an implementation attribute which was renamed has no verdict
            private = data[0] == "AttributeError" and str(data[1]).startswith("_") and loc and str(loc[0]).startswith("<driver")
            self.add("driver completes", "undecided" if private else self.raise_status(it), f"raises {data[0]} ({data[1]}) via "
                     + " > ".join(f"{q}" for _, q in stack[-4:]), loc)
        except Unsupported as e:
            self.crash = ("unsupported", str(e))
            self.add("driver completes", "undecided", "unsupported construct: " + str(e), CUR["loc"])
        except RecursionError:
            self.crash = ("unsupported", "recursion")
            self.add("driver completes", "undecided", "recursion limit", CUR["loc"])
        except (KeyError, AttributeError, IndexError, TypeError, ValueError, AssertionError, ZeroDivisionError) as e:
            # a construct outside the analysed subset tripped the analyser itself: no verdict for this driver
            import traceback
            tb = traceback.extract_tb(e.__traceback__)
            self.crash = ("internal", repr(e), "\n".join(f"{f.name}:{f.lineno} {f.line}" for f in tb[-6:])
                          + "\n" + " > ".join(f"{q}" for _, q in it.stack[-5:]))
            self.add("driver completes", "undecided", "analyser limitation: " + repr(e)[:200], CUR["loc"])
        return self

    def raise_status(self, it):
        return "violated" if not it.unmodelled else "undecided"

    def add(self, label, status, detail="", loc=None):
        self.obls.append(Obl(self.prop, self.name, label, status, detail, loc))

    # -------------------------------------------------------- comparison
    def settle(self, label, ok, a, b, st, extra=""):
        it = self.it
        if ok:
            self.add(label, "proven")
            return
        ta, tb = it.term(a, st) if not isinstance(a, T) else a, it.term(b, st) if not isinstance(b, T) else b
        bad = self.opaque(ta, tb)
        big = not bad and (nf.TooBig.count != self.big0 or any(x.uid in nf.BIG for t in (ta, tb) for x in subterms(t)))
        if not bad:
            j, info = self.ground(ta, tb, st)
            if j == "same":
                bad = f"normal forms differ, ground evaluation agrees on {info[0]} universes"
            elif big and not (j == "differ" and info[2] == 0):
                bad = "normal form too large to compare"
            elif j == "differ":
                extra += f"; values differ in {info[0]} of {info[1]} ground universes"
        loc, frag = self.blame(ta, tb)
        if bad:
            self.add(label, "undecided", "not interpreted: " + bad + extra, loc)
        else:
            self.add(label, "violated", f"got {show(ta, 5)[:400]}; expected {show(tb, 5)[:400]}; differing construct {frag}{extra}", loc)

    def ground(self, ta, tb, st):
        from . import ground
        ta, tb = self.underfacts(ta, st), self.underfacts(tb, st)
        return ground.judge(ta, tb, st.facts.get("#terms", ()))

    def opaque(self, ta, tb):
        """a part of either value that the analyser could not interpret (no verdict), also when both sides share it"""
        for t in (ta, tb):
            for x in subterms(t):
                if x.op in OPAQUE or x.op == "call" and x.args[0] in self.it.unmodelled:
                    return show(x, 3)[:200]
        return ""

    def blame(self, ta, tb):
        have = {x.uid for x in subterms(tb)}
        cands = []
        for x in subterms(ta):
            if x.uid in have:
                continue
            p = PROV.get(x.uid)
            if p and p[0].startswith(self.root):
                kids = [y for y in subterms(x.args) if y.uid not in have and y is not x]
                cands.append((len(kids), x, p))
        if cands:
            cands.sort(key=lambda z: z[0])
            return cands[0][2], show(cands[0][1], 3)[:160]
        ev = self.it.calls_seen
        return None, ""

    def eqv(self, a, b, st, depth=0):
        """True/False with the first differing pair"""
        it = self.it
        a, b = it.deph(a, st), it.deph(b, st)
        if isinstance(a, Phi) or isinstance(b, Phi):
            if isinstance(a, Phi) and isinstance(b, Phi) and a.c is b.c:
                r = self.eqv(a.a, b.a, st)
                return r if r is not None else self.eqv(a.b, b.b, st)
        ha, hb = it.get(st, a), it.get(st, b)
        if ha is not None and ha is hb:
            return None
        if isinstance(ha, HDct) and isinstance(hb, HDct):
            if set(map(kk, ha.items)) != set(map(kk, hb.items)):
                return ("keys", a, b)
            kb = {kk(k): v for k, v in hb.items.items()}
            for k, v in ha.items.items():
                r = self.eqv(v, kb[kk(k)], st, depth + 1)
                if r is not None:
                    return (f"[{k!r}]{r[0]}", r[1], r[2])
            return None
        if isinstance(ha, HDF) and isinstance(hb, HDF):
            if list(ha.cols) != list(hb.cols):
                return (f"columns {list(ha.cols)} vs {list(hb.cols)}", a, b)
            for k in ha.cols:
                if not nf.equal(ha.cols[k], hb.cols[k]):
                    return (f"[{k!r}]", ha.cols[k], hb.cols[k])
            return None
        if isinstance(ha, HObj) and isinstance(hb, HObj):
            return None if a == b else ("object", a, b)
        la = list(ha.items) if isinstance(ha, HLst) else list(a.items) if isinstance(a, Tup) else None
        lb = list(hb.items) if isinstance(hb, HLst) else list(b.items) if isinstance(b, Tup) else None
        if la is not None and lb is not None:
            if len(la) != len(lb):
                return (f"length {len(la)} vs {len(lb)}", a, b)
            for i, (x, y) in enumerate(zip(la, lb)):
                r = self.eqv(x, y, st, depth + 1)
                if r is not None:
                    return (f"[{i}]{r[0]}", r[1], r[2])
            return None
        if isinstance(ha, HSet) and isinstance(hb, HSet):
            return None if set(ha.items) == set(hb.items) else ("set", a, b)
        ta, tb = it.term(a, st), it.term(b, st)
        if ta is tb:
            return None
        ta, tb = self.underfacts(ta, st), self.underfacts(tb, st)
        ok = nf.equal(ta, tb)
        if not ok:
            ok = self.eqfacts(ta, tb, st)
        if not ok:
            ok = nf.equal_abs(ta, tb)
        if ok:
            return None
        ea, eb = simp.expand(ta), simp.expand(tb)
        if ea is not None and eb is not None and ea[0] == eb[0] and ta.op == "arr" and len(ea[1]) > 1:
            for i, (x, y) in enumerate(zip(ea[1], eb[1])):
                if not nf.equal(x, y):
                    return (f"[{i}]", x, y)
        return ("", ta, tb)

    def underfacts(self, t, st):
        while t.op == "ite":
            d = nf.decide(t.args[0], st.facts)
            if d is None:
                d = implied(t.args[0], st.facts.get("#terms", ()))
            if d is None:
                break
            t = t.args[1] if d else t.args[2]
        return t

    def eqfacts(self, a, b, st):
        try:
            p = nf.padd(nf.nf(a), nf.nf(b), -1)
        except nf.TooBig:
            return False
        p = nf.subst_facts(p, st.facts)
        return nf.is_zero(p)

    # -------------------------------------------------------- namespace of driver programs
    def namespace(self):
        it, run = self.it, self
        ns = {}

        def bi(name):
            def deco(f):
                ns[name] = Builtin("drv." + name, f)
                return f
            return deco

        def s(v):
            return cval(v)

        dml = it.mods["doubleml"]
        ns["dml"] = ModVal(dml)
        ns["np"] = Ext("numpy")
        ns["pd"] = Ext("pandas")
        ns["norm"] = Ext("scipy.stats.norm")
        n = sym("n", shape=(), range=(1, None), integer=True, finite=True)
        ns["n"] = n
        for k, v in self.params.items():
            ns[k] = it_value(v)

        def colsym(name, kind, dim=n):
            info = dict(shape=(dim,), finite=True)
            if kind in ("b", "binary"):
                info.update(binary=True, target="binary")
            elif kind in ("c", "cont"):
                info.update(target="continuous")
            elif kind in ("i", "int"):
                info.update(target="multiclass", integer=True)
            elif kind in ("u", "cluster"):
                info.update(target="multiclass", integer=True, cluster=True)
            elif kind.startswith("l"):
                info.update(target="multiclass", integer=True, levels=tuple(range(int(kind[1:]))))
            elif kind.startswith("s") and kind[1:].isdigit():
                info.update(strings=True, levels=tuple("ABCDEFG"[:int(kind[1:])]))
            elif kind == "bool":
                info.update(binary=True, target="binary", dtype="bool")
            elif kind == "nan":
                info.update(target="continuous", finite=False)
            elif kind == "miss":       # certainly contains missing values, no infinite ones
                info.update(target="continuous", finite=False, hasnan=True)
            elif kind == "inf":        # certainly contains infinite values
                info.update(target="continuous", finite=False, hasinf=True)
            return sym(name, **info)

        @bi("DF")
        def df(i, st, args, kw):
            owner = "user data frame"
            cols = {}
            spec = cval(args[0])
            for w in spec.split():
                nm, kd = w.split(":")
                cols[nm] = colsym("$" + nm, kd)
            return i.alloc(st, HDF(cols, n, owner))

        @bi("COL")
        def col(i, st, args, kw):
            return colsym("$" + s(args[0]), s(args[1]))

        @bi("ARR")
        def arr_(i, st, args, kw):
            """user array with given trailing concrete dims: ARR(name, r) -> (n, r)"""
            nm = s(args[0])
            extra = [cval(a) for a in args[1:]]
            own = kw.get("owner")
            kd = s(kw["kind"]) if "kind" in kw else "c"
            import itertools
            if not extra:
                t = colsym("$" + nm, kd)
            else:
                el = [colsym("$" + nm + "_" + "_".join(map(str, ix)), kd)
                      for ix in itertools.product(*[range(x) for x in extra])]
                t = simp.arr((n,) + tuple(extra), el)
            return i.alloc(st, HArr(t, ("user array " + nm) if own is None else s(own)))

        @bi("MAT")
        def mat(i, st, args, kw):
            """array MAT(name, dims...) of independent entries; a dim is an int or n"""
            import itertools
            nm, dims = s(args[0]), [cval(a) if is_const(a) else a for a in args[1:]]
            en = [d for d in dims if isinstance(d, int)]
            lo = cval(kw["lo"]) if "lo" in kw else None
            free = tuple(d for d in dims if not isinstance(d, int))
            info = dict(shape=free, finite=True)
            if lo is not None:
                info["range"] = (lo, None)
            if kw.get("real") is TRUE:
                info["real"] = True         # computed in floating point, whatever the element type of the data
            el = [sym("$" + nm + "_" + "_".join(map(str, ix)), **info) for ix in itertools.product(*[range(x) for x in en])]
            t = simp.arr(tuple(dims), el) if en else el[0]
            return i.alloc(st, HArr(t, s(kw["owner"]) if "owner" in kw else None))

        @bi("SCALAR")
        def scalar(i, st, args, kw):
            info = dict(shape=(), finite=True)
            lo = kw.get("lo")
            hi = kw.get("hi")
            if lo is not None or hi is not None:
                info["range"] = (cval(lo) if lo is not None else None, cval(hi) if hi is not None else None)
            if kw.get("integer") is TRUE:
                info["integer"] = True; info["types"] = ("int", "numbers.Integral", "numbers.Number", "numbers.Real")
            # a second mention of the name is the same quantity
            info = {**self.scalars.get(s(args[0]), {}), **info}
            self.scalars[s(args[0])] = info
            return sym("$" + s(args[0]), **info)

        @bi("LRN")
        def lrn(i, st, args, kw):
            nm, kd = s(args[0]), s(args[1])
            info = {"kind": kd}
            if "lacks" in kw:
                info["lacks"] = tuple(s(kw["lacks"]).split())
            if "sw" in kw:
                info["sample_weight"] = kw["sw"] is TRUE
            else:
                info["sample_weight"] = True
            return i.alloc(st, HEst(mk("lrn", nm, kd), (), NONE, "user learner " + nm, info))

        @bi("SPLITS")
        def splits(i, st, args, kw):
            nm, K, R = s(args[0]), cval(args[1]), cval(args[2])
            out = []
            for r in range(R):
                g = mk("fgroup", "user_" + nm, K, n, r)
                prs = []
                for k in range(K):
                    tr = i.alloc(st, HArr(simp.iset(mk("fold", g, k, "train")), "user splits"))
                    te = i.alloc(st, HArr(simp.iset(mk("fold", g, k, "test")), "user splits"))
                    prs.append(Tup((tr, te)))
                out.append(i.alloc(st, HLst(prs, "user splits")))
            return i.alloc(st, HLst(out, "user splits"))

        @bi("USERLIST")
        def userlist(i, st, args, kw):
            v = args[0]
            nm = s(args[1]) if len(args) > 1 else "user list"
            h = i.get(st, v)
            if isinstance(h, HLst):
                st.heap[v.a] = HLst(h.items, nm)
            elif isinstance(h, HDct):
                st.heap[v.a] = HDct(h.items, nm)
                for k, x in h.items.items():
                    if isinstance(i.get(st, x), (HLst, HDct)):
                        userlist(i, st, [x, const(nm)], {})
            elif isinstance(h, HArr):
                st.heap[v.a] = HArr(h.content, nm, h.kind, h.base, h.name)
            elif isinstance(h, HDF):
                st.heap[v.a] = HDF(h.cols, h.nrows, nm, h.index)
            return v

        @bi("EQ")
        def eq(i, st, args, kw):
            label, a, b = cval(args[0]), args[1], args[2]
            run.big0 = nf.TooBig.count
            r = run.eqv(a, b, st)
            if r is None:
                run.add(label, "proven")
            else:
                run.settle(label + r[0], False, r[1], r[2], st)
            return NONE

        @bi("SHOWS")
        def shows(i, st, args, kw):
            """SHOWS(label, text, before, value): the text shows `value` directly after the literal `before`"""
            label, before = cval(args[0]), cval(args[2])
            tx = i.models.shown(i, args[1], st)
            want = i.models.shown(i, args[3], st)
            if tx.op == "const":
                parts = [tx]
            elif tx.op == "fmt" and len(tx.args) == 1 and isinstance(tx.args[0], tuple):
                parts = list(tx.args[0])
            else:
                run.add(label, "undecided", "text not interpreted: " + show(tx, 4)[:200])
                return NONE
            for k, p in enumerate(parts):
                if p.op != "const":
                    continue
                if want.op == "const":
                    j = str(cval(p)).find(before + str(cval(want)))
                    if j >= 0:
                        run.add(label, "proven")
                        return NONE
                elif str(cval(p)).endswith(before) and k + 1 < len(parts):
                    got = parts[k + 1]
                    if got.op == "call" and got.args[0] == "format":
                        got = got.args[1][0]
                    pairs = table_cells(got, want) or [("", got, want)]
                    bad = False
                    for sub, g, w in pairs:
                        run.big0 = nf.TooBig.count
                        r = run.eqv(g, w, st)
                        if r is not None:
                            bad = True
                            run.settle(label + sub + r[0], False, r[1], r[2], st)
                    if not bad:
                        run.add(label, "proven")
                    return NONE
            run.add(label, "violated", f"the text does not show {show(want, 3)[:120]} after {before!r}: {show(tx, 4)[:200]}", CUR["loc"])
            return NONE

        @bi("EQK")
        def eqk(i, st, args, kw):
            """EQK(label, got, want, bad, what): like EQ; a value equal to `bad` is reported under its own label so that a
            recorded finding covers exactly that deviation and nothing else"""
            label, a, b, bad = cval(args[0]), args[1], args[2], args[3]
            run.big0 = nf.TooBig.count
            r = run.eqv(a, b, st)
            if r is None:
                run.add(label, "proven")
            elif run.eqv(a, bad, st) is None:
                ta, tb = i.term(r[1], st), i.term(r[2], st)
                loc, frag = run.blame(ta, tb)
                run.add(f"{label} [{cval(args[4])}]", "violated", f"got {show(ta, 5)[:300]}; expected {show(tb, 5)[:300]}", loc)
            else:
                run.settle(label + r[0], False, r[1], r[2], st)
            return NONE

        @bi("SAME")
        def same(i, st, args, kw):
            """same object"""
            ok = i.deph(args[1], st) == i.deph(args[2], st)
            run.add(cval(args[0]), "proven" if ok else "violated", "" if ok else "a different object is used", CUR["loc"])
            return NONE

        @bi("DISTINCT")
        def distinct(i, st, args, kw):
            a, b = i.deph(args[1], st), i.deph(args[2], st)
            why = "the same object is shared" if a == b else ""
            if not why and all(isinstance(i.get(st, x), HArr) or (isinstance(x, T) and i.get(st, x) is None) for x in (a, b)) \
                    and i.term(a, st) is i.term(b, st):
                why = "both have the same values: " + show(i.term(a, st), 3)[:150]
            run.add(cval(args[0]), "violated" if why else "proven", why, CUR["loc"])
            return NONE

        def setof(i, st, v):
            """(base, index set) of an index array or of a selection of values"""
            t = i.term(v, st)
            if t.op == "gather":
                b, x = t.args
                if b.op == "iset" and b.args[1] is simp.TRUE and b.args[0].op == "full":
                    return None, x
                return b, x
            return None, t

        @bi("PARTITION")
        def partition(i, st, args, kw):
            """the listed index sets (or selections of one base vector) are disjoint and cover everything"""
            lab = cval(args[0])
            its = [setof(i, st, v) for v in i.iterate(args[1], st) or []]
            fs = [x.args[0] if x.op == "iset" and x.args[1] is simp.TRUE and x.args[0].op == "fold" else None
                  for _, x in its]
            if not its or None in fs or any(b is not its[0][0] for b, _ in its):
                run.add(lab, "undecided", "index sets not recognised: " + ", ".join(show(x, 3) for _, x in its)[:300],
                        CUR["loc"])
                return NONE
            g = fs[0].args[0]
            ok = all(f.args[0] is g and f.args[2] == "test" for f in fs) and \
                sorted(f.args[1] for f in fs) == list(range(g.args[1]))
            run.add(lab, "proven" if ok else "violated", "" if ok else
                    "not a partition: " + ", ".join(show(f, 3) for f in fs)[:300], CUR["loc"])
            return NONE

        @bi("STRATIFIED")
        def stratified(i, st, args, kw):
            """every fold of the splits is drawn by a stratified splitter whose strata are exactly the cells of the columns"""
            lab = cval(args[0])
            cols = []
            for e in i.iterate(args[2], st) or []:
                c, vals = i.iterate(e, st)
                cols.append((i.term(c, st), [cval(v) for v in i.iterate(vals, st)]))
            groups = {}
            for pr in i.iterate(args[1], st) or []:
                for v in i.iterate(pr, st) or []:
                    t = i.term(v, st)
                    f = t.args[0] if t.op == "iset" and t.args[1] is simp.TRUE and t.args[0].op == "fold" else None
                    if f is None or f.args[0].op != "fgroup" or len(f.args[0].args) < 6:
                        run.add(lab, "undecided", "splits not recognised: " + show(t, 3)[:200], CUR["loc"])
                        return NONE
                    groups[f.args[0].uid] = f.args[0]
            for g in groups.values():
                S = g.args[5]
                if S is NONE or not isinstance(S, T):
                    run.add(lab, "violated", f"{g.args[0]} does not stratify", CUR["loc"])
                    return NONE
                seen = {}
                for cell in itertools.product(*[v for _, v in cols]):
                    m = {c: simp.fill(const(x), simp.shape(c)) for (c, _), x in zip(cols, cell)}
                    r = simp.subst(S, m)
                    while r.op in ("fill", "arr"):
                        if r.op == "arr" and len(r.args[1]) != 1:
                            break
                        r = r.args[0] if r.op == "fill" else r.args[1][0]
                    q = nf.nf(r) if r.op != "const" else None
                    if q is not None and (not q or list(q) == [()]):
                        r = const(q.get((), 0) if q else 0)
                    if r.op != "const":
                        run.add(lab, "undecided", "strata not evaluated: " + show(r, 4)[:200], CUR["loc"])
                        return NONE
                    if cval(r) in seen:
                        run.add(lab, "violated", f"cells {seen[cval(r)]} and {cell} share a stratum: {show(S, 4)[:200]}", CUR["loc"])
                        return NONE
                    seen[cval(r)] = cell
            run.add(lab, "proven" if groups else "undecided", "", CUR["loc"])
            return NONE

        @bi("NOOVERLAP")
        def nooverlap(i, st, args, kw):
            lab = cval(args[0])
            (b1, x), (b2, y) = setof(i, st, args[1]), setof(i, st, args[2])

            def folds(z):
                """membership conditions of an index set"""
                if z.op != "iset":
                    return None
                fs = [z.args[0]] if z.args[0].op == "fold" else []
                fs += [c.args[1].args[0] for c in simp._conj(z.args[1])
                       if c.op == "fn" and c.args[0] == "infold"]
                out = []
                for f in fs:
                    g = f.args[0]
                    if g.args[0] == "prod" and f.args[2] == "test":
                        k = f.args[1]
                        for h in reversed(g.args[3:]):
                            out.append((h, k % h.args[1], "test"))
                            k //= h.args[1]
                    else:
                        out.append((g, f.args[1], f.args[2]))
                return out
            fx, fy = folds(x), folds(y)
            if fx is None or fy is None or b1 is not b2 or not fx or not fy:
                run.add(lab, "undecided", f"{show(x, 3)} / {show(y, 3)}"[:300], CUR["loc"])
                return NONE
            # every grouping must separate the two sets
            gs = {g.uid for g, _, _ in fx} | {g.uid for g, _, _ in fy}
            bad = [u for u in gs if not any(
                a[0].uid == u and b[0].uid == u and (a[2] != b[2] and a[1] == b[1] or a[2] == b[2] == "test" and a[1] != b[1])
                for a in fx for b in fy)]
            run.add(lab, "violated" if bad else "proven", f"{show(x, 3)} and {show(y, 3)} share members"[:300] if bad else "",
                    CUR["loc"])
            return NONE

        @bi("HOLDS")
        def holds(i, st, args, kw):
            t = i.truth(args[1], st)
            d = i.decide(t, st)
            if d is True:
                run.add(cval(args[0]), "proven")
            elif d is False:
                run.add(cval(args[0]), "violated", f"{show(t, 4)[:300]} is false", CUR["loc"])
            else:
                run.add(cval(args[0]), "undecided", show(t, 4)[:300], CUR["loc"])
            return NONE

        @bi("ASSUME")
        def assume(i, st, args, kw):
            t = i.truth(args[0], st)
            nf.add_fact(st.facts, t, True)
            return NONE

        @bi("RAISES")
        def raises(i, st, args, kw):
            """RAISES(label, thunk, 'ValueError,TypeError'): every path through the call ends in one of the exceptions"""
            label, th = cval(args[0]), args[1]
            want = cval(args[2]).split(",") if len(args) > 2 else ["TypeError", "ValueError", "NotImplementedError"]
            s2 = st.copy()
            u0 = dict(i.unmodelled)
            e0 = len(i.events)
            try:
                i.call(th, [], {}, s2)
            except Dead as e:
                from .interp import exc_matches
                if any(exc_matches(str(e.exc), w) for w in want):
                    pre = [x for x in i.events[e0:] if x.kind in ("fit",)]
                    if pre and kw.get("before_fit") is not FALSE:
                        run.add(label, "violated", "a learner is trained before the argument is rejected", pre[0].loc)
                    else:
                        run.add(label, "proven")
                else:
                    ev = [x for x in i.events if x.kind == "raise"]
                    run.add(label, "undecided" if i.unmodelled != u0 else "violated",
                            f"raises {e.exc} instead of {'/'.join(want)}", ev[-1].loc if ev else CUR["loc"])
                return NONE
            except Unsupported as e:
                run.add(label, "undecided", "unsupported: " + str(e), CUR["loc"])
                return NONE
            run.add(label, "undecided" if i.unmodelled != u0 or maybe_rejected(i.events[e0:], st, want) else "violated",
                    "accepted without an exception", None)
            return NONE

        @bi("REJECTED")
        def rejected(i, st, args, kw):
            """like RAISES, but the program goes on in the state the rejected call left behind"""
            s2 = st.copy()
            try:
                i.call(args[1], [], {}, s2)
            except Dead as e:
                s2 = getattr(e, "st", None) or s2
            except Unsupported:
                pass
            raises(i, st, args, kw)
            st.heap.clear()
            st.heap.update(s2.heap)
            return NONE

        @bi("ACCEPTS")
        def accepts(i, st, args, kw):
            label, th = cval(args[0]), args[1]
            s2 = st.copy()
            u0 = dict(i.unmodelled)
            try:
                i.call(th, [], {}, s2)
                run.add(label, "proven")
            except Dead as e:
                ev = [x for x in i.events if x.kind == "raise"]
                run.add(label, "undecided" if i.unmodelled != u0 else "violated", f"raises {e.exc}",
                        ev[-1].loc if ev else CUR["loc"])
            except Unsupported as e:
                run.add(label, "undecided", "unsupported: " + str(e), CUR["loc"])
            return NONE

        @bi("MARK")
        def mark(i, st, args, kw):
            run.host.setdefault("marks", []).append((cval(args[0]), len(i.events)))
            return NONE

        @bi("DEBUG")
        def debug(i, st, args, kw):
            for a in args:
                print("DEBUG", describe(i, a, st))
            return NONE

        @bi("SPECFN")
        def specfn(i, st, args, kw):
            f = run.hooks[cval(args[0])]
            return f(run, i, st, list(args[1:]), kw)

        for nm, f in self.hooks.items():
            ns[nm] = Builtin("hook." + nm, (lambda g: lambda i, st, a, k: g(run, i, st, list(a), k))(f))
        from . import speclib
        speclib.install(ns, self)
        return ns


def maybe_rejected(events, st, want):
    """the call may end in a wanted exception under conditions that are not decided: a violation needs a universe in which
    none of them holds"""
    from .interp import exc_matches
    from . import ground
    evs = [x for x in events if x.kind == "raise" and any(exc_matches(str(x.data[0]), w) for w in want)]
    if not evs:
        return False
    k = len(st.pc)
    facts = [(c, v) for c, v in st.facts.get("#terms", ())]
    return not ground.escapes([x.gate[k:] for x in evs], facts)


def table_cells(a, b):
    """parts of two shown tables to be compared one by one"""
    if not all(x.op == "call" and x.args[0] == "table" for x in (a, b)) or len(a.args[1]) != len(b.args[1]):
        return None
    return [("" if x.op == "const" else " cells", x, y) for x, y in zip(a.args[1], b.args[1]) if x is not y]


def kk(k):
    return k.uid if isinstance(k, T) else repr(k)


def it_value(v):
    if isinstance(v, (core.Val, T, Ref)):
        return v
    if isinstance(v, tuple):
        return Tup([it_value(x) for x in v])
    return const(v)


def describe(it, v, st, depth=0):
    v = it.deph(v, st)
    h = it.get(st, v)
    if isinstance(h, HObj):
        if depth > 0:
            return f"<{h.cls.name}>"
        return f"<{h.cls.name} " + ", ".join(f"{k}={describe(it, x, st, 1)}" for k, x in h.fields.items()) + ">"
    if isinstance(h, HLst):
        return "[" + ", ".join(describe(it, x, st, depth + 1) for x in h.items) + "]"
    if isinstance(h, HDct):
        return "{" + ", ".join(f"{k!r}: {describe(it, x, st, depth + 1)}" for k, x in h.items.items()) + "}"
    if isinstance(v, Tup):
        return "(" + ", ".join(describe(it, x, st, depth + 1) for x in v.items) + ")"
    if isinstance(v, Phi):
        return f"phi({show(v.c, 3)}, {describe(it, v.a, st, depth+1)}, {describe(it, v.b, st, depth+1)})"
    try:
        t = it.term(v, st)
        return f"{show(t, 8)[:600]} :: {simp.shape(t)}"
    except Exception as e:
        return repr(v)
