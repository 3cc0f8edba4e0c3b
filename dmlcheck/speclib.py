"""Vocabulary available to driver programs for stating specifications."""
from __future__ import annotations

from . import nf, simp
from .core import (Builtin, HArr, HDct, HDF, HEst, HLst, HObj, NONE, ONE, Ref, T, TRUE, FALSE, Tup, const, cval, is_const, mk, sym)


def install(ns, run):
    def bi(name):
        def deco(f):
            ns[name] = Builtin("spec." + name, f)
            return f
        return deco

    @bi("OOF")
    def oof(i, st, args, kw):
        """OOF(learner, X, y, smpls_r, sub=mask, method='predict'|'proba', params=dict, w=None)
        reference value: out-of-fold prediction of a clone of the learner trained on train_k restricted to sub"""
        lrn, X, y, smpls = args[:4]
        sub = kw.get("sub")
        h = i.get(st, i.deph(lrn, st))
        method = kw.get("method")
        if method is None:
            m = "proba" if h.info.get("kind") == "classifier" else "predict"
        else:
            m = cval(method)
        params = kw.get("params")
        plist = list(h.params)
        yl = i.get(st, i.deph(y, st)) if not isinstance(y, T) else None
        yl = [i.term(v, st) for v in yl.items] if isinstance(yl, HLst) else None
        xt, yt = i.term(X, st), (None if yl is not None else i.term(y, st))
        n = simp.shape(xt)[0]
        ins = kw.get("ins") is TRUE
        inl = []
        out = simp.fill(const(float("nan")), (n,))
        prs = i.iterate(smpls, st)
        for k, p in enumerate(prs):
            tr, te = [i.term(x, st) for x in i.unpack(p, 2, st)]
            if sub is not None and i.deph(sub, st) is not NONE:
                tr = simp.iset(tr.args[0], simp.log("and", tr.args[1], gmask(i.term(sub, st), tr)))
            pp = dict(plist)
            if params is not None and i.deph(params, st) is not NONE:
                ph = i.get(st, i.deph(params, st))
                if ph.__class__.__name__ == "HLst":
                    ph = i.get(st, i.deph(ph.items[k], st))
                for kk, v in ph.items.items():
                    pp[kk] = i.term(v, st)
            w = kw.get("w")
            wt = NONE if w is None else simp.index(i.term(w, st), [tr])
            fitted = mk("fitted", h.base, tuple(sorted(pp.items())), simp.index(xt, [tr]),
                        simp.index(yt, [tr]) if yl is None else yl[k], wt)
            if ins:
                te = tr
            pr = mk("pred", m, fitted, simp.index(xt, [te]), simp.shape(simp.index(xt, [te]))[0])
            if ins:
                inl.append(pr)
            else:
                out = simp.store(out, [te], pr)
        if ins:
            return i.alloc(st, HLst(inl))
        return i.materialise(out, st)

    @bi("FITPRED")
    def fitpred(i, st, args, kw):
        """FITPRED(learner, Xtrain, ytrain, Xeval, params=): prediction of a fresh clone fitted on the given rows"""
        h = i.get(st, i.deph(args[0], st))
        m = cval(kw["method"]) if "method" in kw else "proba" if h.info.get("kind") == "classifier" else "predict"
        pp = dict(h.params)
        if "params" in kw and i.deph(kw["params"], st) is not NONE:
            for kk, v in i.get(st, i.deph(kw["params"], st)).items.items():
                pp[kk] = i.term(v, st)
        w = kw.get("w")
        xt, yt, xe = (i.term(a, st) for a in args[1:4])
        fitted = mk("fitted", h.base, tuple(sorted(pp.items())), xt, yt, NONE if w is None else i.term(w, st))
        return i.materialise(mk("pred", m, fitted, xe, simp.shape(xe)[0]), st)

    @bi("INS")
    def ins(i, st, args, kw):
        """list of in-sample predictions on the training rows of every fold"""
        kw = dict(kw)
        kw["ins"] = TRUE
        return oof(i, st, args, kw)

    @bi("XCOLS")
    def xcols(i, st, args, kw):
        """matrix of the named columns of a frame"""
        h = i.get(st, i.deph(args[0], st))
        t = simp.stack_cols([h.cols[c] for c in cval(args[1]).split()])
        return i.materialise(t, st)


def gmask(mask, S):
    """a boolean vector as mask term of an index set (masks are stored over the full axis)"""
    return mask


# ------------------------------------------------------------------ decomposed comparison of predictions
def cols_of(x):
    """(list of columns without row selection, set of row selections) of a gathered matrix or vector"""
    e = simp.expand(x)
    items = list(e[1]) if e is not None and e[0] and x.op == "arr" else [x]
    cols, sel = [], []
    for c in items:
        if c.op == "gather":
            cols.append(c.args[0])
            sel.append(c.args[1])
        elif simp.rank0(c):
            cols.append(c)
        else:
            cols.append(c)
            sel.append(None)
    return cols, sel


def same_list(a, b):
    return len(a) == len(b) and all(nf.equal(x, y) for x, y in zip(a, b))


def aspects(run, got, want, props):
    """compare one held-out block of predictions with the reference; {property: message} of the differing aspects"""
    out = {}

    def add(p, msg):
        if p in props:
            out.setdefault(p, msg)
    if got.op != "pred" or want.op != "pred":
        return None
    gm, gf, gx, _ = got.args
    wm, wf, wx, _ = want.args
    if gm != wm:
        add("P25", f"used through {gm}, expected {wm}")
    gc, gs = cols_of(gx)
    wc, ws = cols_of(wx)
    if not same_list(gc, wc):
        add("P02", f"evaluated at regressors {gc}, expected {wc}")
    S, W = gs[0] if gs else None, ws[0] if ws else None
    if S is not W:
        blame_rows(add, S, W, "evaluated on")
    if gf.op != "fitted" or wf.op != "fitted":
        return None
    if gf.args[0] is not wf.args[0]:
        add("P02", f"uses learner {gf.args[0]}, expected {wf.args[0]}")
    if gf.args[1] != wf.args[1]:
        if dict(gf.args[1]).keys() != dict(wf.args[1]).keys() or any(
                not nf.equal(x, dict(wf.args[1])[k]) for k, x in gf.args[1]):
            add("P20", f"learner parameters {gf.args[1]}, expected {wf.args[1]}")
    gc, gs = cols_of(gf.args[2])
    wc, ws = cols_of(wf.args[2])
    if not same_list(gc, wc):
        add("P02", f"trained on regressors {gc}, expected {wc}")
    yc, ys = cols_of(gf.args[3])
    zc, zs = cols_of(wf.args[3])
    if not same_list(yc, zc):
        add("P02", f"trained for response {yc}, expected {zc}")
    for S, W in ((gs[0] if gs else None, ws[0] if ws else None), (ys[0] if ys else None, zs[0] if zs else None)):
        if S is not W:
            blame_rows(add, S, W, "trained on")
    gw, ww = gf.args[4], wf.args[4]
    if gw is not ww and not (isinstance(gw, T) and isinstance(ww, T) and nf.equal(gw, ww)):
        add("P02", f"sample weights {gw}, expected {ww}")
        add("P23", f"sample weights {gw}, expected {ww}")
    return out


def blame_rows(add, S, W, what):
    if S is None or W is None or not simp.is_iset(S) or not simp.is_iset(W):
        add("P01", f"{what} rows {S}, expected {W}")
        add("P02", f"{what} rows {S}, expected {W}")
        return
    a, b = S.args[0], W.args[0]
    if a is not b:
        add("P01", f"{what} {S}, expected {W}")
        if a.op == "fold" and b.op == "fold" and a.args[0] is not b.args[0]:
            add("P07", f"{what} a fold of another split ({a.args[0]} instead of {b.args[0]})")
    if S.args[1] is not W.args[1]:
        add("P02", f"{what} subgroup {S.args[1]}, expected {W.args[1]}")


_old_install = install


def install(ns, run):           # noqa: F811
    _old_install(ns, run)
    oof = ns["OOF"].fn

    def normipw(i, st, args, kw):
        """documented normalisation of inverse propensity weights"""
        m, d = i.term(args[0], st), i.term(args[1], st)
        B, one = simp.bin_, const(1.0)
        t1 = simp.red("mean", B("/", d, m))
        t0 = simp.red("mean", B("/", B("-", one, d), B("-", one, m)))
        return B("+", B("*", d, B("*", m, t1)), B("*", B("-", one, d), B("-", one, B("*", B("-", one, m), t0))))
    ns["NORMIPW"] = Builtin("spec.NORMIPW", normipw)
    ns["UNTRIM"] = Builtin("spec.UNTRIM", lambda i, st, a, k: untrim(i.term(a[0], st)))

    def pred(i, st, args, kw):
        """PRED(label, got, learner, X, y, smpls_r, sub=, method=, params=, props=, wrap=)"""
        kw = dict(kw)
        props = cval(kw.pop("props")).split(",") if "props" in kw else ["P01", "P02", "P07", "P20", "P25"]
        label, got = cval(args[0]), args[1]
        want = oof(i, st, list(args[2:]), kw)
        gt, wt = i.term(got, st), i.term(want, st)
        if kw.get("untrim") is TRUE:
            gt = untrim(gt)
        big0 = nf.TooBig.count
        if nf.equal(gt, wt):
            for p in props:
                run.add(f"{p}:{label}", "proven")
            return want
        found = {}
        und = False
        for p in i.iterate(args[5], st):
            te = i.term(i.unpack(p, 2, st)[1], st)
            g, w = simp.gather(gt, te), simp.gather(wt, te)
            if nf.equal(g, w):
                continue
            r = aspects(run, g, w, props)
            if r is None:
                und = True
                r = {q: f"got {str(g)[:300]}" for q in props}
            for k, v in r.items():
                found.setdefault(k, v)
        bad = run.opaque(gt, wt) or ("normal form too large" if nf.TooBig.count != big0 else "")
        if not bad and run.ground(gt, wt, st)[0] == "same":
            bad = "normal forms differ, ground evaluation agrees"
        loc, frag = run.blame(gt, wt)
        if not found:
            found = {q: "prediction differs" for q in props}
        for p in props:
            if p in found:
                run.add(f"{p}:{label}", "undecided" if bad else "violated", found[p] + (" / " + bad if bad else ""), loc)
            else:
                run.add(f"{p}:{label}", "proven")
        return want
    def rngs(i, st, args, kw):
        """the random draws a value depends on, in the order in which they were made"""
        from .core import subterms
        xs = {x.uid: x for x in subterms(i.term(args[0], st)) if x.op == "rng"}
        return i.alloc(st, HLst(sorted(xs.values(), key=lambda x: x.args[2])))

    def isrng(i, st, args, kw):
        """ISRNG(label, draw, family, dims...)"""
        t = i.term(args[1], st)
        dims = tuple(cval(a) if is_const(a) else a for a in args[3:])
        want = tuple(sorted((k, i.term(v, st)) for k, v in kw.items()))
        ok = t.op == "rng" and t.args[0] == cval(args[2]) and t.args[3] == dims and len(t.args[1]) == len(want) and all(
            a == b and nf.equal(x, y) for (a, x), (b, y) in zip(t.args[1], want))
        if not ok and run.opaque(t, const(0)):
            run.add(cval(args[0]), "undecided", f"draws {t}"[:200])
            return NONE
        run.add(cval(args[0]), "proven" if ok else "violated", "" if ok else f"draws {t} instead of {cval(args[2])} {dims}", None)
        return NONE
    def draws(i, st, args, kw):
        """DRAWS(label, value, family, count, dims=, but=): the `count` draws of a family of random numbers inside value,
        in the order in which they were made; but= lists values whose draws do not count"""
        from .core import subterms
        from .models import parse_dims
        label, t, fam, cnt = cval(args[0]), i.term(args[1], st), cval(args[2]), cval(args[3])
        dims = None
        if "dims" in kw:
            dims = tuple(parse_dims(i, st, kw["dims"]))
        out = set()
        for b in i.iterate(kw["but"], st) if "but" in kw else []:
            out |= {x.uid for x in subterms(i.term(b, st)) if x.op == "rng"}
        xs = {x.uid: x for x in subterms(t) if x.op == "rng" and x.args[0] == fam and x.uid not in out and (
            dims is None or x.args[3] == dims)}
        xs = sorted(xs.values(), key=lambda x: (x.args[2], str(dict(x.args[1])["j"]) if fam == "mvn" else ""))
        if cnt is None and xs:
            pass
        elif len(xs) == cnt:
            run.add(label, "proven")
        else:
            run.add(label, "undecided" if run.opaque(t, const(0)) else "violated", f"{len(xs)} independent {fam} draws instead of {cnt} in {t}"[:300])
            cnt = cnt or 1
            xs = xs[:cnt] + [simp.unk("draw")] * (cnt - len(xs))
        return i.alloc(st, HLst(xs))

    def mvn(i, st, args, kw):
        """MVN(label, columns, covariance): the columns are different components of one multivariate normal draw with mean zero
        and the given covariance matrix (nested list)"""
        label = cval(args[0])
        cols = [i.term(c, st) for c in i.iterate(args[1], st)]
        cov = [[i.term(c, st) for c in i.iterate(r, st)] for r in i.iterate(args[2], st)]
        ok = all(c.op == "rng" and c.args[0] == "mvn" for c in cols)
        if not ok or len({c.args[2] for c in cols}) != 1 or len({dict(c.args[1])["j"].uid for c in cols}) != len(cols):
            bad = any(run.opaque(c, const(0)) for c in cols)
            run.add(label, "undecided" if bad else "violated", f"not one multivariate normal draw: {cols}"[:300])
            return NONE
        p = [dict(c.args[1]) for c in cols]
        js = [cval(q["j"]) for q in p]
        mu, sg = simp.expand(p[0]["mean"]), simp.expand(p[0]["cov"])
        if mu is None or sg is None:
            run.add(label, "undecided", "parameters of the draw")
            return NONE
        k = len(mu[1])
        for a, ja in enumerate(js):
            if not nf.equal(mu[1][ja], const(0)):
                run.settle(label, False, mu[1][ja], const(0), st)
                return NONE
            for b, jb in enumerate(js):
                g = sg[1][ja * k + jb]
                if not nf.equal(g, cov[a][b]):
                    run.settle(label, False, g, cov[a][b], st)
                    return NONE
        run.add(label, "proven")
        return NONE
    ns["DRAWS"] = Builtin("spec.DRAWS", draws)
    ns["MVN"] = Builtin("spec.MVN", mvn)
    ns["RNGS"] = Builtin("spec.RNGS", rngs)
    ns["ISRNG"] = Builtin("spec.ISRNG", isrng)
    ns["ROOTS"] = Builtin("spec.ROOTS", lambda i, st, a, k: rootof(i, st, a, k, run))
    ns["PRED"] = Builtin("spec.PRED", pred)


def rootof(i, st, args, kw, run):
    """ROOTS(label, estimate, f): every numerical search result inside the estimate searched f (or a documented
    fallback objective: f, -f, f**2, |f|), and the estimate is such a result"""
    from .models import call_lambda
    label, got = cval(args[0]), i.term(args[1], st)
    lam = call_lambda(i, st, args[2])
    body = lam.args[1]
    B = simp.bin_
    forms = {"root": [body], "argmin": [body, simp.fn("neg", body), B("*", body, body), simp.fn("abs", body), B("**", body, const(2))]}
    nroot, bad, und = 0, None, None
    todo, results = [got], []
    while todo:
        t = todo.pop()
        if t.op == "call" and t.args[0] in ("root", "argmin"):
            results.append(t)
        elif t.op == "ite":
            todo += [t.args[1], t.args[2]]
        elif t.op in ("index", "elem", "gather"):
            todo.append(t.args[0])
        elif t.op == "arr":
            todo += [x for x in t.args[1] if isinstance(x, T)]
    for t in results:
        if True:
            l2 = t.args[1][0]
            b2 = simp.subst(l2.args[1], {l2.args[0]: lam.args[0]}) if l2.args[0] is not lam.args[0] else l2.args[1]
            nroot += t.args[0] == "root"
            if not any(nf.equal(b2, f) for f in forms[t.args[0]]):
                bad = bad or (b2, forms[t.args[0]][0])
    if bad is None and (nroot or results and kw.get("argmin") is TRUE):
        run.add(label, "proven")
    elif bad is None:
        run.add(label, "undecided" if run.opaque(got, body) else "violated", f"the estimate is not the result of a root search: {got}"[:300])
    else:
        run.settle(label, False, bad[0], bad[1], st)
    return NONE


def untrim(t):
    """remove an outermost truncation"""
    while t.op == "fn" and t.args[0] in ("clip", "maximum", "minimum"):
        t = t.args[1]
    if t.op == "part":
        return simp.part(t.args[0], tuple(untrim(x) for x in t.args[1]))
    return t
