"""Canonical form of terms: rational functions over atoms with indicator algebra; sums are linear.
Two terms are equal when their difference normalises to zero (after clearing denominators)."""
from __future__ import annotations

from fractions import Fraction

from .core import NONE, T, Tup, Val, const, contains, cval, is_const, mk, sym, syminfo, subterms, TRUE
from . import simp
from .simp import shape, rank0, ELEMENTWISE

F0, F1 = Fraction(0), Fraction(1)
PI = sym("pi", shape=(), finite=True, range=(3, 4))
ATOMS: list = []            # id -> Atom
_ATOMKEY: dict = {}


class Atom:
    __slots__ = ("key", "id", "op", "data", "bin", "vec", "term")

    def __init__(self, key, op, data, binary, vec, term):
        self.key, self.op, self.data, self.bin, self.vec, self.term = key, op, data, binary, vec, term
        self.id = len(ATOMS)
        ATOMS.append(self)


def atom(key, op, data=None, binary=False, vec=None, term=None):
    a = _ATOMKEY.get(key)
    if a is None:
        a = Atom(key, op, data, binary, vec, term)
        _ATOMKEY[key] = a
    return a


# polynomial: dict mono -> Fraction; mono: tuple of (atom id, exp) sorted
def pconst(c):
    c = Fraction(c)
    return {(): c} if c else {}


def patom(a, e=1):
    return {((a.id, e),): F1}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, F0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, c):
    if not c:
        return {}
    return {m: v * c for m, v in p.items()}


def _mmul(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
    return d


LIMIT = 6000
BIG = set()          # terms whose normal form was abandoned for size


class TooBig(Exception):
    count = 0

    def __init__(self):
        TooBig.count += 1


def _finish(d, coeff):
    """monomial given as dict -> polynomial in canonical form (idempotence, sqrt^2, inv reduction, exclusivity)"""
    for a in list(d):
        e = d[a]
        if e == 0:
            del d[a]
            continue
        at = ATOMS[a]
        if at.bin and e > 1:
            d[a] = 1
    # mutually exclusive indicators x==c1, x==c2
    eqs = {}
    for a in d:
        at = ATOMS[a]
        if at.op == "eq" and at.data[1] is not None and d[a] > 0:
            k = at.data[1]
            if k in eqs and eqs[k] != at.data[2]:
                return {}
            eqs[k] = at.data[2]
    for a in list(d):
        at = ATOMS[a]
        if at.op == "sqrt" and (d[a] >= 2 or d[a] <= -2):
            e = d[a]
            k = abs(e) // 2
            rest = abs(e) - 2 * k
            if e > 0:
                if rest:
                    d[a] = rest
                else:
                    del d[a]
                base = ppow(at.data, k)
                return pmul(_finish(d, coeff), base)
            else:
                if rest:
                    d[a] = -rest
                else:
                    del d[a]
                base = ppow(pinv(at.data), k)
                return pmul(_finish(d, coeff), base)
    # abs^2
    for a in list(d):
        at = ATOMS[a]
        if at.op == "abs" and d[a] >= 2:
            e = d[a]
            k, rest = e // 2, e % 2
            if rest:
                d[a] = 1
            else:
                del d[a]
            return pmul(_finish(d, coeff), ppow(at.data, 2 * k))
    # inv(P): lead(P) * inv(P) -> 1 - rest(P) inv(P)
    for a in list(d):
        at = ATOMS[a]
        if at.op != "inv":
            continue
        lead, rest = at.data[1], at.data[2]
        ok = True
        for b, e in lead:
            if d.get(b, 0) < e:
                ok = False
                break
        if ok and lead:
            d2 = dict(d)
            for b, e in lead:
                d2[b] -= e
                if d2[b] == 0:
                    del d2[b]
            d1 = dict(d2)
            d1[a] -= 1
            if d1[a] == 0:
                del d1[a]
            r = _finish(d1, coeff)
            r2 = pmul(_finish(d2, -coeff), rest)
            return padd(r, r2)
    # inv(P)inv(Q) with P - Q or P + Q constant
    invs = [a for a in d if ATOMS[a].op == "inv"]
    for i in range(len(invs)):
        for j in range(i + 1, len(invs)):
            P, Q = ATOMS[invs[i]].data[0], ATOMS[invs[j]].data[0]
            for s in (1, -1):
                df = padd(Q, P, s)
                if list(df.keys()) == [()]:
                    c = df[()]
                    d1, d2 = dict(d), dict(d)
                    for dd, x in ((d1, invs[j]), (d2, invs[i])):
                        dd[x] -= 1
                        if dd[x] == 0:
                            del dd[x]
                    # Q + sP = c:  1/(PQ) = (s/Q + 1/P)/c ; d1 keeps inv P, d2 keeps inv Q
                    return padd(_finish(d1, coeff / c), _finish(d2, coeff * s / c))
    # 1/a * inv(u a + c) = (1/a - u inv(u a + c)) / c
    for b in invs:
        P = ATOMS[b].data[0]
        if len(P) == 2 and () in P:
            (m,) = [m for m in P if m]
            if len(m) == 1 and m[0][1] == 1 and d.get(m[0][0], 0) < 0:
                c, u = P[()], P[m]
                d1, d2 = dict(d), dict(d)
                for dd, x, k in ((d1, b, -1), (d2, m[0][0], 1)):
                    dd[x] += k
                    if dd[x] == 0:
                        del dd[x]
                return padd(_finish(d1, coeff / c), _finish(d2, -coeff * u / c))
    return {tuple(sorted(d.items())): coeff}


def pmul(p, q):
    if len(p) * len(q) > LIMIT:
        raise TooBig()
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            if not m1:
                t = {m2: c1 * c2}
            elif not m2:
                t = {m1: c1 * c2}
            else:
                t = _finish(_mmul(m1, m2), c1 * c2)
            for m, c in t.items():
                v = r.get(m, F0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
    return r


def ppow(p, k):
    r = pconst(1)
    for _ in range(k):
        r = pmul(r, p)
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def _mdeg(m):
    return (sum(e for _, e in m), m)


def _atomname(a):
    return str(a.key[0])


def normalise(p):
    """(c, q) with p = c*q and q having leading coefficient 1"""
    lead = max(p, key=_mdeg)
    c = p[lead]
    return c, pscale(p, 1 / c)


def binatom(p):
    for m in p:
        for a, _ in m:
            if ATOMS[a].bin:
                return ATOMS[a]
    return None


def cofactor(p, at, val):
    """p with the indicator fixed to val"""
    r = {}
    for m, c in p.items():
        keep = []
        z = False
        for a, e in m:
            x = ATOMS[a]
            if a == at.id:
                if not val:
                    z = True
                    break
                continue
            if val and x.op == "eq" and at.op == "eq" and x.data[1] is not None and x.data[1] == at.data[1] \
                    and x.data[2] != at.data[2]:
                z = True
                break
            keep.append((a, e))
        if not z:
            k = tuple(keep)
            v = r.get(k, F0) + c
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


def piecewise(f, p, at):
    """f(b*A + (1-b)*B) = b*f(A) + (1-b)*f(B)"""
    b = patom(at)
    return padd(pmul(b, f(cofactor(p, at, 1))), pmul(padd(pconst(1), b, -1), f(cofactor(p, at, 0))))


def pinv(p):
    if not p:
        a = atom(("zinv",), "zinv")
        return patom(a)
    ba = binatom(p)
    if ba is not None:
        return piecewise(pinv, p, ba)
    if len(p) == 1:
        (m, c), = p.items()
        d = {}
        r = pconst(1 / c)
        for a, e in m:
            at = ATOMS[a]
            if at.op == "inv" and e > 0:
                for _ in range(e):
                    r = pmul(r, at.data[0])
            else:
                r = pmul(r, {((a, -e),): F1})
        return r
    # common monomial factor
    com = None
    for m in p:
        d = dict(m)
        if com is None:
            com = d
        else:
            com = {a: min(e, d[a]) for a, e in com.items() if a in d and (e > 0) == (d[a] > 0)} if com else {}
    com = {a: e for a, e in (com or {}).items() if e and not ATOMS[a].bin and ATOMS[a].op != "inv"}
    if com:
        q = {}
        ok = True
        for m, c in p.items():
            d = dict(m)
            for a, e in com.items():
                d[a] = d[a] - e
                if d[a] == 0:
                    del d[a]
            q[tuple(sorted(d.items()))] = c
        f = {tuple(sorted((a, -e) for a, e in com.items())): F1}
        return pmul(f, pinv(q))
    # clear inner denominators: 1/(a + b*inv(P)) = P/(aP + b)
    inner = set()
    for m in p:
        for a, e in m:
            if ATOMS[a].op == "inv" or e < 0:
                inner.add(a)
    if inner:
        a = sorted(inner)[0]
        at = ATOMS[a]
        if at.op == "inv":
            f = at.data[0]
        else:
            f = patom(at)
        mult = max((abs(e) for m in p for b, e in m if b == a), default=1)
        fm = ppow(f, mult)
        q = pmul(p, fm)
        still = any(b == a and (ATOMS[b].op == "inv" or e < 0) for m in q for b, e in m)
        if not still:
            return pmul(fm, pinv(q))
    c, q = normalise(p)
    lead = max((m for m in q), key=_mdeg)
    rest = dict(q)
    del rest[lead]
    a = atom(("inv", pkey(q)), "inv", (q, lead, rest), False, pvec(q))
    return pscale(patom(a), 1 / c)


def pvec(p):
    """True when some atom is (or may be) vector valued"""
    return any(ATOMS[a].vec is not False for m in p for a, _ in m)


# ------------------------------------------------------------------ terms to polynomials
def nf(t):
    r = t.cache.get("nf")
    if r is None:
        r = _nf(t)
        t.cache["nf"] = r
    return r


def _frac(v):
    if isinstance(v, bool):
        return Fraction(int(v))
    if isinstance(v, int):
        return Fraction(v)
    if isinstance(v, float):
        if v != v or v in (float("inf"), float("-inf")):
            return None
        return Fraction(repr(v))
    return None


def tvec(t):
    s = shape(t)
    if s is None:
        return None
    return len(s) > 0


def isbinary(t):
    """0/1-valued"""
    if t.op == "sym":
        i = syminfo(t)
        return bool(i.get("binary") or i.get("dtype") == "bool")
    if t.op in ("gather", "elem"):
        return isbinary(t.args[0])
    if t.op == "isinst" or t.op == "pybool":
        return True
    if t.op == "red" and t.args[0] in ("any", "all"):
        return True
    if t.op == "call" and t.args[0] in BOOLCALLS:
        return True
    return False


BOOLCALLS = {"in", "is", "hasattr", "callable", "allclose", "array_equal", "eqobj", "array_equiv"}


def targ(x):
    """hashable key of an argument of an uninterpreted term"""
    if isinstance(x, tuple):
        return tuple(targ(a) for a in x)
    if isinstance(x, T):
        return tkey(x)
    if isinstance(x, Val):
        if isinstance(x, Tup):
            return ("tup",) + tuple(targ(a) for a in x.items)
        return ("val", type(x).__name__, _valkey(x.key()))
    return x


def _valkey(k):
    if isinstance(k, tuple):
        return tuple(_valkey(a) for a in k)
    if isinstance(k, T):
        return tkey(k)
    if isinstance(k, Val):
        return (type(k).__name__, _valkey(k.key()))
    return k


STRUCT = {"iset", "fold", "fgroup", "full", "fitted", "est", "pred", "rng", "arr", "part", "fmt", "store", "storei",
          "lane", "tup", "params", "sub", "slice"}


def tkey(t):
    r = t.cache.get("key")
    if r is None:
        if t.op == "const":
            f = _frac(cval(t))
            r = ("n", f) if f is not None else ("c",) + t.args
            if f is not None:
                r = ("p", pkey(pconst(f)))
        elif t.op in ("sym", "bv"):
            r = ("p", pkey(nf(t)))
        elif t.op in STRUCT:
            r = (t.op,) + tuple(targ(a) for a in t.args)
        else:
            r = ("p", pkey(nf(t)))
        t.cache["key"] = r
    return r


def uninterp(t):
    key = ("t", t.op) + tuple(targ(a) for a in t.args)
    return patom(atom(key, t.op, None, isbinary(t), tvec(t), t))


def _eq(a, b):
    """indicator polynomial of a == b"""
    for x, y in ((a, b), (b, a)):
        if is_const(y) and isinstance(cval(y), str):
            return patom(atom(("eqs", tkey(x), y.args), "eqs", None, True, tvec(x)))
    p = padd(nf(a), nf(b), -1)
    return eq0(p)


def eq0(p):
    if not p:
        return pconst(1)
    if list(p.keys()) == [()]:
        return {}
    c, q = normalise(p)
    # x - c0 with x an indicator
    k0 = q.get((), F0)
    body = {m: v for m, v in q.items() if m}
    if all(all(ATOMS[a].bin and e == 1 for a, e in m) for m in body) and len(body) == 1:
        (m, v), = body.items()
        val = -k0 / v
        ind = {m: F1}
        if val == 1:
            return ind
        if val == 0:
            return padd(pconst(1), ind, -1)
        return {}
    # general indicator valued body (p*p == p)
    if len(body) <= 6 and all(all(ATOMS[a].bin for a, _ in m) for m in body):
        full = dict(p)
        # p - const part
        try:
            b = {m: v for m, v in p.items() if m}
            for shift in (F0, F1, Fraction(-1)):
                cand = padd(b, pconst(shift))
                if pmul(cand, cand) == cand:
                    val = -(p.get((), F0) - shift)
                    # cand + (p0 - shift) == 0
                    if val == 1:
                        return cand
                    if val == 0:
                        return padd(pconst(1), cand, -1)
                    return {}
        except TooBig:
            pass
    lv = {m: v for m, v in q.items() if m}
    fam = pkey(lv)
    return patom(atom(("eq", pkey(q)), "eq", (q, fam, k0), True, pvec(q)))


def _lt(p):
    """indicator of p < 0"""
    if not p:
        return {}
    if list(p.keys()) == [()]:
        return pconst(1 if p[()] < 0 else 0)
    c, q = normalise(p)
    s = 1 if c > 0 else -1
    # indicator valued body against a constant
    k0 = p.get((), F0)
    body = {m: v for m, v in p.items() if m}
    if len(body) == 1:
        (m, v), = body.items()
        if all(ATOMS[a].bin and e == 1 for a, e in m):
            at0, at1 = k0 < 0, k0 + v < 0
            ind = {m: F1}
            if at0 and at1:
                return pconst(1)
            if at1:
                return ind
            if at0:
                return padd(pconst(1), ind, -1)
            return {}
    lo, hi = prange(p)
    if hi is not None and hi < 0:
        return pconst(1)
    if lo is not None and lo >= 0:
        return {}
    return patom(atom(("lt", s, pkey(q)), "lt", (pscale(q, s),), True, pvec(q)))


def prange(p):
    """interval enclosure of a polynomial (None: unbounded)"""
    lo, hi = F0, F0
    for m, c in p.items():
        mlo, mhi = F1, F1
        for a, e in m:
            at = ATOMS[a]
            alo, ahi = arange(at)
            if e < 0:
                if alo is not None and alo > 0:
                    alo, ahi = (None if ahi is None else 1 / ahi), 1 / alo
                    if alo is None:
                        alo = F0
                elif alo is not None and alo >= 0:
                    alo, ahi = F0, None
                else:
                    return None, None
                e = -e
            for _ in range(e):
                if alo is not None and alo >= 0 and mlo is not None and mlo >= 0:
                    mlo = mlo * alo
                    mhi = None if mhi is None or ahi is None else mhi * ahi
                else:
                    return None, None
        x, y = (mlo, mhi) if c > 0 else (mhi, mlo)
        lo = None if lo is None or x is None else lo + c * x
        hi = None if hi is None or y is None else hi + c * y
    return lo, hi


def arange(at):
    if at.bin:
        return F0, F1
    if at.op in ("sqrt", "abs", "exp"):
        return F0, None
    if at.op == "sym":
        i = syminfo(at.term)
        r = i.get("range")
        if r:
            return (None if r[0] is None else Fraction(str(r[0]))), (None if r[1] is None else Fraction(str(r[1])))
    if at.op == "size":
        return (F0 if isinstance(at.term, T) and at.term.args[0].op == "call" else F1), None
    if at.op == "clip":
        lo, hi = nf(at.data[1][1]), nf(at.data[1][2])
        return (pval(lo), pval(hi))
    if at.op == "G":
        return arange(ATOMS[at.data[0]])
    if at.op == "pred" and at.term is not None and at.term.op == "pred" and at.term.args[0] == "proba":
        return F0, F1
    return None, None


def pval(p):
    """value of a constant polynomial"""
    if not p:
        return F0
    return p[()] if list(p) == [()] else None


def _logic(op, ps):
    if op == "not":
        return padd(pconst(1), ps[0], -1)
    a, b = ps
    ab = pmul(a, b)
    if op == "and":
        return ab
    return padd(padd(a, b), ab, -1)


def boolp(t):
    """polynomial of a truth value; non-boolean terms become opaque indicators"""
    p = nf(t)
    if is_ind(p):
        return p
    return padd(pconst(1), eq0(p), -1)


def is_ind(p):
    if not p:
        return True
    if len(p) > 40:
        return False
    if not all(all(ATOMS[a].bin for a, _ in m) for m in p):
        return False
    try:
        return pmul(p, p) == p
    except TooBig:
        return False


def _nf(t):
    op, a = t.op, t.args
    if op == "const":
        f = _frac(cval(t))
        if f is not None:
            return pconst(f)
        return patom(atom(("c",) + t.args, "const", None, False, False, t))
    if op in ("sym", "bv"):
        return patom(atom(("s", t.uid), "sym", None, isbinary(t), tvec(t), t))
    if op == "fill":
        return nf(a[0])
    try:
        if op == "bin":
            return _nfbin(t)
        if op == "fn":
            return _nffn(t)
        if op == "cmp":
            o, x, y = a
            if o == "==":
                return _eq(x, y)
            if o == "!=":
                return padd(pconst(1), _eq(x, y), -1)
            d = padd(nf(x), nf(y), -1)
            if o == "<":
                return _lt(d)
            if o == ">":
                return _lt(pscale(d, -1))
            if o == ">=":
                return padd(pconst(1), _lt(d), -1)
            return padd(pconst(1), _lt(pscale(d, -1)), -1)
        if op == "log":
            return _logic(a[0], [boolp(x) for x in a[1:]])
        if op == "ite":
            c = boolp(a[0])
            if a[1].op in ("unbound", "unk") or a[2].op in ("unbound", "unk"):
                return uninterp(t)
            if _num(a[1]) and _num(a[2]):
                return padd(pmul(c, nf(a[1])), pmul(padd(pconst(1), c, -1), nf(a[2])))
            key = ("ite", pkey(c), tkey(a[1]), tkey(a[2]))
            return patom(atom(key, "ite", None, False, tvec(t), t))
        if op == "gather":
            return _nfgather(t)
        if op == "red":
            return _nfred(t)
        if op == "size":
            return _nfsize(a[0])
        if op == "part":
            return _nfpart(t)
        if op == "sumL" and a[3] is NONE and simp.shape(a[2]) == ():
            return _nfloop(t)
        if op == "call" and a[0] == "dot" and len(a[1]) == 2 and tvec(t) is not False:
            return _nfdot(t)
    except TooBig:
        BIG.add(t.uid)
    return uninterp(t)


def _num(t):
    return not (is_const(t) and _frac(cval(t)) is None and not isinstance(cval(t), float)) and t.op not in STRUCT


def _nfbin(t):
    o, x, y = t.args
    if is_const(x) and isinstance(cval(x), str) or is_const(y) and isinstance(cval(y), str) or x.op in ("fmt",) or \
            y.op == "fmt":
        return uninterp(t)
    if o == "+":
        return padd(nf(x), nf(y))
    if o == "-":
        return padd(nf(x), nf(y), -1)
    if o == "*":
        return pmul(nf(x), nf(y))
    if o == "/":
        return pmul(nf(x), pinv(nf(y)))
    if o == "**":
        q = nf(y)
        if list(q.keys()) in ([()], []):
            k = q.get((), F0)
            if k.denominator == 1 and -6 <= k <= 6:
                if k >= 0:
                    return ppow(nf(x), int(k))
                return ppow(pinv(nf(x)), int(-k))
            if k == Fraction(1, 2):
                return psqrt(nf(x), tvec(t))
    key = ("b", o, pkey(nf(x)), pkey(nf(y)))
    return patom(atom(key, "bin" + o, None, False, tvec(t), t))


def psqrt(p, vec):
    if not p:
        return {}
    ba = binatom(p)
    if ba is not None:
        return piecewise(lambda q: psqrt(q, vec), p, ba)
    if list(p.keys()) == [()]:
        c = p[()]
        if c > 0:
            import math
            rn, rd = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if rn * rn == c.numerator and rd * rd == c.denominator:
                return pconst(Fraction(rn, rd))
        return patom(atom(("sqrt", pkey(p)), "sqrt", p, False, False))
    if len(p) == 1:
        (m, c), = p.items()
        # product of powers: split
        if c > 0 and any(e < 0 or ATOMS[a].op in ("inv", "size") or e % 2 == 0 for a, e in m) or len(m) > 1 and c > 0:
            r = psqrt(pconst(c), False)
            for a, e in m:
                at = ATOMS[a]
                if e % 2 == 0:
                    r = pmul(r, ppow(pabs({((a, 1),): F1}), e // 2) if e > 0 else pinv(
                        ppow(pabs({((a, 1),): F1}), -e // 2)))
                elif at.op == "inv":
                    r = pmul(r, pinv(psqrt(ppow(at.data[0], e), at.vec)))
                elif e < 0:
                    s = patom(atom(("sqrt", pkey({((a, 1),): F1})), "sqrt", {((a, 1),): F1}, False, at.vec))
                    r = pmul(r, pinv(ppow(s, -e)))
                else:
                    s = patom(atom(("sqrt", pkey({((a, 1),): F1})), "sqrt", {((a, 1),): F1}, False, at.vec))
                    r = pmul(r, ppow(s, e))
            return r
    # common factors with negative exponent or inverse: sqrt(P/Q) = sqrt(P)/sqrt(Q)
    com = None
    for m in p:
        d = {a: e for a, e in m if e < 0 or ATOMS[a].op == "inv"}
        com = d if com is None else {a: e for a, e in com.items() if d.get(a) == e}
    if com:
        f = {tuple(sorted(com.items())): F1}
        q = pmul(p, pinv(f))
        return pmul(psqrt(q, vec), psqrt(f, vec))
    c, q = normalise(p)
    if c > 0 and c != 1:
        return pmul(psqrt(pconst(c), False), patom(atom(("sqrt", pkey(q)), "sqrt", q, False, pvec(q))))
    return patom(atom(("sqrt", pkey(p)), "sqrt", p, False, pvec(p)))


def pabs(p):
    if not p:
        return {}
    ba = binatom(p)
    if ba is not None:
        return piecewise(pabs, p, ba)
    if list(p.keys()) == [()]:
        return pconst(abs(p[()]))
    lo, hi = prange(p)
    if lo is not None and lo >= 0:
        return p
    if hi is not None and hi <= 0:
        return pscale(p, -1)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) > 1:
            r = pconst(abs(c))
            for a, e in m:
                x = pabs({((a, 1),): F1})
                r = pmul(r, ppow(x, e) if e > 0 else pinv(ppow(x, -e)))
            return r
        if m[0][1] < 0:
            return pscale(pinv(ppow(pabs({((m[0][0], 1),): F1}), -m[0][1])), abs(c))
        if ATOMS[m[0][0]].op == "abs" or ATOMS[m[0][0]].op == "sqrt":
            return pscale({m: F1}, abs(c))
    c, q = normalise(p)
    return pscale(patom(atom(("abs", pkey(q)), "abs", q, False, pvec(q))), abs(c))


def _nffn(t):
    name = t.args[0]
    xs = t.args[1:]
    if name == "neg":
        return pscale(nf(xs[0]), -1)
    if name in ("pos", "float"):
        return nf(xs[0])
    if name == "bool":
        return boolp(xs[0])
    if name == "where":
        c = boolp(xs[0])
        return padd(pmul(c, nf(xs[1])), pmul(padd(pconst(1), c, -1), nf(xs[2])))
    if name == "sqrt":
        return psqrt(nf(xs[0]), tvec(t))
    if name == "abs":
        return pabs(nf(xs[0]))
    if name == "square":
        return ppow(nf(xs[0]), 2)
    if name == "exp":
        p = nf(xs[0])
        if not p:
            return pconst(1)
        return patom(atom(("exp", pkey(p)), "exp", p, False, pvec(p)))
    if name in ("maximum", "minimum"):
        ks = sorted({pkey(nf(x)) for x in xs})
        if len(ks) == 1:
            return nf(xs[0])
        lo0, hi0 = prange(nf(xs[0]))
        lo1, hi1 = prange(nf(xs[1]))
        if name == "maximum":
            if lo0 is not None and hi1 is not None and lo0 >= hi1:
                return nf(xs[0])
            if lo1 is not None and hi0 is not None and lo1 >= hi0:
                return nf(xs[1])
        return patom(atom((name,) + tuple(ks), name, None, False, tvec(t), t))
    if name == "clip":
        x = xs[0]
        if x.op == "fn" and x.args[0] == "clip" and x.args[2] is xs[1] and x.args[3] is xs[2]:
            return nf(x)
        p = nf(x)
        return patom(atom(("clip", pkey(p), tkey(xs[1]), tkey(xs[2])), "clip", (p, xs), False, tvec(t), t))
    if name in ("isnan", "isfinite", "isinf"):
        p = nf(xs[0])
        # nan-ness of c*x + (1-c)*nan is 1-c for finite x
        nanid = None
        for m in p:
            for a, e in m:
                at = ATOMS[a]
                if at.op == "const" and at.term is not None and isinstance(cval(at.term), float) and \
                        cval(at.term) != cval(at.term):
                    nanid = a
        if name == "isnan" and nanid is not None:
            coef = {}
            ok = True
            for m, c in p.items():
                d = dict(m)
                if nanid in d:
                    if d.pop(nanid) != 1:
                        ok = False
                    coef[tuple(sorted(d.items()))] = c
                else:
                    for a, _ in m:
                        if not finite_atom(ATOMS[a]):
                            ok = False
            if ok and is_ind(coef):
                return coef
        if all(finite_atom(ATOMS[a]) for m in p for a, _ in m):
            return pconst(1 if name == "isfinite" else 0)
        return patom(atom((name, pkey(p)), name, None, True, tvec(t), t))
    if name in ("isin", "infold"):
        return patom(atom((name,) + tuple(tkey(x) for x in xs), name, None, True, tvec(t), t))
    if name == "sign":
        p = nf(xs[0])
        c, q = normalise(p) if p else (F1, p)
        s = 1 if c > 0 else -1
        return pscale(patom(atom(("sign", pkey(q)), "sign", None, False, pvec(q), t)), s)
    if name == "cdf":
        # standard normal: F(-x) = 1 - F(x)
        p = nf(xs[0])
        if not p:
            return pconst(Fraction(1, 2))
        c, q = normalise(p)
        if c < 0:
            p2 = pscale(p, -1)
            return padd(pconst(1), patom(atom(("cdf", pkey(p2)), "cdf", p2, False, pvec(p2))), -1)
        return patom(atom(("cdf", pkey(p)), "cdf", p, False, pvec(p)))
    if name == "ppf":
        # standard normal: Q(1 - p) = -Q(p)
        p = nf(xs[0])
        v = pval(p)
        if v is not None and 0 < v < 1:
            w = round(float(v if v >= Fraction(1, 2) else 1 - v), 12)
            r = patom(atom(("ppf", w), name, None, False, tvec(t), simp.fn("ppf", const(w)))) if w != 0.5 else {}
            return r if v >= Fraction(1, 2) else pscale(r, -1)
        if v is None and p:
            d = padd(p, pconst(Fraction(1, 2)), -1)
            if d and normalise(d)[0] < 0:
                q = padd(pconst(1), p, -1)
                return pscale(patom(atom(("ppf", pkey(q)), name, None, False, tvec(t),
                                         simp.fn("ppf", simp.bin_("-", const(1), xs[0])))), -1)
            return patom(atom(("ppf", pkey(p)), name, None, False, tvec(t), t))
    if name == "pdf":
        x = xs[0]
        return nf(simp.bin_("/", simp.fn("exp", simp.bin_("/", simp.bin_("*", const(-1), simp.bin_("**", x, const(2))), const(2))),
                            simp.fn("sqrt", simp.bin_("*", const(2), PI))))
    ks = tuple(tkey(x) for x in xs)
    return patom(atom(("fn", name) + ks, name, None, False, tvec(t), t))


def finite_atom(at):
    if at.bin:
        return True
    if at.op == "sym":
        return bool(syminfo(at.term).get("finite"))
    if at.op == "G":
        return finite_atom(ATOMS[at.data[0]])
    if at.op in ("pred", "part", "clip", "size", "rng"):
        return True
    if at.op == "log" and at.term is not None:
        p = nf(at.term.args[1])
        lo = prange(p)[0]
        return lo is not None and lo > 0 and all(finite_atom(ATOMS[a]) for m in p for a, _ in m)
    if at.op == "sqrt" and isinstance(at.data, dict):
        return all(finite_atom(ATOMS[a]) for m in at.data for a, _ in m)
    return False


def _nfgather(t):
    v, S = t.args
    if v.op in ELEMENTWISE:
        return nf(simp.gather(v, S))
    p = nf(v)
    return gpoly(p, S)


def gpoly(p, S):
    """p[S] for a polynomial of full-length vectors"""
    r = {}
    for m, c in p.items():
        q = pconst(c)
        for a, e in m:
            q = pmul(q, _gatom(ATOMS[a], S, e))
        r = padd(r, q)
    return r


def _gatom(at, S, e):
    if at.vec is False:
        return {((at.id, e),): F1}
    if at.op == "inv":
        return ppow(pinv(gpoly(at.data[0], S)), e)
    if at.op == "sqrt":
        return ppow(psqrt(gpoly(at.data, S), True), e) if e > 0 else pinv(ppow(psqrt(gpoly(at.data, S), True), -e))
    if at.op == "abs":
        return ppow(pabs(gpoly(at.data, S)), e) if e > 0 else pinv(ppow(pabs(gpoly(at.data, S)), -e))
    b = atom(("G", at.id, tkey(S)), "G", (at.id, S), at.bin, True)
    return {((b.id, e),): F1}


def domain(t):
    """index set over which the vector t ranges (iset term or dim)"""
    s = shape(t)
    if s is None or len(s) != 1:
        return None
    d = s[0]
    if isinstance(d, T) and d.op == "size":
        return d.args[0]
    return simp.full(d)


def _nfsize(S):
    if S.op == "perm":
        return nf(S.args[0].args[2])
    if S.op == "iset":
        b, m = S.args
        if b.op == "full":
            n = nf(b.args[0])
            if m is TRUE:
                return n
            return ssum(boolp(m), simp.full(b.args[0]))
        if m is not TRUE:
            return ssum(boolp(m), simp.iset(b))
    return patom(atom(("size", tkey(S)), "size", None, False, False, mk("size", S)))


def ssum(p, D):
    """sum over the index set D of the full-length polynomial p (linear, scalars pulled out)"""
    if D.op == "perm":
        # the test indices of a whole split are every observation once
        D = simp.full(D.args[0].args[2])
    if D.op == "iset" and D.args[1] is not TRUE:
        p = pmul(p, boolp(D.args[1]))
        D = simp.iset(D.args[0])
    r = {}
    for m, c in p.items():
        sc, vec = [], []
        for a, e in m:
            (vec if ATOMS[a].vec is not False else sc).append((a, e))
        if not vec:
            base = _nfsize(D)
        else:
            base = patom(atom(("S", tkey(D), tuple(vec)), "S", (D, tuple(vec)), False, False))
        r = padd(r, pscale(pmul({tuple(sc): F1}, base) if sc else base, c))
    return r


def lsum(p, D):
    """sum over D of a polynomial whose vector atoms are local to D"""
    if D.args[0].op == "full" and D.args[1] is TRUE:
        return ssum(p, D)
    # un-gather
    r = {}
    ok = True
    q = {}
    for m, c in p.items():
        mm = []
        for a, e in m:
            at = ATOMS[a]
            if at.vec is False:
                mm.append((a, e))
            elif at.op == "G" and tkey(at.data[1]) == tkey(D):
                mm.append((at.data[0], e))
            elif at.op == "inv":
                u = _ungather(at, D)
                if u is None:
                    ok = False
                    break
                mm.append((u, e))
            else:
                ok = False
                break
        if not ok:
            break
        q = padd(q, _finish(dict(_acc(mm)), c))
    if ok:
        return ssum(q, D)
    for m, c in p.items():
        sc, vec = [], []
        for a, e in m:
            (vec if ATOMS[a].vec is not False else sc).append((a, e))
        if not vec:
            base = _nfsize(D)
        else:
            base = patom(atom(("Sl", tkey(D), tuple(vec)), "Sl", (D, tuple(vec)), False, False))
        r = padd(r, pscale(pmul({tuple(sc): F1}, base) if sc else base, c))
    return r


def _acc(mm):
    d = {}
    for a, e in mm:
        d[a] = d.get(a, 0) + e
    return d


def _ungather(at, D):
    q = {}
    for m, c in at.data[0].items():
        mm = []
        for a, e in m:
            x = ATOMS[a]
            if x.vec is False:
                mm.append((a, e))
            elif x.op == "G" and tkey(x.data[1]) == tkey(D):
                mm.append((x.data[0], e))
            else:
                return None
        q = padd(q, {tuple(sorted(mm)): c})
    r = pinv(q)
    if len(r) == 1:
        (m, c), = r.items()
        if len(m) == 1 and c == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def _nfred(t):
    name, x, extra, shp, axis = t.args
    if axis == "lane":
        if name == "median":
            ks = tuple(sorted(pkey(nf(e)) for e in x.args[0]))
            if len(set(ks)) == 1:
                return nf(x.args[0][0])
            v = any(tvec(e) is not False for e in x.args[0])
            return patom(atom(("med",) + ks, "med", None, False, v, t))
        return patom(atom((name, targ(extra)) + tuple(pkey(nf(e)) for e in x.args[0]), name, None, isbinary(t),
                          tvec(t), t))
    if axis is None and shp == ():
        if name in ("sum", "mean"):
            D = domain(x)
            if D is not None:
                s = lsum(nf(x), D)
                if name == "sum":
                    return s
                return pmul(s, pinv(_nfsize(D)))
        if name in ("any", "all"):
            p = boolp(x)
            if not p:
                return {}
            if p == pconst(1):
                return pconst(1)
            if not pvec(p):
                return p
            if name == "any":   # any(p) = not all(not p)
                q = padd(pconst(1), p, -1)
                return padd(pconst(1), patom(atom(("all", pkey(q)), "all", None, True, False, t)), -1)
            return patom(atom(("all", pkey(p)), "all", None, True, False, t))
        if name == "var" or name == "std":
            D = domain(x)
            if D is not None and extra == ():
                p = nf(x)
                N = pinv(_nfsize(D))
                m1 = pmul(lsum(p, D), N)
                m2 = pmul(lsum(pmul(p, p), D), N)
                v = padd(m2, pmul(m1, m1), -1)
                return v if name == "var" else psqrt(v, False)
        if name in ("max", "min", "median"):
            p = nf(x)
            if not pvec(p):
                return p
            return patom(atom((name, pkey(p)), name, None, False, False, t))
        if name == "quantile":
            return patom(atom((name, tkey(x), targ(extra)), name, None, False, False, t))
    return uninterp(t)


def _nfloop(t):
    """sum of a number over the rounds of a loop: rational content and factors that do not depend on the round pulled out"""
    itt, bv, body, _ = t.args
    p = nf(body)
    if not p:
        return {}
    com = None
    for m in p:
        d = {x: e for x, e in m if ATOMS[x].term is not None and ATOMS[x].vec is False and not ATOMS[x].bin
             and not contains(ATOMS[x].term, bv)}
        com = d if com is None else {x: (min if e > 0 else max)(e, d[x]) for x, e in com.items() if x in d and (e > 0) == (d[x] > 0)}
    q = {}
    for m, c in p.items():
        d = dict(m)
        for x, e in com.items():
            d[x] -= e
            if not d[x]:
                del d[x]
        q[tuple(sorted(d.items()))] = c
    c, q = normalise(q)
    r = patom(atom(("sumL", tkey(itt), tkey(bv), pkey(q)), "sumL", None, False, False, t))
    return pscale(pmul({tuple(sorted(com.items())): F1}, r), c)


def _nfpart(t):
    g, vals, n = t.args
    ps = [None if v.op in STRUCT and v.op not in ("pred", "part") else nf(v) for v in vals]
    if all(p is not None for p in ps):
        # Shannon expansion over indicators of the full data gathered on the folds: v*part(p|v=1) + (1-v)*part(p|v=0)
        ids = []
        for k, p in enumerate(ps):
            S = simp.iset(mk("fold", g, k, "test"))
            for m in p:
                for a, _ in m:
                    at = ATOMS[a]
                    if at.op == "G" and at.bin and at.data[0] not in ids and ATOMS[at.data[0]].op in ("sym", "eq", "lt") \
                            and tkey(at.data[1]) == tkey(S):
                        ids.append(at.data[0])
        if ids and len(ids) <= 3:
            return _splitpart(t, g, ps, ids)
    key = ("part", tkey(g), tuple(pkey(p) if p is not None else tkey(v) for p, v in zip(ps, vals)))
    return patom(atom(key, "part", (g, vals), all(isbinary(v) for v in vals), True, t))


def _splitpart(t, g, ps, ids):
    if not ids:
        if all(p == ps[0] and all(ATOMS[a].vec is False for m in p for a, _ in m) for p in ps):
            return ps[0]
        key = ("part", tkey(g), tuple(pkey(p) for p in ps))
        return patom(atom(key, "part", (g, t.args[1]), all(is_ind(p) for p in ps), True, t))
    at = ATOMS[ids[0]]
    hi, lo = [], []
    for k, p in enumerate(ps):
        S = simp.iset(mk("fold", g, k, "test"))
        b = _ATOMKEY.get(("G", at.id, tkey(S)))
        hi.append(cofactor(p, b, 1) if b is not None else p)
        lo.append(cofactor(p, b, 0) if b is not None else p)
    v = patom(at)
    return padd(pmul(v, _splitpart(t, g, hi, ids[1:])), pmul(padd(pconst(1), v, -1), _splitpart(t, g, lo, ids[1:])))


def _nfdot(t):
    """matrix-vector product: bilinear, scalars pulled out"""
    x, y = t.args[1]
    if x.op in STRUCT and x.op != "rng" or y.op in STRUCT and y.op not in ("pred", "part"):
        return uninterp(t)
    r = {}

    def split(m):
        sc, vec = [], []
        for a, e in m:
            (vec if ATOMS[a].vec is not False else sc).append((a, e))
        return tuple(sc), tuple(vec)
    for m1, c1 in nf(x).items():
        s1, v1 = split(m1)
        for m2, c2 in nf(y).items():
            s2, v2 = split(m2)
            base = patom(atom(("dot", targ(shape(x)), v1, targ(shape(y)), v2), "dot", None, False, True))
            q = pscale(base, c1 * c2)
            for s in (s1, s2):
                if s:
                    q = pmul({s: F1}, q)
            r = padd(r, q)
    return r


# ------------------------------------------------------------------ equality and decisions
def is_zero(p):
    if not p:
        return True
    # clear denominators
    for _ in range(12):
        neg = {}
        for m in p:
            for a, e in m:
                if e < 0 or ATOMS[a].op == "inv":
                    neg[a] = max(neg.get(a, 0), abs(e))
        if not neg:
            return not p
        a = sorted(neg)[0]
        at = ATOMS[a]
        f = at.data[0] if at.op == "inv" else patom(at)
        try:
            p = pmul(p, ppow(f, neg[a]))
        except TooBig:
            return False
        if not p:
            return True
    return not p


def mulT(a, b):
    return pmul(nf(a), nf(b))


def equal(a, b):
    """structural equality of terms modulo the algebra"""
    if a is b:
        return True
    if a.op == "arr" or b.op == "arr":
        ea, eb = simp.expand(a), simp.expand(b)
        if ea is None or eb is None or ea[0] != eb[0]:
            return False
        return all(equal(x, y) for x, y in zip(ea[1], eb[1]))
    if tkey(a) == tkey(b):
        return True
    if a.op in STRUCT and a.op not in ("pred", "part") or b.op in STRUCT and b.op not in ("pred", "part"):
        return False
    try:
        return is_zero(padd(nf(a), nf(b), -1))
    except TooBig:
        return False


def equal_abs(a, b):
    """equality after replacing the maximal common sub-terms by fresh symbols (proves equality, never refutes it)"""
    ua = {x.uid for x in subterms(a)}
    ub = {x.uid for x in subterms(b)}
    common = {u for u in ua & ub}
    memo = {}
    ops = ("ite",)

    def num(x):
        return x.op in ops and simp.shape(x) is not None

    def go(x):
        if isinstance(x, tuple):
            return tuple(go(y) for y in x)
        if not isinstance(x, T):
            return x
        if x.uid in memo:
            return memo[x.uid]
        if x.uid in common and num(x):
            r = sym(f"#abs{x.uid}", shape=simp.shape(x), finite=True)
        else:
            r = mk(x.op, *[go(y) for y in x.args])
            if "shape" in x.cache and "shape" not in r.cache:
                r.cache["shape"] = x.cache["shape"]
        memo[x.uid] = r
        return r
    for ops in (("ite",), ("bin", "fn", "red", "part", "pred", "ite", "gather", "matmul")):
        memo.clear()
        x, y = go(a), go(b)
        try:
            if x is y or is_zero(padd(nf(x), nf(y), -1)):
                return True
        except TooBig:
            pass
    return False


_REP: dict = {}


def rep(mask):
    """canonical representative of a boolean mask"""
    try:
        p = boolp(mask)
    except TooBig:
        return mask
    if p == pconst(1):
        return TRUE
    k = pkey(p)
    return _REP.setdefault(k, mask)


def sort_terms(ts):
    return sorted(ts, key=lambda t: repr(tkey(t)) if t.op in STRUCT else repr(pkey(nf(t))))


def decide(t, facts=None):
    """True / False / None"""
    if is_const(t):
        v = cval(t)
        return bool(v)
    try:
        p = boolp(t)
    except TooBig:
        return None
    if not p:
        return False
    if p == pconst(1):
        return True
    if facts:
        k = pkey(p)
        if k in facts:
            return facts[k]
        # product facts: substitute decided atoms
        q = subst_facts(p, facts)
        if not q:
            return False
        if q == pconst(1):
            return True
    return None


def subst_facts(p, facts):
    av = facts.get("#atoms")
    if not av:
        return p
    r = {}
    for m, c in p.items():
        mm = []
        z = False
        for a, e in m:
            if a in av:
                if av[a] == 0:
                    z = True
                    break
            else:
                mm.append((a, e))
        if z:
            continue
        r = padd(r, {tuple(mm): c})
    return r


def add_fact(facts, t, val):
    """record that the condition t is val"""
    try:
        p = boolp(t)
    except TooBig:
        return
    if not val:
        p = padd(pconst(1), p, -1)
    facts["#terms"] = facts.get("#terms", ()) + ((t, val),)
    facts[pkey(p)] = True
    facts[pkey(padd(pconst(1), p, -1))] = False
    av = dict(facts.get("#atoms", {}))
    if len(p) == 1:
        (m, c), = p.items()
        if c == 1:
            for a, e in m:
                av[a] = 1
    elif len(p) == 2 and p.get(()) == 1:
        (m, c), = [(m, c) for m, c in p.items() if m]
        if c == -1 and len(m) == 1:
            av[m[0][0]] = 0
    for a in [a for a, v in av.items() if v == 1 and ATOMS[a].op == "lt"]:
        # p < 0 excludes -p < 0
        q = _lt(pscale(ATOMS[a].data[0], -1))
        if len(q) == 1:
            (m, c), = q.items()
            if c == 1 and len(m) == 1:
                av.setdefault(m[0][0], 0)
    facts["#atoms"] = av


def pshow(p, depth=5):
    if not p:
        return "0"
    out = []
    for m, c in sorted(p.items(), key=lambda z: _mdeg(z[0]))[:12]:
        s = [] if c == 1 and m else [str(c)]
        for a, e in m:
            x = ashow(ATOMS[a], depth)
            s.append(x if e == 1 else f"{x}^{e}")
        out.append("*".join(s))
    if len(p) > 12:
        out.append(f"... ({len(p)} terms)")
    return " + ".join(out)


def ashow(a, depth=5):
    from .core import show
    if depth <= 0:
        return f"<{a.op}>"
    if a.op == "inv":
        return f"1/({pshow(a.data[0], depth - 1)})"
    if a.op in ("sqrt", "abs", "exp"):
        return f"{a.op}({pshow(a.data, depth - 1)})"
    if a.op == "eq":
        return f"[{pshow(a.data[0], depth - 1)}==0]"
    if a.op == "lt":
        return f"[{pshow(a.data[0], depth - 1)}<0]"
    if a.op == "G":
        return f"{ashow(ATOMS[a.data[0]], depth - 1)}[{show(a.data[1], 3)}]"
    if a.op in ("S", "Sl"):
        return f"sum_{show(a.data[0], 2)}({'*'.join(ashow(ATOMS[b], depth - 1) + (f'^{e}' if e != 1 else '') for b, e in a.data[1])})"
    if a.op == "clip":
        return f"clip({pshow(a.data[0], depth - 1)})"
    if a.term is not None:
        return show(a.term, depth)
    return f"<{a.op}{a.id}>"
