"""Rules over the event stream of every analysed driver (effects, estimator typestate, randomness, element types)."""
from .core import T, cval, is_const, show, syminfo
from .models import MEMMAP


def apply(run):
    it = run.it
    seen = set()

    def viol(prop, label, det, loc):
        k = (prop, label, det, loc)
        if k not in seen:
            seen.add(k)
            run.add(f"{prop}:{label}", "violated", det, loc)
    ntask = nfit = nmut = nrng = nlike = 0
    for e in it.events:
        if e.loc is None or not str(e.loc[0]).startswith(run.root):
            continue
        if e.kind == "task":
            ntask += 1
        elif e.kind == "taskdraw":
            viol("P92", "tasks draw no random numbers", f"{e.data} drawn by a task that may run in a worker process", e.loc)
        elif e.kind == "mutate":
            nmut += 1
            ow, what = e.data
            if ow == MEMMAP:
                viol("P92", "tasks write no mapped argument", f"{what} on an array which is read-only in a worker process", e.loc)
            elif ow.startswith("user learner"):
                viol("P08", "user learner not modified", f"{what} on the {ow}", e.loc)
            elif ow.startswith("user"):
                viol("P09", "caller's object not modified", f"{what} on {ow}", e.loc)
        elif e.kind == "fit":
            nfit += 1
        elif e.kind in ("privaterng", "reseed"):
            nrng += 1
            if e.kind == "reseed":
                viol("P11", "global generator not reseeded", f"{e.data}", e.loc)
            else:
                viol("P11", "randomness from the global generator", f"{e.data}", e.loc)
        elif e.kind == "nondet":
            viol("P11", "no nondeterminism", f"{e.data}", e.loc)
        elif e.kind == "like":
            nlike += 1
            src, val = e.data[:2]
            if not narrowing_ok(it, src, val):
                viol("P24", "buffer element type independent of data", f"buffer filled with non-integer values takes its element type from {show(src, 3)[:120]}", e.loc)
    if ntask:
        for lab in ("tasks draw no random numbers", "tasks write no mapped argument"):
            if not any(o.label.startswith("P92:" + lab) and o.status == "violated" for o in run.obls):
                run.add("P92:" + lab, "proven")
    run.add("P08:no call fits or re-parameterises a user learner", "proven" if not any(
        o.label.startswith("P08:user") and o.status == "violated" for o in run.obls) else "violated")
    run.add("P09:no caller-owned object is written", "proven" if not any(
        o.label.startswith("P09:caller") and o.status == "violated" for o in run.obls) else "violated")
    run.add("P11:no private generator or reseed", "proven" if not any(
        o.label.startswith("P11:") and o.status == "violated" for o in run.obls) else "violated")
    run.add("P24:buffers do not inherit data types", "proven" if not any(
        o.label.startswith("P24:buffer") and o.status == "violated" for o in run.obls) else "violated")


def narrowing_ok(it, src, val):
    """is a buffer with the element type of `src` safe"""
    # element type taken from something computed in floating point is harmless
    return not datatyped(src) or intlike(val)


def intlike(v):
    """the value survives storage in an integer array"""
    if intconst(v) or (is_const(v) and isinstance(cval(v), float) and cval(v).is_integer()):
        return True
    if v.op in ("cmp", "log", "not", "isnan"):
        return True
    if v.op == "arr":
        return all(intlike(x) for x in v.args[1] if isinstance(x, T))
    if v.op == "fn" and v.args[0] in ("not", "isfinite", "isnan", "isclose"):
        return True
    return datatyped(v)


def datatyped(t):
    """the term has the storage type of a data column"""
    if t.op == "sym":
        return t.args[0].startswith("$") and not syminfo(t).get("real")
    if t.op in ("gather", "elem", "index", "arr", "part"):
        if t.op == "arr":
            return all(datatyped(x) or intlike_arr(x) for x in t.args[1] if isinstance(x, T)) and any(
                datatyped(x) for x in t.args[1] if isinstance(x, T))
        return datatyped(t.args[0])
    if t.op == "bin" and t.args[0] in ("+", "-", "*", "//", "%"):
        a, b = t.args[1], t.args[2]
        return all(datatyped(x) or intconst(x) for x in (a, b)) and any(datatyped(x) for x in (a, b))
    if t.op == "fn" and t.args[0] in ("neg", "abs", "square"):
        return datatyped(t.args[1])
    return False


def intlike_arr(x):
    return intconst(x) or x.op == "fill" and intconst(x.args[0])


def intconst(x):
    return is_const(x) and isinstance(cval(x), (int, bool))
