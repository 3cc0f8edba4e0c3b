"""Sanity checks of the algebra and of the interpreter on small texts (run once at set-up)."""
import sys

from .core import ONE, cval, is_const, sym, mk
from . import nf, simp
from .simp import bin_, cmp_, fn, gather, iset, red


def main():
    n = sym("n", shape=(), range=(1, None), integer=True, finite=True)
    d = sym("t_d", shape=(n,), binary=True, finite=True)
    y = sym("t_y", shape=(n,), finite=True)
    m = sym("t_m", shape=(n,), finite=True)
    S = iset(mk("full", n), cmp_("==", d, ONE))
    ok = []
    ok.append(nf.equal(red("mean", gather(y, S)), bin_("/", red("sum", bin_("*", y, d)), red("sum", d))))
    ok.append(nf.equal(bin_("*", d, d), d))
    ok.append(not nf.equal(bin_("*", y, y), y))
    ok.append(nf.equal(bin_("-", bin_("/", d, m), bin_("/", bin_("-", d, m), m)), ONE))
    ok.append(not nf.equal(bin_("/", d, m), bin_("/", y, m)))
    ok.append(nf.equal(fn("sqrt", bin_("/", fn("square", y), n)), bin_("/", fn("abs", y), fn("sqrt", n))))
    if not all(ok):
        print("self-test failed", ok)
        return 2
    from . import specs
    ds = specs.load()
    print(f"self-test ok; {len(ds)} drivers")
    return 0
