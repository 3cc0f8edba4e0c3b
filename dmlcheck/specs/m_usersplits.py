"""User-supplied sample splits: every way of breaking one repetition or fold of a split is rejected and changes nothing.

The frames have six or ten observations, hence every structure below is a concrete constant for the interpreter."""
from . import driver
from .common import fill

SRC = '''
import pandas as pd
N = {N}
def good(R, K):
    out = []
    for r in range(R):
        te = [[k] for k in range(K)]
        for i in range(K, N):
            te[(i + r) % K].append(i)
        out.append([([i for i in range(N) if i not in te[k]], te[k]) for k in range(K)])
    return out
def broken(f, how, K):
    """fold tuples f with fold 'how' rules broken"""
    name, k = how
    out = [(list(a), list(b)) for a, b in f]
    tr, te = out[k]
    if name == "training set contains a test observation":
        tr.append(te[0])
    elif name == "test observation missing":
        del te[-1]
    elif name == "test observation twice":
        te.append(te[0])
    elif name == "test observation replaced by another of the set":
        te[-1] = te[0] if len(te) > 1 else out[(k + 1) % K][1][0]
    elif name == "test observation of another fold":
        j = (k + 1) % K
        tr.remove(out[j][1][0])
        te.append(out[j][1][0])
    elif name == "training observation twice":
        tr.append(tr[0])
    elif name == "test index out of range":
        te[0] = N
    elif name == "negative test index":
        te[0] = te[0] - N
    elif name == "training index out of range":
        tr[0] = N
    elif name == "negative training index":
        tr[0] = -1
    elif name == "three elements":
        out[k] = (tr, te, te)
        return out
    elif name == "one element":
        out[k] = (tr,)
        return out
    return [(tr, te) if i == k else x for i, x in enumerate(out)]
HOWS = ["training set contains a test observation", "test observation missing", "test observation twice",
        "test observation replaced by another of the set", "test observation of another fold", "training observation twice",
        "test index out of range", "negative test index", "training index out of range", "negative training index",
        "three elements", "one element"]
def make():
    df = pd.DataFrame({"y": [1.0 + i for i in range(N)], "d": {d}, "x1": [0.5 - i for i in range(N)]})
    data = dml.DoubleMLData(df, "y", "d", ["x1"])
    l = LRN("ml_l", "{lk}"); m = LRN("ml_m", "{mk}")
    return {model}
def same(label, o, R, K, want):
    HOLDS("P12,P13:counts " + label, o.n_rep == R and o.n_folds == K and len(o.smpls) == R)
    for r in range(R):
        HOLDS("P12:folds of repetition " + label, len(o.smpls[r]) == K)
        for k in range(K):
            EQ("P12:training rows " + label, o.smpls[r][k][0], np.sort(want[r][k][0]))
            EQ("P12:test rows " + label, o.smpls[r][k][1], np.sort(want[r][k][1]))
def driver():
    o = make()
    {body}
'''
FORMS = '''full = [i for i in range(N)]
    lo = [i for i in range(N) if i < 3]; hi = [i for i in range(N) if i >= 3]
    g = good(3, 3)
    o.set_sample_splitting(g)
    same("nested list", o, 3, 3, g)
    g = good(1, 2)
    o.set_sample_splitting(g[0])
    same("list of tuples", o, 1, 2, g)
    g = good(2, 3)
    g[1] = [(np.array(a), np.array(b)) for a, b in g[1]]
    o.set_sample_splitting(g)
    same("arrays", o, 2, 3, g)
    g = [[([1, 2, 0], [N - 1 - i for i in range(N - 3)]), (hi[::-1], [2, 0, 1])]]
    o.set_sample_splitting(g)
    same("unsorted", o, 1, 2, g)
    g = [[([0], hi), ([4, 5], lo)]]
    o.set_sample_splitting(g)
    same("training set smaller than the complement", o, 1, 2, g)
    o.set_sample_splitting((full, full))
    same("no cross-fitting", o, 1, 1, [[(full, full)]])
    g = good(2, 2)
    o.set_sample_splitting(g)
    o.set_sample_splitting([(full, full)])
    same("no cross-fitting, list", o, 1, 1, [[(full, full)]])
    o.set_sample_splitting([[(full, full)], [(full, full)]])
    same("no cross-fitting, repeated", o, 2, 1, [[(full, full)], [(full, full)]])
    g = good(2, 2)
    o.set_sample_splitting(g)
    old = o.smpls
    tag = "P12,P15:"
    RAISES(tag + "tuple that is no split", lambda: o.set_sample_splitting((lo, hi)), "ValueError")
    RAISES(tag + "tuple, training set incomplete", lambda: o.set_sample_splitting((lo, full)), "ValueError")
    RAISES(tag + "tuple, test set incomplete", lambda: o.set_sample_splitting((full, lo)), "ValueError")
    RAISES(tag + "tuple, test set with repetitions", lambda: o.set_sample_splitting((full, hi + [3, 3, 3])), "ValueError")
    RAISES(tag + "tuple of three", lambda: o.set_sample_splitting((full, full, full)), "ValueError")
    RAISES(tag + "no list", lambda: o.set_sample_splitting("abc"), "TypeError")
    RAISES(tag + "number", lambda: o.set_sample_splitting(3), "TypeError")
    RAISES(tag + "mixed", lambda: o.set_sample_splitting([g[0], g[0][0]]), "ValueError")
    RAISES(tag + "nested too deep", lambda: o.set_sample_splitting([g, g]), "TypeError")
    RAISES(tag + "different numbers of folds", lambda: o.set_sample_splitting([good(1, 2)[0], good(1, 3)[0]]), "ValueError")
    RAISES(tag + "float training indices", lambda: o.set_sample_splitting([([0.0, 1.0, 2.0], hi), (hi, lo)]), "TypeError")
    RAISES(tag + "float test indices", lambda: o.set_sample_splitting([(lo, hi), (hi, [0.0, 1.0, 2.0])]), "TypeError")
    REJECTED(tag + "mixed", lambda: o.set_sample_splitting([g[0], g[0][0]]), "ValueError")
    RAISES(tag + "no cross-fitting in one repetition only", lambda: o.set_sample_splitting([[(full, full), (full, full)], g[0]]), "ValueError")
    RAISES(tag + "full training set", lambda: o.set_sample_splitting([[(full, lo)], [(full, hi)]]), "ValueError")
    RAISES(tag + "full test set", lambda: o.set_sample_splitting([[(lo, full)], [(hi, full)]]), "ValueError")
    RAISES(tag + "full test set once", lambda: o.set_sample_splitting([[(full, full)], [(hi, full)]]), "ValueError")
    same("after rejections", o, 2, 2, g)
'''
BREAK = '''g = good({R}, {K})
    o.set_sample_splitting(g)
    for r in range({R}):
        for k in range({K}):
            for how in HOWS:
                b = broken(g[r], (how, k), {K})
                al = [b if q == r else g[q] for q in range({R})]
                REJECTED("P12,P15:" + how, lambda: o.set_sample_splitting(al), "ValueError")
                {one}
    same("after rejections", o, {R}, {K}, g)
'''
ONE = '''RAISES("P12,P15:single, " + how, lambda: o.set_sample_splitting(b), "ValueError")'''
C = "[2.0 * i for i in range(N)]"
B = "[1.0 * (i % 2) for i in range(N)]"
MODELS = {
    "plr": (C, "regressor", "regressor", "dml.DoubleMLPLR(data, l, m, n_folds=3, n_rep=2)"),
    "irm": (B, "regressor", "classifier", "dml.DoubleMLIRM(data, l, m, n_folds=2, draw_sample_splitting=False)"),
    "apos": (B, "regressor", "classifier", "dml.DoubleMLAPOS(data, l, m, treatment_levels=[0, 1], n_folds=3, n_rep=2)"),
    "qte": (B, "classifier", "classifier", "dml.DoubleMLQTE(data, l, m, quantiles=[0.4, 0.6], n_folds=3, n_rep=2)"),
}


def usr(name, body, tier="quick"):
    for k, (d, lk, mk, model) in MODELS.items():
        driver(f"usersplits/{name} {k}", fill(SRC, N=10 if k == "apos" else 6, d=d, lk=lk, mk=mk, model=model, body=body),
               tier=tier if k in ("apos", "plr") else "thorough")


usr("forms", FORMS)
usr("broken", fill(BREAK, R=2, K=2, one=ONE))
usr("broken three folds", fill(BREAK, R=1, K=3, one="pass"))
usr("broken three repetitions", fill(BREAK, R=3, K=2, one="pass"), tier="thorough")

# clustered data: six observations, clusters of two; the cluster part of the split is broken in one place
CL = '''
import pandas as pd
def make():
    df = pd.DataFrame({"y": [1.0 + i for i in range(6)], "d": [2.0 * i for i in range(6)], "x1": [0.5 - i for i in range(6)],
                       "c1": {c1}, "c2": [0, 1, 2, 1, 2, 0]})
    data = dml.DoubleMLClusterData(df, "y", "d", {cc}, ["x1"])
    l = LRN("ml_l", "regressor"); m = LRN("ml_m", "regressor")
    return dml.DoubleMLPLR(data, l, m, n_folds=3, n_rep=2)
def driver():
    o = make()
    c1 = {c1}; c2 = [0, 1, 2, 1, 2, 0]
    lab = [sorted(set(c1)), sorted(set(c2))]
    V = {V}
    sm = []; sc = []
    for r in range(2):
        fs = []; cs = []
        for k in range(3 ** V):
            t1 = lab[0][(k + r) % 3]; t2 = lab[1][(k // 3 + r) % 3]
            te = [i for i in range(6) if c1[i] == t1 and (V == 1 or c2[i] == t2)]
            tr = [i for i in range(6) if c1[i] != t1 and (V == 1 or c2[i] != t2)]
            if V == 1 or len(te) > 0:
                fs.append((tr, te))
                cs.append(([np.array([v for v in lab[0] if v != t1]), np.array([v for v in lab[1] if v != t2])][:V],
                           [np.array([t1]), np.array([t2])][:V]))
        sm.append(fs); sc.append(cs)
    o.set_sample_splitting(sm, sc)
    HOLDS("P12,P06:counts", o.n_rep == 2 and o.n_folds == len(sm[0]))
    for r in range(2):
        for k in range(len(sm[0])):
            EQ("P12,P06:training rows", o.smpls[r][k][0], np.array(sm[r][k][0]))
            EQ("P12,P06:test rows", o.smpls[r][k][1], np.array(sm[r][k][1]))
            for v in range(V):
                EQ("P12,P06:training clusters", o.smpls_cluster[r][k][0][v], sc[r][k][0][v])
                EQ("P12,P06:test clusters", o.smpls_cluster[r][k][1][v], sc[r][k][1][v])
    RAISES("P12,P15,P06:cluster splits are required", lambda: o.set_sample_splitting(sm), "ValueError")
    RAISES("P12,P15,P06:repetition missing", lambda: o.set_sample_splitting(sm, sc[:1]), "ValueError")
    RAISES("P12,P15,P06:repetition too many", lambda: o.set_sample_splitting(sm, sc + sc), "ValueError")
    RAISES("P12,P15,P06:fold missing", lambda: o.set_sample_splitting(sm, [sc[0], sc[1][:-1]]), "ValueError")
    for r in range(2):
        for k in range(len(sm[0])):
            for v in range(V):
                for how in ["test cluster missing", "training cluster missing", "test cluster also in training", "training cluster twice", "unknown cluster"]:
                    tr = [x for x in sc[r][k][0]]; te = [x for x in sc[r][k][1]]
                    if how == "test cluster missing":
                        te[v] = te[v][:-1]
                    elif how == "training cluster missing":
                        tr[v] = tr[v][1:]
                    elif how == "test cluster also in training":
                        tr[v] = np.concatenate((tr[v], te[v]))
                    elif how == "training cluster twice":
                        tr[v] = np.concatenate((tr[v][:1], tr[v][:1]))
                    else:
                        te[v] = np.array([77])
                    bad = [[(tr, te) if (q == r and p == k) else sc[q][p] for p in range(len(sm[0]))] for q in range(2)]
                    REJECTED("P12,P15,P06:" + how, lambda: o.set_sample_splitting(sm, bad), "ValueError")
    HOLDS("P12,P06:counts after rejections", o.n_rep == 2 and o.n_folds == len(sm[0]))
    for r in range(2):
        for k in range(len(sm[0])):
            EQ("P12,P06:test rows after rejections", o.smpls[r][k][1], np.array(sm[r][k][1]))
            for v in range(V):
                EQ("P12,P06:test clusters after rejections", o.smpls_cluster[r][k][1][v], sc[r][k][1][v])
'''
driver("usersplits/cluster", fill(CL, c1="[0, 0, 1, 1, 2, 2]", cc='"c1"', V=1))
driver("usersplits/cluster two-way", fill(CL, c1="[0, 0, 1, 1, 2, 2]", cc='["c1", "c2"]', V=2))
