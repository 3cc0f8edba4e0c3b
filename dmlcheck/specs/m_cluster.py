"""Clustered data: cluster-level folds, moments and variances."""
from . import driver

SPLIT = '''
def cluster_splits(o, cs, R, V, K):
    EQ("P06,P12:number of folds", o.n_folds, K ** V)
    EQ("P06,P12:number of repetitions", len(o.smpls), R)
    for r in range(R):
        EQ("P06,P12:folds", len(o.smpls[r]), K ** V)
        EQ("P06,P12:cluster folds", len(o.smpls_cluster[r]), K ** V)
        PARTITION("P06,P12:test sets partition the observations", [te for _, te in o.smpls[r]])
        for i in range(K ** V):
            tr, te = o.smpls[r][i]
            ctr, cte = o.smpls_cluster[r][i]
            mtr = np.full(n, True); mte = np.full(n, True)
            for v in range(V):
                NOOVERLAP("P06,P12:no cluster in training and test set", ctr[v], cte[v])
                mtr = mtr & np.isin(cs[v], ctr[v])
                mte = mte & np.isin(cs[v], cte[v])
            EQ("P06,P12:training rows are those of the training clusters", tr, np.where(mtr)[0])
            EQ("P06,P12:test rows are those of the test clusters", te, np.where(mte)[0])
            NOOVERLAP("P06,P12,P01:training and test rows share no cluster", tr, te)
    for r in range(1, R):
        for i in range(K ** V):
            DISTINCT("P06,P12,P11:repetitions use fresh folds", o.smpls[0][i][1], o.smpls[r][i][1])
'''
INF = '''
def inference(o, c1, c2, r, j):
    sm = o.smpls[r]; sc = o.smpls_cluster[r]
    a = o.psi_elements["psi_a"][:, r, j]; b = o.psi_elements["psi_b"][:, r, j]
    num = 0.0; den = 0.0
    for k in range(len(sm)):
        te = sm[k][1]
        w = 1.0 / len(sc[k][1][0])
        if c2 is not None:
            w = w / len(sc[k][1][1])
        num = num + w * np.sum(b[te]); den = den + w * np.sum(a[te])
    EQ("P06,P05,P07:coefficient weighs folds by their clusters", o.all_coef[j, r], -num / den)
    psi = o.psi[:, r, j]
    EQ("P05,P06:psi", psi, a * o.all_coef[j, r] + b)
    gam = 0.0; J = 0.0
    for k in range(len(sm)):
        te = sm[k][1]; I = sc[k][1][0]
        if c2 is None:
            for c in I:
                gam = gam + np.sum(psi[c1 == c]) ** 2 / len(I)
            J = J + np.sum(a[te]) / len(I)
        else:
            L = sc[k][1][1]
            f = min(len(I), len(L)) / (len(I) * len(L)) ** 2
            for c in I:
                gam = gam + f * np.sum(psi[(c1 == c) & np.isin(c2, L)]) ** 2
            for c in L:
                gam = gam + f * np.sum(psi[(c2 == c) & np.isin(c1, I)]) ** 2
            J = J + np.sum(a[te]) / (len(I) * len(L))
    gam = gam / len(sm); J = J / len(sm)
    C = len(np.unique(c1)) if c2 is None else min(len(np.unique(c1)), len(np.unique(c2)))
    EQ("P06,P05,P07:cluster robust standard error", o.all_se[j, r], np.sqrt(gam / (J ** 2 * C)))
    EQ("P06,P16:variance scaling is the number of clusters", o._var_scaling_factors[j], C)
    return C
'''
MODEL = '''
def setup(two, K, R):
    df = DF("y:c d:c x1:c x2:c c1:u c2:u")
    data = dml.DoubleMLClusterData(df, "y", "d", ["c1", "c2"] if two else "c1", ["x1", "x2"])
    l = LRN("l", "reg"); m = LRN("m", "reg")
    return df, l, m, dml.DoubleMLPLR(data, l, m, n_folds=K, n_rep=R)
'''
for two in (0, 1):
    driver(f"cluster/split{two + 1}", SPLIT + MODEL + f'''
def driver():
    df, l, m, o = setup({two}, 2, 2)
    cluster_splits(o, [df["c1"].values, df["c2"].values], 2, {two + 1}, 2)
    df, l, m, o = setup({two}, 3, 1)
    cluster_splits(o, [df["c1"].values, df["c2"].values], 1, {two + 1}, 3)
''')
    driver(f"cluster/plr{two + 1}", MODEL + INF + f'''
def driver():
    df, l, m, o = setup({two}, 2, 2)
    c1 = df["c1"].values; c2 = df["c2"].values if {two} else None
    o.fit()
    y = df["y"].values; d = df["d"].values; X = XCOLS(df, "x1 x2")
    for r in range(2):
        PRED("P01,P02,P06:ml_l", o.predictions["ml_l"][:, r, 0], l, X, y, o.smpls[r])
        PRED("P01,P02,P06:ml_m", o.predictions["ml_m"][:, r, 0], m, X, d, o.smpls[r])
        v = d - o.predictions["ml_m"][:, r, 0]
        EQ("P04:psi_a", o.psi_elements["psi_a"][:, r, 0], -v * v)
        EQ("P04:psi_b", o.psi_elements["psi_b"][:, r, 0], v * (y - o.predictions["ml_l"][:, r, 0]))
    for r in range(2):
        C = inference(o, c1, c2, r, 0)
    EQ("P05,P06:coef is the median", o.coef[0], np.median(o.all_coef[0, :]))
    ASSUME(not np.isnan(o.coef).all())
    up = o.all_coef[0, :] + norm.ppf(0.975) * o.all_se[0, :]
    se = np.sqrt(np.median(o.all_se[0, :] ** 2 + (o.all_coef[0, :] - o.coef[0]) ** 2))
''')
driver("cluster/user_splits", MODEL + INF + '''
def driver():
    for two in [False, True]:
        K = 2 if two else 3
        df, l, m, o = setup(two, 5 - K, 1)
        df, l, m, src = setup(two, K, 2)
        c1 = df["c1"].values; c2 = df["c2"].values if two else None
        o.fit()
        o.set_sample_splitting(src.smpls, src.smpls_cluster)
        EQ("P12:n_rep", o.n_rep, 2)
        EQ("P12:n_folds", o.n_folds, 4 if two else 3)
        for r in range(2):
            for k in range(4 if two else 3):
                EQ("P12,P06:training rows used", o.smpls[r][k][0], src.smpls[r][k][0])
                EQ("P12,P06:test rows used", o.smpls[r][k][1], src.smpls[r][k][1])
        o.fit()
        for r in range(2):
            inference(o, c1, c2, r, 0)
''')
driver("cluster/user_splits_bad", MODEL + '''
def driver():
    for two in [False, True]:
        df, l, m, o = setup(two, 3, 2)
        sm = o.smpls; sc = o.smpls_cluster
        RAISES("P12,P15,P06:cluster splits are required", lambda: o.set_sample_splitting(sm), "ValueError")
        RAISES("P12,P15,P06:one entry per repetition", lambda: o.set_sample_splitting(sm, [sc[0]]), "ValueError")
        RAISES("P12,P15,P06:one entry per fold", lambda: o.set_sample_splitting(sm, [sc[0], sc[1][1:]]), "ValueError")
        for r in range(2):
            for k in range(3):
                bad = [[f for f in x] for x in sc]
                bad[r][k] = (sc[r][k][0], sc[r][(k + 3 if two else k + 1) % (9 if two else 3)][1])
                RAISES("P12,P06:training and test clusters of a fold must form a partition", lambda: o.set_sample_splitting(sm, bad), "ValueError")
''')
driver("cluster/framework", MODEL + INF + '''
def driver():
    for two in [False, True]:
        df, l, m, o = setup(two, 2, 2)
        c1 = df["c1"].values; c2 = df["c2"].values if two else None
        o.fit()
        f = o.framework
        RAISES("P16,P06:no bootstrap with clusters", lambda: o.bootstrap(), "NotImplementedError")
        RAISES("P16,P06:no bootstrap with clusters", lambda: f.bootstrap(), "NotImplementedError")
        RAISES("P17,P06:no concatenation with clusters", lambda: dml.concat([f, f]), "NotImplementedError")
        ASSUME(not np.isnan(o.coef).all())
        ci = o.confint(level=0.9)
        up = o.all_coef[0, :] + norm.ppf(0.95) * o.all_se[0, :]
        lo = o.all_coef[0, :] - norm.ppf(0.95) * o.all_se[0, :]
        EQ("P05,P06:interval", ci.iloc[0, 0], np.median(lo))
        EQ("P05,P06:interval", ci.iloc[0, 1], np.median(up))
        g = 2 * f
        EQ("P17,P06:se of a multiple", g.all_ses[0, 0], 2 * o.all_se[0, 0])
''')
driver("cluster/framework_sum", MODEL + INF + '''
def sse(o, psi, c1, c2, r):
    sm = o.smpls[r]; sc = o.smpls_cluster[r]
    gam = 0.0; J = 0.0
    for k in range(len(sm)):
        I = sc[k][1][0]
        if c2 is None:
            for c in I:
                gam = gam + np.sum(psi[c1 == c]) ** 2 / len(I)
            J = J + len(sm[k][1]) / len(I)
        else:
            L = sc[k][1][1]
            f = min(len(I), len(L)) / (len(I) * len(L)) ** 2
            for c in I:
                gam = gam + f * np.sum(psi[(c1 == c) & np.isin(c2, L)]) ** 2
            for c in L:
                gam = gam + f * np.sum(psi[(c2 == c) & np.isin(c1, I)]) ** 2
            J = J + len(sm[k][1]) / (len(I) * len(L))
    gam = gam / len(sm); J = J / len(sm)
    C = len(np.unique(c1)) if c2 is None else min(len(np.unique(c1)), len(np.unique(c2)))
    return np.sqrt(gam / (J ** 2 * C))
def driver():
    for two in [False, True]:
        df, l, m, o = setup(two, 2, 1)
        c1 = df["c1"].values; c2 = df["c2"].values if two else None
        o.fit()
        f = o.framework
        g = f + f
        h = f - f
        EQ("P17,P06:coefficient of a sum", g.all_thetas[0, 0], 2 * o.all_coef[0, 0])
        psi = o.psi[:, 0, 0] / np.mean(o._psi_deriv[:, 0, 0])
        EQ("P17,P06:standard error of a sum of clustered estimates", g.all_ses[0, 0], sse(o, 2 * psi, c1, c2, 0))
''')
