"""Clustered data: standard errors of sensitivity bounds use the folds and clusters of their own repetition and treatment."""
from . import driver
from .common import fill

VAR = '''
def cvar(o, psi, c1, c2, r):
    """cluster-robust variance of the mean of a scaled score"""
    sm = o.smpls[r]; sc = o.smpls_cluster[r]
    gam = 0.0; J = 0.0
    for k in range(len(sm)):
        te = sm[k][1]; I = sc[k][1][0]
        one = np.ones(n)
        if c2 is None:
            for c in I:
                gam = gam + np.sum(psi[c1 == c]) ** 2 / len(I)
            J = J + np.sum(one[te]) / len(I)
        else:
            L = sc[k][1][1]
            f = min(len(I), len(L)) / (len(I) * len(L)) ** 2
            for c in I:
                gam = gam + f * np.sum(psi[(c1 == c) & np.isin(c2, L)]) ** 2
            for c in L:
                gam = gam + f * np.sum(psi[(c2 == c) & np.isin(c1, I)]) ** 2
            J = J + np.sum(one[te]) / (len(I) * len(L))
    gam = gam / len(sm); J = J / len(sm)
    C = len(np.unique(c1)) if c2 is None else min(len(np.unique(c1)), len(np.unique(c2)))
    return gam / (J ** 2 * C)
'''
SRC = '''
def driver():
    df = DF("y:c d:c d2:c x1:c x2:c c1:u c2:u")
    data = dml.DoubleMLClusterData(df, "y", {d}, {cl}, ["x1", "x2"])
    o = dml.DoubleMLPLR(data, LRN("l", "regressor"), LRN("m", "regressor"), n_folds=2, n_rep={R})
    o.fit()
    c1 = df["c1"].values; c2 = {c2}
    f = o.framework
    for j in range({J}):
        for r in range({R}):
            ASSUME(o.sensitivity_elements["nu2"][0, r, j] > 0)
    for rho in [1.0, -0.4]:
        o.sensitivity_analysis(cf_y=0.25, cf_d=0.2, rho=rho, level=0.9)
        p = o.sensitivity_params
        cs = abs(rho) * np.sqrt(0.25 * 0.2 / (1 - 0.2))
        for j in range({J}):
            for side, sg in (("lower", -1), ("upper", 1)):
                ts = []; vs = []; lim = []
                for r in range({R}):
                    t = o.all_coef[j, r] + sg * cs * f.sensitivity_elements["max_bias"][0, j, r]
                    v = cvar(o, f.scaled_psi[:, j, r] + sg * cs * f.sensitivity_elements["psi_max_bias"][:, j, r], c1, c2, r)
                    ts.append(t); vs.append(v); lim.append(t + sg * norm.ppf(0.9) * np.sqrt(v))
                EQ("P18,P06,P07:theta " + side, p["theta"][side][j], np.median(np.array(ts)))
                md = np.median(np.array(ts))
                EQ("P18,P06,P07:standard error " + side, p["se"][side][j],
                   np.sqrt(np.median(np.array([vs[r] + (ts[r] - md) ** 2 / o._var_scaling_factors[j] for r in range({R})]))))
                EQ("P18,P06,P07:limit " + side, p["ci"][side][j], np.median(np.array(lim)))
'''
for nm, cl, c2, d, J, R in [("one-way", '"c1"', "None", '"d"', 1, 2), ("two-way", '["c1", "c2"]', 'df["c2"].values', '"d"', 1, 1),
                            ("two treatments", '"c1"', "None", '["d", "d2"]', 2, 1)]:
    driver("cluster/sensitivity " + nm, VAR + fill(SRC, cl=cl, c2=c2, d=d, J=J, R=R))
ALG = '''
def driver():
    df = DF("y:c y2:c d:c x1:c x2:c c1:u c2:u")
    o = dml.DoubleMLPLR(dml.DoubleMLClusterData(df, "y", "d", {cl}, ["x1", "x2"]), LRN("l", "regressor"), LRN("m", "regressor"), n_folds=2, n_rep=2)
    q = dml.DoubleMLPLR(dml.DoubleMLClusterData(df, "y2", "d", {cl}, ["x1", "x2"]), LRN("l", "regressor"), LRN("m", "regressor"), n_folds=2, n_rep=2,
                        draw_sample_splitting=False)
    q.set_sample_splitting(o.smpls, o.smpls_cluster)
    o.fit(); q.fit()
    c1 = df["c1"].values; c2 = {c2}
    for sg, h in ((1, o.framework + q.framework), (-1, o.framework - q.framework)):
        for r in range(2):
            EQ("P17,P06,P07:estimate", h.all_thetas[0, r], o.all_coef[0, r] + sg * q.all_coef[0, r])
            psi = o.framework.scaled_psi[:, 0, r] + sg * q.framework.scaled_psi[:, 0, r]
            EQ("P17,P06:score", h.scaled_psi[:, 0, r], psi)
            EQ("P17,P06,P07:cluster robust standard error", h.all_ses[0, r], np.sqrt(cvar(o, psi, c1, c2, r)))
'''
for nm, cl, c2 in [("one-way", '"c1"', "None"), ("two-way", '["c1", "c2"]', 'df["c2"].values')]:
    driver("cluster/algebra " + nm, VAR + fill(ALG, cl=cl, c2=c2))
